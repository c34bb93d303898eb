from .. import decorate


def replayers():
    return {'Decorate': decorate.replay}


def run(ck):
    recs = ck.tlc('DecorateGen', 'Decorate_' + ck.tier)
    ck.replay('Decorate', recs, decorate.replay, minimum=3000,
              cap=30000 if ck.tier == 'quick' else 400000)
