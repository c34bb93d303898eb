from .. import defaults


def replayers():
    return {'Defaults': defaults.replay}


def run(ck):
    recs = ck.tlc('DefaultsGen', 'Defaults_' + ck.tier)
    ck.replay('Defaults', recs, defaults.replay, minimum=4000)
