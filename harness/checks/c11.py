from .. import truepoisson


def replayers():
    return {'TruePoisson': truepoisson.replay}


def run(ck):
    for cfg in ('quick', 'origin') if ck.quick else ('quick', 'origin', 'thorough'):
        recs = ck.tlc('TruePoissonGen', 'TruePoisson_' + cfg)
        ck.replay('TruePoisson', recs, truepoisson.replay, minimum=5000,
                  cap=8000 if ck.quick else 60000)
    recs = ck.tlc('TruePoissonGen', 'TruePoisson_sim', depth=9,
                  simulate=40 if ck.quick else 800)
    ck.replay('TruePoisson', recs, truepoisson.replay, minimum=500,
              cap=4000 if ck.quick else 60000)
    # long histories, with many events
    recs = ck.tlc('TruePoissonLong', 'TruePoissonLong', depth=161,
                  simulate=3 if ck.quick else 100)
    ck.replay('TruePoisson', recs, truepoisson.replay, minimum=12)
