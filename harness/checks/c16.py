from .. import montecarlo


def replayers():
    return {'Montecarlo': montecarlo.replay}


def run(ck):
    for cfg in ('stats',) if ck.quick else ('stats', 'stats3'):
        recs = ck.tlc('MontecarloGen', 'Montecarlo_' + cfg)
        ck.replay('Montecarlo', recs, montecarlo.replay, minimum=5000,
                  cap=None if ck.quick else 120000)
    recs = ck.tlc('MontecarloGen', 'Montecarlo_sim', depth=7,
                  simulate=60 if ck.quick else 800)
    ck.replay('Montecarlo', recs, montecarlo.replay, minimum=300,
              cap=2500 if ck.quick else 20000)
