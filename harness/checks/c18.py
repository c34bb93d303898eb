from .. import montecarlo


def replayers():
    return {'Montecarlo': montecarlo.replay}


def run(ck):
    recs = ck.tlc('MontecarloGen', 'Montecarlo_views')
    ck.replay('Montecarlo', recs, montecarlo.replay, minimum=2500,
              cap=4000 if ck.quick else None)
    if not ck.quick:
        recs = ck.tlc('MontecarloGen', 'Montecarlo_views4')
        ck.replay('Montecarlo', recs, montecarlo.replay, minimum=3000,
                  cap=30000)
    recs = ck.tlc('MontecarloGen', 'Montecarlo_sim', depth=7,
                  simulate=60 if ck.quick else 800)
    ck.replay('Montecarlo', recs, montecarlo.replay, minimum=300,
              cap=2000 if ck.quick else 20000)
