from .. import montecarlo


def replayers():
    return {'Montecarlo': montecarlo.replay}


def run(ck):
    recs = ck.tlc('MontecarloGen', 'Montecarlo_hist')
    ck.replay('Montecarlo', recs, montecarlo.replay, minimum=5000,
              cap=6000 if ck.quick else None)
    if not ck.quick:
        recs = ck.tlc('MontecarloGen', 'Montecarlo_hist3')
        ck.replay('Montecarlo', recs, montecarlo.replay, minimum=5000,
                  cap=40000)
