from .. import increments as m


def replayers():
    return {'Wiener': m.replay_wiener, 'Poisson': m.replay_poisson,
            'Wiener, many paths and times': m.replay_wiener_big,
            'Poisson, many paths and times': m.replay_poisson_big}


def run(ck):
    recs = []
    for cfg in ('plain1', 'plain2'):
        recs += ck.tlc('IncrementsGen', 'Increments_' + cfg)
    ck.replay('Wiener', recs, m.replay_wiener, minimum=4000,
              cap=1800 if ck.quick else None)
    ck.replay('Poisson', recs, m.replay_poisson, minimum=4000)
    ck.replay('Wiener, many paths and times', recs, m.replay_wiener_big,
              minimum=300, cap=500 if ck.quick else 4000)
    ck.replay('Poisson, many paths and times', recs, m.replay_poisson_big,
              minimum=300, cap=500 if ck.quick else 4000)
    traces = ck.record('CPoisson', m.cpoisson_items(recs, 1000 if ck.quick else 10**6),
                       m.record_cpoisson)
    ck.validate('CPoisson', 'CPoissonTrace', 'CPoissonTrace', traces)
    traces = ck.record('CPoisson, many jumps',
                       m.cpoisson_items(recs, 250 if ck.quick else 2500),
                       m.record_cpoisson_many)
    ck.validate('CPoisson, many jumps', 'CPoissonTrace', 'CPoissonTrace', traces)
