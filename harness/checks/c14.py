from .. import increments as m


def replayers():
    return {'Wiener': m.replay_wiener, 'Poisson': m.replay_poisson,
            'Wiener, many paths and times': m.replay_wiener_big,
            'Poisson, many paths and times': m.replay_poisson_big,
            'CPoisson rejected': m.replay_cpoisson_rejected}


def run(ck):
    recs = []
    for cfg in ('anti', 'anti2'):
        recs += ck.tlc('IncrementsGen', 'Increments_' + cfg)
    odd = [r for r in recs if r['kind'] == 'odd']
    even = [r for r in recs if r['kind'] == 'even']
    ck.replay('Wiener', odd, m.replay_wiener, minimum=4000,
              cap=1500 if ck.quick else None)
    ck.replay('Poisson', even, m.replay_poisson, minimum=4000,
              cap=2500 if ck.quick else None)
    bad = [r for r in recs if not r['built']]
    ck.replay('Wiener', bad, m.replay_wiener, minimum=20)
    ck.replay('Poisson', bad, m.replay_poisson, minimum=20)
    ck.replay('CPoisson rejected', bad, m.replay_cpoisson_rejected, minimum=20)
    ck.replay('Wiener, many paths and times', odd, m.replay_wiener_big,
              minimum=300, cap=500 if ck.quick else 4000)
    ck.replay('Poisson, many paths and times', even, m.replay_poisson_big,
              minimum=300, cap=500 if ck.quick else 4000)
    traces = ck.record('CPoisson', m.cpoisson_items(even, 600 if ck.quick else 10**6),
                       m.record_cpoisson)
    ck.validate('CPoisson', 'CPoissonTrace', 'CPoissonTrace', traces)
    traces = ck.record('CPoisson, many jumps',
                       m.cpoisson_items(even, 250 if ck.quick else 2500),
                       m.record_cpoisson_many)
    ck.validate('CPoisson, many jumps', 'CPoissonTrace', 'CPoissonTrace', traces)
