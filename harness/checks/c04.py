from .. import euler


def replayers():
    return {'EulerSDE.system': euler.replay, 'EulerSDE.fault': euler.replay,
            'EulerSDE.infinite': euler.replay,
            'EulerSDE.size': euler.replay}


def run(ck):
    recs = ck.tlc('EulerSDEGen', 'EulerSDE_system_' + ck.tier)
    ck.replay('EulerSDE.system', recs, euler.replay, minimum=800)
    recs = ck.tlc('EulerSDEGen', 'EulerSDE_fault')
    ck.replay('EulerSDE.fault', recs, euler.replay, minimum=100)
    recs = ck.tlc('EulerSDEGen', 'EulerSDE_infinite')
    ck.replay('EulerSDE.infinite', recs, euler.replay, minimum=300)
    # long timelines, many steps, many paths and values
    recs = [r for c in ('long_system', 'big')
            for r in ck.tlc('EulerSDEGen', 'EulerSDE_' + c, workers=1)
            if not r['cfg']['log'] and r['cfg']['layout']['q']]
    ck.replay('EulerSDE.size', recs, euler.replay, minimum=10)
