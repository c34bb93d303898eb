from .. import euler


def replayers():
    return {'EulerSDE.single': euler.replay, 'EulerSDE.runs': euler.replay,
            'EulerSDE.size': euler.replay}


def run(ck):
    recs = ck.tlc('EulerSDEGen', 'EulerSDE_single_' + ck.tier)
    ck.replay('EulerSDE.single', recs, euler.replay, minimum=800)
    recs = ck.tlc('EulerSDEGen', 'EulerSDE_runs_' + ck.tier)
    recs = [r for r in recs if not r['cfg']['log']]
    ck.replay('EulerSDE.runs', recs, euler.replay, minimum=250)
    # long timelines, many steps, many paths and values
    recs = [r for c in ('long_single', 'big')
            for r in ck.tlc('EulerSDEGen', 'EulerSDE_' + c, workers=1)
            if not r['cfg']['log'] and not r['cfg']['layout']['q']]
    ck.replay('EulerSDE.size', recs, euler.replay, minimum=10)
