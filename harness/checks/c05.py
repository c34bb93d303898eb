from .. import euler, presets


def replayers():
    return {'EulerSDE.log': euler.replay, 'EulerSDE.runs': euler.replay,
            'EulerSDE.size': euler.replay,
            'Presets.log': presets.replay}


def run(ck):
    recs = ck.tlc('EulerSDEGen', 'EulerSDE_log_' + ck.tier)
    ck.replay('EulerSDE.log', recs, euler.replay, minimum=800)
    recs = ck.tlc('EulerSDEGen', 'EulerSDE_runs_' + ck.tier)
    recs = [r for r in recs if r['cfg']['log']]
    ck.replay('EulerSDE.runs', recs, euler.replay, minimum=250)
    recs = ck.tlc('PresetsGen', 'Presets_' + ck.tier)
    recs = [r for r in recs if r['cfg']['name'] in presets.LOGS]
    ck.replay('Presets.log', recs, presets.replay, minimum=1500)
    # long timelines, many steps, many paths and values
    recs = [r for c in ('long_log', 'big')
            for r in ck.tlc('EulerSDEGen', 'EulerSDE_' + c, workers=1)
            if r['cfg']['log']]
    ck.replay('EulerSDE.size', recs, euler.replay, minimum=10)
    # long timelines, many steps, many paths and values
    recs = [r for c in ('long', 'big')
            for r in ck.tlc('PresetsGen', 'Presets_' + c, workers=1)
            if r['cfg']['name'] in presets.LOGS]
    ck.replay('Presets.log', recs, presets.replay, minimum=50)
