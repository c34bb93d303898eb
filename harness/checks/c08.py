from .. import euler, pathgen, presets


def replayers():
    return {'Presets.info': presets.replay_info, 'PathGen.info': pathgen.replay_info,
            'EulerDiag': euler.replay_diag}


def run(ck):
    recs = ck.tlc('PresetsGen', 'Presets_' + ck.tier)
    ck.replay('Presets.info', recs, presets.replay_info, minimum=3000)
    recs = ck.tlc('PathGenGen', 'PathGen_adapt_' + ck.tier)
    recs = [r for r in recs if r['phase'] == 'done']
    ck.replay('PathGen.info', recs, pathgen.replay_info, minimum=300)
    for cfg, n in (('single', 500), ('system', 500), ('runs', 100)):
        recs = ck.tlc('EulerDiag', 'EulerDiag_' + cfg)
        ck.replay('EulerDiag', recs, euler.replay_diag, minimum=n)
    # long timelines, many steps, many paths and values
    recs = [r for c in ('long', 'big')
            for r in ck.tlc('PresetsGen', 'Presets_' + c, workers=1)]
    ck.replay('Presets.info', recs, presets.replay_info, minimum=50)
    recs = ck.tlc('PathGenLong', 'PathGenLong_adapt', workers=1)
    ck.replay('PathGen.info', recs, pathgen.replay_info, minimum=12)
