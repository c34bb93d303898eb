from .. import params


def replayers():
    return {'Params.resolve': params.replay, 'Params.history': params.replay,
            'Params.classes': params.replay}


def run(ck):
    recs = ck.tlc('ParamsGen', 'Params_resolve_' + ck.tier)
    ck.replay('Params.resolve', recs, params.replay, minimum=3000)
    recs = ck.tlc('ParamsGen', 'Params_history_' + ck.tier)
    ck.replay('Params.history', recs, params.replay, minimum=500)
    for cfg in ('classes_quick',) if ck.quick else (
            'classes_thorough', 'classes2_thorough'):
        recs = ck.tlc('ParamsGen', 'Params_' + cfg)
        ck.replay('Params.classes', recs, params.replay, minimum=2000,
                  cap=4000 if ck.quick else 60000)
