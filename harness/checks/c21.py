from .. import procinterp


def replayers():
    return {'ProcInterp': procinterp.replay}


def run(ck):
    for cfg in ('query', 'piecewise', 'splines', 'chain', 'writes', 'writes2'):
        recs = ck.tlc('ProcInterpGen', 'ProcInterp_' + cfg)
        ck.replay('ProcInterp', recs, procinterp.replay, minimum=2000,
                  cap=12000 if ck.quick else None)
    if not ck.quick:
        recs = ck.tlc('ProcInterpGen', 'ProcInterp_sim', depth=5,
                      simulate=60)
        ck.replay('ProcInterp', recs, procinterp.replay, minimum=500,
                  cap=40000)
