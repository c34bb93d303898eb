from .. import kfunc


def replayers():
    return {'Kfunc': kfunc.replay, 'KfuncModes': kfunc.replay_mode}


def run(ck):
    ck.replay('KfuncModes', ck.tlc('KfuncModes', 'KfuncModes'),
              kfunc.replay_mode, minimum=3)
    recs = ck.tlc('KfuncGen', 'Kfunc_small')
    ck.replay('Kfunc', kfunc.expand(recs, 2, 2), kfunc.replay, minimum=4000)
    recs = ck.tlc('KfuncGen', 'Kfunc_sim', simulate=60 if ck.quick else 600,
                  depth=8)
    ck.replay('Kfunc', kfunc.expand(recs, 2, 2), kfunc.replay, minimum=200,
              cap=8000 if ck.quick else 60000)
    if not ck.quick:
        recs = ck.tlc('KfuncGen', 'Kfunc_three')
        ck.replay('Kfunc', kfunc.expand(recs, 1, 1), kfunc.replay,
                  minimum=20000)
