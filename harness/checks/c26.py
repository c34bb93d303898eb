from .. import jumpdist as m


def replayers():
    return {'JumpDist': m.replay, 'JumpDistHist': m.replay_hist}


def run(ck):
    recs = ck.tlc('JumpDistGen', 'JumpDist_params')
    ck.replay('JumpDist', recs, m.replay, minimum=1000)
    recs = ck.tlc('JumpDistGen', 'JumpDist_maps')
    ck.replay('JumpDist', recs, m.replay, minimum=1000, cap=1500 if ck.quick else None)
    recs = ck.tlc('JumpDistHist', 'JumpDistHist_' + ck.tier)
    ck.replay('JumpDistHist', recs, m.replay_hist, minimum=1000)
