from .. import truewiener


def replayers():
    return {'TrueWiener': truewiener.replay,
            'TrueWienerMat': truewiener.replay_mat}


def run(ck):
    for cfg, n in (('quick', 1400), ('origin', 300)) + (
            () if ck.quick else (('thorough', 7000),)):
        recs = ck.tlc('TrueWienerGen', 'TrueWiener_' + cfg)
        ck.replay('TrueWiener', recs, truewiener.replay, minimum=n)
    for cfg, n in (('quick', 250),) + (() if ck.quick else (('thorough', 400),)):
        recs = ck.tlc('TrueWienerMatGen', 'TrueWienerMat_' + cfg)
        ck.replay('TrueWienerMat', recs, truewiener.replay_mat, minimum=n)
    if not ck.quick:
        recs = ck.tlc('TrueWienerGen', 'TrueWiener_long', simulate=3000, depth=9)
        ck.replay('TrueWiener', recs, truewiener.replay, minimum=1000)
    recs = ck.tlc('TrueWienerLong', 'TrueWienerLong', depth=41,
                  simulate=2 if ck.quick else 20)
    ck.replay('TrueWiener', recs, truewiener.replay, minimum=8, limit=300)
