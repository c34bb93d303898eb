from .. import truesource


def replayers():
    return {'TrueSource': truesource.replay}


def run(ck):
    recs = ck.tlc('TrueSourceGen', 'TrueSource_quick')
    if ck.quick:
        recs = recs[::6]
        ck.exhaustive = False
    ck.replay('TrueSource', recs, truesource.replay, minimum=3000)
    if not ck.quick:
        ck.exhaustive = False
        for cfg in ('thorough', 'views'):
            recs = ck.tlc('TrueSourceGen', 'TrueSource_' + cfg)[::2]
            ck.replay('TrueSource', recs, truesource.replay, minimum=3000)
    recs = ck.tlc('TrueSourceGen', 'TrueSource_sim', simulate=400 if ck.quick else 20000, depth=10)
    ck.replay('TrueSource', recs, truesource.replay, minimum=500)
    # hundreds of known times
    recs = ck.tlc('TrueSourceLong', 'TrueSource_long', depth=9,
                  simulate=3 if ck.quick else 60)
    ck.replay('TrueSource', recs, truesource.replay, minimum=20)
