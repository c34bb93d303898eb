from .. import procarith


def replayers():
    return {'ProcArith': procarith.replay,
            'ProcCreate': procarith.replay_create}


def run(ck):
    recs = ck.tlc('ProcCreateGen', 'ProcCreate')
    ck.replay('ProcCreate', recs, procarith.replay_create, minimum=2000)
    recs = ck.tlc('ProcArithGen', 'ProcArith_times')
    ck.replay('ProcArith', recs, procarith.replay, minimum=1500)
    for cfg in (('pairs_quick', 'triples', 'chains') if ck.quick else
                ('pairs_thorough', 'triples', 'chains')):
        recs = ck.tlc('ProcArithGen', 'ProcArith_' + cfg)
        ck.replay('ProcArith', recs, procarith.replay, minimum=2000)
    recs = ck.tlc('ProcArithGen', 'ProcArith_sim', depth=5,
                  simulate=2 if ck.quick else 300)
    ck.replay('ProcArith', recs, procarith.replay, minimum=500,
              cap=3000 if ck.quick else 40000)
