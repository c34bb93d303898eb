from .. import rngledger as m


def replayers():
    return {'RngLedger': m.replay}


def run(ck):
    recs = ck.tlc('RngLedgerGen', 'RngLedger_' + ck.tier)
    ck.replay('RngLedger', recs, m.replay, minimum=5000, cap=2000 if ck.quick else None)
    recs = ck.tlc('RngLedgerGen', 'RngLedger_sim', simulate=30 if ck.quick else 500, depth=14)
    ck.replay('RngLedger', recs, m.replay, minimum=100, cap=300 if ck.quick else 6000)
