from .. import procmem


def replayers():
    return {'ProcMem': procmem.replay}


def run(ck):
    recs = ck.tlc('ProcMemGen', 'ProcMem_derive')
    ck.replay('ProcMem', recs, procmem.replay, minimum=20000,
              cap=30000 if ck.quick else None)
    recs = ck.tlc('ProcMemGen', 'ProcMem_write' if ck.quick else 'ProcMem_write3')
    ck.replay('ProcMem', recs, procmem.replay, minimum=2000, cap=100000)
    recs = ck.tlc('ProcMemGen', 'ProcMem_sim', depth=7,
                  simulate=6 if ck.quick else 300)
    ck.replay('ProcMem', recs, procmem.replay, minimum=500,
              cap=3000 if ck.quick else 40000)
    # many times, paths and values
    recs = ck.tlc('ProcMemGen', 'ProcMem_big', workers=1)
    ck.replay('ProcMem', recs, procmem.replay, minimum=150)
