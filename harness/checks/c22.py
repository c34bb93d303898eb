from .. import proccalc


def replayers():
    return {'ProcCalc': proccalc.replay}


def run(ck):
    for cfg in ('one', 'two') if ck.quick else ('one', 'two', 'three'):
        recs = ck.tlc('ProcCalcGen', 'ProcCalc_' + cfg)
        ck.replay('ProcCalc', recs, proccalc.replay, minimum=5000)
