"""C02: adaptive sub-steps are honoured within the working window."""
from .. import pathgen


def replayers():
    return {'PathGen.adapt': pathgen.replay}


def run(ck):
    recs = ck.tlc('PathGenGen', 'PathGen_adapt_' + ck.tier)
    ck.replay('PathGen.adapt', recs, pathgen.replay, minimum=900)
    # long timelines, with many steps
    recs = ck.tlc('PathGenLong', 'PathGenLong_adapt', workers=1)
    ck.replay('PathGen.adapt', recs, pathgen.replay, minimum=12)
