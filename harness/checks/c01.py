"""C01: path generation visits every required time exactly once, in order."""
from .. import pathgen


def replayers():
    return {'PathGen.visit': pathgen.replay, 'PathGenRuns': pathgen.replay_runs}


def run(ck):
    recs = ck.tlc('PathGenGen', 'PathGen_visit_' + ck.tier)
    ck.replay('PathGen.visit', recs, pathgen.replay, minimum=900)
    recs = ck.tlc('PathGenRunsGen', 'PathGenRuns_' + ck.tier)
    ck.replay('PathGenRuns', recs, pathgen.replay_runs, minimum=5000,
              cap=None if not ck.quick else 6000)
    recs = ck.tlc('PathGenRunsGen', 'PathGenRuns_sim', depth=150,
                  simulate=100 if ck.quick else 2000)
    ck.replay('PathGenRuns', recs, pathgen.replay_runs, minimum=200)
    # long timelines, with many steps
    recs = ck.tlc('PathGenLong', 'PathGenLong_visit', workers=1)
    ck.replay('PathGen.visit', recs, pathgen.replay, minimum=12)
