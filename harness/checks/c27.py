from .. import analytic


def replayers():
    return {'Analytic': analytic.replay,
            'AnalyticDefaults': analytic.replay_defaults}


def run(ck):
    recs = ck.tlc('AnalyticDefaultsGen', 'AnalyticDefaults_all')
    ck.replay('AnalyticDefaults', recs, analytic.replay_defaults, minimum=500,
              limit=60.)
    for cfg in ('two',) if ck.quick else ('two', 'three'):
        recs = ck.tlc('AnalyticGen', 'Analytic_' + cfg)
        ck.replay('Analytic', analytic.expand(recs, 3 if ck.quick else 20),
                  analytic.replay, minimum=900, limit=60.)
