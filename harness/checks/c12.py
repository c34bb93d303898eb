from .. import truecpoisson as m


def replayers():
    return {}


def run(ck):
    ck.tlc('TrueCPoissonMC', 'TrueCPoisson_mc')
    if not ck.quick:
        ck.tlc('TrueCPoissonMC', 'TrueCPoisson_mc2')
    recs = []
    for cfg in ('quick', 'origin'):
        r = ck.tlc('TruePoissonGen', 'TruePoisson_' + cfg)
        recs += r[::20 if ck.quick else 3]
    r = ck.tlc('TruePoissonGen', 'TruePoisson_sim', depth=9,
               simulate=20 if ck.quick else 100)
    recs += r[::max(1, len(r)//(500 if ck.quick else 5000))]
    traces = ck.record('counts given', recs, m.from_spec)
    traces += ck.record('counts drawn', 1000 if ck.quick else 10000, m.from_rng)
    ck.validate('TrueCPoisson', 'TrueCPoissonTrace', 'TrueCPoissonTrace', traces)
    # long histories, with many jumps
    traces = ck.record('long histories', 60 if ck.quick else 1500, m.from_long)
    ck.validate('TrueCPoisson', 'TrueCPoissonBags', 'TrueCPoissonBags', traces)
