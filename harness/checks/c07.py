"""C07: built-in processes integrate the equations they document."""
from .. import presets, defaultnoise


def replayers():
    return {'Presets': presets.replay, 'DefaultNoise': defaultnoise.replay}


def run(ck):
    recs = ck.tlc('PresetsGen', 'Presets_' + ck.tier)
    ck.replay('Presets', recs, presets.replay, minimum=3000)
    # the noise they are given by default
    recs = ck.tlc('DefaultNoiseGen', 'DefaultNoise_Gauss')
    ck.replay('DefaultNoise', recs, defaultnoise.replay, minimum=250)
    recs = ck.tlc('DefaultNoiseGen', 'DefaultNoise_Jumps')
    ck.replay('DefaultNoise', recs, defaultnoise.replay, minimum=1200)
    # long timelines, many steps, many paths and values
    recs = [r for c in ('long', 'big')
            for r in ck.tlc('PresetsGen', 'Presets_' + c, workers=1)]
    ck.replay('Presets', recs, presets.replay, minimum=50)
