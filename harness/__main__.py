import importlib
import json
import os
import sys
import traceback

from . import core


def main(argv):
    pid, tier = argv[0], argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    mod = importlib.import_module('harness.checks.' + pid.lower())
    if tier == 'replay':
        # re-execute a recorded failing case against the current tree
        with open(argv[2]) as f:
            r = json.load(f)
        core.import_sdepy()
        fns = mod.replayers()
        if r['kind'] in fns:
            why = core.guarded(fns[r['kind']], r['record'], 60.)
            print('reproduced: ' + why if why else 'not reproduced')
            return 1 if why else 0
        tier, seed = r['tier'], r['seed']
        print('re-running the recording driver, tier', tier)
        os.environ['VERIF_SEED'] = str(seed)
    ck = core.Check(pid, tier, seed)
    try:
        try:
            core.import_sdepy()
        except core.Machinery:
            raise
        except Exception as e:
            ck.fail('import', {}, 'sdepy cannot be imported: {!r}'.format(e))
            return ck.finish()
        mod.run(ck)
    except core.Machinery as e:
        print('MACHINERY ERROR', e)
        # (what had been found before is not lost)
        return ck.finish() if ck.failures else 2
    except Exception:
        traceback.print_exc()
        print('MACHINERY ERROR')
        return 2
    return ck.finish()


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
