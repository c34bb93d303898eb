"""Run a check with TLC's exports cached (development only: mutation runs)."""
import hashlib
import os
import pickle
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import core, __main__  # noqa

CACHE = os.environ.get('TLC_CACHE', '/tmp/tlccache')
os.makedirs(CACHE, exist_ok=True)
real = core.Check.tlc


def tlc(self, module, cfg, **k):
    if k.get('env'):
        return real(self, module, cfg, **k)
    h = hashlib.sha1(repr((module, cfg, sorted(k.items()))).encode())
    for f in sorted(os.listdir(core.SPECS)):
        if f.endswith(('.tla', '.cfg')):
            h.update(open(os.path.join(core.SPECS, f), 'rb').read())
    path = os.path.join(CACHE, h.hexdigest())
    if os.path.exists(path):
        return pickle.load(open(path, 'rb'))
    r = real(self, module, cfg, **k)
    pickle.dump(r, open(path + '.%d' % os.getpid(), 'wb'))
    os.replace(path + '.%d' % os.getpid(), path)
    return r


core.Check.tlc = tlc
if __name__ == '__main__':
    sys.exit(__main__.main(sys.argv[1:]))
