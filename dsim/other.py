"""
Another process, in which checkpoints are restored (nothing but the checkpoint survives). Serves requests on stdin/stdout until stdin ends; everything that it does
is decided by the requests.
"""
import os
import pickle
import struct
import sys
import traceback


def read(f):
    n = f.read(8)
    if len(n) < 8:
        return None
    n, = struct.unpack('>q', n)
    return pickle.loads(f.read(n))


def write(f, obj):
    b = pickle.dumps(obj)
    f.write(struct.pack('>q', len(b)) + b)
    f.flush()


class Other:
    """ client side """
    def __init__(self):
        import subprocess
        env = dict(os.environ, PYTHONHASHSEED='77')
        self.p = subprocess.Popen([sys.executable, '-m', 'dsim.other'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), env=env)

    def call(self, *req):
        write(self.p.stdin, req)
        r = read(self.p.stdout)
        if r is None:
            raise EOFError("the other process died")
        return r


def main():
    stdout = os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    stdin = sys.stdin.buffer
    import warnings
    warnings.simplefilter('ignore')
    import jax
    import numpy as onp
    import random
    import coax
    from . import bundle
    programs = {}
    while True:
        req = read(stdin)
        if req is None:
            return
        try:
            what, key, jit, *rest = req
            onp.random.seed(4711)
            random.seed(4711)
            with jax.disable_jit(not jit):
                if what == 'load':
                    programs[key] = bundle.unpack(coax.utils.loads(rest[0]))
                    out = None
                elif what == 'do':
                    out = bundle.do(programs[key], *rest)
                elif what == 'dumps':
                    out = coax.utils.dumps(programs[key])
                elif what == 'drop':
                    out = programs.pop(key, None) and None
                else:
                    raise AssertionError(what)
            write(stdout, ('ok', out))
        except Exception as e:
            write(stdout, ('error', f"{type(e).__name__}: {e}", ' | '.join(traceback.format_exc().splitlines()[-6:])))


if __name__ == '__main__':
    main()
