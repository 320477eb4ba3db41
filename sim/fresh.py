"""Executed in a fresh interpreter (possibly under another PYTHONHASHSEED): run one node function and print its pickled result."""
import base64
import importlib
import json
import pickle
import subprocess
import sys
import os


def call(module, fn, arg, hashseed='random', timeout=250):
    """Call module.fn(arg) in a fresh interpreter."""
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'sim.fresh', module, fn], input=json.dumps(arg), capture_output=True, text=True,
                       env=env, timeout=timeout)
    mark = '@@RESULT@@'
    if mark not in p.stdout:
        from .world import HarnessError
        raise HarnessError(f'fresh interpreter failed: {p.stdout[-500:]} {p.stderr[-2500:]}')
    kind, val = pickle.loads(base64.b64decode(p.stdout.rsplit(mark, 1)[1]))
    if kind == 'violation':
        from .world import Violation
        raise Violation(*val)
    if kind == 'error':
        from .world import HarnessError
        raise HarnessError(val)
    return val


if __name__ == '__main__':
    from . import world as W
    W2 = importlib.import_module('sim.world')
    m = importlib.import_module(sys.argv[1])
    arg = json.loads(sys.stdin.read())
    try:
        r = ('ok', getattr(m, sys.argv[2])(arg))
    except W2.Violation as e:
        r = ('violation', (e.cls, e.detail, e.key))
    except BaseException as e:                                       # noqa: BLE001
        r = W2.failure(e)
    out = sys.__stdout__
    out.write('@@RESULT@@' + base64.b64encode(pickle.dumps(r)).decode())
    out.flush()
    os._exit(0)
