"""
The seams around the code under test: clock, standard output, storage (vfs), randomness, interrupts, allocation, step budget;
and helpers that run /repo's search script on them.
"""
from __future__ import annotations

import builtins
import functools
import hashlib
import io
import os
import pickle
import random
import struct
import sys
import time as _time
import traceback

from . import vfs

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SIM_REPO', '/repo')
SEARCH = os.path.join(REPO, 'search.py')


class Violation(Exception):
    """A property does not hold. cls is the class that minimisation has to preserve."""

    def __init__(self, cls, detail='', key=None):
        super().__init__(f'{cls}: {detail}')
        self.cls, self.detail, self.key = cls, str(detail), key


class Hang(BaseException):
    """The step budget ran out (raised inside the code under test)."""


class HarnessError(Exception):
    pass


def sub(seed, *labels):
    """Independent deterministic stream."""
    h = hashlib.sha256(repr((seed,) + labels).encode()).digest()
    return random.Random(int.from_bytes(h[:8], 'big'))


def in_repo(filename):
    return filename.startswith(REPO + '/')


def repo_frames(tb):
    """Traceback frames that lie in /repo, innermost last; plus whether the innermost Python frame is one."""
    frames = traceback.extract_tb(tb)
    hits = [f for f in frames if in_repo(f.filename)]
    return hits, frames


def describe_exc(e):
    hits, frames = repo_frames(e.__traceback__)
    where = f'{os.path.relpath(hits[-1].filename, REPO)}:{hits[-1].name}' if hits else '?'
    return f'{type(e).__name__}: {str(e)[:300]} (in {where})'


def unreadable(e):
    """The harness stumbled over the shape of a value the code under test returned or passed to a seam. A missing name of a module or
    class is not that: it means that a seam of the harness does not fit the tree."""
    if not isinstance(e, (TypeError, ValueError, LookupError, AttributeError, ArithmeticError)):
        return False
    if isinstance(e, AttributeError):
        return not isinstance(e.obj, (type, type(sys))) and (e.obj is not None or e.name is not None)
    return True


CPU_LIMIT = 90                    # seconds of processor time; the longest runs of the unchanged tree need about a tenth of it


def cpu_limit(seconds):
    """A run that burns this much processor time makes no progress: reported by the run itself, whatever it is stuck in."""
    import signal

    def fire(signum, frame):
        import threading
        spots = []
        for f in sys._current_frames().values():
            while f:
                if in_repo(f.f_code.co_filename):
                    spots.append(f'{os.path.relpath(f.f_code.co_filename, REPO)}:{f.f_code.co_name}')
                    break
                f = f.f_back
        if spots:
            bad = ('violation', ('hang', f'no end after {seconds} s of processor time; in {sorted(set(spots))}', None))
        else:
            bad = ('error', f'processor time limit exceeded outside the library; {threading.active_count()} threads')
        report_hang(bad)
        os._exit(0)

    signal.signal(signal.SIGPROF, fire)
    signal.setitimer(signal.ITIMER_PROF, seconds)


def report_hang(bad):
    """Set by whoever forked this process: hands over what the CPU limit found."""


def classify(e):
    """(kind, cls, detail, key): an exception that came out of the code under test is a violation, anything else a harness error."""
    if isinstance(e, Violation):
        return 'violation', e.cls, e.detail, e.key
    if isinstance(e, HarnessError):
        return 'harness', 'HarnessError', str(e), None
    if isinstance(e, Hang):
        return 'violation', 'hang', str(e), None
    hits, frames = repo_frames(e.__traceback__)
    inner = frames[-1].filename if frames else ''
    if hits and isinstance(e, Exception):
        ours = inner.startswith(VERIF + '/sim') and not inner.endswith('world.py')
        # the innermost own frame may be a seam called by the code; seams only raise what was planned, which scenarios expect
        if not ours:
            return 'violation', 'raises:' + type(e).__name__, describe_exc(e), None
    if unreadable(e):
        at = next((f for f in reversed(frames) if f.filename.startswith(VERIF + '/sim')), None)
        return ('violation', 'unreadable:' + type(e).__name__, 'a value handed over by the library is not of the documented kind: '
                f'{type(e).__name__}: {str(e)[:300]} (while {at.name if at else "?"} read it)', None)
    return 'harness', type(e).__name__, ''.join(traceback.format_exception(e))[-6000:], None


# ------------------------------------------------------------------------------------------------ clock

class Clock:
    """Simulated time. Every read advances a little; sleeps advance by their length. Faults: wall jumps, stalls."""

    def __init__(self, seed=0, jumpy=False):
        self.rng = random.Random(seed)
        self.now = 1000.0 + self.rng.random() * 1e5
        self.start = self.now
        self.off = 1.7e9 + self.rng.random() * 1e8
        self.jumpy = jumpy
        self.jumps = 0
        self.stalls = 0
        self.reads = 0
        self.sleeps = 0
        self.on_sleep = None
        self.on_read = None

    def tick(self):
        self.reads += 1
        if self.on_read:
            self.on_read()
        r = self.rng.random()
        if self.jumpy and r < 0.1:
            self.jumps += 1
            self.off += self.rng.choice([-86400.0 * 400, -3600.0, 3600.0, 86400.0 * 400])
        elif self.jumpy and r < 0.2:
            self.now += self.rng.random() * 1e6
            self.jumps += 1
        elif self.jumpy and r < 0.4:
            self.stalls += 1
        else:
            self.now += r * 1e-3

    def perf_counter(self):
        self.tick()
        return self.now

    def wall(self):
        self.tick()
        return max(1.0, self.now + self.off)

    def advance(self, dt):
        self.now += max(0.0, dt)

    def sleep(self, dt):
        self.sleeps += 1
        if dt < 0:
            raise ValueError('sleep length must be non-negative')
        self.advance(dt)
        if self.on_sleep:
            self.on_sleep(dt)

    def elapsed(self):
        return self.now - self.start


REAL_TIME = dict(time=_time.time, perf_counter=_time.perf_counter, monotonic=_time.monotonic, sleep=_time.sleep,
                 time_ns=_time.time_ns, perf_counter_ns=_time.perf_counter_ns, monotonic_ns=_time.monotonic_ns,
                 process_time=_time.process_time)


def patch_clock(clock):
    _time.time = clock.wall
    _time.perf_counter = clock.perf_counter
    _time.monotonic = clock.perf_counter
    _time.sleep = clock.sleep
    _time.time_ns = lambda: int(clock.wall() * 1e9)
    _time.perf_counter_ns = lambda: int(clock.perf_counter() * 1e9)
    _time.monotonic_ns = lambda: int(clock.perf_counter() * 1e9)
    _time.process_time = clock.perf_counter


def unpatch_clock():
    for k, v in REAL_TIME.items():
        setattr(_time, k, v)


# ------------------------------------------------------------------------------------------------ output

class Out(io.TextIOBase):
    """Standard output seam: records the text in order; may fail on a given write; calls back before every write."""

    def __init__(self):
        super().__init__()
        self.parts = []
        self.writes = 0
        self.fail_from = None            # write index from which writes fail
        self.fail_once = False
        self.failed = 0
        self.exc = None
        self.hook = None

    def writable(self):
        return True

    @property
    def encoding(self):
        return 'utf-8'

    def write(self, s):
        k = self.writes
        self.writes += 1
        if self.hook:
            self.hook('print', k)
        if self.fail_from is not None and (k == self.fail_from if self.fail_once else k >= self.fail_from):
            self.failed += 1
            raise self.exc
        self.parts.append(s)
        return len(s)

    def flush(self):
        pass

    def text(self):
        return ''.join(self.parts)


# ------------------------------------------------------------------------------------------------ step budget and line faults

class Steps:
    """Counts backward jumps, function starts (and on demand lines) executed in /repo code via sys.monitoring; raises Hang
    past the budget, and injects an exception at a chosen line count.  Deterministic: depends on nothing but the code executed."""
    TOOL = 4

    def __init__(self, budget=None, lines=False, on_line=None, only=None):
        self.jumps = 0
        self.lines = 0
        self.budget = budget
        self.want_lines = lines
        self.on_line = on_line
        self.only = only
        self.active = False

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, 'sim')
        ev = m.events
        mask = ev.JUMP | ev.PY_START
        m.register_callback(self.TOOL, ev.JUMP, self._jump)
        m.register_callback(self.TOOL, ev.PY_START, self._start)
        if self.want_lines:
            mask |= ev.LINE
            m.register_callback(self.TOOL, ev.LINE, self._line)
        m.set_events(self.TOOL, mask)
        m.restart_events()
        self.active = True
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        self.active = False
        m.set_events(self.TOOL, 0)
        m.free_tool_id(self.TOOL)
        return False

    def _count(self):
        self.jumps += 1
        if self.budget is not None and self.jumps > self.budget:
            self.budget = None
            raise Hang(f'step budget exceeded after {self.jumps - 1} steps')

    def _jump(self, code, src, dst):
        if not self.active:
            return None
        if not in_repo(code.co_filename):
            return sys.monitoring.DISABLE
        self._count()

    def _start(self, code, off):
        if not self.active:
            return None
        if not in_repo(code.co_filename):
            return sys.monitoring.DISABLE
        self._count()

    def _line(self, code, line):
        if not self.active:
            return None
        if not in_repo(code.co_filename):
            return sys.monitoring.DISABLE
        if self.only and not self.only(code):
            return None
        self.lines += 1
        if self.on_line is not None:
            self.on_line(self.lines, code, line)


# ------------------------------------------------------------------------------------------------ fork helpers

def failure(e):
    """What a node that raised hands to its parent."""
    kind, cls, detail, key = classify(e)
    return ('violation', (cls, detail, key)) if kind == 'violation' else ('error', ''.join(traceback.format_exception(e))[-4000:])


def in_child(fn, *args, wall=300, **kw):
    """Run fn in a forked process ("node"); return its value, re-raise its exception (Violation and HarnessError keep their type).
    fn may call NODE_EXIT(value) at any depth to die on the spot (a simulated kill) with that value."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        global _node_w, report_hang
        _node_w = w
        report_hang = functools.partial(_send, w)
        cpu_limit(CPU_LIMIT)
        try:
            try:
                payload = ('ok', fn(*args, **kw))
            except Violation as e:
                payload = ('violation', (e.cls, e.detail, e.key))
            except BaseException as e:                               # noqa: BLE001
                payload = failure(e)
            _send(w, payload)
        finally:
            os._exit(0)
    os.close(w)
    payload = _recv(r)
    os.close(r)
    os.waitpid(pid, 0)
    if payload is None:
        raise HarnessError('node died without a result')
    kind, val = payload
    if kind == 'ok':
        return val
    if kind == 'violation':
        raise Violation(*val)
    raise HarnessError(val)


_node_w = None


def node_exit(value):
    """Simulated kill: the process disappears at once; only what is handed over here (the disk, the output pipe) is left."""
    _send(_node_w, ('ok', value))
    os._exit(0)


def _send(w, obj):
    data = pickle.dumps(obj, protocol=4)
    data = struct.pack('<Q', len(data)) + data
    mv = memoryview(data)
    while mv:
        k = os.write(w, mv)
        mv = mv[k:]


def _recv(r):
    buf = b''
    while True:
        k = os.read(r, 1 << 20)
        if not k:
            break
        buf += k
    if len(buf) < 8:
        return None
    (n,) = struct.unpack('<Q', buf[:8])
    if len(buf) < 8 + n:
        return None
    return pickle.loads(buf[8:8 + n])


# ------------------------------------------------------------------------------------------------ running search.py

_search_code = None


def search_code():
    global _search_code
    if _search_code is None:
        with open(SEARCH, 'rb') as f:
            _search_code = compile(f.read(), SEARCH, 'exec')
    return _search_code


def fresh_peyl():
    """Forget the imported library, so that the next import starts with cold caches (a new process as far as peyl is concerned)."""
    for k in [k for k in sys.modules if k == 'peyl' or k.startswith('peyl.')]:
        del sys.modules[k]


def import_peyl():
    """Import every module of the library: one first imported by a simulated thread would hold an import lock across its turn."""
    import importlib
    import pkgutil
    import peyl
    for m in pkgutil.walk_packages(peyl.__path__, 'peyl.'):
        if m.name not in sys.modules:
            try:
                importlib.import_module(m.name)
            except ImportError:                                  # a module that needs what is not installed
                pass


def argv_of(cfg, database=None):
    a = ['search.py', str(cfg['n']), str(cfg['r']), str(cfg['p'])]
    for k, opt in (('boot', '--bootstrap-length'), ('bucket', '--bucket-size'), ('use', '--use-best'), ('save', '--save-best'),
                   ('step', '--step-size'), ('seed', '--seed')):
        if cfg.get(k) is not None:
            a += [opt, str(cfg[k])]
    if cfg.get('stop'):
        a += ['--stop-at-projlen-1']
    if database is not None:
        a += ['--database', database]
    return a


class EndOfRun(BaseException):
    """Raised from the output seam to stop a search at a planned length (the user's Ctrl-C between two lengths)."""


def exec_search(argv):
    """Execute the search script in this thread. Returns None or the exception it ended with."""
    old = sys.argv
    sys.argv = list(argv)
    g = {'__name__': '__main__', '__file__': SEARCH, '__builtins__': builtins}
    try:
        exec(search_code(), g)
        return None
    except SystemExit as e:
        return None if e.code in (None, 0) else e
    except BaseException as e:                                      # noqa: BLE001
        return e
    finally:
        sys.argv = old


def outcome(exc):
    if exc is None:
        return 'ok'
    return type(exc).__name__
