"""
Baton scheduler: simulated threads of which exactly one runs at any time.  Threads hand over the baton only at seams (storage operations,
sleeps, prints, or executed lines of /repo code) and only as the plan says, so a plan is one exactly repeatable interleaving.

A schedule is a list of quanta [steps, pick]: the running thread goes on for `steps` seam events, then the pick-th other runnable thread
takes over.  When the list is used up, threads run until they block.  Faults are [thread, event number of that thread, kind, parameter].
"""
from __future__ import annotations

import hashlib
import random
import sys
import threading
import _thread

from . import world
from .world import HarnessError, Violation

_REAL_LOCK, _REAL_RLOCK = threading.Lock, threading.RLock
CURRENT = None            # the Baton in charge, if any


class Killed(BaseException):
    pass


class Task:
    __slots__ = ('tid', 'name', 'fn', 'gate', 'state', 'wake', 'events', 'value', 'exc', 'on_resume', 'faults', 'ident', 'thread', 'wait_on')

    def __init__(self, tid, name, fn):
        self.tid, self.name, self.fn = tid, name, fn
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.state = 'ready'                   # ready | sleeping | blocked | done | dead
        self.wake = 0.0
        self.events = 0
        self.value = self.exc = None
        self.on_resume = None
        self.faults = []
        self.ident = None
        self.wait_on = None


class Baton:
    def __init__(self, quanta, faults=(), clock=None, max_events=2_000_000, cost=None, handler=None):
        self.quanta = list(quanta)
        self.qpos = 0
        self.left = self.quanta[0][0] if self.quanta else None
        self.tasks = []
        self.current = None
        self.clock = clock
        self.events = 0
        self.switches = 0
        self.max_events = max_events
        self.h = hashlib.blake2b(digest_size=8)
        self.done = _thread.allocate_lock()
        self.done.acquire()
        self.by_ident = {}
        self.faults = [list(f) for f in faults]
        self.cost = cost                       # callable -> seconds a seam event takes
        self.handler = handler                 # handler(task, fault, kind) performs a fault; may raise
        self.fired = []
        self.failure = None
        self.over = False

    # -- set-up
    def spawn(self, name, fn, on_resume=None, delay=0.0):
        t = Task(len(self.tasks), name, fn)
        t.on_resume = on_resume
        t.faults = sorted([f for f in self.faults if f[0] == t.tid], key=lambda f: f[1])
        if delay and self.clock is not None:
            t.state, t.wake = 'sleeping', self.clock.now + delay
        self.tasks.append(t)
        return t

    def run(self, timeout=150):
        global CURRENT
        CURRENT = self
        for t in self.tasks:
            t.thread = threading.Thread(target=self._body, args=(t,), daemon=True)
            t.thread.start()
        # every body waits at its gate; hand the baton to the first
        nxt = self._choose(None, 0)
        if nxt is not None:
            self._grant(nxt)
            if not self.done.acquire(timeout=timeout):
                raise HarnessError(f'scheduler stuck: {[(t.name, t.state, t.events) for t in self.tasks]}')
        CURRENT = None
        self.over = True
        if self.failure:
            raise self.failure
        return self.tasks

    def _body(self, t):
        t.gate.acquire()
        t.ident = _thread.get_ident()
        self.by_ident[t.ident] = t
        if t.on_resume:
            t.on_resume(t)
        try:
            t.value = t.fn()
        except BaseException as e:                                   # noqa: BLE001
            t.exc = e
        self._finish(t)

    def _finish(self, t):
        t.state = 'done'
        self.h.update(b'end%d' % t.tid)
        self._release_waiters()
        nxt = self._choose(t, 0)
        if nxt is None:
            self.done.release()
        else:
            self._grant(nxt)

    def _release_waiters(self):
        for o in self.tasks:
            if o.state == 'blocked':
                o.state = 'ready'

    # -- choosing
    def _choose(self, cur, pick):
        while True:
            ready = [t for t in self.tasks if t.state == 'ready' and t is not cur]
            if self.clock is not None:
                for t in self.tasks:
                    if t.state == 'sleeping' and t.wake <= self.clock.now:
                        t.state = 'ready'
                        if t is not cur:
                            ready.append(t)
                ready.sort(key=lambda t: t.tid)
            if ready:
                base = 0 if cur is None else cur.tid + 1
                ready.sort(key=lambda t: (t.tid - base) % max(1, len(self.tasks)))
                return ready[pick % len(ready)]
            if cur is not None and cur.state == 'ready':
                return cur
            asleep = [t for t in self.tasks if t.state == 'sleeping']
            if not asleep:
                if any(t.state == 'blocked' for t in self.tasks):
                    self.failure = Violation('deadlock', f'all threads wait: {[(t.name, t.state) for t in self.tasks]}')
                return None
            self.clock.now = max(self.clock.now, min(t.wake for t in asleep))

    def _grant(self, t):
        self.current = t
        if t.on_resume and t.ident is not None:
            t.on_resume(t)
        t.gate.release()

    def _switch(self, me, pick):
        nxt = self._choose(me, pick)
        if nxt is me:
            return
        if nxt is None:
            self.done.release()
            me.gate.acquire()                  # never returns: the run is over
        self.switches += 1
        self.h.update(b'%d>%d@%d;' % (me.tid, nxt.tid, me.events))
        self._grant(nxt)
        me.gate.acquire()

    # -- seams
    def me(self):
        if self.over:
            return None
        return self.by_ident.get(_thread.get_ident())

    def point(self, kind='', cost=True):
        """A seam event of the running thread: charge time, fire faults, maybe switch."""
        t = self.me()
        if t is None:
            return None
        self.events += 1
        t.events += 1
        if self.events > self.max_events:
            if self.failure is None:
                self.failure = Violation('no-progress', f'{self.events} seam events without completion: {[(x.name, x.state, x.events) for x in self.tasks]}')
            self.done.release()
            me_forever = t.gate
            me_forever.acquire()
        if self.clock is not None and self.cost is not None and cost:
            self.clock.now += self.cost()
        rc = None
        while t.faults and t.faults[0][1] <= t.events:
            f = t.faults.pop(0)
            self.fired.append(f)
            rc = self.handler(t, f, kind)
            if t.state == 'dead':
                self._switch_dead(t)
        if self.left is not None:
            self.left -= 1
            if self.left <= 0:
                pick = self.quanta[self.qpos][1]
                self.qpos += 1
                self.left = self.quanta[self.qpos][0] if self.qpos < len(self.quanta) else None
                self._switch(t, pick)
        return rc

    def _switch_dead(self, t):
        self._release_waiters()
        nxt = self._choose(t, 0)
        self.h.update(b'kill%d@%d;' % (t.tid, t.events))
        if nxt is None:
            self.done.release()
        else:
            self._grant(nxt)
        t.gate.acquire()                       # never returns

    def sleep(self, dt):
        t = self.me()
        if t is None:
            if self.clock is not None:
                self.clock.advance(dt)
            return
        t.state, t.wake = 'sleeping', self.clock.now + max(0.0, dt)
        self._switch(t, 0)
        t.state = 'ready'

    def wait(self):
        """Blocked on something another thread has to release."""
        t = self.me()
        t.state = 'blocked'
        self._switch(t, 0)
        t.state = 'ready'


class SimLock:
    """threading.Lock / RLock as created by code under test: waiting hands over the baton."""

    def __init__(self, reentrant=False):
        self.owner, self.count, self.reentrant = None, 0, reentrant

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        while True:
            if self.count == 0 or (self.reentrant and self.owner == me):
                self.owner, self.count = me, self.count + 1
                return True
            if not blocking or timeout == 0:
                return False
            b = CURRENT
            if b is None or b.me() is None:
                raise HarnessError('lock contention outside the scheduler')
            b.wait()

    def release(self):
        if self.count == 0:
            raise RuntimeError('release unlocked lock')
        self.count -= 1
        if self.count == 0:
            self.owner = None
            if CURRENT is not None:
                CURRENT._release_waiters()

    def locked(self):
        return self.count > 0

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def _factory(real, reentrant):
    def make(*a, **k):
        f = sys._getframe(1)
        if world.in_repo(f.f_code.co_filename):
            return SimLock(reentrant)
        return real(*a, **k)
    return make


def patch_locks():
    """Locks created by /repo code become scheduler-aware. Call before importing peyl."""
    threading.Lock = _factory(_REAL_LOCK, False)
    threading.RLock = _factory(_REAL_RLOCK, True)


class Lines:
    """Seam events at executed lines of /repo code (sys.monitoring)."""
    TOOL = 3

    def __init__(self, baton, every=1, only=None):
        self.baton, self.only, self.every = baton, only, every
        self.active = False

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, 'sim-lines')
        m.register_callback(self.TOOL, m.events.LINE, self._line)
        m.set_events(self.TOOL, m.events.LINE)
        m.restart_events()
        self.active = True
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        self.active = False
        m.set_events(self.TOOL, 0)
        m.free_tool_id(self.TOOL)
        return False

    def _line(self, code, line):
        if not self.active:
            return None
        if not world.in_repo(code.co_filename):
            return sys.monitoring.DISABLE
        if code.co_name == '<module>' and 'peyl' in code.co_filename:   # an import: its lock is not the simulator's to wait for
            return None
        self.baton.point('line')


def gen_quanta(rng, count, typical):
    """A schedule: a mixture of very short and long turns."""
    style = rng.choice(['fine', 'mixed', 'mixed', 'coarse'])
    out = []
    for _ in range(count):
        if style == 'fine':
            n = rng.randint(1, 4)
        elif style == 'coarse':
            n = rng.randint(1, 2 * typical)
        else:
            n = rng.randint(1, 3) if rng.random() < 0.5 else int(rng.expovariate(1.0 / typical)) + 1
        out.append([n, rng.randint(0, 3)])
    return out
