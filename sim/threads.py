"""Caller threads over the library: simulated threads that hand over at executed /repo lines, with faults at planned lines."""
from __future__ import annotations

import gc

from . import sched, world
from .world import Violation


class Simulated(MemoryError):
    """The allocation failure the simulator injects."""


class Group:
    """Runs one list of operations per simulated thread.  An operation that a simulated fault cuts short is done again from the start."""

    def __init__(self, quanta, faults, stats, max_events=60_000_000):
        self.stats = stats
        self.inside = {}
        self.b = sched.Baton(quanta, [f for f in faults], max_events=max_events, handler=self._fault)

    def _fault(self, task, fault, kind):
        if not self.inside.get(task.tid):
            return None
        if fault[2] == 'int':
            self.stats['fault:interrupt at an executed line'] += 1
            raise KeyboardInterrupt('simulated')
        self.stats['fault:allocation failure at an executed line'] += 1
        raise Simulated('simulated allocation failure')

    def attempt(self, tid, fn, tries=50):
        """Value of fn(), done again after a simulated fault."""
        for _ in range(tries):
            self.inside[tid] = True
            try:
                return fn()
            except KeyboardInterrupt as e:
                if e.args != ('simulated',):
                    raise
                self.stats['probe:operations done again after a fault'] += 1
            except Simulated:
                self.stats['probe:operations done again after a fault'] += 1
            finally:
                self.inside[tid] = False
        raise world.HarnessError('too many faults for one operation')

    def run(self, bodies, timeout=200):
        """bodies: one function per thread, called with its number.  Exceptions that are not simulated end the run."""
        world.import_peyl()
        for tid, fn in enumerate(bodies):
            self.b.spawn(f'thread {tid}', lambda tid=tid, fn=fn: fn(tid))
        was = gc.isenabled()
        gc.disable()                           # finalisers must not run lines of /repo at unplanned points
        try:
            with sched.Lines(self.b):
                self.b.run(timeout)
        finally:
            if was:
                gc.enable()
        for t in self.b.tasks:
            if t.exc is not None:
                raise t.exc
        self.stats['steps'] += self.b.events
        self.stats['probe:thread switches'] += self.b.switches
        return self.b


def gen_faults(rng, nthreads, typical, p=0.45, most=4):
    out = []
    if rng.random() < p:
        for _ in range(rng.randint(1, most)):
            at = int(10 ** rng.uniform(0, 4.3)) if rng.random() < 0.3 else rng.randint(1, 2 * typical)
            out.append([rng.randrange(nthreads), at, 'int' if rng.random() < 0.7 else 'mem'])
    return out


