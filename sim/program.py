"""
Programs of algebra run by simulated threads: every operation takes values that any thread has made so far, and its result is compared
at once with an independent model of the same value; at the end every value is compared again, so nothing may have changed behind its owner.
"""
from __future__ import annotations

import collections

from . import sched, searchlib as S, threads, world
from .world import Violation


REFUSALS = (ValueError, AssertionError, TypeError, ArithmeticError, LookupError, NotImplementedError)


class Program:
    """ops: name -> function(program, rng).  Operations call the library through `call` and keep values with `put`."""

    def __init__(self, plan, ops, models, limit=None):
        self.plan, self.ops, self.models = plan, ops, models
        self.stats = collections.Counter()
        self.g = threads.Group(plan['quanta'], plan['faults'], self.stats, *([limit] if limit else []))
        self.items = collections.defaultdict(list)
        self.all = []

    # -- for operations
    def have(self, kind):
        return bool(self.items[kind])

    def pick(self, kind, rng):
        have = self.items[kind]
        return have[rng.randrange(len(have))]

    def eq(self, what, got, want, *inputs):
        """A plain result."""
        self.stats['evaluations'] += 1
        if got != want or (isinstance(want, (bool, int)) and isinstance(want, bool) != isinstance(got, bool)):
            raise Violation('wrong:' + what, f'{what} of {", ".join(map(str, inputs))} gave {got!r}, not {want!r}'[:1500])
        return got

    def put(self, what, kind, got, want, *inputs, keep=True):
        """A value of the library and what it has to be."""
        self.stats['evaluations'] += 1
        bad = self.models[kind](got, want)
        if bad:
            raise Violation('wrong:' + what, f'{what} of {", ".join(map(str, inputs))} gave {got!r}, not {want!r} ({bad})'[:1500])
        if keep and type(got) is not int:
            self.items[kind].append((got, want))
            self.all.append((what, kind, got, want))
        return got, want

    # -- running
    def body(self, tid):
        for t, name, s in self.plan['ops']:
            if t == tid:
                _Turn(self, tid).run(name, world.sub(s, name))

    def run(self):
        if self.plan['cold']:
            world.fresh_peyl()
        import peyl                                            # not inside the threads: imports take locks   # noqa: F401
        import peyl.tl                                         # noqa: F401
        b = self.g.run([self.body] * self.plan['nt'])
        for what, kind, got, want in self.all:
            self.stats['evaluations'] += 1
            bad = self.models[kind](got, want)
            if bad:
                raise Violation('changed:' + kind, f'a value made by {what}, {want!r}, has become {got!r} ({bad})'[:1500])
        fired = sum(v for k, v in self.stats.items() if k.startswith('fault:'))
        self.stats['fault:cold caches'] += self.plan['cold']
        self.stats['probe:threads %d' % self.plan['nt']] += 1
        dig = S.h(b.h.hexdigest(), repr([w for _, _, _, w in self.all]), self.stats['evaluations'])
        return dict(stats=self.stats, digest=dig, simtime=0.0, nontrivial=self.plan['nt'] > 1 or fired > 0 or self.plan['cold'], states=[dig],
                    sample=dict(threads=self.plan['nt'], cold=self.plan['cold'], ops=[o[1] for o in self.plan['ops']][:20], values=len(self.all), switches=b.switches, faults=fired))


class _Turn:
    """The program as one thread sees it."""

    def __init__(self, prog, tid):
        self.p, self.tid = prog, tid

    def __getattr__(self, name):
        return getattr(self.p, name)

    def call(self, fn):
        return self.p.g.attempt(self.tid, fn)

    def refuses(self, fn, what, *kinds):
        try:
            got = self.call(fn)
        except (*kinds, *REFUSALS):
            self.p.stats['evaluations'] += 1
            return
        raise Violation('accepted:' + what, f'{what} gave {got!r}')

    def run(self, name, rng):
        self.p.ops[name](self, rng)
        self.p.stats['op:' + name] += 1


def gen(rng, names, length, typical=300):
    nt = rng.choice([1, 2, 2, 3, 4])
    cold = rng.random() < 0.2
    pool = list(names)
    if rng.random() < 0.5:                                    # a mix of few kinds of operation
        pool = [n for n in names if n.startswith('new')] + rng.sample(list(names), min(len(names), rng.randint(1, 4)))
    ops = [[rng.randrange(nt), rng.choice(pool), rng.randint(0, 10**6)] for _ in range(rng.randint(4, length))]
    return dict(nt=nt, cold=cold, ops=ops, quanta=sched.gen_quanta(rng, rng.choice([20, 200, 1500]), rng.choice([20, 100, 400])) if nt > 1 else [],
                faults=threads.gen_faults(rng, nt, typical), _lists=['ops', 'faults', 'quanta'])


def shrink(plan):
    if plan['cold']:
        yield dict(plan, cold=False)
    for i, op in enumerate(plan['ops']):
        if op[0]:
            yield dict(plan, ops=plan['ops'][:i] + [[0, *op[1:]]] + plan['ops'][i + 1:])
