"""C18: sampling threads with their own generators, unlucky generators, failing generators, interruptions, cold tables, other interpreters."""
import collections
import random

import numpy as np

from .. import bridge as B, fresh, ref, sched, searchlib as S, threads, world
from ..world import Violation

ID = 'C18'
LEVEL = 'exploration'
RULE = ('one evaluation = one sample (a braid, or a batch of braids with matrices) compared with the same sample drawn alone, and judged for length, normal form, power and matrices, '
        'or one complete coverage of the normal forms of a length; non-trivial = more than one thread, or a fault, or an unlucky generator; distinct = distinct interleavings with what was sampled')
STATES = 'digest of the interleaving and of the samples'
REAL = ['peyl sampling (GNF, DGNF, BraidGroup, braidsearch)', 'peyl evaluation', 'numpy', 'Python threads (one runs at a time)']
STUB = ['random generators (seeded, skewed to extremes, low-entropy, failing)', 'process-wide generators', 'thread scheduling', 'interrupt and allocation-failure delivery at executed lines', 'PYTHONHASHSEED']
ASSUMPTIONS = ['coverage is judged with enough draws that a sampler giving every normal form at least a twentieth of its share misses one with probability below 1e-12']
CONFIG = dict(quick=dict(runs=1600, wall=240, repeat=10, run_wall=300), thorough=dict(runs=30000, wall=2400, repeat=60, run_wall=600))
KINDS = ['G', 'G', 'D', 'D', 'bg', 'imgs', 'imgs', 'upto', 'again', 'fails']
GENS = ['plain', 'plain', 'plain', 'skewed', 'skewed', 'lcg', 'bits']
PAIRS = [('G', 3), ('D', 3), ('G', 4), ('G', 4), ('D', 4), ('D', 4), ('D', 5), ('G', 5)]
COVER = {('G', 3): 4, ('D', 3): 5, ('G', 4): 2, ('D', 4): 2, ('G', 5): 1, ('D', 5): 1}


def warm(tier):
    sched.patch_locks()
    for n in range(2, 7):
        B.gindex(n), B.dindex(n)
        for kind in 'GD':
            B.follows(kind, B.top(kind, n))
    import peyl.braidsearch                    # noqa: F401


def gen(rng, tier, i):
    nt = rng.choice([1, 1, 2, 2, 3, 4])
    ns = rng.choice([[3], [4], [3, 4], [2, 3, 4], [5], [4, 5]])
    if rng.random() < 0.008:
        ns = [6]
    ops = []
    for _ in range(rng.randint(2, 24)):
        n = rng.choice(ns)
        op = rng.choice(KINDS)
        L = rng.choice([0, 1, 1, 2, 3, 4, 5, 8]) if n > 2 else 0
        ops.append([rng.randrange(nt), op, n, L, rng.randint(1, n // 2), rng.choice([0, 2, 3, 5, 7, 101]), rng.choice([1, 1, 2, 5, 12]) if rng.random() < 0.96 or n > 4 else rng.choice([60, 130]), rng.randint(0, 10**6)])
    cover = []
    if rng.random() < 0.12:
        kind, n = rng.choice(list(COVER))
        cover = [[kind, n, rng.randint(1, COVER[kind, n]), rng.choice(['plain', 'lcg']), rng.randrange(2)]]
        if rng.random() < 0.4:
            kind, n = rng.choice(PAIRS)
            cover = [[kind, n, rng.randint(2, 8), rng.choice(['plain', 'lcg']), rng.randrange(2), 'pairs']]
    own = []
    if rng.random() < 0.1:
        n = rng.choice([3, 3, 4])
        own = [[0, rng.choice(['G', 'D', 'bg', 'imgs', 'upto']), n, rng.randint(45, 70), 1, rng.choice([2, 3, 7]), 3, 0]]
    return dict(nt=nt, own=own, ops=ops, gens=[[rng.choice(GENS), rng.randint(0, 10**6)] for _ in range(nt)], cold=rng.random() < 0.15 and max(ns) < 5, cover=cover,
                glob=rng.randint(0, 10**6), elsewhere=rng.random() < 0.02, quanta=sched.gen_quanta(rng, rng.choice([20, 200, 1500]), rng.choice([20, 200, 5000])) if nt > 1 else [],
                faults=threads.gen_faults(rng, nt, 3000), _lists=['ops', 'faults', 'quanta', 'cover', 'own'])


def shrink(plan):
    for k, v in (('cold', False), ('elsewhere', False)):
        if plan[k]:
            yield dict(plan, **{k: v})
    for i, op in enumerate(plan['ops']):
        if op[0]:
            yield dict(plan, ops=plan['ops'][:i] + [[0, *op[1:]]] + plan['ops'][i + 1:])
        if op[6] > 1:
            yield dict(plan, ops=plan['ops'][:i] + [[*op[:6], 1, op[7]]] + plan['ops'][i + 1:])
    for i, g in enumerate(plan['gens']):
        if g[0] != 'plain':
            yield dict(plan, gens=plan['gens'][:i] + [['plain', g[1]]] + plan['gens'][i + 1:])


class Lcg(random.Random):
    """A generator of which only random() is defined: the standard library derives everything else from it."""

    def __init__(self, seed):
        self.x = seed
        super().__init__(seed)

    def random(self):
        self.x = (self.x * 6364136223846793005 + 1442695040888963407) % 2 ** 64
        return (self.x >> 11) / 2 ** 53

    def getstate(self):
        return self.x

    def setstate(self, x):
        self.x = x


class LowBits(random.Random):
    """Legal but of low entropy: a short cycle of outputs."""

    def __init__(self, seed):
        r = random.Random(seed)
        self.cycle = [r.getrandbits(64) for _ in range(r.choice([2, 3, 5, 17]))]
        self.at = 0
        super().__init__(seed)

    def _next(self):
        self.at += 1
        # every 40th draw is fresh, so that rejection sampling ends
        return self.cycle[self.at % len(self.cycle)] if self.at % 40 else super().getrandbits(64)

    def random(self):
        return (self._next() >> 11) / 2 ** 53

    def getrandbits(self, k):
        v = 0
        for _ in range((k + 63) // 64):
            v = v << 64 | self._next()
        return v & ((1 << k) - 1)

    def getstate(self):
        return self.at, super().getstate()

    def setstate(self, s):
        self.at = s[0]
        super().setstate(s[1])


class Failing(random.Random):
    """The generator itself fails at some draw."""

    def __init__(self, seed, at):
        self.left = at
        super().__init__(seed)

    def _tick(self):
        self.left -= 1
        if self.left == 0:
            raise OSError(5, 'simulated failure of the generator')

    def random(self):
        self._tick()
        return super().random()

    def getrandbits(self, k):
        self._tick()
        return super().getrandbits(k)


def make(spec):
    kind, seed = spec
    if kind == 'skewed':
        return S.skewed([0.3 + seed % 7 / 10, 0.5])(seed)
    if kind == 'lcg':
        return Lcg(seed)
    if kind == 'bits':
        return LowBits(seed)
    return random.Random(seed)


def scramble(seed):
    random.seed(seed)
    np.random.seed(seed % 2**32)
    for _ in range(seed % 13):
        random.random(), np.random.random()


def glob():
    s = np.random.get_state()
    return hash(random.getstate()), (s[0], s[1].tobytes(), *s[2:])


def draw(op, rand):
    """One operation: list of library braids and their images (or None)."""
    from peyl import braidsearch as bs
    from peyl.braid import BraidGroup, DGNF, GNF
    _, kind, n, L, r, p, cnt, seed = op
    if kind == 'G' or kind == 'again':
        return [GNF.sample(n, L, rand=rand) for _ in range(cnt)], None, [L] * cnt
    if kind == 'D':
        return [DGNF.sample(n, L, rand=rand) for _ in range(cnt)], None, [L] * cnt
    if kind == 'bg':
        return [BraidGroup(n).sample_braid_perm(L, rand=rand) for _ in range(cnt)], None, [L] * cnt
    rep = bs.JonesSummand(n=n, r=r, p=p)
    if kind == 'imgs':
        xs, X = bs.sample_braids_images(rep, L, cnt, rand=rand)
        return xs, X, [L] * cnt
    lo = max(0, L - seed % 3)
    xs, X = bs.sample_braids_images_upto_length(rep, lo, L, cnt, rand=rand)
    return xs, X, [l for l in range(lo, L + 1) for _ in range(cnt)]


def alone(arg):
    """Every thread's operations, one thread after the other, without faults."""
    scramble(arg['glob'])
    out = []
    for tid in range(arg['nt']):
        rand = make(arg['gens'][tid])
        res = []
        for op in arg['ops']:
            if op[0] != tid or op[1] == 'fails':
                continue
            xs, X, _ = draw(op, rand)
            res.append(([B.from_lib(x) for x in xs], None if X is None else S.h(np.asarray(X).tolist()), S.h(rand.getstate())))
        out.append(res)
    return out


def deep_tuple(x):
    return tuple(map(deep_tuple, x)) if isinstance(x, (list, tuple)) else x


def without_generator(op, seed, stats):
    """No generator supplied: every braid drawn is a fresh one (here each has at least 2^40 equally likely outcomes)."""
    real, seeds = random.Random, iter(range(seed, seed + 10**6))

    class Seeded(real):                                          # instead of the entropy of the operating system
        def __new__(cls, *a):
            return real.__new__(cls)

        def __init__(self, x=None):
            super().__init__(next(seeds) if x is None else x)

        def seed(self, x=None, *a):
            super().seed(next(seeds) if x is None else x, *a)
    random.Random = Seeded
    try:
        got = [b for _ in range(2) for b in judge(op, *draw(op, None), f'no generator given, {op[1:7]}')]
    finally:
        random.Random = real
    stats['evaluations'] += 1
    stats['probe:no generator given'] += 1
    if len(set(got)) < len(got):
        raise Violation('samples-repeat', f'{op[1:7]} with no generator given, twice: {len(set(got))} different braids among {len(got)}')


def judge(op, xs, X, lengths, where):
    kind, n, L, r, p, cnt = op[1:7]
    if len(xs) != len(lengths):
        raise Violation('wrong-number', f'{where}: {len(xs)} braids, {len(lengths)} asked for')
    bs = []
    for x, l in zip(xs, lengths):
        b = B.from_lib(x)
        bs.append(b)
        if b[0] != ('D' if kind == 'D' else 'G') or b[1] != n:
            raise Violation('wrong-kind', f'{where}: {B.show(b)}')
        if b[2] != 0:
            raise Violation('power-not-zero', f'{where}: {B.show(b)}')
        if len(b[3]) != l:
            raise Violation('wrong-length', f'{where}: {B.show(b)} for length {l}')
    if X is not None:
        X = np.asarray(X)
        if X.ndim != 4 or X.shape[0] != len(bs):
            raise Violation('wrong-image', f'{where}: images of shape {X.shape} for {len(bs)} braids')
        for b, M in zip(bs, X):
            R = B.image(n, r, p, b)
            nz = np.flatnonzero(M.any(axis=(0, 1)))
            M2 = M[:, :, nz[0]:] if len(nz) else M
            if not B.same_image(M2, R):
                raise Violation('wrong-image', f'{where}: the matrix next to {B.show(b)} is not its own (r={r}, p={p})')
    return bs


def run(plan):
    if plan['cold']:
        world.fresh_peyl()
    import peyl.braid                          # noqa: F401     (imports take locks the scheduler does not see)
    import peyl.braidsearch                    # noqa: F401
    stats = collections.Counter()
    arg = dict(nt=plan['nt'], ops=plan['ops'], gens=plan['gens'], glob=plan['glob'] + 1)
    base = world.in_child(alone, arg)
    if plan['elsewhere']:
        got = fresh.call('sim.scen.c18', 'alone', arg, hashseed=plan['glob'] % 4294967295)
        stats['probe:sampled in another interpreter'] += 1
        if deep_tuple(got) != deep_tuple(base):
            raise Violation('depends-on-the-interpreter', 'the same generator gives other samples in a fresh interpreter')
    scramble(plan['glob'])
    before = glob()
    g = threads.Group(plan['quanta'], plan['faults'], stats)
    rands = [make(s) for s in plan['gens']]
    got = [[] for _ in range(plan['nt'])]

    def body(tid):
        rand = rands[tid]
        for op in plan['ops']:
            if op[0] != tid:
                continue
            if op[1] == 'fails':
                fr = Failing(op[7], 1 + op[7] % (2 * op[3] * op[6] + 1))
                try:
                    g.attempt(tid, lambda: draw([op[0], 'GD'[op[7] % 2], *op[2:]], fr))
                except OSError as e:
                    if 'simulated' not in str(e):
                        raise
                    stats['fault:the generator fails'] += 1
                continue
            st = rand.getstate()

            def once():
                rand.setstate(st)
                return draw(op, rand)
            res = g.attempt(tid, once)
            got[tid].append((op, *res, None if res[1] is None else np.array(res[1]), S.h(rand.getstate())))
            if op[1] == 'again':
                end = rand.getstate()
                res2 = g.attempt(tid, once)
                if res2[0] != res[0] or S.h(rand.getstate()) != S.h(end):
                    raise Violation('not-repeatable', f'{op}: the same generator state gives {res2[0]!r} after {res[0]!r}')
    b = g.run([body] * plan['nt'])
    if glob() != before:
        raise Violation('process-wide-generator-disturbed', 'the state of random or numpy.random changed while sampling with supplied generators')
    for tid in range(plan['nt']):
        for (op, xs, X, lengths, copy, state), (bs, hX, bstate) in zip(got[tid], base[tid], strict=True):
            where = f'thread {tid}, {op[1:7]}'
            stats['evaluations'] += 1
            stats[f'probe:{op[1]}'] += 1
            mine = judge(op, xs, X, lengths, where)
            if mine != [deep_tuple(x) for x in bs]:
                raise Violation('depends-on-more-than-the-generator', f'{where}: {[B.show(x) for x in mine][:3]}; drawn alone: {[B.show(x) for x in bs][:3]}')
            if state != bstate:
                raise Violation('depends-on-more-than-the-generator', f'{where}: leaves its generator in another state than when drawn alone')
            if X is not None and S.h(np.asarray(X).tolist()) != hX:
                raise Violation('depends-on-more-than-the-generator', f'{where}: matrices differ from those drawn alone')
    for op in plan['own']:
        without_generator(op, plan['glob'], stats)
    for c in plan['cover']:
        (cover_pairs if c[5:] else cover)(c, plan['glob'], stats)
    fired = sum(v for k, v in stats.items() if k.startswith('fault:'))
    stats['fault:cold tables'] += plan['cold']
    for k, _ in plan['gens']:
        if k != 'plain':
            stats[f'fault:generator {k}'] += 1
    stats['probe:threads %d' % plan['nt']] += 1
    dig = S.h(b.h.hexdigest(), base)
    return dict(stats=stats, digest=dig, simtime=0.0, nontrivial=plan['nt'] > 1 or fired > 0 or any(k != 'plain' for k, _ in plan['gens']), states=[dig],
                sample=dict(threads=plan['nt'], ops=[o[1:7] for o in plan['ops']][:10], switches=b.switches, faults=fired, generators=[k for k, _ in plan['gens']]))


def chances(kind, n, L):
    """Position -> (factor before, factor) -> the smaller of its chances when all next factors, or all normal forms, are equally likely."""
    fol = {}
    todo = [B.top(kind, n)]
    while todo:
        x = todo.pop()
        if x not in fol:
            fol[x] = B.follows(kind, x)
            todo += fol[x]
    ends = [dict.fromkeys(fol, 1)]
    for _ in range(L):
        ends.append({x: sum(ends[-1][y] for y in fol[x]) for x in fol})
    a, b, out = {B.top(kind, n): 1.0}, {B.top(kind, n): 1}, []
    for i in range(L):
        a2, b2, here = collections.Counter(), collections.Counter(), {}
        for x in a:
            for y in fol[x]:
                pa, cb = a[x] / len(fol[x]), b[x]
                here[x, y] = min(pa, cb * ends[L - i - 1][y] / ends[L][B.top(kind, n)])
                a2[y] += pa
                b2[y] += cb
        out.append(here)
        a, b = a2, b2
    return out


def cover_pairs(c, seed, stats):
    import math
    from peyl.braid import BraidGroup, DGNF, GNF
    kind, n, L, how, via, _ = c
    want = chances(kind, n, L)
    # what to look for: neighbours at a position, a factor at a position, neighbours anywhere
    need = {}
    for i, h in enumerate(want):
        for (x, y), v in h.items():
            need[i, x, y] = v
            need[i, y] = need.get((i, y), 0) + v
            need[x, y] = max(need.get((x, y), 0), v)
    N = 400000 // L
    need = {k: v for k, v in need.items() if v >= 3 * (math.log(len(need)) + 28) / N}
    rand = make([how, seed])
    cls = GNF if kind == 'G' else DGNF
    fn = (lambda: BraidGroup(n).sample_braid_perm(L, rand=rand)) if via and kind == 'G' else (lambda: cls.sample(n, L, rand=rand))
    seen = [set() for _ in range(L)]
    for _ in range(N):
        last = None
        for s, f in zip(seen, fn().factors, strict=True):
            s.add((last, f))
            last = f
    index = {v: k for k, v in (B.gindex(n) if kind == 'G' else B.dindex(n)).items() if v is not None}
    index[None] = B.top(kind, n)
    got = set()
    for i, s in enumerate(seen):
        for x, y in s:
            x, y = index[x], index[y]
            if (x, y) not in want[i]:
                raise Violation('not-normal-form', f'{kind} n={n} length {L}: {y} after {x} at position {i + 1}')
            got |= {(i, x, y), (i, y), (x, y)}
    stats['evaluations'] += 1
    stats['probe:coverage of neighbouring factors'] += 1
    stats['probe:neighbouring factors looked for'] += len(need)
    miss = sorted((k for k in need if k not in got), key=repr)
    if miss:
        raise Violation('never-occurs', f'{miss[0]} and {len(miss) - 1} others of {len(need)} (position and) neighbouring factors did not occur in {N} samples of {kind} n={n} length {L}')


def cover(c, seed, stats):
    from peyl.braid import BraidGroup, DGNF, GNF
    kind, n, L, how, via = c
    want = set(B.all_of_length(kind, n, L))
    low = 1.0 / len(want)
    for b in want:
        q, last = 1.0, B.top(kind, n)
        for f in b[3]:
            q /= len(B.follows(kind, last))
            last = f
        low = min(low, q)
    import math
    N = int(20 * (math.log(len(want)) + 28) / low / 20 * 3)
    rand = make([how, seed])
    cls = GNF if kind == 'G' else DGNF
    fn = (lambda: BraidGroup(n).sample_braid_perm(L, rand=rand)) if via and kind == 'G' else (lambda: cls.sample(n, L, rand=rand))
    seen, back = set(), {}
    for _ in range(N):
        x = fn()
        if x not in seen:
            seen.add(x)
    got = {B.from_lib(x) for x in seen}
    stats['evaluations'] += 1
    stats['probe:coverage of a length'] += 1
    if got != want:
        extra = got - want
        if extra:
            raise Violation('not-of-that-length', f'{B.show(next(iter(extra)))} for {kind} n={n} length {L}')
        raise Violation('never-occurs', f'{B.show(sorted(want - got)[0])} and {len(want - got) - 1} others of {len(want)} did not occur in {N} samples of {kind} n={n} length {L}')
