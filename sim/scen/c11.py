"""C11: bootstraps and descents offer everything exactly once, through histories of faults, discards and several trackers."""
import collections
import random
import sys

from .. import bridge as B, searchlib as S, trk, world
from ..world import Violation

ID = 'C11'
LEVEL = 'exploration'
RULE = ('one evaluation = one bucket judged after one bootstrap or descent (every offer, matrix and count); non-trivial = a descent happened after a fault, a discard, '
        'with a nonzero power or over a batch boundary; distinct = distinct histories by content after every step')
STATES = 'digest of the whole tracker content after a history'
REAL = ['peyl.braidsearch.Tracker', 'peyl.bucketing.Tracker', 'peyl evaluation, enumeration and braid arithmetic', 'numpy', 'pandas']
STUB = ['memory allocation (numpy constructors called from /repo)', 'interrupt delivery at executed lines', 'random generator seeds']
ASSUMPTIONS = ['interrupts arrive outside insertions (an insertion is not claimed to be atomic against them)', 'a multi-step descent of the search tracker also offers shorter extensions']
CONFIG = dict(quick=dict(runs=1200, wall=240, repeat=8, run_wall=300), thorough=dict(runs=22000, wall=2400, repeat=50, run_wall=600))


def warm(tier):
    trk.warm()


def gen_exact(rng):
    """One bucket, because the representation is the trivial one, whose extensions come to a chosen number around a batch boundary."""
    cfg = trk.gen_cfg(rng, caps=(20000,), n=rng.choice([4, 4, 5]))
    cfg.update(r=0, max_batch=40000, kinds=cfg['kinds'][:1])
    if cfg['tracker'] == 'search':
        cfg['criterion'] = 'all'
        total = rng.choice([999, 1000, 1001, 1001, 1001, 1002, 2000, 2001])
    else:
        cfg.update(weight='none', method='GreedyFirst', keys=['length', 'projlen'])
        total = rng.choice([999, 1000, 1001, 2001] if rng.random() < 0.7 else [9999, 10000, 10001, 10001])
    return dict(trackers=[cfg], ops=[[0, 'exact', rng.randint(0, 10**6), total, rng.randint(3, 6)], [0, 'descend', 0, 1, None]], big=True)


def exact(sim, seed, total, length):
    """Distinct braids of one length that have so many one-factor extensions between them (nearly, if no choice gives exactly that)."""
    rng = random.Random(seed)
    kind, n = sim.cfg['kinds'][0], sim.n
    pool, have = {}, 0
    for _ in range(30 * total):
        if have >= total + 400:
            break
        b = B.rand_braid(rng, kind, n, length)
        k = len(B.follows(kind, b[3][-1])) if len(b[3]) == length else 0
        if k and b not in pool:
            pool[b] = k
            have += k
    sums = [1]                                             # the sums which the first so many of the pool can have, as bits
    for k in pool.values():
        sums.append(sums[-1] | sums[-1] << k)
    while total and not sums[-1] >> total & 1:
        total -= 1
    out, left = [], total
    for j, (b, k) in reversed(list(enumerate(pool.items()))):
        if left >= k and sums[j] >> (left - k) & 1 and (not sums[j] >> left & 1 or rng.random() < 0.5):
            out.append(b)
            left -= k
    return out, total


def gen(rng, tier, i):
    if i % 100 == 13 or rng.random() < 0.03:
        return gen_exact(rng)
    big = rng.random() < 0.05 or i % 100 == 7
    trackers = []
    for _ in range(1 if big else rng.choice([1, 1, 2])):
        cfg = trk.gen_cfg(rng, caps=(20000,) if big or rng.random() < 0.75 else (1, 2, 5, 20, 100, 500, 1000, 1001))
        if cfg['tracker'] == 'search':
            cfg['criterion'] = 'all' if rng.random() < 0.8 else 'length1'
        else:
            cfg['weight'] = 'none'
            cfg['method'] = rng.choice(trk.METHODS)
        if big:
            cfg['n'], cfg['r'] = rng.choice([(3, 0), (3, 1), (3, 1), (3, 1), (4, 0), (4, 0), (4, 1), (4, 2)]) if i % 100 != 7 else (3, 1)
            cfg['kinds'] = cfg['kinds'][:1]
            if 'nz' in cfg.get('keys', []):
                cfg['keys'] = ['length', 'projlen']
        else:
            if cfg['cap'] > 5000 and cfg['n'] == 5:
                cfg['cap'] = 2000
        cfg['max_batch'] = 40000 if big else 2500 if cfg['n'] < 6 else 800
        trackers.append(cfg)
    ops = []
    if big:
        n, k = trackers[0]['n'], trackers[0]['kinds'][0]
        L = {('G', 3): rng.choice([10, 11, 12, 13]), ('G', 4): 3, ('D', 3): rng.choice([10, 11, 12, 13]), ('D', 4): 4}[k, n]
        if i % 100 == 7:
            L = 13                             # more than ten thousand of one length
        if rng.random() < 0.5:
            ops = [[0, 'boot', 0, L, None]]
        else:
            ops = [[0, 'boot', 0, L - (n == 3) * 2, None], [0, 'descend', rng.randint(0, 99), 1, None]]
    else:
        for j in range(rng.randint(3, 9)):
            t = rng.randrange(len(trackers))
            n = trackers[t]['n']
            k = rng.random()
            s = rng.randint(0, 10**6)
            fault = None
            f = rng.random()
            if f < 0.12:
                fault = ['mem', rng.randint(1, 8)]
            elif f < 0.4:
                fault = ['line', int(10 ** rng.uniform(0, 4))]
            elif f < 0.5:
                fault = ['int', rng.randint(1, 3)]
            if j < 2 or k < 0.22:
                if rng.random() < 0.5:
                    ops.append([t, 'boot', s, rng.randint(1, {3: 5, 4: 2, 5: 1, 6: 1}[n]), fault])
                else:
                    ops.append([t, 'seed', s, rng.choice([1, 3, 10, 30]), rng.choice([1, 2, 3]) if rng.random() < 0.88 else 0])
            elif k < 0.85:
                ops.append([t, 'descend', s, rng.choice([1, 1, 1, 2, 2, 3]) if n == 3 else rng.choice([1, 1, 1, 2]) if n == 4 else 1, fault])
            else:
                ops.append([t, 'discard', s])
    return dict(trackers=trackers, ops=ops, big=big)


def shrink(plan):
    for i, op in enumerate(plan['ops']):
        if op[1] in ('boot', 'descend') and op[4] is not None:
            yield dict(plan, ops=plan['ops'][:i] + [[*op[:4], None]] + plan['ops'][i + 1:])
        if op[1] in ('boot', 'descend', 'seed', 'exact') and op[3] > 1:
            for v in {1, op[3] - 1} if op[1] != 'exact' else {1, op[3] // 2, op[3] - 1000, op[3] - 1} - {0}:
                if v > 0:
                    yield dict(plan, ops=plan['ops'][:i] + [[*op[:3], v, op[4]]] + plan['ops'][i + 1:])
    if len(plan['trackers']) == 2 and not any(op[0] == 1 for op in plan['ops']):
        yield dict(plan, trackers=plan['trackers'][:1])


OUTSIDE = ('nf_descendants', 'bootstrap_exhaustive')
WORDS = ('suffix', 'descend', 'boot', 'eval')


def insertion_on_stack(tracker):
    f = sys._getframe(3)
    while f is not None:
        if f.f_locals.get('self') is tracker:
            nm = f.f_code.co_name
            if nm not in OUTSIDE and not any(w in nm for w in WORDS):
                return True
        f = f.f_back
    return False


class LineInt:
    """Raises KeyboardInterrupt at the k-th executed /repo line that is not part of an insertion."""

    def __init__(self, sim, k):
        self.sim, self.left, self.fired = sim, k, None

    def __call__(self, count, code, line):
        if self.left is None:
            return
        if self.left > 1:
            self.left -= 1
            return
        if insertion_on_stack(self.sim.t):
            return
        self.left = None
        self.fired = f'{code.co_name}'
        raise KeyboardInterrupt('simulated')


def run(plan):
    stats = collections.Counter()
    al = trk.Allocs()
    al.install()
    sims = [trk.TrackSim(cfg, stats) for cfg in plan['trackers']]
    logs = []
    nontrivial = plan['big']
    for i, op in enumerate(plan['ops']):
        sim = sims[op[0]]
        where = f'after step {i} {op[1]}'
        if op[1] == 'seed':
            rng = random.Random(op[2])
            kind = rng.choice(sim.cfg['kinds'])
            power = None if rng.random() < 0.8 else 0
            bs = [B.rand_braid(rng, kind, sim.n, op[4], power) for _ in range(op[3])]
            sim.add(bs)
            sim.offer(bs)
            res = 'done'
        elif op[1] == 'exact':
            bs, have = exact(sim, *op[2:5])
            sim.add(bs)
            sim.offer(bs)
            stats['probe:' + ('buckets with a chosen number of extensions' if have == op[3] else 'number of extensions not reached')] += 1
            res = 'done'
        elif op[1] == 'discard':
            res = sim.apply(['discard', op[2]])
            nontrivial = True
        elif op[1] == 'boot':
            res = attempt(sim, ['boot', op[2], op[3]], op[4], al, stats, None)
        else:
            tags = sim.tags()
            if not tags:
                continue
            parent = tags[op[2] % len(tags)]
            if any(b[2] for b in sim.held(parent)[0]):
                stats['probe:descents of braids with nonzero power'] += 1
                nontrivial = True
            res = attempt(sim, ['descend', op[2], op[3]], op[4], al, stats, parent)
        nontrivial |= res in ('cut short', 'redone')
        for s in sims:
            s.check(where + f' ({res})', deep=False)
        logs.append((op[1], res, [S.h(s.digest()) for s in sims]))
        stats[f'probe:{op[1]} {res}'] += 1
    dig = S.h(logs)
    return dict(stats=stats, digest=dig, simtime=0.0, nontrivial=nontrivial, states=[logs[-1][2][0]] if logs else [],
                sample=dict(trackers=[{k: c.get(k) for k in ('tracker', 'n', 'r', 'p', 'cap', 'kinds')} for c in plan['trackers']],
                            ops=[(a, b) for a, b, _ in logs], buckets=[len(s.cells) for s in sims]))


def attempt(sim, op, fault, al, stats, parent):
    """A bootstrap or descent; when a fault cuts it short, everything but the parent bucket is discarded and it is done again."""
    if fault is None:
        return once(sim, op)
    if fault[0] == 'line':
        li = LineInt(sim, fault[1])
        with world.Steps(None, lines=True, on_line=li):
            res = sim.apply(op)
        if li.fired:
            stats['fault:interrupt at an executed line'] += 1
            stats['probe:interrupt in ' + li.fired] += 1
    else:
        res = sim.apply(op, [0, *fault], al)
    if res != 'cut short':
        return res
    sim.check('after an interrupted step', deep=False)
    tags = sim.tags()
    held = {t: sim.held(t)[0] for t in tags}
    for t in tags:
        if t != parent:
            sim.t.discard_bucket(t)
            sim.cells.pop(t, None)
            sim.discarded.add(t)
    for t in [t for t in sim.cells if t != parent]:
        sim.cells.pop(t)
        sim.discarded.add(t)
    # the discarded buckets counted again from nothing: the new ones are judged by what the repetition offers
    again = ['descend', 0, op[2]] if op[0] == 'descend' else op
    return 'redone' if once(sim, again) == 'done' else 'skipped'


def once(sim, op):
    """Offers seen at the public insertion method must not repeat (what goes another way is judged by contents and counts)."""
    due = sim.run_op(op)
    seen = []
    sim.seen = seen
    try:
        res = sim.apply(op)
    finally:
        sim.seen = None
    if res == 'done' and due[1]:
        c, want = collections.Counter(map(B.from_lib, seen)), collections.Counter(due[0])
        for b in c:
            if c[b] > want[b]:
                raise Violation('offered-twice', f'{op[0]}: {B.show(b)} was offered {c[b]} times instead of {want[b]}')
    return res
