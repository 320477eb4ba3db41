"""C09: what uniform reservoirs keep, over many generator seeds of one offering history."""
import collections
import random

import numpy as np

from .. import bridge as B, ref, reservoir as R, trk, world
from ..world import Violation

ID = 'C09'
LEVEL = 'exploration'
RULE = ('one evaluation = one simulated history (one generator seed) of one bucket; non-trivial = the bucket was offered more than it can hold; '
        'distinct = distinct kept subsets')
STATES = 'digest of the tally of kept subsets'
REAL = ['peyl.braidsearch.Tracker', 'peyl.bucketing.Tracker', 'peyl evaluation', 'numpy', 'pandas']
STUB = ['random generator (seeded Mersenne Twister or a seeded hash chain)', 'process-wide generators (reseeded by the simulator)', 'user callbacks (may fail)']
ASSUMPTIONS = ['offers are distinct braids; each statistical test has a false-alarm probability below 1e-11 per tested quantity (Chernoff bound) or lies '
               'beyond 8 standard deviations']
CONFIG = dict(quick=dict(runs=130, wall=240, repeat=6, run_wall=300), thorough=dict(runs=3000, wall=2400, repeat=30, run_wall=600))


def warm(tier):
    trk.warm()


def gen(rng, tier, i):
    tracker = rng.choice(['search', 'bucketing'])
    n = rng.choice([3, 3, 4, 4, 5])
    mode = rng.choice(['plain', 'plain', 'plain', 'large', 'large', 'boot', 'descend', 'discard', 'fail'])
    kind = 'G' if tracker == 'search' else rng.choice('GD')
    plan = dict(tracker=tracker, mode=mode, n=n, r=rng.randint(0, n // 2), p=rng.choice([0, 2, 3, 5]), kind=kind, gens=rng.choice(['mt', 'mt', 'other']),
                pool=rng.randint(0, 10**6), seed=rng.randint(0, 10**9), order=rng.choice(['given', 'reversed', 'shuffled', 'tag']),
                batch=rng.choice(['all', 'one', 'random', 'random', 'halves']), others=rng.choice([0, 0, 3, 10]), twin=rng.random() < 0.25,
                filter=tracker == 'search' and rng.random() < 0.3, weight=tracker == 'bucketing' and rng.random() < 0.5)
    k = rng.random()
    if mode == 'large':
        plan.update(cap=rng.choice([20, 50, 100, 300, 500]), N=rng.choice([600, 1200, 2500, 4000]), trials=100 if tier == 'quick' else 600, n=4, batch=rng.choice(['all', 'random', 'halves']))
        plan['r'] = rng.choice([0, 0, 1, 2])
    elif mode in ('boot', 'descend'):
        n = plan['n'] = rng.choice([3, 3, 4])
        plan['r'] = rng.choice([0, 0, 1])
        plan.update(cap=rng.choice([1, 2, 3, 5, 8]), N=0, upto={3: rng.choice([2, 3]), 4: 1}[n], trials=400 if tier == 'quick' else 3000)
    else:
        N = rng.randint(2, 6) if k < 0.5 else rng.randint(4, 14) if k < 0.85 else rng.randint(12, 40)
        plan.update(N=N, cap=rng.randint(1, N - 1), trials=(1500 if tracker == 'search' else 5000) * (1 if tier == 'quick' else 5))
        if plan['batch'] == 'one' and tracker == 'search':
            plan['trials'] //= 3
    return plan


def shrink(plan):
    for k in ('twin', 'filter', 'weight'):
        if plan[k]:
            yield dict(plan, **{k: False})
    if plan['others']:
        yield dict(plan, others=0)
    if plan['batch'] != 'all':
        yield dict(plan, batch='all')
    if plan['order'] != 'given':
        yield dict(plan, order='given')
    if plan['mode'] == 'plain':
        for N in range(2, plan['N']):
            yield dict(plan, N=N, cap=min(plan['cap'], N - 1))
    for t in (plan['trials'] // 8, plan['trials'] // 2):
        if t >= 100:
            yield dict(plan, trials=t)


def pick_braids(plan):
    """Braids of one bucket (the offers), and braids of other buckets mixed in."""
    rng = random.Random(plan['pool'])
    n, r, p, kind = plan['n'], plan['r'], plan['p'], plan['kind']
    need = plan['N']
    if plan['mode'] == 'large':
        L = 3 if kind == 'G' else 4
        pool = [b for power in range(6) for b in B.all_of_length(kind, n, L, power)]
        if len(pool) > 6000:
            pool = rng.sample(pool, 6000)
    else:
        pool, seen = [], set()
        for _ in range(800):
            b = B.rand_braid(rng, kind, n, rng.randint(1, 3), power=rng.choice([0, 0, 1, -1, 2]))
            if b not in seen:
                seen.add(b)
                pool.append(b)
    by = collections.defaultdict(list)
    for b in pool:
        by[len(b[3]), B.projlen(n, r, p, b)].append(b)
    tags = sorted(by, key=lambda t: (-len(by[t]), t))
    ok = [t for t in tags if len(by[t]) >= need] or tags[:1]
    if plan['mode'] == 'large':
        ok = tags[:1]
    tag = rng.choice(ok)
    main = by[tag][:need]
    rng.shuffle(main)
    others = [b for t in tags if t != tag for b in by[t]]
    others = rng.sample(others, min(len(others), plan['others']))
    return tag, main, others


def arrange(plan, tag, main, others, key):
    rng = random.Random(plan['pool'] + 1)
    seq = list(range(len(main) + len(others)))
    if plan['order'] == 'reversed':
        seq.reverse()
    elif plan['order'] == 'shuffled':
        rng.shuffle(seq)
    elif plan['order'] == 'tag':
        seq.sort(key=key)
    if plan['batch'] == 'all':
        return [seq]
    if plan['batch'] == 'one':
        return [[i] for i in seq]
    cut = len(seq) // 2
    if plan['batch'] == 'halves':
        return [x for x in (seq[:cut], seq[cut:]) if x]
    out, i = [], 0
    while i < len(seq):
        m = rng.choice([1, 2, 3, 7, 20, 100, 400]) if len(seq) > 40 else rng.choice([1, 1, 2, 3, 5, 9])
        out.append(seq[i:i + m])
        i += m
    return out


class Boom(Exception):
    pass


def run(plan):
    stats = collections.Counter()
    n, r, p = plan['n'], plan['r'], plan['p']
    random.seed(plan['seed'])
    np.random.seed(plan['seed'] % 2**32)
    if plan['mode'] in ('boot', 'descend'):
        return run_offers(plan, stats)
    tag, main, others = pick_braids(plan)
    src = R.Source(plan['tracker'], n, r, p, plan['kind'], main + others)
    batches = arrange(plan, tag, main, others, lambda i: (src.tag[i], i))
    odd = {}
    fail = [False]
    if plan['filter']:
        nz = [int(np.count_nonzero(B.image(n, r, p, b))) for b in src.braids]
        want = [x % 2 == (nz[0] % 2) for x in nz]
        parity = nz[0] % 2

        def criterion(df):
            if fail[0]:
                raise Boom('simulated failure of a user callback')
            return df['nz_terms'] % 2 == parity
    else:
        want = [True] * len(src.braids)

        def criterion(df):
            if fail[0]:
                raise Boom('simulated failure of a user callback')
            return df['length'] >= 0

    def weight(x):
        if fail[0]:
            raise Boom('simulated failure of a user callback')
        if not plan['weight']:
            return 1.0
        return float(1 + src.index[x] % 5) * 1000 ** (src.index[x] % 3 - 1)
    cap = plan['cap']
    order = {}
    for bt in batches:
        for i in bt:
            if want[i]:
                order.setdefault(src.tag[i], []).append(i)
    tallies = {t: (R.Tally(len(o), min(cap, len(o)), pairs=plan['mode'] != 'large'), {i: j for j, i in enumerate(o)}) for t, o in order.items()}
    seeds = random.Random(plan['seed'] + 1)
    prefill = batches[0][: max(1, len(batches[0]) // 2)]
    for trial in range(plan['trials']):
        s = seeds.getrandbits(48)
        g = R.generator(plan['gens'], s)
        t = src.make(cap, 'Uniform', g, weight, criterion)
        twin = src.make(cap, 'Uniform', R.generator('mt', 12345), weight, criterion) if plan['twin'] else None
        before = random.getstate() if trial % 64 == 0 else None
        nbefore = np.random.get_state()[1].tobytes() if trial % 64 == 0 else None
        if plan['mode'] == 'discard':
            for bt in batches:
                src.offer(t, bt)
            for x in sorted({src.tag[i] for i in range(len(src.braids))}):
                t.discard_bucket(x)
            if trial % 2:
                src.offer(t, prefill)
                for x in sorted({src.tag[i] for i in prefill}):
                    t.discard_bucket(x)
        for bi, bt in enumerate(batches):
            if plan['mode'] == 'fail' and (bi + trial) % 2 == 0:
                fail[0] = True
                try:
                    src.offer(t, bt)
                except Boom:
                    stats['fault:user callback fails'] += 1
                else:
                    raise world.HarnessError('callback not called')
                finally:
                    fail[0] = False
            src.offer(t, bt)
            if twin is not None:
                src.offer(twin, bt)
        if before is not None:
            if random.getstate() != before or np.random.get_state()[1].tobytes() != nbefore:
                raise Violation('disturbs-global-randomness', 'inserting braids used or changed a process-wide random generator')
        kept = {}
        for x, (tally, pos) in tallies.items():
            k = src.held(t, x)
            if len(set(k)) != len(k) or len(k) != tally.k or any(i not in pos for i in k):
                raise Violation('not-a-subset', f'bucket {x} of capacity {cap} holds {len(k)} braids ({len(set(k))} distinct) after {tally.N} offers')
            tally.add([pos[i] for i in k])
            kept[x] = k
        if trial % 64 == 0:
            # the same generator state again, in a different process-wide state
            R.noise()
            t2 = src.make(cap, 'Uniform', R.generator(plan['gens'], s), weight, criterion)
            if plan['mode'] == 'discard':
                continue
            for bt in batches:
                src.offer(t2, bt)
            if plan['mode'] != 'fail' and any(src.held(t2, x) != kept[x] for x in tallies):
                raise Violation('other-chance', 'the same generator state and offers kept different braids')
            stats['probe:repeated under other process-wide randomness'] += 1
        stats['evaluations'] += len(tallies)
    return judge(plan, stats, tallies)


def judge(plan, stats, tallies):
    tests = 0
    trivial = True
    pooled = collections.defaultdict(list)
    for x, (tally, _) in sorted(tallies.items()):
        tests += tally.uniform(f'{plan["tracker"]} tracker, bucket {x}')
        if tally.N > tally.k:
            trivial = False
            pooled[tally.N, tally.k].append(tally)
    # all buckets together: early against late offers
    num = var = 0.0
    for (N, k), ts in pooled.items():
        for t in ts:
            num += (t.rank - t.T * k * (N - 1) / 2) / N
            var += t.T * k * (N - k) * (N + 1) / 12 / N**2
    if var * 12 > 400:
        R.gauss(num / var**0.5, 'not-uniform', f'{plan["tracker"]} tracker, {sum(map(len, pooled.values()))} buckets together: mean rank of kept offers')
    stats['probe:statistical tests'] += tests
    stats['probe:mode ' + plan['mode']] += 1
    dig = world_digest(tallies)
    stats['distinct'] += sum(len(t.sets) if t.sets is not None else int((t.c > 0).sum()) for t, _ in tallies.values())
    return dict(stats=stats, digest=dig, simtime=0.0, nontrivial=not trivial, states=[dig],
                sample=dict(tracker=plan['tracker'], mode=plan['mode'], cap=plan['cap'], trials=plan['trials'],
                            buckets=[[str(x), t.N, t.k] for x, (t, _) in sorted(tallies.items())][:6]))


def world_digest(tallies):
    from .. import searchlib as S
    return S.h([(x, t.c.tolist(), t.rank) for x, (t, _) in sorted(tallies.items())])


def run_offers(plan, stats):
    """The offers are made by the tracker's own bootstraps and descents."""
    n, r, p, kind, cap = plan['n'], plan['r'], plan['p'], plan['kind'], plan['cap']
    base = [b for L in range(1, plan['upto'] + 1) for b in B.all_of_length(kind, n, L)]
    src = R.Source(plan['tracker'], n, r, p, kind, base)
    from peyl.braid import DGNF, GNF

    def boot(t):
        if plan['tracker'] == 'search':
            t.bootstrap_exhaustive(upto_length=plan['upto'])
        else:
            t.bootstrap_exhaustive(GNF if kind == 'G' else DGNF, plan['upto'])
    seeds = random.Random(plan['seed'] + 1)
    if plan['mode'] == 'descend':
        # parents: everything of the last length, in one or several buckets, all of them fitting; their children overflow
        parents = [i for i, b in enumerate(base) if len(b[3]) == plan['upto']]
        kids = [e for i in parents for e in B.extensions(base[i], 1)]
        kidsrc = R.Source(plan['tracker'], n, r, p, kind, kids)
        by = collections.Counter(src.tag[i] for i in parents)
        cap = plan['cap'] = max(cap, max(by.values()))
    else:
        kidsrc = src
    order = {}
    for i in range(len(kidsrc.braids)):
        order.setdefault(kidsrc.tag[i], []).append(i)
    tallies = {t: (R.Tally(len(o), min(cap, len(o))), {i: j for j, i in enumerate(o)}) for t, o in order.items()}
    for trial in range(plan['trials']):
        g = R.generator(plan['gens'], seeds.getrandbits(48))
        t = src.make(cap, 'Uniform', g)
        if plan['mode'] == 'boot':
            boot(t)
        else:
            src.offer(t, parents)
            for x in sorted({src.tag[i] for i in parents}):
                t.nf_descendants(x, length=1)
        for x, (tally, pos) in tallies.items():
            k = kidsrc.held(t, x)
            if len(set(k)) != len(k) or len(k) != tally.k:
                raise Violation('not-a-subset', f'bucket {x} of capacity {cap} holds {len(k)} braids ({len(set(k))} distinct) after {tally.N} offers')
            tally.add([pos[i] for i in k])
        stats['evaluations'] += len(tallies)
    return judge(plan, stats, tallies)
