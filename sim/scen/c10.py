"""C10: retention policies: first-come and evict-minimum exactly, weighted (A-Chao) by its law, under faults between and inside insertions."""
import collections
import math
import random

import numpy as np

from .. import bridge as B, ref, reservoir as R, searchlib as S, trk, world
from ..world import Violation
from . import c09

ID = 'C10'
LEVEL = 'exploration'
RULE = ('one evaluation = one bucket judged (exact policies: after a step of a history; weighted policy: at the end of one simulated history); '
        'non-trivial = the bucket was offered more than it can hold; distinct = distinct histories or kept subsets')
STATES = 'digest of bucket contents (exact policies) or of the tally of kept subsets (weighted policy)'
REAL = ['peyl.bucketing.Tracker', 'peyl.braidsearch.Tracker', 'peyl evaluation', 'numpy']
STUB = ['random generator (seeded Mersenne Twister or a seeded hash chain)', 'memory allocation (numpy constructors called from /repo)', 'interrupt delivery',
        'user weight callback (may fail)']
ASSUMPTIONS = ['weights are finite and not negative', 'each statistical test has a false-alarm probability below 1e-11 per tested quantity (Chernoff bound) or lies '
               'beyond 8 standard deviations', 'braids of a failed batch that reached a bucket reached it in offering order and were counted; at most the one insertion in progress was counted and not made']
CONFIG = dict(quick=dict(runs=900, wall=240, repeat=8, run_wall=300), thorough=dict(runs=16000, wall=2400, repeat=40, run_wall=600))
STYLES = ['one', 'length', 'zeros', 'wide', 'close', 'few', 'other', 'allzero', 'growing', 'shrinking', 'heavy', 'tenth']


def warm(tier):
    trk.warm()


def gen(rng, tier, i):
    n = rng.choice([3, 3, 4, 4, 5])
    plan = dict(n=n, r=rng.randint(0, n // 2), p=rng.choice([0, 2, 3, 5]), pool=rng.randint(0, 10**6), seed=rng.randint(0, 10**9),
                order=rng.choice(['given', 'reversed', 'shuffled', 'tag']), batch=rng.choice(['all', 'one', 'random', 'random', 'halves']),
                others=rng.choice([0, 3, 10]), style=rng.choice(STYLES), gens=rng.choice(['mt', 'other']), mode='plain')
    if i % 8 == 0:
        k = rng.random()
        N = rng.randint(2, 5) if k < 0.5 else rng.randint(4, 12) if k < 0.85 else rng.randint(12, 35)
        plan.update(law=True, tracker='bucketing', kind=rng.choice('GD'), N=N, cap=rng.randint(1, N - 1), trials=5000 if tier == 'quick' else 20000,
                    discard=rng.random() < 0.2)
        return plan
    tracker = rng.choice(['bucketing', 'bucketing', 'bucketing', 'search'])
    plan.update(law=False, tracker=tracker, kind='G' if tracker == 'search' else rng.choice('GD'), method='GreedyFirst' if tracker == 'search' else rng.choice(['GreedyFirst', 'EvictMin']),
                N=rng.choice([5, 20, 60, 200]), dup=rng.choice([0, 0, 0.2, 0.6]), rand=rng.choice([None, 1]) if tracker == 'bucketing' else None)
    plan['cap'] = rng.choice([1, 2, 3, 5, 10, 30])
    faults = []
    if rng.random() < 0.6:
        for _ in range(rng.randint(1, 5)):
            kind = rng.choice(['mem', 'mem', 'callback', 'interrupt', 'discard', 'global'])
            faults.append([rng.randint(0, 30), kind, rng.randint(1, 6) if kind == 'mem' else rng.randint(0, 5)])
    plan['faults'] = faults
    if rng.random() < 0.4:
        plan['boot'] = {3: rng.randint(1, 3), 4: 1, 5: 1}[n]     # bootstraps and descents offer too
    return plan


def shrink(plan):
    if plan['others']:
        yield dict(plan, others=0)
    if plan['batch'] != 'all':
        yield dict(plan, batch='all')
    if plan['law']:
        for N in range(2, plan['N']):
            yield dict(plan, N=N, cap=min(plan['cap'], N - 1))
        for t in (plan['trials'] // 8, plan['trials'] // 2):
            if t >= 100:
                yield dict(plan, trials=t)
        return
    for i in range(len(plan['faults'])):
        yield dict(plan, faults=plan['faults'][:i] + plan['faults'][i + 1:])
    for N in (1, 2, 3, 5, 10, 20):
        if N < plan['N']:
            yield dict(plan, N=N)
    for c in (1, 2, 3):
        if c < plan['cap']:
            yield dict(plan, cap=c)
    if plan['dup']:
        yield dict(plan, dup=0)


def weights_for(plan, braids):
    style, N = plan['style'], len(braids)
    out = []
    for i, b in enumerate(braids):
        if style == 'growing':
            w = float(i + 1)
        elif style == 'shrinking':
            w = float(N - i)
        elif style == 'heavy':
            w = 1000.0 if i % 5 == 3 else 1.0
        elif style == 'tenth':
            w = 0.1
        else:
            w = trk.weight_of(style, b)
        out.append(w)
    return out


def stored_weights(t, tag):
    bucket = getattr(t, 'buckets', {})
    bucket = bucket.get(tag) if isinstance(bucket, dict) else None
    w = getattr(bucket, 'weights', None)
    return w


def run(plan):
    random.seed(plan['seed'])
    np.random.seed(plan['seed'] % 2**32)
    return run_law(plan) if plan['law'] else run_exact(plan)


# ------------------------------------------------------------------------------------------------ the weighted policy

def run_law(plan):
    stats = collections.Counter()
    tag, main, others = c09.pick_braids(plan)
    src = R.Source('bucketing', plan['n'], plan['r'], plan['p'], plan['kind'], main + others)
    ws = weights_for(plan, src.braids)
    batches = c09.arrange(plan, tag, main, others, lambda i: (src.tag[i], i))
    mid = random.Random(plan['pool']).randrange(len(batches))
    cap = plan['cap']
    orders = [{}, {}]
    for bi, bt in enumerate(batches):
        for i in bt:
            orders[1].setdefault(src.tag[i], []).append(i)
            if bi <= mid:
                orders[0].setdefault(src.tag[i], []).append(i)
    tallies = [{t: (R.Tally(len(o), min(cap, len(o))), {i: j for j, i in enumerate(o)}, R.chao_law([ws[i] for i in o], cap)) for t, o in od.items()} for od in orders]
    weight = lambda x: ws[src.index[x]]
    seeds = random.Random(plan['seed'] + 1)
    for trial in range(plan['trials']):
        t = src.make(cap, 'AChao', R.generator(plan['gens'], seeds.getrandbits(48)), weight)
        if plan['discard']:
            for bt in batches:
                src.offer(t, bt)
            for x in sorted(set(src.tag)):
                t.discard_bucket(x)
        check = trial % 50 == 0
        before = random.getstate() if check else None
        for bi, bt in enumerate(batches):
            src.offer(t, bt)
            if bi == mid or bi == len(batches) - 1:
                # when both coincide the first tally stays empty
                for x, (tally, pos, _) in tallies[0 if bi == mid and bi != len(batches) - 1 else 1].items():
                    k = src.held(t, x)
                    if len(set(k)) != len(k) or len(k) != tally.k or any(i not in pos for i in k):
                        raise Violation('not-a-subset', f'bucket {x} of capacity {cap} holds {len(k)} braids ({len(set(k))} distinct) after {tally.N} offers')
                    tally.add([pos[i] for i in k])
                    stats['evaluations'] += 1
                    if check:
                        judge_weights(src, t, x, k, ws)
        if check and random.getstate() != before:
            raise Violation('disturbs-global-randomness', 'inserting braids used or changed the process-wide random generator')
    tests = 0
    nontrivial = False
    dig = []
    for tl in tallies:
        for x, (tally, pos, (p, inc, pair)) in sorted(tl.items()):
            if not tally.T:
                continue
            dig.append((x, tally.c.tolist(), tally.rank))
            stats['distinct'] += len(tally.sets) if tally.sets is not None else int((tally.c > 0).sum())
            if tally.N <= tally.k:
                continue
            nontrivial = True
            where = f'bucket {x} of capacity {cap}, weights {plan["style"]}'
            o = sorted(pos, key=pos.get)
            for i in range(tally.N):
                R.binomial(int(tally.c[i]), tally.T, inc[i], tally.N, 'not-weighted', f'{where}: offer {i + 1} of {tally.N} (weight {ws[o[i]]:g} of {sum(ws[j] for j in o[:i + 1]):g} seen) held at the end')
                tests += 1
            if pair and tally.k >= 2:
                for (i, j), pi in pair.items():
                    R.binomial(int(tally.pairs[i, j]), tally.T, min(1.0, max(0.0, pi)), tally.N**2, 'not-weighted', f'{where}: offers {i + 1} and {j + 1} of {tally.N} both held at the end')
                    tests += 1
            if pair:
                for name, a in (('position', list(range(tally.N))), ('log weight', [math.log1p(ws[i]) for i in o])):
                    m = sum(x * y for x, y in zip(a, inc))
                    var = sum(a[i]**2 * inc[i] * (1 - inc[i]) for i in range(tally.N))
                    if tally.k == 1:
                        var += 2 * sum(a[i] * a[j] * (0 - inc[i] * inc[j]) for i in range(tally.N) for j in range(i + 1, tally.N))
                    else:
                        var += 2 * sum(a[i] * a[j] * (pi - inc[i] * inc[j]) for (i, j), pi in pair.items())
                    sc = max(abs(v) for v in a) or 1
                    if var / sc**2 * tally.T > 300:
                        tot = sum(a[i] * int(tally.c[i]) for i in range(tally.N))
                        R.gauss((tot - tally.T * m) / math.sqrt(var * tally.T), 'not-weighted', f'{where}: mean {name} of the held offers over {tally.T} trials')
                        tests += 1
    stats['probe:statistical tests'] += tests
    stats['probe:weighted histories ' + plan['style']] += plan['trials']
    d = S.h(dig)
    return dict(stats=stats, digest=d, simtime=0.0, nontrivial=nontrivial, states=[d],
                sample=dict(method='AChao', cap=cap, trials=plan['trials'], style=plan['style'], batches=[len(b) for b in batches][:10]))


def judge_weights(src, t, tag, held, ws):
    w = stored_weights(t, tag)
    if w is None:
        return
    w = [float(x) for x in w[:len(held)]]
    for i, (a, j) in enumerate(zip(w, held)):
        if a != ws[j]:
            raise Violation('weight-misplaced', f'bucket {tag} entry {i} has stored weight {a}, the braid there weighs {ws[j]}')


# ------------------------------------------------------------------------------------------------ the exact policies

class Boom(Exception):
    pass


def run_exact(plan):
    stats = collections.Counter()
    n, r, p = plan['n'], plan['r'], plan['p']
    rng = random.Random(plan['pool'])
    tag, main, others = c09.pick_braids(plan)
    braids = list(main + others)
    if plan.get('boot'):
        braids = [b for L in range(1, plan['boot'] + 2) for b in B.all_of_length(plan['kind'], n, L)] + braids
        braids = list(dict.fromkeys(braids))
    src = R.Source(plan['tracker'], n, r, p, plan['kind'], braids)
    ws = weights_for(plan, braids)
    fail = [False]

    def weight(x):
        if fail[0]:
            raise Boom('simulated failure of a user callback')
        return ws[src.index[x]]

    def criterion(df):
        if fail[0]:
            raise Boom('simulated failure of a user callback')
        return df['length'] >= 0
    al = trk.Allocs()
    al.install()
    method, cap = plan['method'], plan['cap']
    t = src.make(cap, method, random.Random(plan['rand']) if plan['rand'] is not None else None, weight, criterion)
    start = src.index[B.to_lib(main[0])]
    base = [src.index[B.to_lib(b)] for b in main + others]
    batches = [[base[i] for i in bt] for bt in c09.arrange(plan, tag, main, others, lambda i: (src.tag[base[i]], i))]
    if plan['dup']:
        seen, out = [], []
        for bt in batches:
            nb = []
            for i in bt:
                while seen and rng.random() < plan['dup']:
                    nb.append(rng.choice(seen))
                nb.append(i)
                seen.append(i)
            out.append(nb)
        batches = out
    steps = [('add', bt) for bt in batches]
    if plan.get('boot'):
        steps.insert(rng.randint(0, len(steps)), ('boot', None))
        steps.insert(rng.randint(1, len(steps)), ('descend', rng.randint(0, 10**6)))
    offered = {}                    # tag -> indices offered since the bucket came into being
    lost = collections.Counter()    # tag -> offers counted whose insertion was cut short by a failing allocation
    logs = []
    nontrivial = False
    for si, (what, arg) in enumerate(steps):
        todo = [f for f in plan['faults'] if f[0] == si]
        for f in todo:
            if f[1] == 'global':
                R.noise()
                stats['fault:process-wide generators reseeded'] += 1
            elif f[1] == 'discard' and offered:
                x = sorted(offered)[f[2] % len(offered)]
                t.discard_bucket(x)
                del offered[x]
                lost.pop(x, None)
                stats['fault:bucket discarded'] += 1
            elif f[1] == 'interrupt':
                stats['fault:interrupt before an insertion'] += 1
            elif f[1] == 'callback':
                bt = arg if what == 'add' else [start]
                fail[0] = True
                try:
                    src.offer(t, bt)
                    raise world.HarnessError('callback not called')
                except Boom:
                    stats['fault:user callback fails'] += 1
                finally:
                    fail[0] = False
        mem = next((f for f in todo if f[1] == 'mem'), None)
        if what == 'add':
            idx, go = arg, lambda: src.offer(t, arg)
        elif what == 'boot':
            expect = sum(len(B.all_of_length(plan['kind'], n, L)) for L in range(1, plan['boot'] + 1))
            from peyl.braid import DGNF, GNF
            idx = None
            go = (lambda: t.bootstrap_exhaustive(upto_length=plan['boot'])) if plan['tracker'] == 'search' else \
                (lambda: t.bootstrap_exhaustive(GNF if plan['kind'] == 'G' else DGNF, plan['boot']))
        else:
            tags = [x for x in sorted(offered) if x[0] <= plan['boot']]
            if not tags:
                continue
            x = tags[arg % len(tags)]
            held = src.held(t, x)
            if any(B.extensions(src.braids[i], 1) and B.to_lib(e) not in src.index for i in held for e in B.extensions(src.braids[i], 1)):
                continue
            expect = sum(len(B.extensions(src.braids[i], 1)) for i in held)
            idx, go = None, lambda: t.nf_descendants(x, length=1)
        # what the tracker itself offers, in the order it offers it, is seen at its public insertion method
        seen_calls = []
        if idx is None:
            real = t.add_braids_images

            def spy(bs, images, real=real):
                seen_calls.append([src.index[y] for y in bs])
                return real(bs, images)
            t.add_braids_images = spy
        if mem:
            al.arm(mem[2])
        failed = False
        try:
            go()
        except MemoryError as e:
            if 'simulated' not in str(e):
                raise
            failed = True
            stats['fault:allocation of at least 4 kB fails'] += 1
        finally:
            al.disarm()
            if idx is None:
                del t.add_braids_images
        if idx is None and (failed or sum(map(len, seen_calls)) != expect):
            # not every insertion went through the public method in view: the order of offers is unknown, so start over (completeness is C11's)
            for y in [tuple(z) for z in t.stats()['bucket']]:
                t.discard_bucket(y)
            offered.clear()
            lost.clear()
            stats['probe:started over with empty buckets'] += 1
            continue
        flat = idx if idx is not None else [i for c in seen_calls for i in c]
        by = {}
        for i in flat:
            by.setdefault(src.tag[i], []).append(i)
        counts = offer_counts(t)
        for x, lst in by.items():
            if failed:
                if x not in counts:
                    lst = []
                else:
                    got = counts[x] - lost[x] - len(offered.get(x, []))
                    if not 0 <= got <= len(lst):
                        raise Violation('count-wrong', f'bucket {x} counted {counts[x]} offers after a failed batch, at most {len(lst) + len(offered.get(x, [])) + lost[x]} were made')
                    lst = lst[:got]
            if lst:
                offered.setdefault(x, []).extend(lst)
        where = f'after step {si} ({what})'
        spare = 1 if failed else 0      # the one insertion the failing allocation cut short may be counted without being made
        for x, lst in sorted(offered.items()):
            if x not in counts:
                raise Violation('offered-not-kept', f'{where}: bucket {x} was offered {len(lst)} braids and does not exist')
            held = src.held(t, x)
            stats['evaluations'] += 1
            if len(lst) > cap:
                nontrivial = True
            try:
                judge_policy(plan, src, method, cap, x, lst, held, ws, where)
            except Violation:
                if not spare or x not in by or len(lst) < 2:
                    raise
                judge_policy(plan, src, method, cap, x, lst[:-1], held, ws, where)
                lst.pop()
                lost[x] += 1
                spare = 0
                stats['probe:insertion cut short after counting'] += 1
            judge_images(src, t, x, held, where)
            if plan['tracker'] == 'bucketing':
                judge_weights(src, t, x, held, ws)
        logs.append((what, failed, {str(x): src.held(t, x) for x in offered}))
    stats['probe:' + method + ' histories'] += 1
    d = S.h(logs)
    return dict(stats=stats, digest=d, simtime=0.0, nontrivial=nontrivial, states=[d],
                sample=dict(method=method, tracker=plan['tracker'], cap=cap, steps=[(w, len(a) if isinstance(a, list) else None) for w, a in steps][:10], faults=plan['faults']))


def offer_counts(t):
    if hasattr(t, 'stats_reservoir'):
        return {tuple(x['bucket']): int(x['reservoir_count']) for x in t.stats_reservoir().to_dict('records') if x['bucket'] in {tuple(y) for y in t.stats()['bucket']}}
    return {tuple(x['bucket']): int(x['reservoir_count']) for x in t.stats().to_dict('records')}


def judge_policy(plan, src, method, cap, x, lst, held, ws, where):
    if method == 'GreedyFirst':
        want = list(dict.fromkeys(lst))[:cap] if plan['tracker'] == 'search' else lst[:cap]
        if held != want:
            k = next((i for i, (a, b) in enumerate(zip(held, want)) if a != b), min(len(held), len(want)))
            raise Violation('not-first-come', f'{where}: bucket {x} of capacity {cap} was offered {len(lst)} braids and holds {len(held)}; entry {k} is not the braid offered {k + 1}-th')
        return
    top = sorted((ws[i] for i in lst), reverse=True)[:cap]
    got = sorted((ws[i] for i in held), reverse=True)
    if got != top:
        raise Violation('not-greatest-weights', f'{where}: bucket {x} of capacity {cap}, {len(lst)} offers: holds weights {got[:8]}, the greatest offered are {top[:8]}')
    have, off = collections.Counter(held), collections.Counter(lst)
    if any(have[i] > off[i] for i in have):
        raise Violation('duplicate-in-bucket', f'{where}: bucket {x} holds a braid more often than it was offered')


def judge_images(src, t, x, held, where):
    images = t.bucket_braids_images(x)[1]
    for i, j in enumerate(held):
        if not B.same_image(images[i], B.image(src.n, src.r, src.p, src.braids[j])):
            raise Violation('image-mismatch', f'{where}: bucket {x} entry {i}: the matrix beside {B.show(src.braids[j])} is not its own')
