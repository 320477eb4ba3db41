"""C14: many lazy enumerations in progress at once, consumed in turns by one or several threads, abandoned, interrupted, resumed."""
import collections
import functools
import itertools

from .. import bridge as B, ref, sched, searchlib as S, threads, world
from ..world import Violation

ID = 'C14'
LEVEL = 'exploration'
RULE = ('one evaluation = one enumeration judged item by item against the reference enumeration (complete, abandoned or cut short); non-trivial = at least two enumerations were in '
        'progress at the same time, or a fault fired; distinct = distinct interleavings of consumption')
STATES = 'digest of the order of consumption (every item taken by every consumer) and of every switch between threads'
REAL = ['peyl.braid enumerations', 'peyl.noncrossing', 'peyl.tl', 'peyl.permutations', 'peyl.braidsearch.batched', 'Python threads (one runs at a time)']
STUB = ['thread scheduling', 'interrupt and allocation-failure delivery at executed lines', 'threading locks made by /repo code']
ASSUMPTIONS = ['one enumeration is consumed by one thread at a time', 'an enumeration interrupted while it computes is over; others are not']
CONFIG = dict(quick=dict(runs=8000, wall=240, repeat=10, run_wall=300), thorough=dict(runs=60000, wall=2400, repeat=80, run_wall=600))


def warm(tier):
    sched.patch_locks()
    for n in range(2, 7):
        B.gindex(n), B.dindex(n)
        for kind in 'GD':
            B.follows(kind, B.top(kind, n))
    B.dindex(7), B.follows('D', B.top('D', 7))


SIZES = {('G', 2): 3, ('D', 2): 3, ('G', 3): 8, ('D', 3): 9, ('G', 4): 2, ('D', 4): 3, ('G', 5): 1, ('D', 5): 2}


def gen_source(rng, tier):
    k = rng.random()
    n = rng.choice([2, 3, 3, 3, 4, 4, 5])
    kind = rng.choice('GD')
    rare = rng.random()
    if rare < 0.03:
        n, kind = (6, kind) if rare < 0.02 else (7, 'D')
    if k < 0.3:
        L = rng.randint(0, SIZES.get((kind, n), 1))
        if rng.random() < 0.03 and n in (3, 4):
            L = {('G', 3): 11, ('D', 3): 12, ('G', 4): 3, ('D', 4): 4}[kind, n]
        return ['all', kind, n, L, rng.choice([None, 0, 1, -1, 7, -12]), rng.randrange(2)]
    if k < 0.4:
        return ['desc', kind, n, rng.randint(0, 3) if n > 2 else 0, rng.randint(-3, 3), rng.randint(0, 10**6)]
    if k < 0.6:
        return ['suffix', kind, n, rng.randint(0, 3) if n > 2 else 0, rng.randint(0, min(5, SIZES.get((kind, n), 1))), rng.randint(0, 10**6)]
    if k < 0.75:
        return ['npar', rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8])]
    if k < 0.87:
        return ['seq', 2 * rng.randint(0, 7)]
    if k < 0.92:
        return ['sym', rng.randint(0, 6)]
    if k < 0.94:
        n = rng.choice([2, 3, 4, 5])
        return ['howmany', kind, n, rng.choice([rng.randint(0, 12), rng.randint(0, 60), rng.randint(0, 200)])]
    t = rng.randint(0, 7)
    b = rng.choice([x for x in range(8) if (x + t) % 2 == 0])
    kind2 = rng.choice(['tlbasis', 'morbasis', 'cell', 'tableaux', 'batched'])
    if kind2 == 'cell':
        return ['cell', t, rng.randint(0, t // 2)]
    if kind2 == 'tableaux':
        return ['tableaux', t, rng.choice([x for x in range(t + 1) if (x + t) % 2 == 0])]
    if kind2 == 'batched':
        n = 3
        return ['batched', kind, 3, rng.randint(1, 6), rng.choice([1, 2, 3, 7, 1000])]
    return [kind2, t, b]


def gen(rng, tier, i):
    nt = rng.choice([1, 1, 2, 2, 3, 4])
    ns = rng.randint(1, 8)
    srcs = [gen_source(rng, tier) for _ in range(ns)]
    if rng.random() < 0.4:                                     # several in progress of the very same enumeration
        srcs = [rng.choice(srcs[:2]) for _ in range(ns)]
    owner = [rng.randrange(nt) for _ in srcs]
    ops = []
    burst = rng.choice([1, 3, 20, 200])
    for _ in range(rng.randint(ns, 40)):
        j = rng.randrange(ns)
        k = rng.random()
        if k < 0.72:
            ops.append([j, 'take', rng.randint(1, burst)])
        elif k < 0.80:
            ops.append([j, 'drop', 0])
        elif k < 0.84:
            ops.append([j, 'close', 0])
        elif k < 0.90:
            ops.append([j, 'count', 0])
        else:
            ops.append([j, 'all', 0])
    cold = rng.random() < 0.15
    if cold:
        srcs = [s for s in srcs]
    return dict(nt=nt, srcs=srcs, owner=owner, ops=ops, cold=cold and not any(s[0] in ('all', 'desc', 'suffix') and s[2] >= 5 for s in srcs),
                finish=rng.random() < 0.6, quanta=sched.gen_quanta(rng, rng.choice([20, 200, 1500]), rng.choice([5, 30, 300])) if nt > 1 else [],
                faults=threads.gen_faults(rng, nt, 1500), _lists=['ops', 'faults', 'quanta'])


def shrink(plan):
    for k in ('cold', 'finish'):
        if plan[k]:
            yield dict(plan, **{k: False})
    used = {op[0] for op in plan['ops']}
    if plan['nt'] > 1:
        yield dict(plan, nt=1, owner=[0] * len(plan['owner']), quanta=[])
    for j in range(len(plan['srcs'])):
        if j not in used and len(plan['srcs']) > 1:
            yield dict(plan, srcs=plan['srcs'][:j] + plan['srcs'][j + 1:], owner=plan['owner'][:j] + plan['owner'][j + 1:],
                       ops=[[o[0] - (o[0] > j), *o[1:]] for o in plan['ops']])
    for i, op in enumerate(plan['ops']):
        if op[1] == 'take' and op[2] > 1:
            yield dict(plan, ops=plan['ops'][:i] + [[op[0], 'take', op[2] // 2]] + plan['ops'][i + 1:])


@functools.lru_cache(maxsize=None)
def matchings(n):
    """All crossingless matchings of n points on a line, as tuples of partners."""
    if n == 0:
        return ((),)
    out = []
    for k in range(1, n, 2):
        for a in matchings(k - 1):
            for b in matchings(n - k - 1):
                out.append((k, *(x + 1 for x in a), 0, *(x + k + 1 for x in b)))
    return tuple(out)


def through(seq, bot):
    return sum(1 for i in range(bot) if seq[i] >= bot)


def seeded(src):
    kind, n, L = src[1], src[2], src[3]
    rng = world.sub(src[5], 'braid')
    return B.rand_braid(rng, kind, n, L, src[4] if src[0] == 'desc' else rng.randint(-3, 3))


@functools.lru_cache(maxsize=200)
def number(kind, n, L):
    """How many normal forms of length L there are, without listing them."""
    if L == 0:
        return 1
    table = {x: B.follows(kind, x) for x in B.follows(kind, B.top(kind, n))}
    c = dict.fromkeys(table, 1)
    for _ in range(L - 1):
        c = {x: sum(map(c.__getitem__, ys)) for x, ys in table.items()}
    return sum(c.values())


def expected(src):
    """(frozen list of expected items, normaliser from library item to the same form)."""
    w = src[0]
    if w == 'all':
        return B.all_of_length(src[1], src[2], src[3], src[4] or 0), B.from_lib
    if w == 'desc':
        return B.extensions(seeded(src), 1), B.from_lib
    if w == 'suffix':
        b = seeded(src)
        last = b[3][-1] if b[3] else B.top(b[0], b[1])
        return [(b[0], b[1], 0, s) for s in B.suffixes(b[0], last, src[4])], B.from_lib
    if w == 'npar':
        return list(ref.all_noncrossing(src[1])), lambda x: (_n(x, src[1]), x.to_permutation().word)[1]
    if w == 'seq':
        return list(matchings(src[1])), lambda s: tuple(int(v) for v in s)
    if w == 'sym':
        return ref.lex_perms(src[1]), lambda x: tuple(x.word)
    if w in ('tlbasis', 'morbasis', 'tableaux', 'cell'):
        t = src[1]
        b = src[2] if w != 'cell' else t - 2 * src[2]
        ms = matchings(t + b)
        if w in ('tableaux', 'cell'):
            ms = [m for m in ms if through(m, b) == b]

        def norm(x):
            if w == 'morbasis':
                (x, c), = x.pairs()
                if tuple(c.coeffs) != (1,) or c.val != 0:
                    raise Violation('wrong-item', f'{src}: coefficient {c!r}')
            if (x.top, x.bot) != (t, b):
                raise Violation('wrong-item', f'{src}: type ({x.top}, {x.bot})')
            return tuple(x.seq)
        return list(ms), norm
    if w == 'batched':
        return B.all_of_length(src[1], 3, src[3]), B.from_lib
    raise AssertionError(w)


def _n(x, n):
    if x.n != n:
        raise Violation('wrong-item', f'a noncrossing partition of {x.n} points, not {n}')


def run(plan):
    if plan['cold']:
        world.fresh_peyl()
    from peyl import braidsearch, tl
    from peyl.braid import DGNF, GNF, BraidGroup
    from peyl.noncrossing import NPar, catalan
    from peyl.permutations import SymmetricGroup
    stats = collections.Counter()
    g = threads.Group(plan['quanta'], plan['faults'], stats)
    cls = dict(G=GNF, D=DGNF)

    def open_(src):
        w = src[0]
        if w == 'all':
            C = cls[src[1]]
            if src[5] and src[1] == 'G':
                return BraidGroup(src[2]).all_of_garside_length(src[3]) if src[4] is None else BraidGroup(src[2]).all_of_garside_length(src[3], power=src[4])
            return C.all_of_length(src[2], src[3]) if src[4] is None else C.all_of_length(src[2], src[3], power=src[4])
        if w == 'desc':
            return B.to_lib(seeded(src)).nf_descendants()
        if w == 'suffix':
            return B.to_lib(seeded(src)).nf_suffixes(src[4])
        if w == 'npar':
            return NPar.all_of_size(src[1])
        if w == 'seq':
            return tl.generate_sequences(src[1])
        if w == 'sym':
            return SymmetricGroup(src[1]).elements()
        if w == 'tlbasis':
            return tl.tl_basis(src[1], src[2])
        if w == 'morbasis':
            return tl.TLMor.basis(src[1], src[2])
        if w == 'cell':
            return tl.cell_basis(src[1], src[2])
        if w == 'tableaux':
            return tl.tl_tableaux_basis(src[1], src[2])
        return itertools.chain.from_iterable(braidsearch.batched(GNF.all_of_length(3, src[3]) if src[1] == 'G' else DGNF.all_of_length(3, src[3]), src[4]))

    def count_(src):
        w = src[0]
        if w == 'all':
            if src[5] and src[1] == 'G':
                return BraidGroup(src[2]).count_all_of_garside_length(src[3])
            return cls[src[1]].count_all_of_length(src[2], src[3])
        if w == 'howmany':
            return cls[src[1]].count_all_of_length(src[2], src[3])
        if w == 'npar':
            return catalan(src[1])
        if w == 'seq':
            return catalan(src[1] // 2)
        if w == 'cell':
            return tl.cell_dimension(src[1], src[2])
        return None

    live = {}                                     # source -> [iterator, items]
    done = []                                     # (source, how, items)
    order = []

    def end(j, how):
        it, items = live.pop(j)
        done.append((j, how, items))

    def body(tid):
        for op in plan['ops'] + ([[j, 'all', 0] for j in range(len(plan['srcs'])) if j in live or plan['finish']] if plan['finish'] else []):
            j, what, k = op
            if plan['owner'][j] != tid:
                continue
            src = plan['srcs'][j]
            if what == 'count' or src[0] == 'howmany':
                c = g.attempt(tid, lambda: count_(src))
                if c is not None:
                    done.append((j, 'count', c))
                continue
            if what in ('drop', 'close'):
                if j in live:
                    if what == 'close' and hasattr(live[j][0], 'close'):
                        live[j][0].close()
                    end(j, 'abandoned')
                continue
            if j not in live:
                x = g.attempt(tid, lambda: open_(src))
                live[j] = [iter(x), []]
            stats['probe:enumerations in progress at once'] = max(stats['probe:enumerations in progress at once'], len(live))
            it, items = live[j]
            left = k if what == 'take' else 10**9
            while left:
                left -= 1
                order.append(j)
                g.inside[tid] = True
                try:
                    x = next(it)
                except StopIteration:
                    g.inside[tid] = False
                    end(j, 'complete')
                    break
                except (KeyboardInterrupt, threads.Simulated) as e:
                    if e.args[0][:9] != 'simulated':
                        raise
                    g.inside[tid] = False
                    end(j, 'cut short')
                    break
                finally:
                    g.inside[tid] = False
                items.append(x)
    b = g.run([body] * plan['nt'])
    for j in list(live):
        end(j, 'abandoned')
    judge(plan, done, stats)
    dig = S.h(b.h.hexdigest(), order, [(j, how, items if how == 'count' else len(items)) for j, how, items in done])
    fired = sum(v for k, v in stats.items() if k.startswith('fault:'))
    stats['fault:cold tables'] += plan['cold']
    stats['probe:threads %d' % plan['nt']] += 1
    many = stats['probe:enumerations in progress at once']
    del stats['probe:enumerations in progress at once']
    stats[f'probe:most in progress {many}'] += 1
    return dict(stats=stats, digest=dig, simtime=0.0, nontrivial=many > 1 or fired > 0, states=[dig],
                sample=dict(threads=plan['nt'], sources=plan['srcs'], ended=[(how, items if how == 'count' else len(items)) for _, how, items in done], switches=b.switches))


def judge(plan, done, stats):
    for j, how, items in done:
        src = plan['srcs'][j]
        want, norm = expected(src) if src[0] != 'howmany' else (None, None)
        stats['evaluations'] += 1
        stats[f'probe:{how}'] += 1
        stats[f'probe:source {src[0]}'] += 1
        if how == 'count':
            there = len(want) if want is not None else number(*src[1:])
            if items != there or isinstance(items, float):
                raise Violation('wrong-count', f'{src}: counted {items}, there are {there}')
            continue
        ws = set(want)
        seen = set()
        for x in items:
            y = norm(x)
            if y not in ws:
                raise Violation('wrong-item', f'{src}: {x!r} does not belong ({how})')
            if y in seen:
                raise Violation('item-twice', f'{src}: {x!r} came twice ({how})')
            seen.add(y)
        if how == 'complete' and len(seen) != len(want):
            raise Violation('items-missing', f'{src}: {len(seen)} of {len(want)} items, the end was reached')
