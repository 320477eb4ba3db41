"""C20: the Temperley-Lieb category by threads that share diagrams, morphisms and cached cell bases, cold or warm, interrupted or not."""
import math

from .. import program, sched
from . import c19
from .c19 import add, mul, norm, of_lpoly, small, subst, txt

ID = 'C20'
LEVEL = 'exploration'
RULE = c19.RULE
STATES = c19.STATES
REAL = ['peyl.tl', 'peyl.lpoly', 'peyl.matrix', 'Python threads (one runs at a time)']
STUB = c19.STUB
ASSUMPTIONS = c19.ASSUMPTIONS
CONFIG = dict(quick=dict(runs=2600, wall=240, repeat=12, run_wall=300), thorough=dict(runs=50000, wall=2400, repeat=100, run_wall=600))
Q2 = {1: 1, -1: 1}
MOST = 12                       # dots of a diagram


def warm(tier):
    sched.patch_locks()
    from peyl import tl
    for n in range(8):
        for r in range(n // 2 + 1):
            tl.cell_basis(n, r)


# ---------------------------------------------- reference: (top, bot, frozenset of pairs of dots), dots are ('b', i) and ('t', i) from the left

def dots_of(top, bot, seq):
    name = lambda k: ('b', k) if k < bot else ('t', top + bot - 1 - k)         # noqa: E731
    return (top, bot, frozenset(frozenset((name(k), name(v))) for k, v in enumerate(seq)))


def seq_of(d):
    top, bot, pairs = d
    num = lambda x: x[1] if x[0] == 'b' else top + bot - 1 - x[1]              # noqa: E731
    seq = [None] * (top + bot)
    for p in pairs:
        a, b = map(num, p)
        seq[a], seq[b] = b, a
    return tuple(seq)


def stack(u, l):
    """u on top of l: the diagram and the number of closed loops."""
    assert u[1] == l[0]
    graph = {}
    for tag, d in (('u', u), ('l', l)):
        for p in d[2]:
            a, b = [('m', x[1]) if x[0] == ('b' if tag == 'u' else 't') else x for x in p]
            graph.setdefault(a, []).append((b, tag))
            graph.setdefault(b, []).append((a, tag))
    pairs, seen = set(), set()
    for x in graph:
        if x[0] == 'm' or x in seen:
            continue
        at, via = graph[x][0]
        seen.add(x)
        while at[0] == 'm':
            seen.add(at)
            at, via = next((y, t) for y, t in graph[at] if t != via)
        seen.add(at)
        pairs.add(frozenset((x, at)))
    loops = 0
    for x in graph:
        if x not in seen:
            loops += 1
            at, via = x, None
            while at not in seen:
                seen.add(at)
                at, via = next((y, t) for y, t in graph[at] if t != via)
    return (u[0], l[1], frozenset(pairs)), loops


def beside(x, y):
    sh = lambda d: (d[0], d[1] + (x[0] if d[0] == 't' else x[1]))              # noqa: E731
    return (x[0] + y[0], x[1] + y[1], x[2] | {frozenset(map(sh, p)) for p in y[2]})


def upside(x):
    sw = lambda d: ('b' if d[0] == 't' else 't', d[1])                         # noqa: E731
    return (x[1], x[0], frozenset(frozenset(map(sw, p)) for p in x[2]))


def through(x):
    return sum(1 for p in x[2] if len({d[0] for d in p}) == 2)


def closure(x):
    """Loops after joining the i-th dot below with the i-th above."""
    graph = {}
    for p in x[2]:
        a, b = p
        graph[a], graph[b] = b, a
    loops, seen = 0, set()
    for s in graph:
        if s in seen:
            continue
        loops += 1
        at = s
        while at not in seen:
            seen.add(at)
            other = graph[at]
            seen.add(other)
            at = ('t' if other[0] == 'b' else 'b', other[1])
    return loops


def ident(n):
    return (n, n, frozenset(frozenset((('b', i), ('t', i))) for i in range(n)))


def cup(i, n):
    rest = {frozenset((('b', j), ('t', j))) for j in range(n) if j not in (i, i + 1)}
    return (n, n, frozenset(rest | {frozenset((('b', i), ('b', i + 1))), frozenset((('t', i), ('t', i + 1)))}))


def random_seq(rng, n):
    """A random balanced bracketing of n dots as an involution."""
    up, opened, seq = n // 2, [], [None] * n
    for k in range(n):
        left = n - k
        if opened and (len(opened) == left or rng.random() < 0.5 or up == 0):
            j = opened.pop()
            seq[k], seq[j] = j, k
        else:
            opened.append(k)
            up -= 1
    return tuple(seq)


def every(top, bot, memo={}):
    n = top + bot
    if n not in memo:
        def build(lo, hi):
            if lo == hi:
                return [[]]
            return [[(lo, m), *a, *b] for m in range(lo + 1, hi, 2) for a in build(lo + 1, m) for b in build(m + 1, hi)]
        memo[n] = []
        for pairs in build(0, n):
            s = [None] * n
            for a, b in pairs:
                s[a], s[b] = b, a
            memo[n].append(tuple(s))
    return [dots_of(top, bot, s) for s in memo[n]]


def show(d):
    return f'({d[0]},{d[1]})' + str(list(seq_of(d)))


def show_mor(m):
    return f'({m[0]},{m[1]}) ' + ' + '.join(f'({txt(c)})*{list(seq_of(d))}' for d, c in m[2].items())


def m_diag(x, want):
    if type(x).__name__ != 'TLDiag':
        return f'a {type(x).__name__}'
    if (x.top, x.bot) != want[:2] or not isinstance(x.seq, tuple) or x.seq != seq_of(want):
        return 'another diagram'


def m_ext(x, want):
    d, k = want
    if type(x).__name__ != 'TLExtDiag':
        return f'a {type(x).__name__}'
    if (x.top, x.bot, x.bubbles) != (*d[:2], k) or not isinstance(x.seq, tuple) or x.seq != seq_of(d):
        return 'another diagram or number of bubbles'


def m_mor(x, want):
    top, bot, terms = want
    if type(x).__name__ != 'TLMor':
        return f'a {type(x).__name__}'
    if (x.top, x.bot) != (top, bot):
        return 'another type'
    if len(x.terms) != len(terms):
        return 'another support'
    for d, c in x.pairs():
        k = dots_of(d.top, d.bot, d.seq)
        if k not in terms or c19.m_lpoly(c, terms[k]):
            return f'another coefficient at {list(d.seq)}'


MODELS = dict(diag=m_diag, ext=m_ext, mor=m_mor, lpoly=c19.m_lpoly, matrix=c19.m_matrix)


def mor(top, bot, terms):
    return (top, bot, {d: c for d, c in terms.items() if c})


def mor_mul(a, b):
    out = {}
    for d, c in a[2].items():
        for e, f in b[2].items():
            g, k = stack(d, e)
            out[g] = add(out.get(g, {}), mul(mul(c, f), c19.power(Q2, k)))
    return mor(a[0], b[1], out)


def mor_add(a, b, s=1):
    out = dict(a[2])
    for d, c in b[2].items():
        out[d] = add(out.get(d, {}), c, s)
    return mor(a[0], a[1], out)


def fits(m):
    return len(m[2]) <= 42 and all(small(c) for c in m[2].values())


def shape(rng):
    s = rng.choice([(2, 2), (3, 3), (3, 3), (4, 4), (4, 4), (5, 5), (1, 3), (3, 1), (4, 2), (2, 4), (0, 4), (4, 0), (2, 0), (0, 0), (5, 3), (3, 5), (1, 1), (6, 2), (6, 6), (8, 8), (9, 7), (2, 10), (12, 0), (0, 12)])
    return s


# ---------------------------------------------- operations

def lib_diag(tl, d, listed=False):
    s = seq_of(d)
    return tl.TLDiag(d[0], d[1], list(s) if listed else s)


def rand_diag(rng):
    top, bot = shape(rng)
    return dots_of(top, bot, random_seq(rng, top + bot))


def op_new_diag(P, rng):
    from peyl import tl
    if rng.random() < 0.1:
        n = rng.randint(0, 10)
        return P.put('id', 'diag', P.call(lambda: tl.TLDiag.id(n)), ident(n), n)
    d = rand_diag(rng)
    return P.put('TLDiag', 'diag', P.call(lambda: lib_diag(tl, d, rng.random() < 0.5)), d, show(d))


def two(P, rng, kind, new, fit=None):
    while not P.have(kind):
        new(P, rng)
    x = P.pick(kind, rng)
    y = P.pick(kind, rng)
    if fit and not fit(x[1], y[1]) and rng.random() < 0.85:
        ok = [m for m in P.items[kind] if fit(x[1], m[1])]
        if ok:
            y = ok[rng.randrange(len(ok))]
    return x, y


def op_diag(P, rng):
    (x, a), (y, b) = two(P, rng, 'diag', op_new_diag, lambda a, b: a[1] == b[0])
    w = rng.randrange(6)
    if w <= 1:
        if a[1] != b[0]:
            P.refuses(lambda: x * y, f'{show(a)} on top of {show(b)}', ValueError)
            return
        want, loops = stack(a, b)
        got, k = P.call(lambda: x * y)
        P.put('composite', 'diag', got, want, show(a), show(b))
        P.eq('number of bubbles', k, loops, show(a), show(b))
    elif w == 2:
        if sum(a[:2]) + sum(b[:2]) <= MOST:
            P.put('tensor product', 'diag', P.call(lambda: x @ y), beside(a, b), show(a), show(b))
    elif w == 3:
        P.put('flip', 'diag', P.call(lambda: x.flip()), upside(a), show(a))
    elif w == 4:
        from peyl import tl
        P.eq('number of through strands', P.call(lambda: tl.through_strands(x)), through(a), show(a))
        if a[0] == a[1]:
            P.eq('number of loops of the closure', P.call(lambda: tl.trace_count(x.seq)), closure(a), show(a))
    else:
        from peyl import tl
        again = P.call(lambda: lib_diag(tl, a))
        P.eq('equality', (x == again, hash(x) == hash(again), x == y), (True, True, a == b), show(a), show(b))


def op_new_ext(P, rng):
    from peyl import tl
    n = rng.randint(2, 9)
    w = rng.randrange(4)
    if w == 0:
        i = rng.randrange(n - 1)
        return P.put('e', 'ext', P.call(lambda: tl.TLExtDiag.e(i, n)), (cup(i, n), 0), i, n)
    if w == 1:
        return P.put('id', 'ext', P.call(lambda: tl.TLExtDiag.id(n)), (ident(n), 0), n)
    d, k = rand_diag(rng), rng.randint(0, 3)
    return P.put('TLExtDiag', 'ext', P.call(lambda: tl.TLExtDiag(d[0], d[1], seq_of(d), k)), (d, k), show(d), k)


def op_ext(P, rng):
    (x, (a, i)), (y, (b, j)) = two(P, rng, 'ext', op_new_ext, lambda a, b: a[0][1] == b[0][0])
    w = rng.randrange(5)
    if w <= 1:
        if a[1] != b[0]:
            P.refuses(lambda: x * y, f'{show(a)} on top of {show(b)}', ValueError)
            return
        want, loops = stack(a, b)
        P.put('composite', 'ext', P.call(lambda: x * y), (want, i + j + loops), show(a), i, show(b), j)
    elif w == 2:
        if sum(a[:2]) + sum(b[:2]) <= MOST:
            P.put('tensor product', 'ext', P.call(lambda: x @ y), (beside(a, b), i + j), show(a), i, show(b), j)
    elif w == 3:
        k = rng.randint(0, 3)
        P.put('with more bubbles', 'ext', P.call(lambda: x.add_bubbles(k)), (a, i + k), show(a), i, k)
    else:
        got, k = P.call(lambda: x.split_bubbles())
        P.put('without bubbles', 'ext', got, (a, 0), show(a), i)
        P.eq('number of bubbles', k, i, show(a), i)


def lp(tl, c):
    from peyl.lpoly import LPoly
    return LPoly(min(c), [c.get(k, 0) for k in range(min(c), max(c) + 1)]) if c else LPoly(0, ())


def rand_lp(rng):
    return norm({rng.randint(-3, 3): rng.choice([1, 1, -1, 2, -5]) for _ in range(rng.choice([1, 1, 2, 3]))})


def op_new_mor(P, rng):
    from peyl import tl
    w = rng.randrange(6)
    n = rng.randint(2, 5)
    if w == 0:
        return P.put('id', 'mor', P.call(lambda: tl.TLMor.id(n)), mor(n, n, {ident(n): {0: 1}}), n)
    if w == 1:
        i = rng.randrange(n - 1)
        return P.put('e', 'mor', P.call(lambda: tl.TLMor.e(i, n)), mor(n, n, {cup(i, n): {0: 1}}), i, n)
    if w == 2 and P.have('diag'):
        x, a = P.pick('diag', rng)
        return P.put('from_tldiag', 'mor', P.call(lambda: tl.TLMor.from_tldiag(x)), mor(*a[:2], {a: {0: 1}}), show(a))
    top, bot = shape(rng)
    if top + bot > 10:
        top = bot = 4
    terms = {dots_of(top, bot, random_seq(rng, top + bot)): rand_lp(rng) if rng.random() < 0.95 else {} for _ in range(rng.randint(1, 4))}
    return P.put('TLMor', 'mor', P.call(lambda: tl.TLMor(top, bot, {lib_diag(tl, d): lp(tl, c) for d, c in terms.items()})), mor(top, bot, terms), top, bot,
                 [(show(d), txt(c)) for d, c in terms.items()])


def op_mor(P, rng):
    (x, a), (y, b) = two(P, rng, 'mor', op_new_mor, lambda a, b: a[1] == b[0])
    if a[1] != b[0]:
        P.refuses(lambda: x * y, f'a morphism of type {a[:2]} on top of one of type {b[:2]}', ValueError)
        return
    if len(a[2]) * len(b[2]) > 150:
        return
    want = mor_mul(a, b)
    if fits(want):
        P.put('composite', 'mor', P.call(lambda: x * y), want, show_mor(a), show_mor(b))


def op_mor_linear(P, rng):
    from peyl import tl
    (x, a), (y, b) = two(P, rng, 'mor', op_new_mor, lambda a, b: a[:2] == b[:2])
    w = rng.randrange(7)
    if w <= 1:
        if a[:2] != b[:2]:
            P.refuses(lambda: x + y, f'the sum of types {a[:2]} and {b[:2]}', ValueError)
            return
        s = 1 if w == 0 else -1
        want = mor_add(a, b, s)
        if fits(want):
            P.put('sum' if s == 1 else 'difference', 'mor', P.call((lambda: x + y) if s == 1 else (lambda: x - y)), want, show_mor(a), show_mor(b))
    elif w == 2:
        c = rand_lp(rng)
        i = rng.choice([0, 1, -1, 3])
        if rng.random() < 0.5:
            c, s = norm({0: i}), i
        else:
            s = lp(tl, c)
        want = mor(*a[:2], {d: mul(e, c) for d, e in a[2].items()})
        if fits(want):
            P.put('multiple', 'mor', P.call((lambda: x * s) if rng.random() < 0.5 else (lambda: s * x)), want, show_mor(a), txt(c))
    elif w == 3:
        P.put('negative', 'mor', P.call(lambda: -x), mor(*a[:2], {d: mul(c, {0: -1}) for d, c in a[2].items()}), show_mor(a))
    elif w == 4:
        c = rand_lp(rng)
        i = rng.choice([0, 1, -1, 3])
        if rng.random() < 0.5:
            c, s = norm({0: i}), i
        else:
            s = lp(tl, c)
        if a[0] != a[1]:
            P.refuses(lambda: x + s, f'a scalar added to a morphism of type {a[:2]}', ValueError)
        else:
            P.put('sum', 'mor', P.call((lambda: x + s) if rng.random() < 0.6 else (lambda: x - -s)), mor_add(a, mor(*a[:2], {ident(a[0]): c})), show_mor(a), txt(c))
    elif w == 5:
        e = rng.choice([0, 1, 2, 3, 4, 5, 6, 9, 12] if len(a[2]) <= 2 or a[0] <= 2 else [0, 1, 2, 3, 4])
        if a[0] != a[1]:
            P.refuses(lambda: x ** e, f'a power of a morphism of type {a[:2]}', ValueError)
            return
        want = mor(*a[:2], {ident(a[0]): {0: 1}})
        for _ in range(e):
            if len(want[2]) * len(a[2]) > 100:
                return
            want = mor_mul(want, a)
        if fits(want) and a[0] <= 4:
            P.put('power', 'mor', P.call(lambda: x ** e), want, show_mor(a), e)
    else:
        P.eq('is zero', P.call(lambda: x.is_zero()), not a[2], show_mor(a))
        for d in [*list(a[2])[:2], dots_of(*a[:2], random_seq(rng, sum(a[:2])))]:
            P.put('coefficient', 'lpoly', P.call(lambda: x.coefficient(lib_diag(tl, d))), a[2].get(d, {}), show_mor(a), show(d), keep=False)
        P.eq('support', {dots_of(d.top, d.bot, d.seq) for d in P.call(lambda: list(x.support()))}, set(a[2]), show_mor(a))
        P.eq('equality', P.call(lambda: x == y), a == b, show_mor(a), show_mor(b))


def op_mor_other(P, rng):
    from peyl import tl
    (x, a), _ = two(P, rng, 'mor', op_new_mor)
    w = rng.randrange(5)
    if w == 0:
        P.put('flip', 'mor', P.call(lambda: x.flip()), mor(a[1], a[0], {upside(d): subst(c, {-1: 1}) for d, c in a[2].items()}), show_mor(a))
    elif w == 1:
        P.put('flip without v', 'mor', P.call(lambda: x.flip(twist_v=False)), mor(a[1], a[0], {upside(d): c for d, c in a[2].items()}), show_mor(a))
    elif w == 2:
        k = rng.randint(0, 5)
        P.put('quotient', 'mor', P.call(lambda: x.quotient(k)), mor(*a[:2], {d: c for d, c in a[2].items() if through(d) >= k}), show_mor(a), k)
    elif w == 3:
        if a[0] == a[1]:
            t = {}
            for d, c in a[2].items():
                t = add(t, mul(c, c19.power(Q2, closure(d))))
            P.put('trace', 'lpoly', P.call(lambda: x.trace()), t, show_mor(a), keep=False)
    else:
        while not P.have('diag'):
            op_new_diag(P, rng)
        ok = [m for m in P.items['diag'] if m[1][0] == a[1]]
        if ok and len(a[2]) < 60:
            y, b = ok[rng.randrange(len(ok))]
            want = mor_mul(a, mor(*b[:2], {b: {0: 1}}))
            if fits(want):
                P.put('composite with a diagram', 'mor', P.call(lambda: x * y), want, show_mor(a), show(b))


def op_bases(P, rng):
    from peyl import tl
    w = rng.randrange(6)
    top, bot = shape(rng)
    if top + bot > 10:
        top = bot = 4
    if w == 0:
        got = [dots_of(d.top, d.bot, d.seq) for d in P.call(lambda: tl.tl_basis(top, bot))]
        P.eq('basis', (len(got), set(got)), (len(every(top, bot)), set(every(top, bot))), top, bot)
    elif w == 1:
        k = rng.choice([s for s in range(top % 2, top + 1, 2)])
        got = [dots_of(d.top, d.bot, d.seq) for d in P.call(lambda: tl.tl_tableaux_basis(top, k))]
        want = {d for d in every(top, k) if through(d) == k} if top + k <= 10 else None
        if want is not None:
            P.eq('tableaux', (len(got), set(got)), (len(want), want), top, k)
    elif w == 2:
        n = rng.randint(0, 7)
        r = rng.randint(0, n // 2)
        want = {d for d in every(n, n - 2 * r) if through(d) == n - 2 * r} if 2 * n - 2 * r <= 12 else None
        got = [dots_of(d.top, d.bot, d.seq) for d in P.call(lambda: tl.TLCell(n, r).basis_diagrams())]
        dim = math.comb(n, r) - (math.comb(n, r - 1) if r else 0)
        P.eq('dimension of the cell', P.call(lambda: (tl.cell_dimension(n, r), tl.TLCell(n, r).dim())), (dim, dim), n, r)
        if want is not None:
            P.eq('basis of the cell', (len(got), set(got)), (dim, want), n, r)
        s = n - 2 * r + 1
        P.put('trace scalar', 'lpoly', P.call(lambda: tl.TLCell(n, r).trace_scalar()), {k: 1 for k in range(1 - s, s, 2)}, n, r, keep=False)
    elif w == 3:
        n = rng.randint(0, 7)
        P.eq('cells', [(c.n, c.r) for c in P.call(lambda: tl.JonesRep(n).cells)], [(n, r) for r in range(n // 2 + 1)], n)
    elif w == 4:
        got = [x for x in P.call(lambda: tl.TLMor.basis(top, bot))]
        P.eq('basis of morphisms', sorted(len(x.terms) for x in got), [1] * len(every(top, bot)), top, bot)
        P.eq('basis of morphisms', {dots_of(d.top, d.bot, d.seq) for x in got for d, c in x.terms.items() if of_lpoly(c) == {0: 1}}, set(every(top, bot)), top, bot)
    else:
        n = sum(shape(rng)) // 2
        s = random_seq(rng, 2 * n)
        P.eq('is a crossingless matching', P.call(lambda: tl.is_crossingless_matching(s)), True, s)
        if n >= 2:
            bad = list(s)
            how = rng.randrange(4)
            i, j = rng.sample(range(2 * n), 2)
            if how == 0:
                bad[i] = rng.choice([bad[j], i, -1, 2 * n])
            elif how == 1:                                     # swap partners of two arcs: crossing, or not
                a, b = sorted((i, bad[i]))
                c, d = sorted((j, bad[j]))
                if len({a, b, c, d}) == 4:
                    for u, v in ((a, c), (b, d)):
                        bad[u], bad[v] = v, u
            elif how == 2:                                     # the right dot counted from the end
                bad[i] -= 2 * n
            else:
                bad[i], bad[j] = bad[j], bad[i]
            ok = all(0 <= v < 2 * n and v != k and bad[v] == k for k, v in enumerate(bad)) and not any(
                k < j < bad[k] < bad[j] for k in range(2 * n) for j in range(2 * n))
            P.eq('is a crossingless matching', P.call(lambda: tl.is_crossingless_matching(bad)), ok, bad)


def op_refuse(P, rng):
    """What is not planar, not of one type or out of range."""
    from peyl import tl
    from peyl.lpoly import LPoly
    w = rng.randrange(8)
    n = rng.randint(2, 6)
    d = dots_of(n, n, random_seq(rng, 2 * n))
    s = list(seq_of(d))
    if w == 0:
        i, j = rng.sample(range(2 * n), 2)
        how = rng.randrange(5)
        if how == 0:
            s[i] = rng.choice([i, -1, 2 * n, s[i] - 2 * n])
        elif how == 1:
            s[i], s[j] = s[j], s[i]
        elif how == 2:                                         # an arc across another
            a, b = sorted((i, s[i]))
            c, e = sorted((j, s[j]))
            if len({a, b, c, e}) == 4:
                for u, v in ((a, c), (b, e)):
                    s[u], s[v] = v, u
        elif how == 3:
            s.pop()
        else:
            s.append(2 * n)
        m = len(s)
        if m != 2 * n or not all(0 <= v < m and v != k and s[v] == k for k, v in enumerate(s)) or any(
                k < j < s[k] < s[j] for k in range(m) for j in range(m)):
            for new in (tl.TLDiag, tl.TLExtDiag):
                P.refuses(lambda: new(n, n, s), f'{new.__name__}({n}, {n}, {s})', AssertionError, ValueError)
    elif w == 1:
        for new in (tl.TLDiag, tl.TLExtDiag):
            P.refuses(lambda: new(-1, 2 * n + 1, s), f'{new.__name__}(-1, {2 * n + 1}, {s})', AssertionError, ValueError)
            P.refuses(lambda: new(2 * n + 2, -2, s), f'{new.__name__}({2 * n + 2}, -2, {s})', AssertionError, ValueError)
    elif w == 2:
        (x, a), (y, b) = two(P, rng, 'mor', op_new_mor)
        e = dots_of(*(t := shape(rng)), random_seq(rng, sum(t)))
        f = dots_of(a[0], a[1] + 2, random_seq(rng, sum(a[:2]) + 2))
        for g in (e, f, dots_of(a[0] + 2, a[1], random_seq(rng, sum(a[:2]) + 2)), dots_of(a[0] + 1, a[1] + 1, random_seq(rng, sum(a[:2]) + 2))):
            if g[:2] != a[:2]:
                P.refuses(lambda: x.coefficient(lib_diag(tl, g)), f'the coefficient of {show(g)} in a morphism of type {a[:2]}', ValueError)
                P.refuses(lambda: x + tl.TLMor.from_tldiag(lib_diag(tl, g)), f'the sum of types {a[:2]} and {g[:2]}', ValueError)
                P.refuses(lambda: tl.TLMor(*a[:2], {lib_diag(tl, g): LPoly(0, (1,))}), f'a morphism of type {a[:2]} with {show(g)}', ValueError)
            if g[0] != a[1]:
                P.refuses(lambda: x * lib_diag(tl, g), f'a morphism of type {a[:2]} on top of {show(g)}', ValueError)
    elif w == 3:
        (x, a), _ = two(P, rng, 'mor', op_new_mor)
        k = rng.randint(1, 5)
        if len(a[2]) != 1:                                     # no unit
            P.refuses(lambda: x ** -k, f'the power {-k} of {show_mor(a)}', ValueError, ArithmeticError)
    elif w == 4:
        i = rng.choice([-1, -2, n - 1, n])
        for cls in (tl.TLMor, tl.TLExtDiag):
            P.refuses(lambda: cls.e(i, n), f'{cls.__name__}.e({i}, {n})', AssertionError, ValueError)
    elif w == 5:
        for k in (2 * n + 1, -2):
            P.refuses(lambda: list(tl.generate_sequences(k)), f'matchings of {k} dots', ValueError, AssertionError)
        P.refuses(lambda: tl.tl_basis(n, n + 1), f'a basis of type {(n, n + 1)}', ValueError, AssertionError)
        P.refuses(lambda: tl.tl_basis(-2, n + n % 2), f'a basis of type {(-2, n + n % 2)}', ValueError, AssertionError)
        for k in (n - 1, n + 2, -2 + n % 2):
            P.refuses(lambda: tl.tl_tableaux_basis(n, k), f'tableaux of type {(n, k)}', ValueError, AssertionError)
    elif w == 6:
        for m, r in ((n, n // 2 + 1), (n, -1), (-1, 0), (-2, -2)):
            P.refuses(lambda: tl.TLCell(m, r), f'TLCell({m}, {r})', ValueError, AssertionError)
            P.refuses(lambda: tl.cell_dimension(m, r), f'the dimension of the cell {(m, r)}', ValueError, AssertionError)
    else:
        m = rng.choice([-1, 2 * n + 1, 2 * n + 2])
        P.refuses(lambda: tl.compose(s, s, m), f'composition along {m} dots of {2 * n}', ValueError, AssertionError, IndexError)
        i = rng.choice([-1, 2 * n + 1])
        P.refuses(lambda: tl.insert(s, [1, 0], i), f'insertion at {i} into {2 * n} dots', ValueError, AssertionError, IndexError)


def op_cell(P, rng):
    """The matrix by which a morphism acts on a cell module; the Markov trace is the weighted sum of the traces."""
    from peyl import tl
    (x, a), _ = two(P, rng, 'mor', op_new_mor)
    if rng.random() < 0.3 and max(a[:2]) <= 6:
        bot = {False: a[1], True: rng.randint(0, 6)}[rng.random() < 0.3]
        r = rng.randint(0, bot // 2)
        f = lambda: tl.TLCell(bot, r).project_vector(x)      # noqa: E731
        if bot == a[1]:
            k = bot - 2 * r
            P.put('vector in the cell', 'mor', P.call(f), mor(*a[:2], {d: c for d, c in a[2].items() if through(d) >= k}), show_mor(a), r)
        else:
            P.refuses(f, f'the vector of {show_mor(a)} in a cell of {bot}', ValueError, AssertionError)
        return
    if a[0] != a[1] or not 1 <= a[0] <= 5 or len(a[2]) > 12:
        return
    n = a[0]
    r = rng.randint(0, n // 2)
    basis = [dots_of(d.top, d.bot, d.seq) for d in P.call(lambda: tl.TLCell(n, r).basis_diagrams())]
    rows = [[{} for _ in basis] for _ in basis]
    for j, b in enumerate(basis):
        for d, c in mor_mul(a, mor(*b[:2], {b: {0: 1}}))[2].items():
            if through(d) == n - 2 * r:
                rows[basis.index(d)][j] = c
    P.put('matrix on the cell', 'matrix', P.call(lambda: tl.TLCell(n, r).project_leftmult_matrix(x)), (len(basis), len(basis), [c for row in rows for c in row]), n, r, show_mor(a),
          keep=False)


OPS = dict(new_diag=op_new_diag, new_mor=op_new_mor, new_ext=op_new_ext, diag=op_diag, diag_more=op_diag, ext=op_ext, mor=op_mor, mor_more=op_mor, linear=op_mor_linear,
           linear_more=op_mor_linear, other=op_mor_other, bases=op_bases, cell=op_cell, refuse=op_refuse)


def gen(rng, tier, i):
    return program.gen(rng, list(OPS), 40, 8000)


shrink = program.shrink


def run(plan):
    return program.Program(plan, OPS, MODELS, 10_000_000).run()
