"""C23: packed polynomial matrices and characteristic-zero evaluation by threads that share arrays, representations and caches: exact, or refused."""
from fractions import Fraction

import numpy as np

from .. import bridge as B, program, ref, sched
from ..world import Violation
from . import c19

ID = 'C23'
LEVEL = 'exploration'
RULE = c19.RULE
STATES = c19.STATES
REAL = ['peyl.polymat', 'peyl.jonesrep and peyl.braidsearch evaluation', 'peyl.matrix', 'peyl.lpoly', 'numpy', 'Python threads (one runs at a time)']
STUB = c19.STUB
ASSUMPTIONS = [*c19.ASSUMPTIONS, 'an integer product that wraps around is a wrong answer; OverflowError is the right one']
CONFIG = dict(quick=dict(runs=2400, wall=240, repeat=12, run_wall=300), thorough=dict(runs=50000, wall=2400, repeat=100, run_wall=600))
TYPES = dict(int64=np.int64, int32=np.int32, int8=np.int8)


def warm(tier):
    sched.patch_locks()
    import peyl.braidsearch                                    # noqa: F401
    import peyl.polymat                                        # noqa: F401
    for n in range(2, 6):
        B.gindex(n)
        for kind in 'GD':
            B.follows(kind, B.top(kind, n))


# ------------------------------------------------------------------------------ reference: nested object arrays (…, I, J, D), exact integers

def exact(x):
    return np.asarray(x).astype(object)


def product(A, C, quot=None):
    D, E = A.shape[-1], C.shape[-1]
    P = D + E - 1 if quot is None else quot
    pre = np.broadcast_shapes(A.shape[:-3], C.shape[:-3])
    out = np.zeros((*pre, A.shape[-3], C.shape[-2], P), dtype=object)
    for d in range(D):
        for e in range(E):
            if d + e < P:
                out[..., d + e] += (A[..., :, :, None, d] * C[..., None, :, :, e]).sum(axis=-2)
    return out


def fits(A, dtype):
    i = np.iinfo(dtype)
    return A.size == 0 or (i.min <= A.min() and A.max() <= i.max)


def m_arr(x, want):
    """The exact entries, in an integer array of the same shape and type."""
    W, dtype = want
    if not isinstance(x, np.ndarray):
        return f'a {type(x).__name__}'
    if x.shape != W.shape:
        return f'shape {x.shape}, not {W.shape}'
    if dtype is not None and x.dtype != np.dtype(dtype):
        return f'type {x.dtype}, not {np.dtype(dtype)}'
    if not (exact(x) == W).all():
        return 'another entry'


MODELS = dict(arr=m_arr, image=lambda x, w: None if isinstance(x, np.ndarray) and B.same_image(x, w) else 'another image', matrix=c19.m_matrix)


def span(W):
    """(valuation, degree) of each matrix of the batch; None for zero."""
    out = np.empty(W.shape[:-3], dtype=object)
    for ix in np.ndindex(*W.shape[:-3]):
        nz = [d for d in range(W.shape[-1]) if (W[ix][..., d] != 0).any()]
        out[ix] = (nz[0], nz[-1]) if nz else None
    return out


def shaped(out):
    """A plain value for a scalar prefix, a nested list otherwise."""
    return out.tolist() if out.ndim else out[()]


def show(W):
    return str(W.tolist())[:300]


# ------------------------------------------------------------------------------ operations

def op_new(P, rng):
    d = rng.choice([1, 2, 2, 3, 3])
    shape = (d, d) if rng.random() < 0.7 else (rng.randint(1, 3), rng.randint(1, 3))
    pre = rng.choice([(), (), (), (2,), (3,), (1,), (2, 2)])
    D = rng.choice([1, 2, 2, 3, 5, 9])
    t = rng.choice(['int64', 'int64', 'int32', 'int32', 'int8'])
    i = np.iinfo(TYPES[t])
    big = rng.choice([1, 3, 3, 9, int(i.max ** 0.5), int(i.max ** 0.5) // 3, i.max])
    some = [0, 0, 1, -1, big, -big, i.min if big == i.max else 2, rng.randint(0, big)]
    W = np.zeros((*pre, *shape, D), dtype=object)
    for ix in np.ndindex(*W.shape):
        W[ix] = rng.choice(some) if rng.random() < 0.8 else 0
    for ix in np.ndindex(*pre):                               # zeros at either end, or everywhere
        lo, hi = rng.choice([(0, 0), (0, 0), (1, 0), (0, 1), (D, 0), (D // 2, 0), (0, D // 2)])
        W[ix][..., :lo] = 0
        if hi:
            W[ix][..., D - hi:] = 0
    x = W.astype(TYPES[t])
    P.put('new', 'arr', x, (W, TYPES[t]))


def some(P, rng):
    if not P.have('arr'):
        op_new(P, rng)
    x, (W, t) = P.pick('arr', rng)
    while W.shape[-1] == 0:                                   # a zero matrix trimmed to no degrees at all
        op_new(P, rng)
        x, (W, t) = P.pick('arr', rng)
    return x, W, t


def multiply(P, what, fn, W, t, *inputs):
    """Exact if it fits, refused if not."""
    if fits(W, t):
        P.put(what, 'arr', P.call(fn), (W, t), *inputs)
    else:
        P.refuses(fn, f'{what} of {", ".join(inputs)}, which needs {max(abs(int(W.max())), abs(int(W.min())))} in {np.dtype(t)}', OverflowError)
        P.stats['probe:refused for overflow'] += 1


def op_mul(P, rng):
    from peyl import polymat
    x, W, t = some(P, rng)
    y, V, u = some(P, rng)
    ok = [m for m in P.items['arr'] if m[1][0].shape[-3] == W.shape[-2] and m[1][1] == t and (m[1][0].shape[:-3] == W.shape[:-3] or rng.random() < 0.5)]
    if ok and rng.random() < 0.9:
        y, (V, u) = ok[rng.randrange(len(ok))]
    if W.size * V.size > 40000 or V.size == 0 or W.shape[-1] + V.shape[-1] > 60 or u != t:
        return
    if W.shape[-2] != V.shape[-3]:
        return P.refuses(lambda: polymat.mul(x, y), f'product of shapes {W.shape} and {V.shape}', AssertionError, ValueError)
    try:
        np.broadcast_shapes(W.shape[:-3], V.shape[:-3])
    except ValueError:
        return P.refuses(lambda: polymat.mul(x, y), f'product of shapes {W.shape} and {V.shape}', AssertionError, ValueError)
    quot = rng.choice([None, None, None, 0, 1, 2, 5])
    multiply(P, 'product', lambda: polymat.mul(x, y) if quot is None else polymat.mul(x, y, quot), product(W, V, quot), t, show(W), show(V), str(quot))


def op_shape(P, rng):
    from peyl import polymat
    x, W, t = some(P, rng)
    D = W.shape[-1]
    nz = [d for d in range(D) if (W[..., d] != 0).any()]
    sp = span(W)
    w = rng.randrange(5)
    if w == 0:
        P.put('trim', 'arr', P.call(lambda: polymat.trim(x)), (W[..., :nz[-1] + 1] if nz else W[..., :0], t), show(W))
    elif w == 1:
        s, y = P.call(lambda: polymat.trim_left(x))
        P.eq('degree taken off by trim_left', int(s), nz[0] if nz else D, show(W))
        P.put('trim_left', 'arr', y, (W[..., nz[0]:] if nz else W[..., D:], t), show(W))
    elif w == 2:
        L = D + rng.randint(0, 4)
        V = np.zeros((*W.shape[:-1], L), dtype=object)
        V[..., :D] = W
        P.put('zeropad', 'arr', P.call(lambda: polymat.zeropad(x, L)), (V, t), show(W), L)
        if D > 1:
            P.refuses(lambda: polymat.zeropad(x, D - 1), 'zeropad to less', AssertionError, ValueError)
    elif sp.size and all(v is not None for v in sp.ravel()):
        new = max(b - a + 1 for a, b in sp.ravel())
        V = np.zeros((*W.shape[:-1], new), dtype=object)
        for ix in np.ndindex(*sp.shape):
            a, b = sp[ix]
            V[ix][..., :b - a + 1] = W[ix][..., a:b + 1]
        P.put('projectivise', 'arr', P.call(lambda: polymat.projectivise(x)), (V, t), show(W))
    else:
        P.refuses(lambda: polymat.projectivise(x), 'projectivise of zero', AssertionError, ValueError)


def op_look(P, rng):
    from peyl import polymat
    x, W, t = some(P, rng)
    sp = span(W)
    flat = lambda f: shaped(np.frompyfunc(f, 1, 1)(sp) if sp.ndim else np.array(f(sp[()]), dtype=object))   # noqa: E731
    got = lambda f: np.asarray(P.call(lambda: f(x))).tolist()                                             # noqa: E731
    P.eq('terms', got(polymat.nz_terms), shaped(np.asarray((W != 0).sum(axis=(-3, -2, -1)), dtype=object)), show(W))
    P.eq('efflen', got(polymat.efflen), flat(lambda v: v[1] - v[0] if v else 0), show(W))
    if all(v is not None for v in sp.ravel()):
        P.eq('degmax', got(polymat.degmax), flat(lambda v: v[1]), show(W))
        P.eq('valmin', got(polymat.valmin), flat(lambda v: v[0]), show(W))
        P.eq('projlen', got(polymat.projlen), flat(lambda v: v[1] - v[0] + 1), show(W))
        P.eq('rhogap', got(polymat.rhogap), flat(lambda v: (v[1] - v[0]) / 2), show(W))
        starts, ends = P.call(lambda: polymat.proj_starts_ends(x))
        P.eq('starts', np.asarray(starts).tolist(), flat(lambda v: v[0]), show(W))
        P.eq('ends', np.asarray(ends).tolist(), flat(lambda v: v[1] + 1), show(W))
    elif sp.size:
        P.refuses(lambda: polymat.proj_starts_ends(x), 'starts and ends of zero', AssertionError, ValueError)


def op_burau(P, rng):
    """Generators of the Burau representation: v^2 off by a sign on the diagonal, determinant -v^2, braid relations."""
    from peyl import polymat
    n = rng.randint(2, 6)
    s = rng.randrange(n - 1)
    mats = {}
    for k in range(n - 1) if rng.random() < 0.3 else [s]:
        W = np.zeros((n - 1, n - 1, 3), dtype=object)
        for i in range(n - 1):
            W[i, i, 0] = int(i != k)
        W[k, k, 2] = -1
        for j in (k - 1, k + 1):
            if 0 <= j < n - 1:
                W[k, j, 1] = -1
        mats[k], _ = P.put('burau generator', 'arr', P.call(lambda: polymat.burau_generator_v2(n, k)), (W, np.int64), n, k)
    bad = rng.choice([(n, n - 1), (n, -1), (0, 0), (1, 0)])
    P.refuses(lambda: polymat.burau_generator_v2(*bad), f'Burau generator {bad}', AssertionError, ValueError)
    t = s + 1
    if t in mats and s in mats:
        a, b = (P.call(lambda: polymat.trim(polymat.mul(polymat.mul(mats[x], mats[y]), mats[x]))) for x, y in ((s, t), (t, s)))
        P.eq('braid relation', a.tolist(), b.tolist(), n, s)


def rank(rows):
    """Rank over the rationals."""
    rows, r = [[Fraction(int(x)) for x in row] for row in rows], 0
    for c in range(len(rows[0])):
        k = next((i for i in range(r, len(rows)) if rows[i][c]), None)
        if k is None:
            continue
        rows[r], rows[k] = rows[k], rows[r]
        for i in range(r + 1, len(rows)):
            u = rows[i][c] / rows[r][c]
            rows[i] = [a - u * b for a, b in zip(rows[i], rows[r])]
        r += 1
    return r


def op_table(P, rng):
    """Tables of statistics of braids beside matrices, and ranks."""
    from peyl import braidsearch as bs, bucketing, polymat
    from peyl.jonesrep import JonesCellRep
    al = [m for m in P.items['arr'] if m[1][0].ndim == 4 and m[1][0].size and all(v is not None for v in span(m[1][0]).ravel())]
    if not al:
        return op_new(P, rng)
    x, (W, t) = al[rng.randrange(len(al))]
    sp = list(span(W).ravel())
    n = rng.choice([3, 4])
    kind = rng.choice('GGD')
    bb = [B.rand_braid(rng, kind, n, rng.choice([1, 1, 2, 3, 5]), rng.choice([0, 1, -2])) for _ in range(len(W))]
    xs, ln = [B.to_lib(b) for b in bb], [len(b[3]) for b in bb]
    nz = (W != 0).sum(axis=(-3, -2, -1)).tolist()
    gap = [(b - a) / 2 for a, b in sp]
    low = all(a == 0 for a, b in sp)
    small = W.size == 0 or abs(W).max() <= 9                  # ranks are found in floating point
    if low and small:
        k = rng.randint(0, 3)
        want = [sum(rank(W[i][..., d].tolist()) for d in range(min(k, W.shape[-1]))) for i in range(len(W))]
        P.eq('projrank', np.broadcast_to(np.asarray(P.call(lambda: polymat.projrank(x, k))), len(W)).tolist(), want, show(W), k)
    which = rng.randrange(3)
    if which == 0 and kind == 'G':
        as_list = rng.random() < 0.4
        df = P.call(lambda: bs.braids_images_to_dataframe(xs, [x[i] for i in range(len(W))] if as_list else x))
        P.eq('braids of the table', all(a is b for a, b in zip(df['braid'], xs)) and len(df) == len(xs), True)
        P.eq('matrices of the table', all((exact(a) == W[i]).all() for i, a in enumerate(df['image'])), True, show(W))
        cols = dict(length=ln, nz_terms=nz, degmax=[b for a, b in sp], valmin=[a for a, b in sp], rhogap=gap)
        cols['rhogap/length'] = [g / k for g, k in zip(gap, ln)]
    elif which == 1 and kind == 'G' and low and small:
        df = P.call(lambda: bs.Tracker(bs.JonesSummand(n=n, r=1, p=2), 3, ('length', 'projlen'), None).braid_image_stats(xs, x))
        cols = dict(length=ln, nz_terms=nz, degmax=[b for a, b in sp], valmin=[a for a, b in sp], rhogap=gap, projlen=[b - a + 1 for a, b in sp])
        cols['rhogap/length'] = [g / k for g, k in zip(gap, ln)]
        cols['projrank2'] = [sum(rank(W[i][..., d].tolist()) for d in range(min(2, W.shape[-1]))) for i in range(len(W))]
    else:
        S = bucketing.Stats
        df = P.call(lambda: bucketing.Tracker(JonesCellRep(n, 1, 2), 3, [S.CanonicalLength, S.ProjectiveLength], [S.NFKind, S.NonzeroTerms]).braid_image_stats(xs, x))
        P.eq('braids of the table', all(a is b for a, b in zip(df['braid'], xs)) and len(df) == len(xs), True)
        cols = dict(length=ln, projlen=[b - a + 1 for a, b in sp], nf=['GNF' if kind == 'G' else 'DGNF'] * len(xs), nz_terms=nz)
    for c, want in cols.items():
        P.eq(f'column {c}', df[c].tolist(), want, show(W), [B.show(b) for b in bb])


def op_batch(P, rng):
    from peyl import polymat
    x, W, t = some(P, rng)
    if W.ndim == 3:
        al = [m for m in P.items['arr'] if m[1][0].ndim == 3 and m[1][0].shape[:2] == W.shape[:2] and m[1][1] == t]
        pick = [al[rng.randrange(len(al))] for _ in range(rng.randint(1, 4))]
        Vs = [v[1][0] for v in pick]
        top = [max([d + 1 for d in range(V.shape[-1]) if (V[..., d] != 0).any()], default=0) for V in Vs]
        R = np.zeros((len(Vs), *W.shape[:2], max(top)), dtype=object)
        for k, V in enumerate(Vs):
            R[k, :, :, :top[k]] = V[..., :top[k]]
        P.put('pack', 'arr', P.call(lambda: polymat.pack([v[0] for v in pick])), (R, t), *map(show, Vs))
    elif W.ndim == 4:
        al = [m for m in P.items['arr'] if m[1][0].ndim == 4 and m[1][0].shape[1:3] == W.shape[1:3] and m[1][1] == t]
        pick = [al[rng.randrange(len(al))] for _ in range(rng.randint(1, 4))]
        Vs = [v[1][0] for v in pick]
        top = [max([d + 1 for d in range(V.shape[-1]) if (V[..., d] != 0).any()], default=0) for V in Vs]
        R = np.concatenate([np.concatenate([V[..., :k], np.zeros((*V.shape[:-1], max(top) - k), dtype=object)], axis=-1) for V, k in zip(Vs, top)])
        if R.size < 3000:
            P.put('concatenate', 'arr', P.call(lambda: polymat.concatenate([v[0] for v in pick])), (R, t), *map(show, Vs))


def laurents(W):
    return [c19.norm({d: int(W[i, j, d]) for d in range(W.shape[2])}) for i in range(W.shape[0]) for j in range(W.shape[1])]


def op_convert(P, rng):
    from peyl import polymat
    from peyl.lpoly import LPoly
    from peyl.matrix import Matrix
    x, W, t = some(P, rng)
    if W.ndim != 3:
        n = rng.randint(1, 5)
        I = np.zeros((n, n, 1), dtype=object)
        for i in range(n):
            I[i, i, 0] = 1
        return P.put('eye', 'arr', P.call(lambda: polymat.eye(n)), (I, np.int64), n)
    which = rng.randrange(3)
    if which == 0:
        M = P.call(lambda: polymat.to_matrix(x))
        want = laurents(W)
        for k, (a, b) in enumerate(zip(M.data, want)):
            P.eq('entry of to_matrix', {e: int(c) for e, c in c19.of_lpoly(a).items()}, b, show(W), k)
        return
    # from a matrix, with degrees moved
    low = rng.choice([0, 0, 1, 3, -1, -4])
    m = Matrix.from_rows([[LPoly(low, [int(c) for c in W[i, j]]) for j in range(W.shape[1])] for i in range(W.shape[0])])
    nz = [d for d in range(W.shape[2]) if (W[..., d] != 0).any()]
    if not nz:
        return
    a = nz[0] + low
    core = W[..., nz[0]:nz[-1] + 1]
    if a < 0 and which == 1:
        return P.refuses(lambda: polymat.from_matrix(m), 'from_matrix with negative powers', ValueError)
    lead = 0 if a < 0 else a
    V = np.concatenate([np.zeros((*core.shape[:2], lead), dtype=object), core], axis=-1)
    P.put('from_matrix', 'arr', P.call(lambda: polymat.from_matrix(m) if which == 1 else polymat.from_matrix(m, proj=True)), (V, np.int64), show(W), low)


# -- characteristic zero

def op_new_rep(P, rng):
    from peyl.braidsearch import JonesSummand
    from peyl.jonesrep import JonesCellRep
    n = rng.choice([3, 3, 4, 4, 5])
    r = rng.randint(0 if rng.random() < 0.1 else 1, n // 2)
    kind = rng.choice(['cell', 'summand'])
    x = P.call(lambda: JonesCellRep(n, r, 0) if kind == 'cell' else JonesSummand(n, r, 0))
    P.items['rep'].append((x, (kind, n, r)))


PSEUDO = {3: [(0, 1), (1, -1)], 4: [(0, 1), (1, -1), (2, 1), (1, -1)], 5: [(0, 1), (2, 1), (1, -1), (3, -1)]}


def op_long(P, rng):
    """Long braids over the integers: each step of the evaluation is exact or the evaluation is refused."""
    if not P.have('rep'):
        op_new_rep(P, rng)
    x, (kind, n, r) = P.pick('rep', rng)
    R = ref.refrep(n, r, 0)
    top = 2 ** 63
    if kind == 'cell' and rng.random() < 0.5:                 # a word with exponential growth
        k = rng.choice([1, 5, 10, 20, 30, 45, 60])
        w = (PSEUDO[n] if rng.random() < 0.7 else [(rng.randrange(n - 1), rng.choice([1, -1])) for _ in range(3)]) * (k // (2 if n < 4 else 4) + 1)
        M, biggest = R.identity(), 0
        for i, e in w:
            M = R.times_gen(M, i, e)
            biggest = max(biggest, int(abs(M[0]).max()))
        what, fn, want = f'polymat_evaluate_artin_word {w[:4]}… of length {len(w)}', lambda: x.polymat_evaluate_artin_word(w), R.proj(M)
    else:
        L = rng.choice([1, 5, 12, 20, 30])
        b = B.rand_braid(rng, 'G', n, L, 0)
        M, biggest = R.identity(), 0
        for f in b[3]:
            M = R.mul(M, R.word(ref.perm_braid_word(f)))
            biggest = max(biggest, int(abs(M[0]).max()))
        y = B.to_lib(b)
        if kind == 'cell':
            fn = lambda: x.polymat_evaluate_braid(y)                                         # noqa: E731
        else:
            from peyl import braidsearch as bs
            fn = rng.choice([lambda: bs.evaluate_braids_of_same_length(x, [y])[0], lambda: bs.evaluate_braid_factors(x, y), lambda: bs.evaluate_prefixes_of_same_length(x, [y])[-1][0]])
        what, want = f'evaluation of {B.show(b)}', R.proj(M)
    what = f'{what} in {kind} ({n}, {r}) over the integers'
    try:
        got = P.call(fn)
    except OverflowError:
        if biggest < top:
            raise Violation('refused', f'{what} was refused, but no step needs more than {biggest}')
        P.stats['evaluations'] += 1
        P.stats['probe:refused for overflow'] += 1
        return
    P.put(what, 'image', got, want)
    P.stats['probe:entries of 2^%d or more' % (int(abs(want).max()).bit_length() // 16 * 16)] += 1


OPS = dict(new=op_new, new_rep=op_new_rep, mul=op_mul, mul_more=op_mul, shape=op_shape, look=op_look, burau=op_burau, table=op_table, batch=op_batch, convert=op_convert, long=op_long)


def gen(rng, tier, i):
    return program.gen(rng, list(OPS), 24, 1000)


shrink = program.shrink


def run(plan):
    return program.Program(plan, OPS, MODELS, 30_000_000).run()
