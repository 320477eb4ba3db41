"""C22: matrices of the Lawrence-Krammer-Bigelow and cell representations by threads that share representation objects and their caches, cold or warm, interrupted or not."""
import functools

import numpy as np

from .. import bridge as B, program, ref, sched
from ..world import Violation
from . import c19

ID = 'C22'
LEVEL = 'exploration'
RULE = c19.RULE
STATES = c19.STATES
REAL = ['peyl.jonesrep', 'peyl.matrix', 'peyl.lpoly', 'peyl.tl', 'peyl.polymat', 'peyl.braid', 'numpy', 'Python threads (one runs at a time)']
STUB = c19.STUB
ASSUMPTIONS = [*c19.ASSUMPTIONS, 'returned arrays are not modified by their receiver']
CONFIG = dict(quick=dict(runs=1000, wall=240, repeat=10, run_wall=300), thorough=dict(runs=20000, wall=2400, repeat=80, run_wall=600))
PRIMES = [0, 0, 2, 3, 5, 7, 4, 31, 97]


def warm(tier):
    sched.patch_locks()
    import peyl.jonesrep                                       # noqa: F401
    import peyl.noncrossing                                    # noqa: F401
    for n in range(2, 6):
        B.gindex(n), B.dindex(n)


# ------------------------------------------------------------------------------ reference

def poly(d):
    return c19.norm(d)


def mono(e, u=1):
    return {e: u}


def lkb_columns(n, s, e, q, t):
    """Images of the basis (i, j), i < j, under sigma_s^e: {(i, j): {(k, l): polynomial}}.  q, t: (degree, sign)."""
    Q = lambda k: mono(q[0] * k, q[1] ** (k % 2))                                            # noqa: E731
    T = lambda k: mono(t[0] * k, t[1] ** (k % 2))                                            # noqa: E731
    mul, add = c19.mul, c19.add
    one = {0: 1}
    q1 = add(Q(1), one, -1)                                                                  # q - 1
    out = {}
    for i in range(n):
        for j in range(i + 1, n):
            c = {}
            if (i, j) == (s, s + 1):
                c[i, j] = mul(T(1), Q(2))
            elif j == s:
                c[i, s], c[i, s + 1] = add(one, Q(1), -1), Q(1)
            elif j == s + 1:
                c[i, s], c[s, s + 1] = one, mul(mul(T(1), Q(s - i + 1)), q1)
            elif i == s:
                c[s, s + 1], c[s + 1, j] = mul(mul(T(1), Q(1)), q1), Q(1)
            elif i == s + 1:
                c[s, j], c[s + 1, j] = one, add(one, Q(1), -1)
            else:
                c[i, j] = one
                if i < s and s + 1 < j:
                    c[s, s + 1] = mul(mul(T(1), Q(s - i)), mul(q1, q1))
            out[i, j] = c
    if e > 0:
        return out
    # Solve.  sigma fixes the line of x_{s,s+1} up to a unit; modulo that line it is a direct sum of 1 x 1 and 2 x 2 blocks.
    x = (s, s + 1)
    unit = mul(T(-1), Q(-2))
    inv = {x: {x: unit}}
    done = {x}
    for i, j in out:
        if (i, j) in done:
            continue
        if j in (s, s + 1):
            pair = [(i, s), (i, s + 1)]
        elif i in (s, s + 1):
            pair = [(s, j), (s + 1, j)]
        else:
            pair = [(i, j)]
        done.update(pair)
        if len(pair) == 1:
            block = {(i, j): {(i, j): one}}
        else:
            a, b = pair
            g = lambda u, v: out[v].get(u, {})                                               # noqa: E731  row u, column v
            det = add(mul(g(a, a), g(b, b)), mul(g(a, b), g(b, a)), -1)
            (de, du), = det.items()
            di = mono(-de, du)
            block = {a: {a: mul(di, g(b, b)), b: mul({0: -1}, mul(di, g(b, a)))}, b: {a: mul({0: -1}, mul(di, g(a, b))), b: mul(di, g(a, a))}}
        for v in pair:                                       # correct the component along x: sigma(block v) = v + w x, so take off w sigma^-1(x)
            w = {}
            for u, c in block[v].items():
                w = add(w, mul(c, out[u].get(x, {})))
            inv[v] = {u: c for u, c in block[v].items() if c}
            w = mul({0: -1}, mul(w, unit))
            if w:
                inv[v][x] = add(inv[v].get(x, {}), w)
    return inv


class LKB(ref.RefRep):
    """The same arrays as for the cell representations."""

    def __init__(self, n, p, q, t):
        self.n, self.p, self.perm = n, p, None
        self.basis = [(i, j) for i in range(n) for j in range(i + 1, n)]
        self.d = len(self.basis)
        self.dtype = object if p == 0 else np.int64
        self.g = {(s, e): self.array(lkb_columns(n, s, e, q, t)) for s in range(n - 1) for e in (1, -1)}
        one = self.identity()
        for s in range(n - 1):                               # the reference is itself a representation
            assert self.same(self.mul(self.g[s, 1], self.g[s, -1]), one) and self.same(self.mul(self.g[s, -1], self.g[s, 1]), one)
            for u in range(s):
                assert self.same(self.word([(s, 1), (u, 1), (s, 1)]), self.word([(u, 1), (s, 1), (u, 1)])) if s == u + 1 else self.same(self.word([(s, 1), (u, 1)]), self.word([(u, 1), (s, 1)]))

    def array(self, cols):
        at = {b: k for k, b in enumerate(self.basis)}
        degs = [k for c in cols.values() for d in c.values() for k in d]
        lo, hi = min(degs), max(degs)
        A = np.zeros((self.d, self.d, hi - lo + 1), dtype=self.dtype)
        for b, c in cols.items():
            for a, d in c.items():
                for k, v in d.items():
                    A[at[a], at[b], k - lo] = v
        return self.trim((A % self.p if self.p else A, -lo))

    def same(self, M, N):
        return self.laurent(M) == self.laurent(N)

    def times_gen(self, M, i, e):
        return self.mul(M, self.g[i, e])


@functools.lru_cache(maxsize=300)
def lkb(n, p, q, t):
    return LKB(n, p, q, t)


def reference(d):
    return lkb(*d[1:]) if d[0] == 'lkb' else ref.refrep(*d[1:])


def m_rep(x, d):
    if type(x).__name__ != ('LKBRep' if d[0] == 'lkb' else 'JonesCellRep'):
        return f'a {type(x).__name__}'
    if (x.n, x.p) != ((d[1], d[2]) if d[0] == 'lkb' else (d[1], d[3])) or x.dimension() != reference(d).d:
        return 'another representation'
    if d[0] == 'lkb' and (c19.of_lpoly(x.q), c19.of_lpoly(x.t)) != (mono(*d[3]), mono(*d[4])):
        return 'other parameters'


def entries(R, M, p):
    L = R.laurent(M)
    return R.d, R.d, [L[i, j] for i in range(R.d) for j in range(R.d)], p


def m_mod(x, want):
    """A matrix of Laurent polynomials equal to the reference mod p."""
    nr, nc, data, p = want
    if type(x).__name__ != 'Matrix':
        return f'a {type(x).__name__}'
    if (x.nrows, x.ncols) != (nr, nc):
        return 'another shape'
    for k, (a, b) in enumerate(zip(x.data, data)):
        a = c19.of_lpoly(a)
        if (poly({e: c % p for e, c in a.items()}) if p else a) != b:
            return f'another entry {divmod(k, nc)}'


def m_exact(x, want):
    """The same with coefficients reduced mod p."""
    return m_mod(x, want) or m_mod(x, (*want[:3], 0))


def m_array(x, want):
    if not isinstance(x, np.ndarray) or x.dtype.kind not in 'iu':
        return f'{type(x).__name__} of {getattr(x, "dtype", None)}'
    if isinstance(want, list):
        if x.ndim != 4 or x.shape[0] != len(want):
            return 'another number of matrices'
        bad = [i for i, w in enumerate(want) if not B.same_image(x[i], w)]
        return f'matrix {bad[0]} differs' if bad else None
    return None if B.same_image(x, want) else 'another matrix'


MODELS = dict(rep=m_rep, mod=m_mod, exact=m_exact, array=m_array, matrix=c19.m_matrix)


# ------------------------------------------------------------------------------ operations

def op_new_rep(P, rng):
    from peyl.jonesrep import JonesCellRep, LKBRep
    from peyl.lpoly import LPoly
    if rng.random() < 0.75:
        n = rng.choice([2, 3, 3, 3, 4, 4]) if rng.random() < 0.9 else rng.choice([5, 5, 6, 6, 7])
        p = rng.choice(PRIMES)
        q, t = [(rng.choice([1, -1, 2, 3, -2, 0, 7]), rng.choice([1, 1, -1])) for _ in range(2)]
        d = ('lkb', n, p, q, t)
        P.put('LKBRep', 'rep', P.call(lambda: LKBRep(n, p, LPoly(q[0], (q[1],)), LPoly(t[0], (t[1],)))), d, *d)
        if rng.random() < 0.1:
            bad = rng.choice([LPoly(0, (2,)), LPoly(0, (1, 1)), LPoly(0, ())])
            P.refuses(lambda: LKBRep(n, p, bad, LPoly(1, (1,))), f'LKBRep with q = {bad}', AssertionError, ValueError)
            P.refuses(lambda: LKBRep(n, p, LPoly(1, (1,)), bad), f'LKBRep with t = {bad}', AssertionError, ValueError)
    else:
        n = rng.choice([2, 3, 4, 5])
        d = ('cell', n, rng.randint(0, n // 2), rng.choice(PRIMES))
        P.put('JonesCellRep', 'rep', P.call(lambda: JonesCellRep(*d[1:])), d, *d)


def the_rep(P, rng):
    if not P.have('rep'):
        op_new_rep(P, rng)
    x, d = P.pick('rep', rng)
    return x, d, reference(d)


def p_of(d):
    return d[2] if d[0] == 'lkb' else d[3]


def some_word(rng, n, most=6, high=False):
    if n > 5:                                                # large matrices
        return [(rng.randrange(n - 1), rng.choice([1, -1, 1, -1, 0, 2])) for _ in range(rng.choice([1, 1, 2]))]
    if high and rng.random() < 0.2:
        return [(rng.randrange(n - 1), rng.choice([1, -1]) * rng.randint(4, 17)) for _ in range(rng.choice([1, 1, 2]))]
    return [(rng.randrange(n - 1), rng.choice([1, 1, -1, -1, 2, -2, 0, -3])) for _ in range(rng.choice([0, 1, 2, 3, most]))]


def op_gens(P, rng):
    x, d, R = the_rep(P, rng)
    gs, vs = P.call(x.artin_gens_invs)
    P.eq('number of generators', (len(gs), len(vs)), (d[1] - 1, d[1] - 1), d)
    for e, ms in ((1, gs), (-1, vs)):
        for i, M in enumerate(ms):
            P.put(f'generator {i}^{e}', 'mod', M, entries(R, R.word([(i, e)]), p_of(d)), d)
    if d[0] == 'lkb' and d[2] == 0 and d[1] <= 4:             # the relations, by the library's own arithmetic
        i = rng.randrange(d[1] - 1)
        P.put('generator times inverse', 'mod', P.call(lambda: gs[i] * vs[i]), entries(R, R.identity(), 0), d, i)
        j = rng.randrange(d[1] - 1)
        if abs(i - j) == 1:
            P.put('sts', 'mod', P.call(lambda: gs[i] * gs[j] * gs[i]), entries(R, R.word([(j, 1), (i, 1), (j, 1)]), 0), d, i, j)
        else:
            P.put('st', 'mod', P.call(lambda: vs[i] * gs[j]), entries(R, R.word([(j, 1), (i, -1)]), 0), d, i, j)


def op_word(P, rng):
    x, d, R = the_rep(P, rng)
    w = some_word(rng, d[1], 5 if R.d > 6 else 8, R.d <= 6)
    P.put('evaluate_artin_word', 'exact', P.call(lambda: x.evaluate_artin_word(list(w))), entries(R, R.word(w), p_of(d)), d, w)


def thing(rng, n, L):
    """An object to evaluate and a word for it."""
    from peyl.noncrossing import NPar
    from peyl.permutations import Permutation
    which = rng.randrange(4)
    if which == 0:
        pm = tuple(rng.sample(range(n), n))
        return Permutation(pm), ref.perm_braid_word(pm), pm
    if which == 1:
        bl = ref.blocks_of(rng.choice(ref.all_noncrossing(n)))
        return NPar.from_components(n, bl), ref.blocks_word(bl), bl
    b = B.rand_braid(rng, 'GD'[which - 2], n, L, rng.randint(-1, 2))
    return B.to_lib(b), B.word(b), B.show(b)


def op_object(P, rng):
    x, d, R = the_rep(P, rng)
    if d[1] > 5:
        return
    o, w, name = thing(rng, d[1], 1 if d[1] > 3 else 2)
    P.put('evaluate', 'exact', P.call(lambda: x.evaluate(o)), entries(R, R.word(w), p_of(d)), d, name)


def op_pmgens(P, rng):
    x, d, R = the_rep(P, rng)
    gs, vs = P.call(x.polymat_artin_gens_invs)
    for e, a in ((1, gs), (-1, vs)):
        want = [R.proj(R.word([(i, e)])) for i in range(d[1] - 1)]
        P.eq('number of matrices', len(a), len(want), d)
        for i, w in enumerate(want):                          # the batch has a common degree, so each up to a power of v
            nz = np.nonzero(np.asarray(a[i]).any(axis=(0, 1)))[0]
            P.put(f'polymat generator {i}^{e}', 'array', a[i][:, :, nz[0]:] if len(nz) else a[i], w, d)


def op_pmword(P, rng):
    x, d, R = the_rep(P, rng)
    if rng.random() < 0.5 or d[1] > 5:
        w = some_word(rng, d[1], 5 if R.d > 6 else 6, high=R.p != 0 and R.d <= 10)
        P.put('polymat_evaluate_artin_word', 'array', P.call(lambda: x.polymat_evaluate_artin_word(list(w))), R.proj(R.word(w)), d, w)
    else:
        o, w, name = thing(rng, d[1], 2)
        P.put('polymat_evaluate', 'array', P.call(lambda: x.polymat_evaluate(o)), R.proj(R.word(w)), d, name)


def op_braids(P, rng):
    x, d, R = the_rep(P, rng)
    n = d[1]
    if n > 5:
        return
    kind, L = rng.choice('GD'), rng.choice([0, 1, 2, 3]) if n > 2 else 0
    bb = [B.rand_braid(rng, kind, n, L, rng.choice([0, 1, 2, -1, -2])) for _ in range(rng.choice([1, 2, 4]))]
    bb = [b for b in bb if len(b[3]) == len(bb[0][3])]
    xs = [B.to_lib(b) for b in bb]
    if len(xs) == 1 and rng.random() < 0.5:
        P.put('polymat_evaluate_braid', 'array', P.call(lambda: x.polymat_evaluate_braid(xs[0])), R.proj(R.word(B.word(bb[0]))), d, B.show(bb[0]))
    else:
        P.put('polymat_evaluate_braids_of_same_length', 'array', P.call(lambda: x.polymat_evaluate_braids_of_same_length(xs)), [R.proj(R.word(B.word(b))) for b in bb], d, [B.show(b) for b in bb])


def op_refuse(P, rng):
    """Words in letters that do not exist."""
    x, d, R = the_rep(P, rng)
    n = d[1]
    w = some_word(rng, n, 4)
    w.insert(rng.randint(0, len(w)), (rng.choice([-1, -2, 1 - n, n - 1, n, n + 3]), rng.choice([1, -1, 2, -3])))
    if rng.random() < 0.5:
        P.refuses(lambda: x.evaluate_artin_word(list(w)), f'{d}: the word {w}')
    else:
        P.refuses(lambda: x.polymat_evaluate_artin_word(list(w)), f'{d}: the word {w} for an array')


def op_cell(P, rng):
    from peyl import jonesrep as jr
    n = rng.choice([2, 3, 4, 4, 5])
    r = rng.randint(0, n // 2)
    R = ref.refrep(n, r, 0)
    if rng.random() < 0.5:
        gs, vs = P.call(lambda: jr.cell_matrices(n, r))
        P.eq('number of generators', (len(gs), len(vs)), (n - 1, n - 1), n, r)
        for e, ms in ((1, gs), (-1, vs)):
            for i, M in enumerate(ms):
                P.put(f'cell matrix {i}^{e}', 'mod', M, entries(R, R.word([(i, e)]), 0), n, r)
        return
    gs, vs = P.call(lambda: jr.tl_gens_invs(n))
    w = [(rng.randrange(n - 1), rng.choice([1, -1])) for _ in range(rng.randint(1, 4))]
    def make():                                               # noqa: E306
        m = None
        for i, e in w:
            g = (gs if e > 0 else vs)[i]
            m = g if m is None else m * g
        return jr.cell_matrix(m, r)
    P.put('cell matrix of a product', 'mod', P.call(make), entries(R, R.word(w), 0), n, r, w)


OPS = dict(new_rep=op_new_rep, gens=op_gens, word=op_word, object=op_object, pmgens=op_pmgens, pmword=op_pmword, braids=op_braids, braids_more=op_braids, refuse=op_refuse, cell=op_cell)


def gen(rng, tier, i):
    return program.gen(rng, list(OPS), 14, 20000)


shrink = program.shrink


def run(plan):
    return program.Program(plan, OPS, MODELS, 40_000_000).run()
