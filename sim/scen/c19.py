"""C19: exact ring and matrix algebra by threads that share values and caches, cold or warm, interrupted or not."""
from .. import program, sched

ID = 'C19'
LEVEL = 'exploration'
RULE = ('one evaluation = one value computed by the library (or refusal) compared with the reference model, or one value compared again at the end; '
        'non-trivial = more than one thread computed, or a fault fired, or caches were cold; distinct = distinct interleavings together with the results')
STATES = 'digest of the interleaving (every switch with thread and position) and of all results'
REAL = ['peyl.lpoly', 'peyl.poly', 'peyl.matrix', 'Python threads (one runs at a time)']
STUB = ['thread scheduling', 'interrupt and allocation-failure delivery at executed lines', 'threading locks made by /repo code']
ASSUMPTIONS = ['threads are switched at line boundaries of /repo code']
CONFIG = dict(quick=dict(runs=3000, wall=240, repeat=12, run_wall=300), thorough=dict(runs=60000, wall=2400, repeat=100, run_wall=600))
SPAN, BIG = 70, 10 ** 60


def warm(tier):
    sched.patch_locks()
    from peyl.poly import Poly
    for n in range(1, 31):
        Poly.cyclotomic(n), Poly.minpolycos(n)


# ------------------------------------------------------------------- reference: {degree: coefficient}, no zeros

def norm(d):
    return {k: v for k, v in d.items() if v}


def add(a, b, s=1):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) + s * v
    return norm(out)


def mul(a, b):
    out = {}
    for i, c in a.items():
        for j, d in b.items():
            out[i + j] = out.get(i + j, 0) + c * d
    return norm(out)


def power(a, n):
    out = {0: 1}
    for _ in range(n):
        out = mul(out, a)
    return out


def subst(a, x):
    """a(x) for x invertible or a without negative degrees; x as {degree: coefficient}."""
    out = {}
    for k, c in a.items():
        if k >= 0:
            t = power(x, k)
        else:
            (e, u), = x.items()
            t = {e * k: u ** (k % 2)}
        out = add(out, mul({0: c}, t))
    return out


def division(a, b):
    """(q, r) with a = q b + r over the integers by long division from the top, or None if a leading coefficient does not divide."""
    q, r = {}, dict(a)
    db = max(b)
    while r and max(r) >= db:
        t = max(r)
        if r[t] % b[db]:
            return None
        m = {t - db: r[t] // b[db]}
        q, r = add(q, m), add(r, mul(m, b), -1)
    return q, r


def cyclotomic(n, memo={}):
    if n not in memo:
        p = {n: 1, 0: -1}
        for d in range(1, n):
            if n % d == 0:
                p, r = division(p, cyclotomic(d))
                assert not r
        memo[n] = p
    return memo[n]


def chebyshev(n):
    """By the explicit formula of powers of x and x^2 - 1."""
    import math
    out = {}
    for k in range(n // 2 + 1):
        out = add(out, mul({n - 2 * k: math.comb(n, 2 * k)}, power({2: 1, 0: -1}, k)))
    return out


def mincos(n):
    """The polynomial p with p(x + 1/x) x^(deg) = the n-th cyclotomic polynomial (n >= 3)."""
    if n <= 2:
        return {1: 1, 0: -2 if n == 1 else 2}
    f = cyclotomic(n)
    h = max(f) // 2
    rest = {k - h: c for k, c in f.items()}
    out = {}
    while rest:
        t = max(rest)
        out[t] = rest[t]
        rest = add(rest, mul({0: rest[t]}, power({1: 1, -1: 1}, t)), -1)
    return out


# ------------------------------------------------------------------- values of the library

def ints(*xs):
    return all(type(x) is int for x in xs)


def of_lpoly(x):
    if type(x) is int:
        return norm({0: x})
    return norm({x.val + i: c for i, c in enumerate(x.coeffs)})


def m_lpoly(x, want):
    if type(x) is int:                                         # constants may come as integers
        return None if norm({0: x}) == want else 'another element'
    if type(x).__name__ != 'LPoly':
        return f'a {type(x).__name__}'
    if of_lpoly(x) != want:
        return 'another element'
    if not isinstance(x.coeffs, tuple) or not ints(x.val, *x.coeffs):
        return 'not made of integers'
    if (x.coeffs and (x.coeffs[0] == 0 or x.coeffs[-1] == 0)) or (not x.coeffs and x.val != 0):
        return 'not in the form that makes equal elements equal'
    return None


def m_poly(x, want):
    if type(x) is int:
        return None if norm({0: x}) == want else 'another element'
    if type(x).__name__ != 'Poly':
        return f'a {type(x).__name__}'
    if norm(dict(enumerate(x.coeffs))) != want:
        return 'another element'
    if not isinstance(x.coeffs, tuple) or not ints(*x.coeffs) or (x.coeffs and x.coeffs[-1] == 0):
        return 'not in the form that makes equal elements equal'
    return None


def m_matrix(x, want):
    nr, nc, data = want
    if type(x).__name__ != 'Matrix':
        return f'a {type(x).__name__}'
    if (x.nrows, x.ncols) != (nr, nc) or not isinstance(x.data, tuple) or len(x.data) != nr * nc:
        return 'another shape'
    for k, (a, b) in enumerate(zip(x.data, data)):
        if of_lpoly(a) != b:
            return f'another entry {divmod(k, nc)}'
    return None


MODELS = dict(lpoly=m_lpoly, poly=m_poly, matrix=m_matrix)


def small(d):
    return not d or (max(d) - min(d) <= SPAN and max(map(abs, d)) <= 4 * SPAN and max(abs(c) for c in d.values()) <= BIG)


def coeffs(rng, k=None):
    k = rng.choice([0, 1, 1, 2, 3, 5, 9]) if k is None else k
    big = rng.choice([1, 2, 9, 9, 10 ** 4, 2 ** 70])
    return [rng.choice([0, 0, 1, -1, rng.randint(-big, big)]) for _ in range(k)]


def txt(d):
    return ' '.join(f'{c:+}v^{k}' for k, c in sorted(d.items())) or '0'


# ------------------------------------------------------------------- operations

def op_new_lpoly(P, rng):
    from peyl.lpoly import LPoly
    val, cs = rng.randint(-6, 6), coeffs(rng)
    if rng.random() < 0.15:
        cs = rng.choice([[1], [-1], [0, 1], [0, 0, -1, 0], [], [0, 0]])
    seq = rng.choice([list, tuple])(cs)
    P.put('LPoly', 'lpoly', P.call(lambda: LPoly(val, seq)), norm({val + i: c for i, c in enumerate(cs)}), val, cs)


def two(P, rng, kind, new):
    while not P.have(kind):
        new(P, rng)
    return P.pick(kind, rng), P.pick(kind, rng)


def arithmetic(P, rng, kind, new):
    (x, a), (y, b) = two(P, rng, kind, new)
    i = rng.choice([0, 1, -1, 2, -3, 7, 2 ** 65])
    c = norm({0: i})
    what, fn, want = rng.choice([
        ('sum', lambda: x + y, add(a, b)), ('sum', lambda: x + y, add(a, b)),
        ('difference', lambda: x - y, add(a, b, -1)), ('product', lambda: x * y, mul(a, b)), ('product', lambda: x * y, mul(a, b)),
        ('negative', lambda: -x, add({}, a, -1)), ('sum', lambda: x + i, add(a, c)), ('sum', lambda: i + x, add(a, c)),
        ('difference', lambda: x - i, add(a, c, -1)), ('product', lambda: x * i, mul(a, c)), ('product', lambda: i * x, mul(a, c)),
        ('difference', (lambda: i - x) if kind == 'lpoly' else (lambda: i + -x), add(c, a, -1)),
    ])
    if small(want):
        P.put(what, kind, P.call(fn), want, txt(a), txt(b), i)


def op_lpoly(P, rng):
    arithmetic(P, rng, 'lpoly', op_new_lpoly)


def op_poly(P, rng):
    arithmetic(P, rng, 'poly', op_new_poly)


def op_lpoly_power(P, rng):
    from peyl.lpoly import LPoly
    (x, a), _ = two(P, rng, 'lpoly', op_new_lpoly)
    n = rng.choice([0, 1, 2, 3, 4, 5, 7, 12])
    if rng.random() < 0.3:
        e, u = rng.randint(-5, 5), rng.choice([1, -1])
        x, a, n = LPoly(e, (u,)), {e: u}, rng.randint(-40, 40)
        P.put('power', 'lpoly', P.call(lambda: x ** n), {e * n: u ** (n % 2)}, txt(a), n)
    elif rng.random() < 0.2 and not (len(a) == 1 and set(a.values()) <= {1, -1}):
        P.refuses(lambda: x ** -rng.randint(1, 3), f'a negative power of {txt(a)}', ValueError, ZeroDivisionError, ArithmeticError)
    elif len(a) <= 4 or n <= 4:
        want = power(a, n)
        if small(want):
            P.put('power', 'lpoly', P.call(lambda: x ** n), want, txt(a), n)


def op_poly_power(P, rng):
    (x, a), _ = two(P, rng, 'poly', op_new_poly)
    n = rng.choice([0, 1, 2, 3, 4, 5, 7, 12])
    if rng.random() < 0.1:
        P.refuses(lambda: x ** -1, f'a negative power of {txt(a)}', ValueError, ArithmeticError)
    elif len(a) <= 4 or n <= 4:
        want = power(a, n)
        if small(want):
            P.put('power', 'poly', P.call(lambda: x ** n), want, txt(a), n)


def op_divide(P, rng):
    kind, new = rng.choice([('lpoly', op_new_lpoly), ('poly', op_new_poly), ('poly', op_new_poly)])
    (x, a), (y, b) = two(P, rng, kind, new)
    if type(y) is int:
        return
    if not b:
        if type(x) is not int:
            P.refuses(lambda: x / y, f'{txt(a)} divided by zero', ArithmeticError)
        return
    if rng.random() < 0.7:                                     # made divisible
        x, a = P.call(lambda: x * y), mul(a, b)
    if not small(a) or type(x) is int:
        return
    lo = (min(a) if a else 0) if kind == 'lpoly' else 0
    la, lb = {k - lo: c for k, c in a.items()}, ({k - min(b): c for k, c in b.items()} if kind == 'lpoly' else b)
    d = division(la, lb)
    if kind == 'poly' and rng.random() < 0.5 and d is not None:
        q, r = P.call(lambda: divmod(x, y))
        P.put('quotient', 'poly', q, d[0], txt(a), txt(b))
        P.put('remainder', 'poly', r, d[1], txt(a), txt(b))
    elif d is None or d[1]:
        P.refuses(lambda: x / y, f'{txt(a)} divided by {txt(b)}', ValueError, ArithmeticError)
        if d is None and kind == 'poly':
            P.refuses(lambda: divmod(x, y), f'{txt(a)} divided with remainder by {txt(b)}', ValueError, ArithmeticError)
    else:
        s = lo - min(b) if kind == 'lpoly' else 0
        P.put('quotient', kind, P.call(lambda: x / y), {k + s: c for k, c in d[0].items()} if a else {}, txt(a), txt(b))


def op_substitute(P, rng):
    from peyl.lpoly import LPoly
    from peyl.poly import Poly
    (x, a), (y, b) = two(P, rng, 'lpoly', op_new_lpoly)
    if type(x) is int:
        return
    e, u = rng.choice([-2, -1, 1, 2, 3]), rng.choice([1, -1])
    if rng.random() < 0.5:
        P.put('value', 'lpoly', P.call(lambda: x.evaluate(LPoly(e, (u,)))), subst(a, {e: u}), txt(a), f'{u}v^{e}')
    elif all(k >= 0 for k in a):
        if rng.random() < 0.5:
            i = rng.randint(-3, 3)
            P.eq('value', P.call(lambda: x.evaluate(i)), sum(c * i ** k for k, c in a.items()), txt(a), i)
        elif len(b) <= 3 and (not a or max(a) <= 6) and type(y) is not int:
            want = subst(a, b)
            if small(want):
                P.put('value', 'lpoly', P.call(lambda: x.evaluate(y)), want, txt(a), txt(b))
    (x, a), (y, b) = two(P, rng, 'poly', op_new_poly)
    if type(x) is not int and type(y) is not int and len(b) <= 3 and (not a or max(a) <= 6):
        want = subst(a, b)
        if small(want):
            P.put('value', 'poly', P.call(lambda: x.evaluate(y)), want, txt(a), txt(b))
        i = rng.randint(-3, 3)
        P.eq('value', P.call(lambda: x.evaluate(i)), sum(c * i ** k for k, c in a.items()), txt(a), i)
        P.eq('degree', P.call(lambda: (x.deg(), x.is_zero())), (max(a) if a else -1, not a), txt(a))
    assert Poly


def op_look(P, rng):
    from peyl.lpoly import LPoly
    (x, a), (y, b) = two(P, rng, 'lpoly', op_new_lpoly)
    if type(x) is int or type(y) is int:
        return
    w = rng.randrange(5)
    if w == 0:
        want = (min(a), max(a)) if a else (0, -1)
        P.eq('valuation and degree', P.call(lambda: (x.valuation(), x.degree())), want, txt(a))
    elif w == 1:
        P.eq('is zero, is unit', P.call(lambda: (x.is_zero(), x.is_unit())), (not a, len(a) == 1 and set(a.values()) <= {1, -1}), txt(a))
    elif w == 2:
        p = rng.choice([2, 3, 5])
        f = rng.choice([lambda c: c % p, lambda c: c * p, lambda c: -c, lambda c: c // p])
        P.put('map', 'lpoly', P.call(lambda: x.map(f)), norm({k: f(c) for k, c in a.items()}) if f(0) == 0 else None, txt(a))
    elif w == 3:
        n = rng.randint(-12, 12)
        s = (n > 0) - (n < 0)
        P.put('quantum integer', 'lpoly', P.call(lambda: LPoly.quantum_integer(n)), {k: s for k in range(1 - abs(n), abs(n), 2)}, n)
    else:
        i = rng.choice([0, 3, -1])
        P.put('coerced', 'lpoly', P.call(lambda: LPoly.coerce(i)), norm({0: i}), i)
        P.put('coerced', 'lpoly', P.call(lambda: LPoly.coerce(x)), a, txt(a))
        pad = rng.randint(0, 2)
        again = P.call(lambda: LPoly((min(a) if a else 5) - pad, [0] * pad + [a.get(k, 0) for k in range(min(a), max(a) + 1)] + [0] * pad if a else [0] * pad))
        P.eq('equality with itself made anew', P.call(lambda: (x == again, hash(x) == hash(again))), (True, True), txt(a))
        P.eq('equality', P.call(lambda: x == y), a == b, txt(a), txt(b))


def op_new_poly(P, rng):
    from peyl.poly import Poly
    cs = coeffs(rng)
    if rng.random() < 0.4:
        cs = [*cs, rng.choice([1, -1])]                        # can be divided by
    P.put('Poly', 'poly', P.call(lambda: Poly(*cs)), norm(dict(enumerate(cs))), cs)


def op_special(P, rng):
    from peyl.poly import Poly
    what, n, ref, fn = rng.choice([
        ('cyclotomic polynomial', rng.randint(1, 42), cyclotomic, lambda n: Poly.cyclotomic(n)), ('Chebyshev polynomial', rng.randint(0, 24), chebyshev, lambda n: Poly.chebyshevT(n)),
        ('minimal polynomial of 2cos(2pi/n)', rng.randint(1, 32), mincos, lambda n: Poly.minpolycos(n))])
    P.put(what, 'poly', P.call(lambda: fn(n)), ref(n), n, keep=n < 16)


def op_new_matrix(P, rng):
    from peyl.matrix import Matrix
    nr, nc = rng.choice([(1, 1), (2, 2), (2, 2), (3, 3), (3, 3), (2, 3), (3, 2), (1, 3), (4, 1), (4, 4), (3, 4)])
    w = rng.randrange(8)
    if rng.random() < 0.06:
        nr, nc = rng.choice([(0, 0), (0, 3), (2, 0), (3, 0)])
        return P.put('Matrix', 'matrix', P.call(lambda: Matrix(nr, nc, ())), (nr, nc, []), nr, nc)
    if w == 0:
        return P.put('identity', 'matrix', P.call(lambda: Matrix.identity(nr)), (nr, nr, [norm({0: int(i == j)}) for i in range(nr) for j in range(nr)]), nr)
    if w == 1:
        return P.put('zero', 'matrix', P.call(lambda: Matrix.zero(nr, nc)), (nr, nc, [{}] * (nr * nc)), nr, nc)
    if w == 2 and P.have('lpoly'):
        x, a = P.pick('lpoly', rng)
        return P.put('scalar', 'matrix', P.call(lambda: Matrix.scalar(nr, x)), (nr, nr, [a if i == j else {} for i in range(nr) for j in range(nr)]), nr, txt(a))
    if w == 3:
        i = rng.randrange(nr)
        return P.put('coordinate vector', 'matrix', P.call(lambda: Matrix.col_coord_vector(nr, i)), (nr, 1, [norm({0: int(i == j)}) for j in range(nr)]), nr, i)
    ents = []
    for _ in range(nr * nc):
        if P.have('lpoly') and w % 2:
            ents.append(P.pick('lpoly', rng))
        else:
            i = rng.choice([0, 0, 1, -1, 2, rng.randint(-50, 50)])
            ents.append((i, norm({0: i})))
    if nr == nc and rng.random() < 0.3:                        # symmetric
        ents = [ents[min(i, j) * nc + max(i, j)] for i in range(nr) for j in range(nc)]
    xs, ds = [e[0] for e in ents], [e[1] for e in ents]
    if rng.random() < 0.1:
        P.refuses(*rng.choice([(lambda: Matrix(nr, nc, tuple(xs) + (0,)), 'a matrix of too many entries', ValueError),
                               (lambda: Matrix(nr, nc, tuple(xs)[1:]), 'a matrix of too few entries', ValueError),
                               (lambda: Matrix(-nr, -nc, tuple(xs)), 'a matrix of negative size', ValueError),
                               (lambda: Matrix.zero(nr, nr) ** -rng.randint(1, 4), 'a negative power of the zero matrix', ValueError, ArithmeticError),
                               (lambda: Matrix.from_rows([xs[:nc], xs[:nc] + [1]]), 'a matrix of ragged rows', ValueError, AssertionError)]))
    if nr == 1 and rng.random() < 0.5:
        fn = lambda: Matrix.row_vector(xs)                                                             # noqa: E731
    elif nc == 1 and rng.random() < 0.5:
        fn = lambda: Matrix.col_vector(xs)                                                             # noqa: E731
    elif rng.random() < 0.5:
        fn = lambda: Matrix(nr, nc, tuple(xs))                                                         # noqa: E731
    else:
        fn = lambda: Matrix.from_rows([xs[i * nc:(i + 1) * nc] for i in range(nr)])                    # noqa: E731
    return P.put('Matrix', 'matrix', P.call(fn), (nr, nc, ds), nr, nc, ds)


def mmul(A, B):
    out = []
    for i in range(A[0]):
        for j in range(B[1]):
            t = {}
            for k in range(A[1]):
                t = add(t, mul(A[2][i * A[1] + k], B[2][k * B[1] + j]))
            out.append(t)
    return (A[0], B[1], out)


def fits(M):
    return all(small(d) for d in M[2])


def op_matrix(P, rng):
    (X, A), (Y, B) = two(P, rng, 'matrix', op_new_matrix)
    if A[1] != B[0] and rng.random() < 0.8:                    # look for one that fits
        ok = [m for m in P.items['matrix'] if m[1][0] == A[1]]
        if ok:
            Y, B = ok[rng.randrange(len(ok))]
    if A[1] != B[0]:
        P.refuses(lambda: X * Y, f'the product of shapes {A[:2]} and {B[:2]}', ValueError)
        return
    C = mmul(A, B)
    if fits(C):
        P.put('product', 'matrix', P.call(lambda: X * Y), C, A, B)


def op_matrix_other(P, rng):
    (X, A), (Y, B) = two(P, rng, 'matrix', op_new_matrix)
    nr, nc, ds = A
    w = rng.randrange(10)
    if w == 0:
        if A[:2] == B[:2]:
            P.put('difference', 'matrix', P.call(lambda: X - Y), (nr, nc, [add(a, b, -1) for a, b in zip(ds, B[2])]), A, B)
        else:
            P.refuses(lambda: X - Y, f'the difference of shapes {A[:2]} and {B[:2]}', ValueError)
            P.refuses(rng.choice([lambda: X - 3, lambda: X * 'x']), 'a matrix minus or times something else', TypeError)
    elif w == 1:
        i = rng.choice([0, 1, -1, 3])
        P.put('multiple', 'matrix', P.call((lambda: X * i) if rng.random() < 0.5 else (lambda: i * X)), (nr, nc, [mul(a, norm({0: i})) for a in ds]), A, i)
    elif w == 2:
        e = rng.choice([0, 1, 2, 3, 4, 5, 6])
        if nr <= 3 and all(set(d) <= {0} and abs(d.get(0, 0)) <= 2 for d in ds):
            e = rng.choice([e, 7, 16, 33, 64, 65, 100, 130])
        if nr != nc:
            P.refuses(lambda: X ** e, f'a power of a matrix of shape {A[:2]}', ValueError)
            return
        C = (nr, nr, [norm({0: int(i == j)}) for i in range(nr) for j in range(nr)])
        for _ in range(e):
            C = mmul(C, A)
            if not fits(C):
                return
        P.put('power', 'matrix', P.call(lambda: X ** e), C, A, e)
    elif w == 3:
        if nr != nc:
            P.refuses(lambda: X.trace(), f'the trace of a matrix of shape {A[:2]}', ValueError)
        else:
            t = {}
            for i in range(nr):
                t = add(t, ds[i * nc + i])
            P.put('trace', 'lpoly', P.call(lambda: X.trace()), t, A, keep=False)
    elif w == 4:
        P.put('transpose', 'matrix', P.call(lambda: X.transpose()), (nc, nr, [ds[i * nc + j] for j in range(nc) for i in range(nr)]), A)
    elif w == 5 and nr and nc:
        i, j = rng.randrange(nr), rng.randrange(nc)
        P.put('row', 'matrix', P.call(lambda: X.row(i)), (1, nc, ds[i * nc:(i + 1) * nc]), A, i)
        P.put('column', 'matrix', P.call(lambda: X.column(j)), (nr, 1, ds[j::nc]), A, j)
        P.put('entry', 'lpoly', P.call(lambda: X[i, j]), ds[i * nc + j], A, i, j, keep=False)
    elif w == 6:
        P.refuses(rng.choice([lambda: X.row(nr), lambda: X.row(-1), lambda: X.column(nc), lambda: X.column(-1), lambda: X[nr, 0], lambda: X[0, -1],
                              lambda: X[-1, 0], lambda: X[0, nc], lambda: X[-1, nc], lambda: X[nr, -1], lambda: X[nr - 1, nc]]),
                  f'a row, column or entry outside a matrix of shape {A[:2]}', IndexError)
    elif w == 7:
        sym = nr == nc and all(ds[i * nc + j] == ds[j * nc + i] for i in range(nr) for j in range(nc))
        P.eq('is square', P.call(lambda: X.is_square()), nr == nc, A)
        P.eq('is symmetric', P.call(lambda: X.is_symmetric()), sym, A)
        P.eq('is integral', P.call(lambda: X.is_integral()), all(type(e) is int for e in X.data), A)
    elif w == 8:
        f = rng.choice([lambda c: c * 2, lambda c: -c, lambda c: c + 1])
        one = {0: 1}
        want = [mul(a, {0: 2}) if f(1) == 2 and f(0) == 0 else add({}, a, -1) if f(1) == -1 else add(a, one) for a in ds]
        P.put('map', 'matrix', P.call(lambda: X.map(f)), (nr, nc, want), A)
        got = P.call(lambda: X.rows())
        P.eq('rows', [[of_lpoly(e) for e in r] for r in got], [ds[i * nc:(i + 1) * nc] for i in range(nr)], A)
        P.eq('entries', sorted((txt(of_lpoly(e)) for e in P.call(lambda: list(X.entries())))), sorted(map(txt, ds)), A)
    else:
        same = P.call(lambda: X == Y)
        mixed = any(isinstance(e, int) != isinstance(g, int) for e, g in zip(X.data, Y.data))
        if not mixed:
            P.eq('equality', same, A == B, A, B)
            if A == B:
                P.eq('equality of hashes', P.call(lambda: hash(X) == hash(Y)), True, A)


OPS = dict(new_lpoly=op_new_lpoly, new_poly=op_new_poly, new_matrix=op_new_matrix, lpoly=op_lpoly, lpoly2=op_lpoly, poly=op_poly, lpoly_power=op_lpoly_power,
           poly_power=op_poly_power, divide=op_divide, substitute=op_substitute, look=op_look, special=op_special, matrix=op_matrix, matrix_other=op_matrix_other,
           matrix_more=op_matrix_other)


def gen(rng, tier, i):
    return program.gen(rng, list(OPS), 60, 4000)


shrink = program.shrink


def run(plan):
    return program.Program(plan, OPS, MODELS, 10_000_000).run()


