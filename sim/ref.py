"""
Independent executable reference model (shares no code with /repo).

* braids are words in the Artin generators, [(i, +-1), ...], 0-indexed;
* equality is decided exactly by Dynnikov coordinates (a faithful integer action of B_n);
* left Garside and dual Garside (BKL) normal forms are recomputed from words by plain greedy sliding
  on permutations / noncrossing partitions, without any table;
* the two-rowed (Jones cell) representation (n-r, r) acts on link patterns with r cups: sigma_i = 1 - v e_i.
"""
from __future__ import annotations

import functools
import itertools

import numpy as np

# ----------------------------------------------------------------------------- words


def inv_word(w):
    return [(i, -e) for i, e in reversed(list(w))]


def flat(w):
    """Expand exponents to +-1."""
    out = []
    for i, e in w:
        out += [(i, 1 if e > 0 else -1)] * abs(e)
    return out


def dynnikov(n, word):
    """Image of the base point under the word: two words are the same braid iff the images agree."""
    c = [0, 1] * n
    for i, e in flat(word):
        x1, y1, x2, y2 = c[2 * i:2 * i + 4]
        p, m = (lambda t: t if t > 0 else 0), (lambda t: t if t < 0 else 0)
        if e > 0:
            z = x1 - m(y1) - x2 + p(y2)
            c[2 * i:2 * i + 4] = [
                x1 + p(y1) + p(p(y2) - z), y2 - p(z),
                x2 + m(y2) + m(m(y1) + z), y1 + p(z)]
        else:
            z = x1 + m(y1) - x2 - p(y2)
            c[2 * i:2 * i + 4] = [
                x1 - p(y1) - p(p(y2) + z), y2 + m(z),
                x2 - m(y2) - m(m(y1) - z), y1 - m(z)]
    return tuple(c)


def same_braid(n, w1, w2):
    return dynnikov(n, w1) == dynnikov(n, w2)


# ----------------------------------------------------------------------------- permutations (one-line, 0-indexed)


def p_id(n):
    return tuple(range(n))


def p_mul(x, y):
    return tuple(x[j] for j in y)


def p_inv(x):
    r = [0] * len(x)
    for i, v in enumerate(x):
        r[v] = i
    return tuple(r)


def p_w0(n):
    return tuple(range(n - 1, -1, -1))


def p_s(n, i):
    w = list(range(n))
    w[i], w[i + 1] = w[i + 1], w[i]
    return tuple(w)


def p_rdesc(x):
    return {i for i in range(len(x) - 1) if x[i] > x[i + 1]}


@functools.lru_cache(maxsize=None)
def perm_word(x):
    """A reduced word of generator indices for the positive lift."""
    x = list(x)
    out = []
    while True:
        d = [i for i in range(len(x) - 1) if x[i] > x[i + 1]]
        if not d:
            return tuple(reversed(out))
        i = d[-1]
        x[i], x[i + 1] = x[i + 1], x[i]
        out.append(i)


def perm_braid_word(x):
    return [(i, 1) for i in perm_word(tuple(x))]


@functools.lru_cache(maxsize=None)
def _slide(x, y):
    n = len(x)
    while True:
        d = p_rdesc(p_inv(y)) - p_rdesc(x)
        if not d:
            return x, y
        s = p_s(n, min(d))
        x, y = p_mul(x, s), p_mul(s, y)


@functools.lru_cache(maxsize=None)
def _tau(x):
    n = len(x)
    w0 = p_w0(n)
    return p_mul(p_mul(w0, x), w0)


def _settle(fs, slide):
    """Bubble until every adjacent pair is greedy."""
    fs = list(fs)
    k = 1
    # insertion: keep fs[:k] greedy, add one factor at a time
    while k < len(fs):
        j = k - 1
        while j >= 0:
            x, y = slide(fs[j], fs[j + 1])
            if (x, y) == (fs[j], fs[j + 1]):
                break
            fs[j], fs[j + 1] = x, y
            j -= 1
        k += 1
    # the insertion pass leaves a list that may still have slack further right; iterate to a fixpoint
    changed = True
    while changed:
        changed = False
        for j in range(len(fs) - 2, -1, -1):
            x, y = slide(fs[j], fs[j + 1])
            if (x, y) != (fs[j], fs[j + 1]):
                fs[j], fs[j + 1] = x, y
                changed = True
    return fs


def _same(f):
    return f


def _nf(n, word, top, turns, rest, slide):
    """(power, factors): letter by letter; what is kept are the factors turned back t times (turning commutes with sliding)."""
    power, fs, t, order = 0, [], 0, len(turns)
    one = p_id(n)
    for i, e in flat(word):
        s = p_s(n, i)
        if e < 0:
            power -= 1
            t = (t + 1) % order
            s = rest(s)
        fs.append(turns[-t % order](s))
        for j in range(len(fs) - 2, -1, -1):
            x, y = slide(fs[j], fs[j + 1])
            if x == fs[j]:
                break
            fs[j], fs[j + 1] = x, y
        while fs and fs[-1] == one:
            fs.pop()
        while fs and fs[0] == top:
            fs.pop(0)
            power += 1
    fs = _settle([turns[t](f) for f in fs], slide)
    while fs and fs[0] == top:
        fs.pop(0)
        power += 1
    while fs and fs[-1] == one:
        fs.pop()
    return power, tuple(fs)


def garside_nf(n, word):
    """(power, (perm, ...)) of the left Garside normal form."""
    w0 = p_w0(n)
    # s^-1 = Delta^-1 (Delta s^-1), and f Delta^-1 = Delta^-1 tau(f)
    return _nf(n, word, w0, [_same, _tau], lambda s: p_mul(w0, s), _slide)


def garside_follows(x):
    """Proper simple factors y (not id, not Delta) with (x, y) greedy: R(x) contains L(y)."""
    n = len(x)
    r = p_rdesc(x)
    return [y for y in itertools.permutations(range(n))
            if y != p_id(n) and y != p_w0(n) and p_rdesc(p_inv(y)) <= r]


_follows_cache = {}


def follows_cached(x):
    if x not in _follows_cache:
        _follows_cache[x] = tuple(garside_follows(x))
    return _follows_cache[x]


def all_garside(n, length, start=None):
    """All normal forms of the given length with power 0 (as tuples of permutations)."""
    out = [((), start if start is not None else p_w0(n))]
    for _ in range(length):
        out = [((*w, y), y) for w, last in out for y in follows_cached(last)]
    return [w for w, _ in out]


def is_garside_nf(n, fs):
    for f in fs:
        if sorted(f) != list(range(n)) or tuple(f) in (p_id(n), p_w0(n)):
            return False
    return all(p_rdesc(p_inv(y)) <= p_rdesc(x) for x, y in zip(fs, fs[1:]))


def garside_word(n, power, fs):
    d = perm_braid_word(p_w0(n))
    if power < 0:
        d = inv_word(d)
    return d * abs(power) + [l for f in fs for l in perm_braid_word(f)]


# ----------------------------------------------------------------------------- dual (BKL) structure


def bkl_word(s, t):
    s, t = min(s, t), max(s, t)
    if s == t:
        return []
    up = [(i, 1) for i in range(t - 1, s, -1)]
    return up + [(s, 1)] + inv_word(up)


def d_delta(n):
    """delta = sigma_{n-2} ... sigma_0 as a permutation: i -> i-1, 0 -> n-1."""
    return tuple([n - 1] + list(range(n - 1)))


def blocks_of(x):
    seen, out = set(), []
    for i in range(len(x)):
        if i in seen:
            continue
        b, j = [], i
        while j not in seen:
            seen.add(j)
            b.append(j)
            j = x[j]
        out.append(tuple(sorted(b)))
    return out


def perm_of_blocks(n, blocks):
    """Product of descending cycles c_k -> c_{k-1}, c_0 -> c_max."""
    w = list(range(n))
    for b in blocks:
        b = sorted(b)
        for k in range(len(b)):
            w[b[k]] = b[k - 1]
    return tuple(w)


def blocks_word(blocks):
    out = []
    for b in blocks:
        b = sorted(b)
        for k in range(len(b) - 2, -1, -1):
            out += bkl_word(b[k], b[k + 1])
    return out


def is_noncrossing(blocks):
    lab = {}
    for k, b in enumerate(blocks):
        for x in b:
            lab[x] = k
    for a, b, c, d in itertools.combinations(sorted(lab), 4):
        if lab[a] == lab[c] and lab[b] == lab[d] and lab[a] != lab[b]:
            return False
    return True


@functools.lru_cache(maxsize=None)
def all_noncrossing(n):
    def parts(xs):
        if not xs:
            yield []
            return
        first, rest = xs[0], xs[1:]
        for k in range(len(rest) + 1):
            for c in itertools.combinations(rest, k):
                rem = [x for x in rest if x not in c]
                for p in parts(rem):
                    yield [(first, *c), *p]
    return tuple(perm_of_blocks(n, p) for p in parts(list(range(n))) if is_noncrossing(p))


def _meet(x, y):
    n = len(x)
    lx = {a: k for k, b in enumerate(blocks_of(x)) for a in b}
    ly = {a: k for k, b in enumerate(blocks_of(y)) for a in b}
    g = {}
    for a in range(n):
        g.setdefault((lx[a], ly[a]), []).append(a)
    return perm_of_blocks(n, list(g.values()))


@functools.lru_cache(maxsize=None)
def _dslide(x, y):
    n = len(x)
    while True:
        rc = p_mul(p_inv(x), d_delta(n))       # right complement: x * rc = delta
        t = _meet(rc, y)
        if t == p_id(n):
            return x, y
        x, y = p_mul(x, t), p_mul(p_inv(t), y)


def dual_nf(n, word):
    """(power, (perm, ...)) of the left dual Garside normal form, factors as permutations below delta."""
    d = d_delta(n)
    # s^-1 = delta^-1 (delta s^-1), and f delta^-1 = delta^-1 (delta f delta^-1)
    turns = [_same]
    for _ in range(n - 1):
        turns.append(functools.partial(_turned, len(turns)))
    return _nf(n, word, d, turns, lambda s: p_mul(d, s), _dslide)


@functools.lru_cache(maxsize=None)
def _turned(k, f):
    d = d_delta(len(f))
    di = p_inv(d)
    for _ in range(k):
        f = p_mul(p_mul(d, f), di)
    return f


@functools.lru_cache(maxsize=None)
def dual_follows(x):
    n = len(x)
    return tuple(y for y in all_noncrossing(n)
                 if y != p_id(n) and y != d_delta(n) and _dslide(x, y) == (x, y))


def all_dual(n, length, start=None):
    out = [((), start if start is not None else d_delta(n))]
    for _ in range(length):
        out = [((*w, y), y) for w, last in out for y in dual_follows(last)]
    return [w for w, _ in out]


def is_dual_nf(n, fs):
    nc = set(all_noncrossing(n))
    for f in fs:
        if tuple(f) not in nc or tuple(f) in (p_id(n), d_delta(n)):
            return False
    return all(_dslide(x, y) == (x, y) for x, y in zip(fs, fs[1:]))


def dual_word(n, power, fs):
    d = blocks_word([range(n)])
    if power < 0:
        d = inv_word(d)
    return d * abs(power) + [l for f in fs for l in blocks_word(blocks_of(f))]


# ----------------------------------------------------------------------------- representation (n-r, r)


@functools.lru_cache(maxsize=None)
def link_basis(n, r):
    """Link patterns with r cups on n points, ordered as sorted diagram sequences of type (n, n-2r)."""
    pats = set()

    def rec(i, stack, partner, cups):
        if i == n:
            if cups == r and not stack:
                pats.add(tuple(partner))
            return
        # open a cup
        p2 = list(partner)
        rec(i + 1, stack + [i], p2, cups)
        if stack:
            p2 = list(partner)
            j = stack[-1]
            p2[i], p2[j] = j, i
            rec(i + 1, stack[:-1], p2, cups + 1)
        else:
            rec(i + 1, stack, list(partner), cups)     # defect: only outside every cup
    rec(0, [], [-1] * n, 0)
    bot = n - 2 * r

    def seq(pat):
        top = lambda x: bot + (n - 1 - x)
        s = [None] * (bot + n)
        k = 0
        for x in range(n):
            if pat[x] < 0:
                s[top(x)] = k
                s[k] = top(x)
                k += 1
            else:
                s[top(x)] = top(pat[x])
        return tuple(s)
    pats = [p for p in pats if sum(1 for x in p if x < 0) == bot]
    return tuple(sorted(pats, key=seq))


@functools.lru_cache(maxsize=None)
def e_entries(n, r, i):
    """Nonzero entries (row, col, loops) of e_i; loops=1 stands for the factor v + v^-1."""
    basis = link_basis(n, r)
    idx = {b: k for k, b in enumerate(basis)}
    out = []
    for c, b in enumerate(basis):
        x, y = b[i], b[i + 1]
        if x == i + 1:
            out.append((c, c, 1))
            continue
        if x < 0 and y < 0:
            continue
        q = list(b)
        if x >= 0 and y >= 0:
            q[x], q[y] = y, x
        elif x >= 0:
            q[x] = -1
        else:
            q[y] = -1
        q[i], q[i + 1] = i + 1, i
        out.append((idx[tuple(q)], c, 0))
    return tuple(out)


class RefRep:
    """Matrices are dense integer arrays (d, d, D) standing for v^-shift * polynomial, reduced mod p if p > 0."""

    def __init__(self, n, r, p, perm=None):
        self.n, self.r, self.p = n, r, p
        self.d = len(link_basis(n, r))
        self.perm = perm                       # optional simultaneous basis permutation
        self._fac = {}
        self.dtype = object if p == 0 else np.int64

    def identity(self):
        return np.identity(self.d, dtype=self.dtype)[:, :, None], 0

    def times_gen(self, M, i, e):
        """Right-multiply (A, shift) by sigma_i^e, e = +-1."""
        A, sh = M
        d, _, D = A.shape
        # sigma = 1 - v e ; sigma^-1 = 1 - v^-1 e ; (v + v^-1) v^{+-1} = {v^2 + 1} or {1 + v^-2}
        if e > 0:
            out = np.zeros((d, d, D + 2), dtype=A.dtype)
            out[:, :, :D] = A
            for row, col, loops in e_entries(self.n, self.r, i):
                if loops:
                    out[:, col, 2:] -= A[:, row, :]
                    out[:, col, :D] -= A[:, row, :]
                else:
                    out[:, col, 1:D + 1] -= A[:, row, :]
            nsh = sh
        else:
            out = np.zeros((d, d, D + 2), dtype=A.dtype)
            out[:, :, 2:] = A
            for row, col, loops in e_entries(self.n, self.r, i):
                if loops:
                    out[:, col, :D] -= A[:, row, :]
                    out[:, col, 2:] -= A[:, row, :]
                else:
                    out[:, col, 1:D + 1] -= A[:, row, :]
            nsh = sh + 2
        return self.trim((out % self.p if self.p else out, nsh))

    def trim(self, M):
        A, sh = M
        nz = np.nonzero((A != 0).any(axis=(0, 1)))[0]
        if len(nz) == 0:
            return A[:, :, :1], 0
        lo, hi = int(nz[0]), int(nz[-1]) + 1
        return A[:, :, lo:hi], sh - lo

    def word(self, word, start=None):
        M = start if start is not None else self.identity()
        for i, e in flat(word):
            M = self.times_gen(M, i, e)
        return M

    def mul(self, M, N):
        A, s = M
        B, t = N
        D, E = A.shape[2], B.shape[2]
        out = np.zeros((self.d, self.d, D + E - 1), dtype=A.dtype)
        for k in range(E):
            Bk = B[:, :, k]
            if not (Bk != 0).any():
                continue
            # (d,d,D) x (d,d): sum_j A[i,j,x] B[j,k]
            out[:, :, k:k + D] += np.einsum('ijx,jk->ikx', A, Bk) if A.dtype != object else \
                np.moveaxis(np.tensordot(A, Bk, axes=([1], [0])), 1, 2)
            if self.p:
                out %= self.p
        return self.trim((out, s + t))

    def factor(self, word):
        key = tuple(word)
        if key not in self._fac:
            self._fac[key] = self.word(word)
        return self._fac[key]

    def proj(self, M):
        """Array normalised to have a nonzero constant term (image up to a power of v)."""
        A, _ = self.trim(M)
        if self.perm is not None:
            A = A[np.ix_(self.perm, self.perm)]
        return A

    def projlen(self, M):
        return self.proj(M).shape[2]

    def laurent(self, M):
        """{(i, j): {deg: coeff}} with true degrees."""
        A, sh = self.trim(M)
        if self.perm is not None:
            A = A[np.ix_(self.perm, self.perm)]
        return {(i, j): {int(k) - sh: int(A[i, j, k]) for k in np.nonzero(A[i, j])[0]}
                for i in range(self.d) for j in range(self.d)}


@functools.lru_cache(maxsize=None)
def refrep(n, r, p):
    return RefRep(n, r, p)


_gar_img = {}


def garside_image(n, r, p, fs, power=0):
    """Projective image of Delta^power f1 f2 ... (Delta^2 is scalar, so only the parity of the power matters)."""
    rep = refrep(n, r, p)
    fs = tuple(tuple(f) for f in fs)
    key = (n, r, p, fs, power % 2)
    if key in _gar_img:
        return _gar_img[key]
    if not fs:
        M = rep.identity() if power % 2 == 0 else rep.factor(tuple(perm_braid_word(p_w0(n))))
    else:
        M = rep.mul(garside_image(n, r, p, fs[:-1], power), rep.factor(tuple(perm_braid_word(fs[-1]))))
    if len(_gar_img) > 200000:
        _gar_img.clear()
    _gar_img[key] = M
    return M


def lex_perms(n):
    """The i-th permutation in lexicographic order: the durable meaning of factor index i."""
    return list(itertools.permutations(range(n)))
