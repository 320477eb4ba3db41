"""Between library braids and the reference model.  A reference braid is (kind, n, power, factors) with kind 'G' or 'D' and factors as tuples
of permutations in one-line form (for 'D': the permutations of noncrossing partitions)."""
from __future__ import annotations

import functools

import numpy as np

from . import ref
from .world import Violation


def lib():
    import peyl
    from peyl import bucketing, braidsearch, jonesrep, polymat, noncrossing, permutations
    from peyl.braid import DGNF, GNF, BraidGroup
    return peyl


@functools.lru_cache(maxsize=None)
def gindex(n):
    from peyl.braid import GNF
    from peyl.permutations import Permutation
    out = {}
    for w in ref.lex_perms(n):
        f = GNF.from_perm(Permutation(w)).factors
        out[tuple(w)] = f[0] if f else None
    return out


@functools.lru_cache(maxsize=None)
def dindex(n):
    from peyl.braid import DGNF
    from peyl.noncrossing import NPar
    out = {}
    for x in ref.all_noncrossing(n):
        f = DGNF.from_npar(NPar.from_components(n, ref.blocks_of(x))).factors
        out[tuple(x)] = f[0] if f else None
    return out


def fill(rep):
    """Fill the caches a representation of braidsearch keeps, the way using it does."""
    from peyl import braidsearch
    table = getattr(braidsearch, 'symmetric_table', None)
    if table:
        table(rep)
    else:
        braidsearch.evaluate_braids(rep, [to_lib(b) for b in all_of_length('G', rep.n, 1)])


def to_lib(b):
    from peyl.braid import DGNF, GNF
    kind, n, power, fs = b
    if kind == 'G':
        return GNF(n, power, tuple(gindex(n)[tuple(f)] for f in fs))
    return DGNF(n, power, tuple(dindex(n)[tuple(f)] for f in fs))


@functools.lru_cache(maxsize=None)
def _gback(n):
    return {v: k for k, v in gindex(n).items() if v is not None}


@functools.lru_cache(maxsize=None)
def _dback(n):
    return {v: k for k, v in dindex(n).items() if v is not None}


def from_lib(x):
    from peyl.braid import DGNF, GNF
    n = x.n
    power = x.power
    if type(x) is GNF:
        back, kind, ok = _gback(n), 'G', ref.is_garside_nf
    elif type(x) is DGNF:
        back, kind, ok = _dback(n), 'D', ref.is_dual_nf
    else:
        raise Violation('not-a-braid', f'{type(x).__name__}')
    if type(power) is not int or type(x.factors) is not tuple:
        raise Violation('ill-formed-braid', f'power {power!r}, factors {x.factors!r}')
    fs = []
    for i in x.factors:
        f = back.get(int(i))
        if f is None or i < 0:
            raise Violation('ill-formed-braid', f'factor {i} of {x.factors} on {n} strands is not a proper divisor')
        fs.append(f)
    if not _nf_ok(kind, n, tuple(fs)):
        raise Violation('not-normal-form', f'{kind} {x.factors} on {n} strands')
    return (kind, n, power, tuple(fs))


@functools.lru_cache(maxsize=None)
def _slide_ok(n, x, y):
    return ref.is_dual_nf(n, (x, y))


def _nf_ok(kind, n, fs):
    if kind == 'G':
        return ref.is_garside_nf(n, fs)
    return (len(fs) < 2 and ref.is_dual_nf(n, fs)) or (len(fs) >= 2 and all(_slide_ok(n, x, y) for x, y in zip(fs, fs[1:])))


def word(b):
    kind, n, power, fs = b
    return ref.garside_word(n, power, fs) if kind == 'G' else ref.dual_word(n, power, fs)


def nf(kind, n, w):
    power, fs = (ref.garside_nf if kind == 'G' else ref.dual_nf)(n, w)
    return (kind, n, power, tuple(tuple(f) for f in fs))


def mul(a, b):
    return nf(a[0], a[1], word(a) + word(b))


@functools.lru_cache(maxsize=None)
def dfollows(x):
    return ref.dual_follows(x)


def follows(kind, x):
    return ref.follows_cached(x) if kind == 'G' else dfollows(x)


def top(kind, n):
    return ref.p_w0(n) if kind == 'G' else ref.d_delta(n)


@functools.lru_cache(maxsize=4096)
def suffixes(kind, last, length):
    out = [()]
    for _ in range(length):
        out = [(*w, y) for w in out for y in follows(kind, w[-1] if w else last)]
    return tuple(out)


def extensions(b, length):
    kind, n, power, fs = b
    last = fs[-1] if fs else top(kind, n)
    return [(kind, n, power, fs + s) for s in suffixes(kind, last, length)]


def all_of_length(kind, n, length, power=0):
    return [(kind, n, power, s) for s in suffixes(kind, top(kind, n), length)]


_img = {}


def image(n, r, p, b):
    """Projective matrix as (d, d, D) array, D = projlen."""
    kind, n, power, fs = b
    if kind == 'G':
        return ref.refrep(n, r, p).proj(ref.garside_image(n, r, p, fs, power))
    key = (r, p, b[:2] + (power % n, fs))
    if key not in _img:
        if len(_img) > 100000:
            _img.clear()
        rep = ref.refrep(n, r, p)
        _img[key] = _dimage(rep, n, r, p, power % n, fs)
    return ref.refrep(n, r, p).proj(_img[key])


def _dimage(rep, n, r, p, power, fs):
    key = (r, p, ('D', n, power, fs))
    if key in _img:
        return _img[key]
    if not fs:
        M = rep.factor(tuple(ref.dual_word(n, power, ())))
    else:
        M = rep.mul(_dimage(rep, n, r, p, power, fs[:-1]), rep.factor(tuple(ref.blocks_word(ref.blocks_of(fs[-1])))))
    _img[key] = M
    return M


def projlen(n, r, p, b):
    return image(n, r, p, b).shape[2]


def same_image(A, R):
    """Library polymat (trailing zero degrees allowed) against a reference matrix."""
    A = np.asarray(A)
    D = R.shape[2]
    if A.ndim != 3 or A.shape[:2] != R.shape[:2] or A.shape[2] < D:
        return False
    return bool((A[:, :, :D] == R).all()) and not A[:, :, D:].any()


def rand_braid(rng, kind, n, length, power=None):
    fs, last = [], top(kind, n)
    for _ in range(length):
        ch = follows(kind, last)
        if not ch:
            break
        last = rng.choice(ch)
        fs.append(last)
    return (kind, n, rng.randint(-3, 3) if power is None else power, tuple(fs))


def show(b):
    return f'{b[0]}NF(n={b[1]}, power={b[2]}, {list(map(list, b[3]))})'
