"""C21: permutations and noncrossing partitions by threads that share them and the cached group elements, cold or warm, interrupted or not."""
import itertools
import math

from .. import program, ref, sched
from . import c19

ID = 'C21'
LEVEL = 'exploration'
RULE = c19.RULE
STATES = c19.STATES
REAL = ['peyl.permutations', 'peyl.noncrossing', 'peyl.tl (matchings)', 'Python threads (one runs at a time)']
STUB = c19.STUB
ASSUMPTIONS = c19.ASSUMPTIONS
CONFIG = dict(quick=dict(runs=2600, wall=240, repeat=12, run_wall=300), thorough=dict(runs=50000, wall=2400, repeat=100, run_wall=600))


def warm(tier):
    sched.patch_locks()
    from peyl.permutations import SymmetricGroup
    for n in range(9):
        g = SymmetricGroup(n)
        g.id(), g.longest_element(), g.cox_gens()


# ------------------------------------------------------------------------------ reference

def inversions(p):
    return [(i, j) for i in range(len(p)) for j in range(i + 1, len(p)) if p[i] > p[j]]


def orbits(p):
    left, out = set(range(len(p))), []
    while left:
        i = min(left)
        c = [i]
        while p[c[-1]] != i:
            c.append(p[c[-1]])
        out.append(tuple(c))
        left -= set(c)
    return out


def times(p, q):
    return tuple(p[x] for x in q)


def least_word(p):
    """The lexicographically least reduced word, taking the least possible first letter at every step: s_i starts a word of p iff it lowers p from the left."""
    word, p = [], tuple(p)
    while inversions(p):
        where = {v: k for k, v in enumerate(p)}
        i = min(i for i in range(len(p) - 1) if where[i] > where[i + 1])
        word.append(i)
        p = tuple(i + 1 if v == i else i if v == i + 1 else v for v in p)
    return tuple(word)


def spell(n, word):
    p = tuple(range(n))
    for s in word:
        q = list(range(n))
        q[s], q[s + 1] = q[s + 1], q[s]
        p = times(p, q)
    return p


def cycle(n, c):
    p = list(range(n))
    for i, x in enumerate(c):
        p[x] = c[(i + 1) % len(c)]
    return tuple(p)


def crossing(blocks):
    for A, B in itertools.combinations(blocks, 2):
        for a, c in itertools.combinations(sorted(A), 2):
            inside = {a < b < c for b in B}
            if len(inside) == 2:
                return True
    return False


def partition(n, blocks):
    """Canonical: sorted tuple of sorted blocks, singletons included."""
    got = [tuple(sorted(b)) for b in blocks if b]
    used = {x for b in got for x in b}
    return tuple(sorted(got + [(x,) for x in range(n) if x not in used]))


def descending(n, blocks):
    """The permutation whose cycles run down each block and from its lowest element to its highest."""
    p = list(range(n))
    for b in blocks:
        b = sorted(b)
        for k, x in enumerate(b):
            p[x] = b[k - 1]
    return tuple(p)


def matching(n, blocks):
    inv = [None] * (2 * n)
    for b in blocks:
        b = sorted(b)
        for k, x in enumerate(b):
            y = b[(k + 1) % len(b)]
            inv[2 * x + 1], inv[2 * y] = 2 * y, 2 * x + 1
    return tuple(inv)


def rotate(n, inv, by):
    """Turn the 2n dots of a matching."""
    m = 2 * n
    out = [None] * m
    for i, j in enumerate(inv):
        out[(i + by) % m] = (j + by) % m
    return tuple(out)


def m_perm(x, want):
    if type(x).__name__ != 'Permutation':
        return f'a {type(x).__name__}'
    if tuple(x.word) != want or not c19.ints(*x.word):
        return 'another permutation'


def m_npar(x, want):
    n, blocks = want
    if type(x).__name__ != 'NPar':
        return f'a {type(x).__name__}'
    if x.n != n or not isinstance(x.inv, tuple) or x.inv != matching(n, blocks):
        return 'another partition'


MODELS = dict(perm=m_perm, npar=m_npar)


def size(rng):
    return rng.choice([1, 2, 3, 3, 4, 4, 5, 5, 6, 7, 8, 9, 12, 17])


def rand_perm(rng, n):
    w = rng.random()
    if w < 0.1:
        return tuple(range(n))
    if w < 0.2:
        return tuple(range(n))[::-1]
    if w < 0.4:                                              # a few adjacent swaps
        p = list(range(n))
        for _ in range(rng.randint(1, 3)):
            if n > 1:
                i = rng.randrange(n - 1)
                p[i], p[i + 1] = p[i + 1], p[i]
        return tuple(p)
    return tuple(rng.sample(range(n), n))


def rand_blocks(rng, n):
    """A random noncrossing partition."""
    if n <= 6 and rng.random() < 0.5:
        al = ref.all_noncrossing(n)
        return partition(n, ref.blocks_of(al[rng.randrange(len(al))]))
    blocks = []
    for x in range(n):
        for b in rng.sample(blocks, len(blocks)):
            if rng.random() < 0.4 and not crossing([*(c for c in blocks if c is not b), [*b, x]]):
                b.append(x)
                break
        else:
            blocks.append([x])
    return partition(n, blocks)


def any_blocks(rng, n):
    """Blocks of a partition: a noncrossing one with up to two points moved, or a few long blocks."""
    if rng.random() < 0.3:
        k = rng.randint(1, 3)
        own = [rng.choice([0, rng.randrange(k)]) for _ in range(n)]
        return partition(n, [[x for x in range(n) if own[x] == i] for i in range(k)])
    b = [list(x) for x in rand_blocks(rng, n)]
    for _ in range(rng.randint(0, 2)):
        x = b[rng.randrange(len(b))].pop()
        b = [y for y in b if y]
        if b and rng.random() < 0.8:
            b[rng.randrange(len(b))].append(x)
        else:
            b.append([x])
    return partition(n, b)


# ------------------------------------------------------------------------------ operations

def op_new_perm(P, rng):
    from peyl.permutations import Permutation, SymmetricGroup
    n = size(rng)
    w = rng.randrange(9)
    if w == 0:
        return P.put('id', 'perm', P.call(lambda: SymmetricGroup(n).id()), tuple(range(n)), n)
    if w == 1:
        return P.put('longest element', 'perm', P.call(lambda: SymmetricGroup(n).longest_element()), tuple(range(n))[::-1], n)
    if w == 2:
        word = [rng.randrange(n - 1) for _ in range(rng.choice([0, 1, 3, 7]))] if n > 1 else []
        return P.put('from_cox', 'perm', P.call(lambda: SymmetricGroup(n).from_cox(word)), spell(n, word), n, word)
    if w == 3:
        c = rng.sample(range(n), rng.randint(1, n))
        return P.put('from_cycle', 'perm', P.call(lambda: SymmetricGroup(n).from_cycle(c)), cycle(n, c), n, c)
    if w == 4:
        cs = [rng.sample(range(n), rng.randint(1, n)) for _ in range(rng.choice([0, 1, 2, 3]))]
        want = tuple(range(n))
        for c in cs:
            want = times(want, cycle(n, c))
        return P.put('from_cycles', 'perm', P.call(lambda: SymmetricGroup(n).from_cycles(cs)), want, n, cs)
    if w == 5 and n > 1:
        gens = P.call(lambda: SymmetricGroup(n).cox_gens())
        P.eq('number of generators', len(gens), n - 1, n)
        i = rng.randrange(n - 1)
        return P.put('generator', 'perm', gens[i], spell(n, [i]), n, i)
    p = rand_perm(rng, n)
    return P.put('Permutation', 'perm', P.call(lambda: Permutation(p)), p, p)


def two(P, rng, kind, new, fit=None):
    while not P.have(kind):
        new(P, rng)
    x, y = P.pick(kind, rng), P.pick(kind, rng)
    if fit and not fit(x[1], y[1]) and rng.random() < 0.85:
        ok = [m for m in P.items[kind] if fit(x[1], m[1])]
        if ok:
            y = ok[rng.randrange(len(ok))]
    return x, y


def op_perm(P, rng):
    from peyl import permutations as pm
    (x, a), (y, b) = two(P, rng, 'perm', op_new_perm, lambda a, b: len(a) == len(b))
    w = rng.randrange(8)
    n = len(a)
    if w <= 1:
        if len(a) != len(b):
            P.refuses(lambda: x * y, f'the product of {a} and {b}', ValueError)
            P.refuses(lambda: pm.compose(a, b), f'the product of {a} and {b}', ValueError)
        else:
            P.put('product', 'perm', P.call(lambda: x * y), times(a, b), a, b)
            P.eq('product of words', P.call(lambda: tuple(pm.compose(list(a), b))), times(a, b), a, b)
    elif w == 2:
        P.put('inverse', 'perm', P.call(lambda: x.inv()), tuple(a.index(i) for i in range(n)), a)
    elif w == 3:
        P.eq('length', P.call(lambda: x.length()), len(inversions(a)), a)
        P.eq('parity', P.call(lambda: pm.parity(a)), len(inversions(a)) % 2, a)
        P.eq('descents', P.call(lambda: (x.right_descent_set(), x.left_descent_set())), ({i for i in range(n - 1) if a[i] > a[i + 1]}, {i for i in range(n - 1) if a.index(i) > a.index(i + 1)}), a)
        if n > 1:
            i = rng.randrange(n - 1)
            P.eq('descents', P.call(lambda: (x.is_right_descent(i), x.is_left_descent(i))), (a[i] > a[i + 1], a.index(i) > a.index(i + 1)), a, i)
    elif w == 4:
        P.eq('cycles', [tuple(c) for c in P.call(lambda: x.disjoint_cycles())], orbits(a), a)
        P.eq('cycle type', tuple(P.call(lambda: x.cycle_type())), tuple(sorted(map(len, orbits(a)), reverse=True)), a)
    elif w == 5:
        P.eq('shortlex', tuple(P.call(lambda: x.shortlex())), least_word(a), a)
        P.eq('artin word', [tuple(v) for v in P.call(lambda: x.artin_word())], [(i, 1) for i in least_word(a)], a)
    elif w == 6:
        P.eq('group', P.call(lambda: x.group().n), n, a)
        P.eq('equality', (x == y, x != y, hash(x) == hash(y) or a != b), (a == b, a != b, True), a, b)
        P.eq('identity, longest element', P.call(lambda: (pm.is_identity(a), pm.is_longest_element(a))), (a == tuple(range(n)), a == tuple(range(n))[::-1]), a)
    else:
        m = rng.randint(0, 5)
        P.refuses(lambda: pm.SymmetricGroup(-1 - m), f'SymmetricGroup({-1 - m})', AssertionError, ValueError)
        if rng.random() < 0.5:
            got = [p.word for p in P.call(lambda: list(pm.SymmetricGroup(m).elements()))]
            P.eq('elements', got, list(itertools.permutations(range(m))), m)
        else:
            got = [p.word for p in P.call(lambda: pm.SymmetricGroup(m).reflections())]
            want = {cycle(m, c) for c in itertools.combinations(range(m), 2)}
            P.eq('reflections', (len(got), set(got)), (len(want), want), m)


def op_words(P, rng):
    from peyl import permutations as pm
    n = size(rng)
    p = rand_perm(rng, n)
    seq = rng.choice([list, tuple])
    w = rng.randrange(6)
    if w == 5:                                                # descending cycles, often with few crossings
        b = any_blocks(rng, n)
        q = descending(n, b)
        P.eq('is made of descending cycles', P.call(lambda: pm.is_descending_cycles(seq(q))), True, q)
        P.eq('is made of parallel descending cycles', P.call(lambda: pm.is_parallel_descending_cycles(seq(q))), not crossing(b), q)
    elif w == 0:
        bad = list(p)
        for _ in range(rng.choice([0, 1, 1, 2])):
            bad[rng.randrange(n)] = rng.randint(-2, n + 1)
        P.eq('is a permutation', P.call(lambda: pm.is_permutation(seq(bad))), sorted(bad) == list(range(n)), bad)
        if sorted(bad) != list(range(n)):
            P.refuses(lambda: pm.Permutation(tuple(bad)), f'Permutation({bad})', AssertionError, ValueError)
    elif w == 1:
        i, j = rng.randrange(n), rng.randrange(n)
        P.eq('transposition', tuple(P.call(lambda: pm.transposition(n, i, j))), cycle(n, [i, j] if i != j else [i]), n, i, j)
        P.eq('identity', tuple(P.call(lambda: pm.identity(n))), tuple(range(n)), n)
        P.eq('longest element', tuple(P.call(lambda: pm.longest_element(n))), tuple(range(n))[::-1], n)
    elif w == 2:
        P.eq('inverse', tuple(P.call(lambda: pm.inverse(seq(p)))), tuple(p.index(i) for i in range(n)), p)
        P.eq('cycles', [tuple(c) for c in P.call(lambda: pm.disjoint_cycles(seq(p)))], orbits(p), p)
        P.eq('length', P.call(lambda: pm.length(seq(p))), len(inversions(p)), p)
    elif w == 3:
        down = all(list(c[1:]) == sorted(c[1:], reverse=True) for c in orbits(p))
        P.eq('is made of descending cycles', P.call(lambda: pm.is_descending_cycles(seq(p))), down, p)
        P.eq('is made of parallel descending cycles', P.call(lambda: pm.is_parallel_descending_cycles(seq(p))), down and not crossing(orbits(p)), p)
    else:
        b = rand_blocks(rng, n)
        q = descending(n, b)
        P.eq('is made of parallel descending cycles', P.call(lambda: pm.is_parallel_descending_cycles(q)), True, q)
        q = rng.choice([tuple(q.index(i) for i in range(n)), q])
        down = all(list(c[1:]) == sorted(c[1:], reverse=True) for c in orbits(q))
        P.eq('is made of parallel descending cycles', P.call(lambda: pm.is_parallel_descending_cycles(q)), down and not crossing(orbits(q)), q)
        P.eq('shortlex', tuple(P.call(lambda: pm.shortlex(seq(p)))), least_word(p), p)


def op_new_npar(P, rng):
    from peyl.noncrossing import NPar
    from peyl.permutations import Permutation
    n = size(rng)
    w = rng.randrange(6)
    if w == 0:
        if rng.random() < 0.5:
            return P.put('finest', 'npar', P.call(lambda: NPar.finest(n)), (n, partition(n, [])), n)
        return P.put('coarsest', 'npar', P.call(lambda: NPar.coarsest(n)), (n, partition(n, [range(n)])), n)
    b = rand_blocks(rng, n)
    if w <= 2:
        return P.put('from_permutation', 'npar', P.call(lambda: NPar.from_permutation(Permutation(descending(n, b)))), (n, b), b)
    given = [rng.sample(x, len(x)) for x in b if len(x) > 1 or rng.random() < 0.5]
    rng.shuffle(given)
    given = [rng.choice([list, tuple, set])(x) for x in given]
    how = rng.choice([list, tuple, iter, lambda g: map(iter, g)])
    return P.put('from_components', 'npar', P.call(lambda: NPar.from_components(n, how(given))), (n, b), n, given)


def op_npar(P, rng):
    from peyl import noncrossing as nc
    from peyl.permutations import Permutation
    (x, (n, b)), (y, (m, c)) = two(P, rng, 'npar', op_new_npar)
    w = rng.randrange(9)
    if w == 0:
        P.put('to_permutation', 'perm', P.call(lambda: x.to_permutation()), descending(n, b), b)
    elif w == 1:
        P.eq('components', [tuple(v) for v in P.call(lambda: x.components())], list(b), b)
    elif w == 2:
        P.eq('edges', sorted(tuple(sorted(e)) for e in P.call(lambda: x.edges())), sorted(e for v in b for e in itertools.combinations(v, 2)), b)
    elif w in (3, 4):
        left = w == 3
        want = rotate(n, matching(n, b), -1 if left else 1)
        blocks = partition(n, [list(o) for o in orbits([want[2 * i] // 2 for i in range(n)])])
        got, _ = P.put('left complement' if left else 'right complement', 'npar', P.call(lambda: x.left_complement() if left else x.right_complement()), (n, blocks), b)
        # the two factors of delta, as permutations
        d = descending(n, [range(n)])
        pair = (descending(n, blocks), descending(n, b)) if left else (descending(n, b), descending(n, blocks))
        if times(*pair) != d:
            raise AssertionError((n, b, blocks, left))
    elif w == 5:
        word = [tuple(v) for v in P.call(lambda: x.artin_word())]
        if n <= 6:
            P.eq('artin word is the braid', all(0 <= i < n - 1 for i, _ in word) and ref.same_braid(n, word, ref.blocks_word(b)), True, b, word)
        P.eq('exponent sum of the word', sum(e for _, e in word), n - len(b), b)
    elif w == 6:
        P.eq('equality', (x == y, hash(x) == hash(y) or (n, b) != (m, c)), ((n, b) == (m, c), True), b, c)
    elif w == 7:
        k = rng.randint(0, 30)
        P.eq('Catalan number', P.call(lambda: nc.catalan(k)), math.factorial(2 * k) // math.factorial(k) // math.factorial(k + 1), k)
        s, t = rng.randrange(7), rng.randrange(7)
        word = [tuple(v) for v in P.call(lambda: nc.bkl_gen_to_artin_word(s, t))]
        P.eq('word of a band generator is the braid', ref.same_braid(7, word, ref.bkl_word(s, t)), True, s, t, word)
    else:
        kind = rng.randrange(4)
        if kind == 3:
            blocks = any_blocks(rng, n)
            if crossing(blocks):
                P.refuses(lambda: nc.NPar.from_components(n, blocks), f'crossing components {blocks}', ValueError, AssertionError)
                P.refuses(lambda: nc.NPar.from_permutation(Permutation(descending(n, blocks))), f'from_permutation({descending(n, blocks)})', ValueError)
            else:
                P.put('from_components', 'npar', P.call(lambda: nc.NPar.from_components(n, blocks)), (n, blocks), n, blocks)
        elif kind == 0 and n >= 4:                              # crossing
            q = rng.sample(range(n), 4)
            q.sort()
            P.refuses(lambda: nc.NPar.from_components(n, [[q[0], q[2]], [q[1], q[3]]]), f'crossing components of {q}', ValueError, AssertionError)
        elif kind == 1 and n >= 2:                            # not disjoint, or out of range
            i, j = rng.sample(range(n), 2)
            bad = rng.choice([[[i, j], [j]], [[i, n]], [[-1, i]], [[i], [j, i]]])
            P.refuses(lambda: nc.NPar.from_components(n, bad), f'components {bad}', ValueError, AssertionError)
        else:
            p = rand_perm(rng, n)
            down = all(list(o[1:]) == sorted(o[1:], reverse=True) for o in orbits(p))
            if down and not crossing(orbits(p)):
                P.put('from_permutation', 'npar', P.call(lambda: nc.NPar.from_permutation(Permutation(p))), (n, partition(n, orbits(p))), p)
            else:
                P.refuses(lambda: nc.NPar.from_permutation(Permutation(p)), f'from_permutation({p})', ValueError)
        inv = list(matching(n, b))
        for _ in range(rng.choice([0, 1, 2])):
            i, j = rng.randrange(2 * n), rng.randrange(2 * n)
            inv[i], inv[j] = inv[j], inv[i]
        if rng.random() < 0.3:
            inv[rng.randrange(2 * n)] += rng.choice([-2, -1, 1, 2])
        if rng.random() < 0.2:
            inv += [2 * n + 1, 2 * n]
        ok = len(inv) == 2 * n and all(0 <= v < 2 * n and v != k and inv[v] == k for k, v in enumerate(inv)) and not crossing({tuple(sorted((k, v))) for k, v in enumerate(inv)})
        if ok:
            P.put('NPar', 'npar', P.call(lambda: nc.NPar(n, tuple(inv))), (n, partition(n, orbits([inv[2 * k + 1] // 2 for k in range(n)]))), n, inv)
        else:
            P.refuses(lambda: nc.NPar(n, tuple(inv)), f'NPar({n}, {inv})', AssertionError, ValueError)
        k = rng.randint(0, 6)
        al = P.call(lambda: [x.inv for x in nc.NPar.all_of_size(k)])
        P.eq('all noncrossing partitions', (len(al), set(al)), (len(ref.all_noncrossing(k)), {matching(k, ref.blocks_of(p)) for p in ref.all_noncrossing(k)}), k)
        sets = [[rng.randrange(6) for _ in range(rng.randint(0, 2))] for _ in range(rng.randint(0, 3))]
        flat = [v for t in sets for v in t]
        P.eq('are pairwise disjoint', P.call(lambda: nc.are_pairwise_disjoint(sets)), len(set(flat)) == len(flat), sets)


def op_refuse(P, rng):
    from peyl import noncrossing as nc, permutations as pm
    n = rng.randint(1, 7)
    p = rand_perm(rng, n)
    w = rng.randrange(6)
    if w == 0:
        i, j = rng.choice([(-1, 0), (0, -1), (n, 0), (0, n), (-n, 0), (n - 1, -2), (-1, -1), (n, n)])
        P.refuses(lambda: pm.transposition(n, i, j), f'transposition({n}, {i}, {j})', AssertionError, ValueError)
    elif w == 1:
        x = P.call(lambda: pm.Permutation(p))
        i = rng.choice([-1, -2, n - 1, n])
        for name, fn in (('is_right_descent', lambda: pm.is_right_descent(p, i)), ('is_left_descent', lambda: pm.is_left_descent(p, i)),
                         ('Permutation.is_right_descent', lambda: x.is_right_descent(i)), ('Permutation.is_left_descent', lambda: x.is_left_descent(i))):
            P.refuses(fn, f'{name}({p}, {i})', AssertionError, ValueError, IndexError)
    elif w == 2:
        word = [rng.randrange(max(1, n - 1)) for _ in range(rng.randint(0, 4))]
        word.insert(rng.randint(0, len(word)), rng.choice([-1, n - 1, n, -n]))
        P.refuses(lambda: pm.from_cox(n, word), f'from_cox({n}, {word})', AssertionError, ValueError, IndexError)
        P.refuses(lambda: pm.SymmetricGroup(n).from_cox(word), f'SymmetricGroup({n}).from_cox({word})', AssertionError, ValueError, IndexError)
    elif w == 3:
        c = rng.sample(range(n), rng.randint(1, n))
        c.insert(rng.randint(0, len(c)), rng.choice([-1, n, rng.choice(c)]))
        P.refuses(lambda: pm.SymmetricGroup(n).from_cycle(c), f'SymmetricGroup({n}).from_cycle({c})', AssertionError, ValueError, IndexError)
        P.refuses(lambda: pm.SymmetricGroup(n).from_cycles([[0], c]), f'SymmetricGroup({n}).from_cycles([[0], {c}])', AssertionError, ValueError, IndexError)
    elif w == 4:
        P.refuses(lambda: list(nc.NPar.all_of_size(-n)), f'NPar.all_of_size({-n})', AssertionError, ValueError)
        c = rng.sample(range(9), rng.randint(1, 5))
        c.insert(rng.randint(0, len(c)), rng.choice(c))
        P.refuses(lambda: nc.npar_component_to_artin_word(c), f'npar_component_to_artin_word({c})', AssertionError, ValueError)
    else:
        c = rng.sample(range(n), rng.randint(0, n - 1))
        c.insert(rng.randint(0, len(c)), rng.choice([-1, -n, n, n + 1]))
        P.refuses(lambda: nc.NPar.from_components(n, [c, *([i] for i in range(n) if i not in c)]), f'components {c} of {n}', AssertionError, ValueError, IndexError)


OPS = dict(new_perm=op_new_perm, new_npar=op_new_npar, perm=op_perm, perm_more=op_perm, words=op_words, npar=op_npar, npar_more=op_npar, refuse=op_refuse)


def gen(rng, tier, i):
    return program.gen(rng, list(OPS), 60, 3000)


shrink = program.shrink


def run(plan):
    return program.Program(plan, OPS, MODELS, 10_000_000).run()
