"""C12: the braid group under any schedule: threads computing with shared braids and tables, cold or warm, interrupted or not."""
import collections
import math

from .. import bridge as B, program, ref, sched, searchlib as S, threads, world
from ..world import Violation

ID = 'C12'
LEVEL = 'exploration'
RULE = ('one evaluation = one computed braid compared with the reference model; non-trivial = more than one thread computed, or a fault fired, or tables were cold; '
        'distinct = distinct interleavings together with the results')
STATES = 'digest of the interleaving (every switch with thread and position) and of all results'
REAL = ['peyl.braid', 'peyl.permutations', 'peyl.noncrossing', 'Python threads (one runs at a time)']
STUB = ['thread scheduling', 'interrupt and allocation-failure delivery at executed lines', 'threading locks made by /repo code']
ASSUMPTIONS = ['threads are switched at line boundaries of /repo code']
CONFIG = dict(quick=dict(runs=3200, wall=240, repeat=12, run_wall=300), thorough=dict(runs=60000, wall=2400, repeat=100, run_wall=600))
OPS = ['refuse', 'word', 'word', 'perms', 'npars', 'lift', 'pair', 'gen', 'mul', 'mul', 'mul', 'mul', 'mul', 'inv', 'inv', 'pow', 'pow', 'sub', 'conv', 'conv', 'desc', 'look',
       'look', 'back']
LIMIT = 26                # canonical length kept below this


def warm(tier):
    sched.patch_locks()
    for n in range(2, 7):
        B.gindex(n), B.dindex(n)
        for kind in 'GD':
            B.follows(kind, B.top(kind, n))
            x = B.to_lib(B.nf(kind, n, [(0, 1)]))
            (x.to_DGNF if kind == 'G' else x.to_GNF)()
    B.dindex(7)


def gen(rng, tier, i):
    nt = rng.choice([1, 2, 2, 3, 4])
    cold = rng.random() < 0.25
    ns = rng.choice([[3], [4], [3, 4], [4, 5], [2, 3], [5]])
    rare = rng.random()
    if rare < 0.06:
        ns, cold = [6] if rare < 0.045 else [7], False
    if cold:
        ns = [n for n in ns if n < 5] or [4]
        if rng.random() < 0.02:
            ns = [5]
    names = OPS
    if rng.random() < 0.5:                     # a mix of few kinds of operation
        names = ['word', rng.choice(['pair', 'perms', 'npars', 'lift', 'gen']), *[rng.choice(OPS) for _ in range(rng.randint(1, 3))]]
        if cold and rng.random() < 0.6:
            names += ['conv'] * 3
    if ns == [7]:                              # seven strands: dual braids only
        names = ['word', 'npars', 'lift', 'mul', 'mul', 'mul', 'inv', 'pow', 'sub', 'desc', 'look', 'back', 'gen', 'refuse']
    ops = [[rng.randrange(nt), rng.choice(names), rng.choice(ns), rng.choice('GD') if ns != [7] else 'D', rng.randint(0, 10**6)]
           for _ in range(rng.randint(4, 40) if ns[0] < 6 else rng.randint(4, 16))]
    if cold:
        typical = rng.choice([30, 300, 3000, 30000])
    else:
        typical = rng.choice([20, 100, 400])
    limit = LIMIT if rng.random() < 0.93 else 130
    return dict(nt=nt, cold=cold, ops=ops, limit=limit, quanta=sched.gen_quanta(rng, rng.choice([20, 200, 1500]), typical) if nt > 1 else [],
                faults=threads.gen_faults(rng, nt, 30000 if cold else 800), _lists=['ops', 'faults', 'quanta'])


def shrink(plan):
    if plan['cold']:
        yield dict(plan, cold=False)
    for i, op in enumerate(plan['ops']):
        if op[0]:
            yield dict(plan, ops=plan['ops'][:i] + [[0, *op[1:]]] + plan['ops'][i + 1:])


class Store:
    """Braids computed so far, shared by all threads: library objects, with the recipe for the reference."""

    def __init__(self, limit):
        self.limit = limit
        self.items = collections.defaultdict(list)          # (kind, n) -> [index]
        self.lib, self.how = [], []

    def put(self, kind, n, x, how):
        small = len(x.factors) <= self.limit and abs(x.power) <= 40
        i = len(self.lib)
        self.lib.append(x)
        self.how.append((kind, n, how))
        if small:
            self.items[kind, n].append(i)
        return i


def rnd(seed, *more):
    return world.sub(seed, *more)


def plain(ws):
    return tuple((int(i), int(e)) for i, e in ws)


def run(plan):
    if plan['cold']:
        world.fresh_peyl()
    from peyl.braid import DGNF, GNF, BraidGroup, NFTable       # noqa: F401
    from peyl.noncrossing import NPar
    from peyl.permutations import Permutation
    stats = collections.Counter()
    g = threads.Group(plan['quanta'], plan['faults'], stats)
    st = Store(plan['limit'])
    looks = []
    cls = dict(G=GNF, D=DGNF)

    def one(tid, op):
        _, name, n, kind, s = op
        rng = rnd(s, name)
        C = cls[kind]
        have = st.items[kind, n]

        def pick():
            i = have[rng.randrange(len(have))]
            return i, st.lib[i]
        put = lambda x, how, k=kind: st.put(k, n, x, how)                      # noqa: E731
        if name in ('mul', 'inv', 'pow', 'sub', 'conv', 'desc', 'look', 'back') and not have:
            name = 'word'
        if name == 'word':
            w = [(rng.randrange(n - 1), rng.choice([1, 1, 1, -1, -1, 2, -2, 3, -3, 0])) for _ in range(rng.choice([0, 1, 2, 4, 8, 12]))]
            if rng.random() < 0.1:
                w = [(i, e * rng.choice([1, 1, 4, 7])) for i, e in w[:4]]
            style = rng.randrange(3)
            x = g.attempt(tid, lambda: C.from_artin_word(n, list(w) if style == 0 else tuple(w) if style == 1 else iter(w)))
            put(x, ('word', w))
        elif name == 'perms':
            ps = [tuple(rng.sample(range(n), n)) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
            if len(ps) == 1:
                x = g.attempt(tid, lambda: GNF.from_perm(Permutation(ps[0])))
            else:
                x = g.attempt(tid, lambda: GNF.from_perm_seq(n, [Permutation(p) for p in ps]))
            st.put('G', n, x, ('word', [l for p in ps for l in ref.perm_braid_word(p)]))
        elif name == 'npars':
            al = ref.all_noncrossing(n)
            xs = [ref.blocks_of(rng.choice(al)) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
            if len(xs) == 1:
                x = g.attempt(tid, lambda: DGNF.from_npar(NPar.from_components(n, xs[0])))
            else:
                x = g.attempt(tid, lambda: DGNF.from_npar_seq(n, [NPar.from_components(n, b) for b in xs]))
            st.put('D', n, x, ('word', [l for b in xs for l in ref.blocks_word(b)]))
        elif name == 'lift':
            if kind == 'G':
                p = tuple(rng.choice([rng.sample(range(n), n), list(range(n)), list(ref.p_w0(n))]))
                x = g.attempt(tid, lambda: BraidGroup(n).positive_lift(Permutation(p)))
                put(x, ('word', ref.perm_braid_word(p)))
            else:
                b = ref.blocks_of(rng.choice(ref.all_noncrossing(n)))
                x = g.attempt(tid, lambda: BraidGroup(n).from_npar(NPar.from_components(n, b)))
                put(x, ('word', ref.blocks_word(b)))
        elif name == 'pair':
            inf, ps = rng.randint(-3, 3), [tuple(rng.sample(range(n), n)) for _ in range(rng.randint(0, 4))]
            x = g.attempt(tid, lambda: BraidGroup(n).from_gnf_pair((inf, tuple(ps))))
            st.put('G', n, x, ('word', ref.garside_word(n, inf, ps)))
        elif name == 'gen':
            i = rng.randrange(n - 1)
            a, b = rng.randrange(n), rng.randrange(n)
            how = rng.randrange(6) if n < 7 else rng.randrange(2, 6)
            fn, k, w = [(lambda: BraidGroup(n).gens()[i], 'G', [(i, 1)]), (lambda: BraidGroup(n).invs()[i], 'G', [(i, -1)]), (lambda: C.artin_gens(n)[i], kind, [(i, 1)]),
                        (lambda: BraidGroup(n).bkl_gens()[a, b], 'D', ref.bkl_word(a, b)), (lambda: DGNF.bkl_gens(n)[a, b], 'D', ref.bkl_word(a, b)),
                        (lambda: C.identity(n) if kind == 'D' else BraidGroup(n).id(), kind, [])][how]
            st.put(k, n, g.attempt(tid, fn), ('word', w))
        elif name == 'mul':
            (i, x), (j, y) = pick(), pick()
            put(g.attempt(tid, lambda: x * y), ('mul', i, j))
        elif name == 'inv':
            i, x = pick()
            put(g.attempt(tid, lambda: x.inv()), ('inv', i))
        elif name == 'pow':
            i, x = pick()
            e = rng.randint(-7, 7) if rng.random() < 0.8 else rng.randint(-33, 33)
            if len(x.factors) <= 1 and rng.random() < 0.1 and abs(x.power) <= 6:
                e = rng.randint(-600, 600) if not x.factors else rng.randint(-70, 70)
                if x.factors and n <= 4:
                    put(g.attempt(tid, lambda: x ** e), ('pow', i, e))
                    return
            if len(x.factors) * abs(e) <= plan['limit'] + 10:
                put(g.attempt(tid, lambda: x ** e), ('pow', i, e))
        elif name == 'sub':
            i, x = pick()
            a, b = sorted(rng.randint(0, len(x.factors)) for _ in 'ab')
            put(g.attempt(tid, lambda: x.substring(a, b)), ('sub', i, a, b))
        elif name == 'conv':
            i, x = pick()
            if len(x.factors) + abs(x.power) <= plan['limit'] * 3 // 4:
                st.put('D' if kind == 'G' else 'G', n, g.attempt(tid, x.to_DGNF if kind == 'G' else x.to_GNF), ('same', i))
        elif name == 'desc':
            i, x = pick()
            if rng.random() < 0.5:
                k = rng.randint(0, 5)

                def nth():
                    for m, y in enumerate(x.nf_descendants()):
                        if m == k:
                            return y
                y = g.attempt(tid, nth)
                looks.append(('nth', i, k, y))
            else:
                L = rng.randint(0, 3)

                def first():
                    for y in x.nf_suffixes(L):
                        return y
                y = g.attempt(tid, first)
                if y is not None:
                    looks.append(('suffix', i, L, y))
        elif name == 'look':
            i, x = pick()
            w = rng.randrange(4)
            if w == 0:
                looks.append(('artin', i, g.attempt(tid, lambda: list(x.artin_word()))))
            elif w == 1:
                looks.append(('artin', i, [(abs(v) - 1, 1 if v > 0 else -1) for v in g.attempt(tid, lambda: x.magma_artin_word())]))
            elif w == 2:
                looks.append(('canonical', i, g.attempt(tid, lambda: (x.canonical_decomposition(), x.canonical_factors(), [x.canonical_factor(k) for k in
                                                                     range(-len(x.factors), len(x.factors))]))))
            else:
                looks.append(('numbers', i, g.attempt(tid, lambda: (x.inf(), x.sup(), x.canonical_length()))))
        elif name == 'back':
            # undo: x * y * y^-1, (x^-1)^-1, there and back between the two normal forms
            (i, x), (j, y) = pick(), pick()
            w = rng.randrange(3 if n < 7 else 2)
            if w == 0:
                looks.append(('equal', i, g.attempt(tid, lambda: x * y * y.inv())))
            elif w == 1:
                looks.append(('equal', i, g.attempt(tid, lambda: x.inv().inv())))
            elif len(x.factors) + abs(x.power) <= 16:
                looks.append(('equal', i, g.attempt(tid, lambda: x.to_DGNF().to_GNF() if kind == 'G' else x.to_GNF().to_DGNF())))

        elif name == 'refuse':
            refuse(tid, n, kind, C, rng, have)

    def refuse(tid, n, kind, C, rng, have):
        """What is not a braid of the group at hand."""
        def no(fn, what):
            try:
                got = g.attempt(tid, fn)
            except program.REFUSALS:
                stats['evaluations'] += 1
                stats['probe:refused'] += 1
                return
            raise Violation('accepted:' + what.split(':')[0], f'{what} gave {got!r}')
        m = rng.choice([v for v in (2, 3, 4, 5) if v != n])
        pm, bl = tuple(rng.sample(range(m), m)), ref.blocks_of(rng.choice(ref.all_noncrossing(m)))
        w = [(rng.randrange(n - 1), rng.choice([1, -1, 2])) for _ in range(rng.randint(0, 3))]
        w.insert(rng.randint(0, len(w)), (rng.choice([-1, -2, 1 - n, n - 1, n, n + 3]), rng.choice([1, -1, 2])))
        no(lambda: C.from_artin_word(n, list(w)), f'a word with a letter that does not exist: {w} on {n} strands')
        which = rng.randrange(7)
        if which == 0 and n < 7:
            no(lambda: BraidGroup(n).positive_lift(Permutation(pm)), f'a permutation of another size: {pm} on {n} strands')
        elif which == 1 and n < 7:
            no(lambda: GNF.from_perm_seq(n, [Permutation(tuple(range(n))), Permutation(pm)]), f'a permutation of another size: {pm} on {n} strands')
        elif which == 2:
            no(lambda: BraidGroup(n).from_npar(NPar.from_components(m, bl)), f'a partition of another size: {bl} of {m} on {n} strands')
        elif which == 3:
            no(lambda: DGNF.from_npar_seq(n, [NPar.from_components(m, bl)]), f'a partition of another size: {bl} of {m} on {n} strands')
        elif have:
            i = have[rng.randrange(len(have))]
            x = st.lib[i]
            k = len(x.factors)
            if which == 4:
                f = x.factors
                order = math.factorial(n) if kind == 'G' else len(ref.all_noncrossing(n))
                bad = [(-1, *f), (*f, -1), (*f, order), (order + 3, *f)]
                if kind == 'G':                                # the greatest permutation is the Garside element, the first the identity
                    bad += [(order - 1, *f), (*f, 0), (*f, 0, 0)]
                v = (n, x.power, rng.choice(bad))
                no(lambda: C(*v), f'factors out of normal form: {v}')
            elif which == 5:
                a, b = rng.choice([(0, k + 1), (-1, k), (1, 0)])
                no(lambda: x.substring(a, b), f'substring out of range: {a}, {b} of {k}')
            else:
                rest = [v for key, v in st.items.items() if key != (kind, n) and v]
                if rest:
                    y = st.lib[rng.choice(rng.choice(rest))]
                    no(lambda: x * y, f'product in different groups: {x!r} and {y!r}')

    def body(tid):
        for op in plan['ops']:
            if op[0] == tid:
                one(tid, op)
    b = g.run([body] * plan['nt'])
    facts = judge(st, looks, stats)
    dig = S.h(b.h.hexdigest(), facts)
    fired = sum(v for k, v in stats.items() if k.startswith('fault:'))
    stats['fault:cold tables'] += plan['cold']
    stats['probe:threads %d' % plan['nt']] += 1
    return dict(stats=stats, digest=dig, simtime=0.0, nontrivial=plan['nt'] > 1 or fired > 0 or plan['cold'], states=[dig],
                sample=dict(threads=plan['nt'], cold=plan['cold'], ops=len(plan['ops']), computed=len(st.lib), switches=b.switches, faults=fired))


def judge(st, looks, stats):
    true = []
    for idx, (x, (kind, n, how)) in enumerate(zip(st.lib, st.how)):
        w = how[0]
        if w == 'word':
            r = B.nf(kind, n, how[1])
        elif w == 'mul':
            r = B.mul(true[how[1]], true[how[2]])
        elif w == 'inv':
            r = B.nf(kind, n, ref.inv_word(B.word(true[how[1]])))
        elif w == 'pow':
            base = B.word(true[how[1]])
            r = B.nf(kind, n, (base if how[2] > 0 else ref.inv_word(base)) * abs(how[2]))
        elif w == 'sub':
            _, _, p, fs = true[how[1]]
            r = (kind, n, p, fs[how[2]:how[3]])
        else:
            r = B.nf(kind, n, B.word(true[how[1]]))
        true.append(r)
        got = B.from_lib(x)
        stats['evaluations'] += 1
        if got != r:
            ins = [B.show(true[v]) for v in how[1:3] if w in ('mul',)] + ([B.show(true[how[1]])] if w in ('inv', 'pow', 'sub', 'same') else [])
            raise Violation('wrong-braid:' + w, f'{w} {ins or how[1:]} gave {B.show(got)}, not {B.show(r)}')
    for rec in looks:
        what, i = rec[0], rec[1]
        kind, n, p, fs = true[i]
        stats['evaluations'] += 1
        if what == 'artin':
            if not all(0 <= j < n - 1 for j, _ in plain(rec[2])):
                raise Violation('wrong-word', f'the word given for {B.show(true[i])} has letters that do not exist: {rec[2]}')
            if not ref.same_braid(n, plain(rec[2]), B.word(true[i])):
                raise Violation('wrong-word', f'the word given for {B.show(true[i])} is another braid: {rec[2]}')
        elif what == 'canonical':
            (p1, a), c, single = rec[2]
            rows = [[f.word for f in v] if kind == 'G' else [f.to_permutation().word for f in v] for v in (a, c, single)]
            want = [tuple(f) for f in fs]
            if p1 != p or rows[0] != want or rows[1] != want or rows[2] != want + want:
                raise Violation('wrong-factors', f'the factors given for {B.show(true[i])} are {p1}, {rows}')
        elif what == 'numbers':
            if tuple(rec[2]) != (p, p + len(fs), len(fs)):
                raise Violation('wrong-numbers', f'inf, sup, length of {B.show(true[i])}: {rec[2]}')
        elif what == 'equal':
            got = B.from_lib(rec[2])
            if got != true[i] or rec[2] != st.lib[i] or hash(rec[2]) != hash(st.lib[i]):
                raise Violation('not-undone', f'{B.show(true[i])} became {B.show(got)}')
        elif what == 'nth':
            ch = B.follows(kind, fs[-1] if fs else B.top(kind, n))
            if rec[3] is None:
                if len(ch) > rec[2]:
                    raise Violation('descendants-missing', f'{B.show(true[i])} has {len(ch)} descendants, fewer were given')
            else:
                got = B.from_lib(rec[3])
                if got[:3] != true[i][:3] or got[3][:-1] != fs or got[3][-1] not in ch:
                    raise Violation('wrong-descendant', f'{B.show(got)} for {B.show(true[i])}')
        elif what == 'suffix':
            got = B.from_lib(rec[3])
            ok = got[2] == 0 and len(got[3]) == rec[2] and (not got[3] or got[3][0] in B.follows(kind, fs[-1] if fs else B.top(kind, n)))
            if not ok:
                raise Violation('wrong-suffix', f'{B.show(got)} for {B.show(true[i])}')
    # equal exactly when the same braid
    for i in range(len(true)):
        for j in range(max(0, i - 12), i):
            if true[i][:2] == true[j][:2]:
                stats['evaluations'] += 1
                eq = st.lib[i] == st.lib[j]
                if eq != (true[i] == true[j]) or (eq and hash(st.lib[i]) != hash(st.lib[j])):
                    raise Violation('wrong-equality', f'{B.show(true[i])} == {B.show(true[j])} gives {eq}')
    near(st, true, stats)
    return (tuple(true), len(looks))


def near(st, true, stats):
    """The same braid made anew is equal; a braid that differs in one detail is not."""
    for i in range(0, len(true), 3):
        kind, n, p, fs = true[i]
        if not st.lib[i] == B.to_lib(true[i]):
            raise Violation('wrong-equality', f'{B.show(true[i])} made again compares unequal')
        others = [(kind, n, p + 1, fs), (kind, n, p - 1, fs), (kind, n, -p or 2, fs), (kind, n, -1 if p == -2 else -2, fs), (kind, n + 1 if n < 5 else 4, p, ())]
        if fs:
            others += [(kind, n, p, fs[:-1]), (kind, n, p, fs[1:])]
            others += [(kind, n, p, (*fs[:-1], f)) for f in B.follows(kind, fs[-2] if len(fs) > 1 else B.top(kind, n))[:3]]
        for o in others:
            if o == true[i]:
                continue
            stats['evaluations'] += 1
            y = B.to_lib(o)
            if st.lib[i] == y or not st.lib[i] != y or len({st.lib[i], y}) != 2:
                raise Violation('wrong-equality', f'{B.show(true[i])} == {B.show(o)}')
