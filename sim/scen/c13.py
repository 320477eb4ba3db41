"""C13: matrices of the representation under any schedule: threads sharing representations and caches, cold or warm, interrupted or not."""
import collections

import numpy as np

from .. import bridge as B, program, ref, sched, searchlib as S, threads, world
from ..world import Violation
from . import c23

ID = 'C13'
LEVEL = 'exploration'
RULE = ('one evaluation = one returned matrix compared with the reference representation, when returned and again at the end of the run; non-trivial = more than one thread '
        'or representation took part, or a fault fired; distinct = distinct interleavings together with the operations')
STATES = 'digest of the interleaving (every switch with thread and position) and of all matrices'
REAL = ['peyl.jonesrep', 'peyl.braidsearch evaluation', 'peyl.polymat', 'peyl.matrix', 'peyl.lpoly', 'peyl.tl', 'peyl.braid', 'numpy', 'Python threads (one runs at a time)']
STUB = ['thread scheduling', 'interrupt and allocation-failure delivery at executed lines', 'threading locks made by /repo code']
ASSUMPTIONS = ['threads are switched at line boundaries of /repo code', 'returned arrays are not modified by their receiver']
CONFIG = dict(quick=dict(runs=1000, wall=240, repeat=8, run_wall=300), thorough=dict(runs=20000, wall=2400, repeat=60, run_wall=600))
CELL = ['refuse', 'poly', 'word', 'pmword', 'pm', 'braid', 'braid', 'bulk', 'bulk', 'bulk', 'ints', 'mul', 'mul', 'gens']
SUMMAND = ['refuse', 'table', 'factors', 'same', 'same', 'prefixes', 'mixed', 'mixed', 'mul', 'mul', 'gens', 'below']
PRIMES = [0, 2, 3, 5, 7, 4, 97, 997, 1000, 8191]


def warm(tier):
    sched.patch_locks()
    for n in range(2, 7):
        B.gindex(n), B.dindex(n)
        for kind in 'GD':
            B.follows(kind, B.top(kind, n))
    B.dindex(7), B.follows('D', B.top('D', 7))
    import peyl.braidsearch                    # noqa: F401


def gen(rng, tier, i):
    nt = rng.choice([1, 2, 2, 3, 4])
    reps = []
    ns = rng.choice([[3], [4], [3, 4], [2, 3], [4, 5], [5]])
    rare = rng.random()
    if rare < 0.05:
        ns = [6] if rare < 0.035 else [7]
    for _ in range(rng.randint(1, 4)):
        n = rng.choice(ns)
        faces = ['cell', 'cell', 'summand'] if n < 7 else ['cell']       # on seven strands: dual braids, words, single permutations
        rep = [rng.choice(faces), n, rng.randint(0, n // 2) if n < 7 else rng.choice([0, 1, 1, 1, 2]), rng.choice(PRIMES)]
        if reps and rng.random() < 0.3:
            rep = [rng.choice(faces), *rng.choice(reps)[1:]]
        reps.append(rep)
    ops = []
    cellops, sumops = CELL, SUMMAND
    if rng.random() < 0.4:
        cellops, sumops = rng.sample(CELL, 2) + ['bulk'], rng.sample(SUMMAND, 2) + ['same']
    for _ in range(rng.randint(3, 16 if max(ns) < 5 else 9 if max(ns) < 6 else 6)):
        k = rng.randrange(len(reps))
        ops.append([rng.randrange(nt), k, rng.choice(cellops if reps[k][0] == 'cell' else sumops), rng.randint(0, 10**6)])
    cold = rng.random() < 0.2 and max(ns) < 5
    typical = rng.choice([100, 1000, 20000])
    return dict(nt=nt, reps=reps, ops=ops, cold=cold, quanta=sched.gen_quanta(rng, rng.choice([20, 200, 1500]), typical) if nt > 1 else [],
                faults=threads.gen_faults(rng, nt, 20000), _lists=['ops', 'faults', 'quanta'])


def shrink(plan):
    if plan['cold']:
        yield dict(plan, cold=False)
    for i, op in enumerate(plan['ops']):
        if op[0]:
            yield dict(plan, ops=plan['ops'][:i] + [[0, *op[1:]]] + plan['ops'][i + 1:])


def rand_word(rng, n, most):
    es = [1, 1, -1, -1, 2, -2, 0] if rng.random() < 0.8 else [1, -1, 3, -4, 6, -7, 12, -12]
    return [(rng.randrange(n - 1), rng.choice(es)) for _ in range(rng.choice([0, 1, 2, 5, most if len(es) == 7 else 3]))]


def many(rng, usual, n, L):
    """How many braids at once: now and then more than any chunk a table or loop may use."""
    if n >= 6:
        return rng.choice([1, 2, 4])
    if n == 3 and L <= 2 and rng.random() < 0.02:
        return 4200
    if n <= 4 and L <= 3 and rng.random() < 0.05:
        return rng.choice([130, 130, 300, 300, 1100])
    return 130 if n <= 4 and rng.random() < 0.02 else rng.choice(usual)


def proj_word(n, r, p, w):
    R = ref.refrep(n, r, p)
    return R.proj(R.word(w))


def run(plan):
    if plan['cold']:
        world.fresh_peyl()
    from peyl import braidsearch as bs, polymat
    from peyl.braid import DGNF, GNF
    from peyl.jonesrep import JonesCellRep
    from peyl.noncrossing import NPar
    from peyl.permutations import Permutation
    stats = collections.Counter()
    g = threads.Group(plan['quanta'], plan['faults'], stats, 60_000_000 if max(v[1] for v in plan['reps']) < 6 else 400_000_000)
    reps = [JonesCellRep(n=n, r=r, p=p) if k == 'cell' else bs.JonesSummand(n=n, r=r, p=p) for k, n, r, p in plan['reps']]
    got = []                          # (rep number, what, array, copy at once, reference thunk)
    singles = collections.defaultdict(list)
    batches = collections.defaultdict(list)

    def keep(k, what, A, want, single=True):
        """A: array for one object (single) or batch; want: thunk giving the reference image or the list of them."""
        got.append((k, what, A, np.array(A), want, single))
        (singles if single else batches)[k].append((A, want))

    def braids_of(rng, n, p, kinds, length, count):
        kind = rng.choice(kinds) if n < 7 else 'D'
        return [B.rand_braid(rng, kind, n, length, rng.choice([0, 0, None, rng.randint(-9, 9)])) for _ in range(count)]

    def one(tid, op):
        _, k, name, s = op
        kind, n, r, p = plan['reps'][k]
        rep = reps[k]
        rng = world.sub(s, name)
        most = 10
        img = lambda b: B.image(n, r, p, b)                                    # noqa: E731
        A = lambda fn: g.attempt(tid, fn)                                      # noqa: E731
        L = rng.choice([0, 1, 2, 3, 5] if n < 6 else [0, 1, 2]) if n > 2 else 0
        if name == 'poly':
            which = rng.randrange(4)
            if which == 0:
                pm = tuple(rng.sample(range(n), n))
                o, w = Permutation(pm), ref.perm_braid_word(pm)
            elif which == 1:
                bl = ref.blocks_of(rng.choice(ref.all_noncrossing(n)))
                o, w = NPar.from_components(n, bl), ref.blocks_word(bl)
            else:
                b = B.rand_braid(rng, 'GD'[which - 2] if n < 7 else 'D', n, min(L, 3), rng.randint(-2, 2))
                o, w = B.to_lib(b), B.word(b)
            M = A(lambda: rep.evaluate(o))
            got.append((k, name, M, None, lambda: ref.refrep(n, r, p).laurent(ref.refrep(n, r, p).word(w)), None))
        elif name == 'word':
            w = rand_word(rng, n, most)
            M = A(lambda: rep.evaluate_artin_word(list(w)))
            got.append((k, name, M, None, lambda: ref.refrep(n, r, p).laurent(ref.refrep(n, r, p).word(w)), None))
        elif name == 'pmword':
            w = rand_word(rng, n, most)
            keep(k, name, A(lambda: rep.polymat_evaluate_artin_word(list(w))), lambda: proj_word(n, r, p, w))
        elif name == 'pm':
            which = rng.randrange(4)
            if which == 3:
                pm = tuple(rng.sample(range(n), n))
                o, w = Permutation(pm), ref.perm_braid_word(pm)
            elif which == 0:
                bl = ref.blocks_of(rng.choice(ref.all_noncrossing(n)))
                o, w = NPar.from_components(n, bl), ref.blocks_word(bl)
            else:
                b = B.rand_braid(rng, 'GD'[which - 1] if n < 7 else 'D', n, min(L, 3), rng.randint(-2, 2))
                o, w = B.to_lib(b), B.word(b)
            keep(k, name, A(lambda: rep.polymat_evaluate(o)), lambda: proj_word(n, r, p, w))
        elif name == 'braid':
            b = braids_of(rng, n, p, 'GD', L, 1)[0]
            x = B.to_lib(b)
            keep(k, name, A(lambda: rep.polymat_evaluate_braid(x)), lambda: img(b))
        elif name == 'bulk':
            bb = braids_of(rng, n, p, 'GD', L, many(rng, [1, 2, 5, 30], n, L))
            xs = [B.to_lib(b) for b in bb]
            keep(k, name, A(lambda: rep.polymat_evaluate_braids_of_same_length(xs)), lambda: [img(b) for b in bb], False)
        elif name == 'ints':
            cnt = rng.choice([1, 2, 6] if n < 6 else [1, 2])
            if rng.random() < 0.6 and n < 7:
                C, table = GNF, B.gindex(n)
                ks = [(i, ref.perm_braid_word(w)) for i, w in enumerate(ref.lex_perms(n))]
            else:
                C = DGNF
                ks = [(i, ref.blocks_word(ref.blocks_of(w))) for w, i in B.dindex(n).items() if i is not None]
            if not ks or (L == 0 and cnt > 1):
                return
            sq = [[rng.choice(ks) for _ in range(L)] for _ in range(cnt)]
            keep(k, name, A(lambda: rep.polymat_evaluate_braid_integers_of_same_length(C, [[i for i, _ in q] for q in sq])),
                 lambda: [proj_word(n, r, p, [l for _, w in q for l in w]) for q in sq], False)
        elif name == 'mul':
            pool = singles[k] + batches[k]
            if not pool:
                return
            (X, wx), (Y, wy) = rng.choice(pool), rng.choice(pool)
            big = rng.random()
            if big >= 0.9:                     # long times long
                pool = sorted(singles[k], key=lambda v: -v[0].shape[-1])[:2] or pool
                (X, wx), (Y, wy) = rng.choice(pool), rng.choice(pool)
            top = 30 if p == 0 else 60 if big < 0.9 else 240
            if X.shape[-1] + Y.shape[-1] > top:
                return
            if X.size * Y.shape[-1] > 4 * 10**6 or Y.size * X.shape[-1] > 4 * 10**6:
                return
            if X.ndim == 4 and Y.ndim == 4 and X.shape[0] != Y.shape[0]:
                return
            f = rep.polymat_mul if kind == 'cell' else rep.mul
            try:
                Z = A(lambda: f(X, Y))
            except OverflowError:              # refused: right if the product, before it is reduced, does not fit
                most = c23.product(c23.exact(X), c23.exact(Y))
                if c23.fits(most, X.dtype):
                    raise Violation('refused:mul', f'{plan["reps"][k]}: a product that fits in {X.dtype} was refused') from None
                stats['probe:refused for overflow'] += 1
                return

            def want():
                a, b = wx(), wy()
                R = ref.refrep(n, r, p)
                m = lambda u, v: R.proj(R.mul((np.asarray(u), 0), (np.asarray(v), 0)))    # noqa: E731
                if isinstance(a, list) or isinstance(b, list):
                    cnt = len(a) if isinstance(a, list) else len(b)
                    aa, bb = a if isinstance(a, list) else [a] * cnt, b if isinstance(b, list) else [b] * cnt
                    return [m(u, v) for u, v in zip(aa, bb)]
                return m(a, b)
            keep(k, name, Z, want, Z.ndim == 3)
        elif name == 'gens':
            R = ref.refrep(n, r, p)
            which = rng.randrange(4)
            if which == 0:
                if A(rep.dimension) != R.d:
                    raise Violation('wrong-dimension', f'{plan["reps"][k]}: {rep.dimension()}')
            elif which == 1:
                f = rep.polymat_id if kind == 'cell' else rep.id
                keep(k, 'identity', A(f), lambda: R.proj(R.identity()))
            elif kind == 'cell' and which == 2:
                gs, vs = A(rep.artin_gens_invs)
                for e, ms in ((1, gs), (-1, vs)):
                    for i, M in enumerate(ms):
                        got.append((k, 'generator', M, None, lambda i=i, e=e: R.laurent(R.word([(i, e)])), None))
            else:
                f = rep.polymat_artin_gens_invs if kind == 'cell' else rep.artin_gens_invs
                gs, vs = A(f)
                md = (lambda X: X % p) if p else (lambda X: X)
                for e, ms in ((1, gs), (-1, vs)):
                    if len(ms) != n - 1:
                        raise Violation('wrong-generators', f'{plan["reps"][k]}: {len(ms)} generators')
                    got.append((k, 'generators', md(ms), np.array(md(ms)), lambda e=e: [R.proj(R.word([(i, e)])) for i in range(n - 1)], False))
        elif name == 'table':
            if not hasattr(bs, 'symmetric_table'):
                return
            t = A(lambda: bs.symmetric_table(rep))
            ps = rng.sample(ref.lex_perms(n), min(4, len(ref.lex_perms(n))))
            for w in ps:
                keep(k, name, t[Permutation(w)], lambda w=w: proj_word(n, r, p, ref.perm_braid_word(w)))
        elif name == 'factors':
            b = braids_of(rng, n, p, 'G', L, 1)[0]
            x = B.to_lib(b)
            keep(k, name, A(lambda: bs.evaluate_braid_factors(rep, x)), lambda: img(b))
        elif name == 'same':
            bb = braids_of(rng, n, p, 'G', L, many(rng, [1, 2, 5, 30], n, L))
            xs = [B.to_lib(b) for b in bb]
            keep(k, name, A(lambda: bs.evaluate_braids_of_same_length(rep, xs)), lambda: [img(b) for b in bb], False)
        elif name == 'prefixes':
            bb = braids_of(rng, n, p, 'G', L, rng.choice([1, 2, 5]))
            xs = [B.to_lib(b) for b in bb]
            out = A(lambda: bs.evaluate_prefixes_of_same_length(rep, xs))
            if len(out) != L + 1:
                raise Violation('wrong-prefixes', f'{len(out)} prefixes of braids of length {L}')
            for l, X in enumerate(out):
                keep(k, name, X, lambda l=l: [img((*b[:3], b[3][:l])) for b in bb], False)
        elif name == 'mixed':
            lens = rng.choice([[0, 1, 2, 3, 4, 5], [0, 1, 2, 3, 4, 5], [rng.randint(0, 3), rng.randint(0, 3)]]) if n > 2 else [0]
            bb = [B.rand_braid(rng, 'G', n, rng.choice(lens)) for _ in range(many(rng, [1, 3, 8, 20], n, max(lens)) if len(lens) != 2 or rng.random() < 0.85 else rng.choice([130, 250]))]
            if n == 3 and rng.random() < 0.05:                 # most of one length
                bb = [B.rand_braid(rng, 'G', n, max(1, lens[0]) if j % 1000 else 0) for j in range(4300)]
            xs = [B.to_lib(b) for b in bb]
            out = A(lambda: bs.evaluate_braids(rep, xs))
            if len(out) != len(bb):
                raise Violation('wrong-count', f'{len(out)} matrices for {len(bb)} braids')
            for b, X in zip(bb, out):
                keep(k, name, X, lambda b=b: img(b))
        elif name == 'below':
            if n == 2 or n > 4:
                return
            ln = rng.randint(1, 7 if n == 3 else 2 if rng.random() < 0.95 else 3)
            al = B.all_of_length('G', n, ln)
            need = [b for b in al if (img(b).shape[2] - 1) / 2 / ln < 1.0]
            xs, X = A(lambda: bs.all_of_length_below_1(rep, ln))
            if collections.Counter(map(B.from_lib, xs)) != collections.Counter(need):
                raise Violation('wrong-selection', f'all_of_length_below_1({plan["reps"][k]}, {ln}) gives {len(xs)} braids, not the {len(need)} that qualify')
            if xs:
                bb = [B.from_lib(x) for x in xs]
                keep(k, name, X, lambda: [img(b) for b in bb], False)

        elif name == 'refuse':
            refuse(tid, rng, plan['reps'][k], rep)

    def refuse(tid, rng, d, rep):
        """What the representation has no matrix for."""
        kind, n, r, p = d

        def no(fn, what):
            try:
                X = g.attempt(tid, fn)
            except program.REFUSALS:
                stats['evaluations'] += 1
                stats['probe:refused'] += 1
                return
            raise Violation('accepted:' + what.split(':')[0], f'{d}: {what} gave {X!r}'[:1500])
        m = rng.choice([v for v in (2, 3, 4, 5) if v != n])
        k = rng.choice('GD') if kind == 'cell' and n < 7 else 'D' if kind == 'cell' else 'G'
        L = rng.randint(1, 2)
        mk = lambda k, v, L: B.rand_braid(rng, k, v, L, 0)                     # noqa: E731
        good, other, longer = mk(k, n, L), mk(k, m, L), mk(k, n, L + 1)
        bulk = rep.polymat_evaluate_braids_of_same_length if kind == 'cell' else lambda xs: bs.evaluate_braids_of_same_length(rep, xs)
        shown = lambda bb: ', '.join(map(B.show, bb))                          # noqa: E731
        w = rand_word(rng, n, 4)
        w.insert(rng.randint(0, len(w)), (rng.choice([-1, -2, 1 - n, n - 1, n + 2]), rng.choice([1, -1, 3])))
        which = rng.randrange(6 if kind == 'cell' else 2)
        if which == 0 and other[3]:
            bb = [other] if rng.random() < 0.5 or len(good[3]) != len(other[3]) else [good, other]
            no(lambda: bulk([B.to_lib(b) for b in bb]), f'a braid on {m} strands: {shown(bb)}')
        elif which == 1 and len(good[3]) != len(longer[3]):
            bb = rng.sample([good, longer], 2)
            no(lambda: bulk([B.to_lib(b) for b in bb]), f'a batch of two lengths: {shown(bb)}')
        elif which == 2 and n < 7:
            bb = [good, mk('D' if k == 'G' else 'G', n, L)]
            if len(bb[0][3]) == len(bb[1][3]):
                no(lambda: bulk([B.to_lib(b) for b in bb]), f'a batch of two kinds: {shown(bb)}')
        elif which == 3:
            no(lambda: rep.evaluate_artin_word(list(w)), f'a word with a letter that does not exist: {w}')
        elif which == 4:
            no(lambda: rep.polymat_evaluate_artin_word(list(w)), f'a word with a letter that does not exist: {w}')
        elif which == 5 and n < 7:
            C, order = (GNF, len(ref.lex_perms(n))) if k == 'G' else (DGNF, len(ref.all_noncrossing(n)))
            sq = [[rng.randrange(order) for _ in range(3)] for _ in range(2)]
            if rng.random() < 0.7:
                sq[rng.randrange(2)][rng.randrange(3)] = rng.choice([-1, order, order + 5])
            else:
                sq[rng.randrange(2)].append(0)
            no(lambda: rep.polymat_evaluate_braid_integers_of_same_length(C, sq), f'sequences of factors: {sq}')

    def body(tid):
        for op in plan['ops']:
            if op[0] == tid:
                one(tid, op)
    b = g.run([body] * plan['nt'])
    marks = judge(plan, got, stats)
    dig = S.h(b.h.hexdigest(), marks)
    fired = sum(v for k, v in stats.items() if k.startswith('fault:'))
    stats['fault:cold tables'] += plan['cold']
    stats['probe:threads %d' % plan['nt']] += 1
    return dict(stats=stats, digest=dig, simtime=0.0, nontrivial=plan['nt'] > 1 or len(plan['reps']) > 1 or fired > 0, states=[dig],
                sample=dict(threads=plan['nt'], reps=plan['reps'], ops=[o[2] for o in plan['ops']], matrices=len(got), switches=b.switches, faults=fired))


def laurent_of(M):
    out = {}
    for i in range(M.nrows):
        for j in range(M.ncols):
            x = M[i, j]
            if isinstance(x, int):
                out[i, j] = {0: x} if x else {}
            else:
                out[i, j] = {x.val + k: int(c) for k, c in enumerate(x.coeffs) if c}
    return out


def judge(plan, got, stats):
    marks = []
    for k, what, A, copy, want, single in got:
        rep = plan['reps'][k]
        W = want()
        stats['evaluations'] += 1
        stats[f'probe:{what} ({rep[0]})'] += 1
        if single is None:
            if laurent_of(A) != W:
                raise Violation('wrong-matrix:' + what, f'{rep}: {laurent_of(A)}, not {W}')
            marks.append(sorted((x, sorted(y.items())) for x, y in W.items()))
            continue
        for when, X in (('at the end of the run', A), ('when returned', copy)):
            ok = B.same_image(X, W) if single else X.ndim == 4 and X.shape[0] == len(W) and all(B.same_image(x, w) for x, w in zip(X, W))
            if not ok and not (what == 'below' and X.ndim == 4 and len(W) == 0):
                raise Violation('wrong-matrix:' + what, f'{rep} {when}: {what} gives {np.asarray(X).tolist()}, not {[w.tolist() for w in W] if not single else W.tolist()}'[:1500])
        marks.append(S.h([w.tolist() for w in W] if not single else W.tolist()))
    return S.h(marks)
