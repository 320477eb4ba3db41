"""Operation histories on the two trackers with a reference model of what each bucket may hold."""
from __future__ import annotations

import collections
import hashlib
import math
import random
import sys

import numpy as np

from . import bridge as B, ref, world
from .world import Violation

METHODS = ['GreedyFirst', 'Uniform', 'AChao', 'EvictMin']


def weight_of(style, b):
    """The user's weight function (harness code): deterministic in the braid."""
    if style == 'one':
        return 1.0
    if style == 'length':
        return float(len(b[3]))
    x = int.from_bytes(hashlib.blake2b(repr((style, b)).encode(), digest_size=4).digest(), 'big') / 2**32
    if style == 'zeros':
        return 0.0 if x < 0.4 else float(int(x * 5))
    if style == 'allzero':
        return 0.0
    if style == 'wide':
        return 10.0 ** (x * 12 - 6)
    if style == 'close':                                       # differences that need more than single precision
        return 2.0 ** 25 + int(x * 1000) if int(x * 10**6) % 2 else 2.0 ** 25 + 1 + x * 1e-3
    if style == 'few':
        return float(1 + int(x * 3))
    return x + 0.01


class Allocs:
    """Allocation seam: the k-th array of at least 4 kB that /repo code asks numpy for fails."""
    NAMES = ['zeros', 'empty', 'full', 'ones', 'concatenate', 'array', 'zeros_like', 'empty_like', 'stack', 'pad', 'copy', 'tile', 'repeat']

    def __init__(self):
        self.fail = None
        self.count = 0
        self.fired = 0
        self.real = {}

    def install(self):
        for nm in self.NAMES:
            real = getattr(np, nm)
            self.real[nm] = real

            def wrap(*a, _real=real, **k):
                out = _real(*a, **k)
                if self.fail is not None and out.nbytes >= 4096 and world.in_repo(sys._getframe(1).f_code.co_filename):
                    self.count += 1
                    if self.count == self.fail:
                        self.fired += 1
                        self.fail = None
                        raise MemoryError('simulated allocation failure')
                return out
            setattr(np, nm, wrap)

    def arm(self, k):
        self.fail, self.count = k, 0

    def disarm(self):
        self.fail = None


class Cell:
    """What a bucket has been offered since it came into being."""
    __slots__ = ('sure', 'maybe', 'lo', 'hi', 'counted', 'order', 'weights')

    def __init__(self, counted=True):
        self.sure = collections.Counter()
        self.maybe = collections.Counter()
        self.lo = self.hi = 0
        self.counted = counted


class TrackSim:
    def __init__(self, cfg, stats):
        self.cfg, self.st = cfg, stats
        self.kind = cfg['tracker']
        self.n, self.r, self.p = cfg['n'], cfg['r'], cfg['p']
        self.cap = cfg['cap']
        self.cells = {}
        self.discarded = set()
        self.interrupt_at = None
        self.adds = 0
        self.seen = None
        rand = random.Random(cfg['rand']) if cfg['rand'] is not None else None
        if self.kind == 'search':
            from peyl import braidsearch
            self.rep = braidsearch.JonesSummand(n=self.n, r=self.r, p=self.p)
            crit = cfg.get('criterion', 'length1')
            self.crit = crit
            fns = dict(length1=lambda x: x['length'] >= 1, all=lambda x: x['length'] >= 0, small=lambda x: x['projlen'] <= 5,
                       gap=lambda x: x['rhogap'] <= 2)
            self.t = braidsearch.Tracker(rep=self.rep, bucket_size=self.cap, bucket_keys=('length', 'projlen'), criterion=fns[crit], rand=rand)
        else:
            from peyl import bucketing
            from peyl.jonesrep import JonesCellRep
            self.rep = JonesCellRep(n=self.n, r=self.r, p=self.p)
            S = bucketing.Stats
            names = dict(length=S.CanonicalLength, projlen=S.ProjectiveLength, nf=S.NFKind, nz=S.NonzeroTerms)
            self.keys = cfg['keys']
            style = cfg['weight']
            self.style = style

            class Weight(bucketing.BraidStatBase):
                name = 'w'

                @staticmethod
                def calculate(rep, braids, images):
                    return [weight_of(style, B.from_lib(x)) for x in braids]
            self.t = bucketing.Tracker(rep=self.rep, bucket_capacity=self.cap, bucket_braidstats=[names[k] for k in self.keys],
                                       other_braidstats=[S.NonzeroTerms] if 'nz' not in self.keys else [], reservoir_method=cfg['method'],
                                       reservoir_weight=Weight if style != 'none' else None, rand=rand)
        real = self.t.add_braids_images

        def add(*a, **k):
            self.adds += 1
            if self.seen is not None:
                self.seen.extend(a[0] if a else k['braids'])
            if self.interrupt_at is not None and self.adds == self.interrupt_at:
                self.interrupt_at = None
                self.st['fault:interrupt between two insertions'] += 1
                raise KeyboardInterrupt('simulated')
            return real(*a, **k)
        self.t.add_braids_images = add

    # -- reference facts
    def img(self, b):
        return B.image(self.n, self.r, self.p, b)

    def key(self, b):
        im = self.img(b)
        if self.kind == 'search':
            return (len(b[3]), im.shape[2])
        out = []
        for k in self.keys:
            out.append(dict(length=lambda: len(b[3]), projlen=lambda: im.shape[2], nf=lambda: b[0] + 'NF' if b[0] == 'G' else 'DGNF',
                            nz=lambda: int(np.count_nonzero(im)))[k]())
        return tuple(out)

    def wanted(self, b):
        if self.kind != 'search' or self.crit == 'all':
            return True
        if self.crit == 'length1':
            return len(b[3]) >= 1
        pl = self.img(b).shape[2]
        return pl <= 5

    # -- access through the public interface
    def tags(self):
        tags = [tuple(x) for x in self.t.stats()['bucket']]
        return sorted(tags, key=repr)

    def held(self, tag):
        braids, images = self.t.bucket_braids_images(tag)
        return [B.from_lib(x) for x in braids], images

    # -- offering
    def offer(self, braids, sure=True, counts='exact'):
        """Model: these braids were offered (or, if not sure, some of them may have been)."""
        for b in braids:
            if not self.wanted(b):
                continue
            k = self.key(b)
            c = self.cells.get(k)
            if c is None:
                c = self.cells[k] = Cell(counted=k not in self.discarded)
            (c.sure if sure else c.maybe)[b] += 1
            c.hi += 1
            if sure and counts == 'exact':
                c.lo += 1

    def evaluate(self, lib):
        """Images of a list of library braids, the way a user makes them."""
        from peyl import braidsearch, polymat
        if self.kind == 'search':
            return polymat.pack(braidsearch.evaluate_braids(self.rep, lib))
        same = {}
        for i, x in enumerate(lib):
            same.setdefault((type(x).__name__, x.canonical_length()), []).append(i)
        order = [i for idx in same.values() for i in idx]
        imgs = polymat.concatenate([self.rep.polymat_evaluate_braids_of_same_length([lib[i] for i in idx]) for idx in same.values()])
        inv = np.argsort(np.array(order), kind='stable')
        return imgs[inv]

    def add(self, braids, front=0, back=0):
        lib = [B.to_lib(b) for b in braids]
        images = self.evaluate(lib)
        if front or back:
            # the same matrices up to a power of v: trackers store them projectivised
            images = np.pad(images, [(0, 0)] * 3 + [(front, back)])
        self.t.add_braids_images(lib, images)

    def run_op(self, op):
        """Perform one operation. Returns (description, offered braids, exact?) or None if not applicable. May raise what was injected."""
        name = op[0]
        n = self.n
        rng = random.Random(op[1])
        kinds = self.cfg['kinds']
        if name == 'add':
            _, seed, count, length, dup = op
            braids = []
            for _ in range(count):
                if braids and rng.random() < dup:
                    braids.append(rng.choice(braids))
                    continue
                ln = length if length is not None else rng.randint(0, 4)
                if self.kind != 'search':
                    ln = ln if length is not None else rng.randint(1, 4)
                braids.append(B.rand_braid(rng, rng.choice(kinds), n, ln, power=0 if rng.random() < 0.5 else None))
            front, back = (rng.randint(0, 3), rng.randint(0, 3)) if rng.random() < 0.3 else (0, 0)
            if self.kind == 'search':
                front = 0                      # this tracker requires (and asserts) images with a constant term
            return braids, True, lambda: self.add(braids, front, back)
        if name == 'boot':
            from peyl.braid import DGNF, GNF
            kind = rng.choice(kinds)
            braids = [b for L in range(1, op[2] + 1) for b in B.all_of_length(kind, n, L)]
            if len(braids) > self.cfg.get('max_batch', 2500):
                return None
            if self.kind == 'search':
                return braids, True, lambda: self.t.bootstrap_exhaustive(upto_length=op[2])
            return braids, True, lambda: self.t.bootstrap_exhaustive(GNF if kind == 'G' else DGNF, op[2])
        tags = self.tags()
        if not tags:
            return None
        tag = tags[op[1] % len(tags)]
        if name == 'descend':
            held, _ = self.held(tag)
            length = op[2]
            if len({b[0] for b in held}) > 1:
                return None
            kids = [e for b in held for e in B.extensions(b, length)]
            if len(kids) > self.cfg.get('max_batch', 2500) or not kids:
                return None
            if self.kind == 'search':
                if length == 1:
                    return kids, True, lambda: self.t.nf_descendants(tag, length=1)
                # shorter extensions are offered along the way, once per continuation
                pre = [(b[0], b[1], b[2], b[3][:len(b[3]) - i]) for i in range(1, length) for b in kids]
                return (kids, pre), False, lambda: self.t.nf_descendants(tag, length=length)
            return kids, True, lambda: self.t.nf_descendants(tag, length=length)
        if name == 'discard':
            def go():
                self.t.discard_bucket(tag)
                self.cells.pop(tag, None)
                self.discarded.add(tag)
            return [], True, go
        if name == 'again':
            held, images = self.held(tag)
            lib = list(self.t.bucket_braids_images(tag)[0])
            images = images.copy()
            return list(held), True, lambda: self.t.add_braids_images(lib, images)
        if self.kind != 'search':
            return None
        if name == 'product':
            tag2 = tags[op[2] % len(tags)]
            h1, h2 = self.held(tag)[0], self.held(tag2)[0]
            if len(h1) * len(h2) > 200:
                return None
            if min(tag[1], tag2[1]) * self.img(h1[0]).shape[0] * max(self.p - 1, 0)**2 >= 2**31:
                return None                    # outside what 32-bit products can hold
            prods = [B.mul(a, b) for a in h1 for b in h2]
            return prods, True, lambda: self.t.bucket_product(tag, tag2)
        if name == 'substrings':
            held = self.held(tag)[0]
            subs = [(b[0], b[1], b[2], b[3][i:j]) for b in held for i in range(len(b[3])) for j in range(i + 2, len(b[3]) + (i > 0))]
            return subs, True, lambda: self.t.substrings(tag)
        raise world.HarnessError(f'unknown operation {op}')

    def apply(self, op, fault=None, allocs=None):
        plan = self.run_op(op)
        if plan is None:
            return 'skipped'
        braids, exact, go = plan
        self.adds = 0
        if fault:
            if fault[1] == 'mem':
                allocs.arm(fault[2])
            else:
                self.interrupt_at = fault[2]
        failed = None
        try:
            go()
        except MemoryError as e:
            if 'simulated' not in str(e):
                raise
            failed = 'MemoryError'
            self.st['fault:allocation of at least 4 kB fails'] += 1
        except KeyboardInterrupt as e:
            if 'simulated' not in str(e):
                raise
            failed = 'KeyboardInterrupt'
        finally:
            if allocs:
                allocs.disarm()
            self.interrupt_at = None
        if failed:
            allb = braids if exact else list(braids[0]) + list(braids[1])
            self.offer(allb, sure=False)
            return 'cut short'
        if exact:
            self.offer(braids)
        else:
            self.offer(braids[0])
            self.offer(braids[1], sure=False)
        return 'done'

    # -- judging
    def check(self, where, deep=True):
        t = self.t
        df = t.stats()
        tags = [tuple(x) for x in df['bucket']]
        if len(set(tags)) != len(tags):
            raise Violation('stats-wrong', f'{where}: a bucket appears twice in stats()')
        rows = {tuple(x['bucket']): x for x in df.to_dict('records')}
        for tag in tags:
            if tag not in self.cells:
                raise Violation('unexplained-bucket', f'{where}: bucket {tag} was never offered anything')
        for tag, c in self.cells.items():
            if tag not in rows:
                if c.sure:
                    raise Violation('offered-not-kept', f'{where}: bucket {tag} was offered {sum(c.sure.values())} braids and does not exist')
                continue
            row = rows[tag]
            braids, images = t.bucket_braids_images(tag)
            k = len(braids)
            if k == 0 or k > self.cap:
                raise Violation('bucket-size', f'{where}: bucket {tag} holds {k} braids, capacity {self.cap}')
            if len(images) != k:
                raise Violation('images-not-parallel', f'{where}: bucket {tag} has {k} braids and {len(images)} matrices')
            held = [B.from_lib(x) for x in braids]
            cnt = collections.Counter(held)
            for i, b in enumerate(held):
                if b[1] != self.n:
                    raise Violation('unexplained-braid', f'{where}: {B.show(b)}')
                if self.key(b) != tag:
                    raise Violation('wrong-bucket', f'{where}: {B.show(b)} with statistics {self.key(b)} is in bucket {tag}')
                if not B.same_image(images[i], self.img(b)):
                    raise Violation('image-mismatch', f'{where}: bucket {tag} entry {i}: the matrix beside {B.show(b)} is not its own')
                if images[i].shape[-1] != self.img(b).shape[2]:
                    raise Violation('image-not-projectivised', f'{where}: bucket {tag} entry {i}')
            for b, m in cnt.items():
                off = c.sure[b] + c.maybe[b]
                if off == 0:
                    raise Violation('unexplained-braid', f'{where}: bucket {tag} holds {B.show(b)}, which was never offered')
                if m > off:
                    raise Violation('duplicate-in-bucket', f'{where}: bucket {tag} holds {B.show(b)} {m} times, offered {off} times')
            if self.kind == 'search' and k < self.cap and len(cnt) != k:
                raise Violation('duplicate-in-bucket', f'{where}: bucket {tag} is not full and holds a braid twice')
            if k < self.cap:
                for b, m in c.sure.items():
                    need = 1 if self.kind == 'search' else m
                    if cnt[b] < need:
                        raise Violation('offered-not-kept', f'{where}: bucket {tag} has room and lacks {B.show(b)}')
            elif self.kind == 'search' and len(c.sure) >= self.cap and k != self.cap:
                raise Violation('bucket-size', f'{where}: bucket {tag}')
            if int(row['count']) != k:
                raise Violation('stats-wrong', f'{where}: stats() says {row["count"]} braids in {tag}, it holds {k}')
            has_count = 'reservoir_count' in row
            if has_count and c.counted:
                rc = int(row['reservoir_count'])
                if not c.lo <= rc <= c.hi:
                    raise Violation('count-wrong', f'{where}: bucket {tag} counted {rc} offers, it was offered ' + (f'{c.lo}' if c.lo == c.hi else f'between {c.lo} and {c.hi}'))
                c.lo = c.hi = rc
            self.check_row(where, tag, row, held, images, c)
            if deep:
                self.check_bucket_stats(where, tag, held)
            self.st['evaluations'] += 1
            if k == self.cap:
                self.st['probe:full buckets judged'] += 1
        if self.kind == 'search':
            for x in t.stats_reservoir().to_dict('records'):
                tag = tuple(x['bucket'])
                c = self.cells.get(tag)
                if c is not None and c.counted and not c.lo <= int(x['reservoir_count']) <= c.hi:
                    raise Violation('count-wrong', f'{where}: stats_reservoir() says {x["reservoir_count"]} for {tag}, offered {c.lo}')

    def check_row(self, where, tag, row, held, images, c):
        if self.kind == 'search':
            if (int(row['length']), int(row['projlen'])) != tag:
                raise Violation('stats-wrong', f'{where}: stats() row {row}')
            if tag[0] and not math.isclose(row['rhogap/length'], (tag[1] - 1) / 2 / tag[0], rel_tol=1e-9, abs_tol=1e-12):
                raise Violation('stats-wrong', f'{where}: stats() rhogap/length {row}')
            return
        cols = dict(length='length', projlen='projlen', nf='nf', nz='nz_terms')
        for k, v in zip(self.keys, tag):
            if row[cols[k]] != v:
                raise Violation('stats-wrong', f'{where}: stats() row {row} for {tag}')
        # averages of weights
        ws = [weight_of(self.style, b) if self.style != 'none' else 1.0 for b in held]
        if not math.isclose(row['reservoir_weight_avg'], sum(ws) / len(ws), rel_tol=1e-9, abs_tol=1e-12):
            raise Violation('stats-wrong', f'{where}: stats() average weight {row["reservoir_weight_avg"]} of {tag}, the held braids average {sum(ws) / len(ws)}')
        if c.counted and not c.maybe:
            tot = sum((weight_of(self.style, b) if self.style != 'none' else 1.0) * m for b, m in c.sure.items())
            cnt = sum(c.sure.values())
            if not math.isclose(row['reservoir_weight_avg_seen'], tot / cnt, rel_tol=1e-9, abs_tol=1e-12):
                raise Violation('stats-wrong', f'{where}: stats() average weight seen {row["reservoir_weight_avg_seen"]} of {tag}, offered {tot / cnt}')
        h = self.t.hash_bucket(tag)
        groups = [[B.from_lib(x) for x in v] for v in h.values()]
        if collections.Counter(b for g in groups for b in g) != collections.Counter(held):
            raise Violation('grouping-wrong', f'{where}: hash_bucket({tag}) does not partition the bucket')
        seen = {}
        for gi, g in enumerate(groups):
            for b in g:
                im = self.img(b)
                k = (im.shape, tuple(im.ravel().tolist()))
                if seen.setdefault(k, gi) != gi:
                    raise Violation('grouping-wrong', f'{where}: equal matrices in different groups of {tag}')
            if len({(self.img(b).shape, tuple(self.img(b).ravel().tolist())) for b in g}) != 1:
                raise Violation('grouping-wrong', f'{where}: different matrices in one group of {tag}')

    def check_bucket_stats(self, where, tag, held):
        df = self.t.bucket_stats(tag)
        if len(df) != len(held):
            raise Violation('stats-wrong', f'{where}: bucket_stats({tag}) has {len(df)} rows for {len(held)} braids')
        recs = df.to_dict('records')
        for b, x in zip(held, recs):
            im = self.img(b)
            D = im.shape[2]
            want = dict(length=len(b[3]), projlen=D, nz_terms=int(np.count_nonzero(im)))
            if self.kind == 'search':
                want.update(degmax=D - 1, valmin=0, rhogap=(D - 1) / 2)
                want['rhogap/length'] = (D - 1) / 2 / max(1, len(b[3]))
            else:
                want.update(nf='GNF' if b[0] == 'G' else 'DGNF')
                want = {k: v for k, v in want.items() if k in x}
                if 'braid' in x and B.from_lib(x['braid']) != b:
                    raise Violation('stats-wrong', f'{where}: bucket_stats({tag}) lists another braid')
            for k, v in want.items():
                if x[k] != v:
                    raise Violation('stats-wrong', f'{where}: bucket_stats({tag})[{k}] = {x[k]} for {B.show(b)}, really {v}')

    def digest(self):
        out = []
        for tag in self.tags():
            out.append((tag, self.held(tag)[0]))
        return out


def gen_cfg(rng, tracker=None, n=None, caps=(1, 2, 3, 5, 8, 20, 40, 100)):
    tracker = tracker or rng.choice(['search', 'bucketing'])
    n = n or rng.choice([3, 3, 4, 4, 5] if rng.random() >= 0.025 else [6])
    cfg = dict(tracker=tracker, n=n, r=0 if rng.random() < 0.08 else rng.randint(1, n // 2), p=rng.choice([0, 2, 2, 3, 5, 31, 997, 8191]),
               cap=rng.choice(caps), rand=rng.randint(0, 10**6))
    if tracker == 'search':
        cfg['kinds'] = ['G']
        cfg['criterion'] = rng.choice(['length1', 'length1', 'all', 'small', 'gap'])
        if rng.random() < 0.2:
            cfg['rand'] = None
    else:
        keys = ['length', 'projlen']
        if rng.random() < 0.3:
            keys.append('nz')
        if rng.random() < 0.5:
            keys.append('nf')
        rng.shuffle(keys)
        cfg['keys'] = keys
        cfg['kinds'] = rng.choice([['G', 'D'], ['G'], ['D'], ['D']]) if 'nf' in keys else rng.choice([['G'], ['D']])
        cfg['method'] = rng.choice(METHODS)
        cfg['weight'] = rng.choice(['none', 'one', 'length', 'zeros', 'wide', 'close', 'few', 'other', 'allzero'])
    return cfg


def gen_ops(rng, cfg, count):
    ops = []
    small = cfg['n'] >= 5
    for i in range(count):
        k = rng.random()
        s = rng.randint(0, 10**6)
        if i == 0 or k < 0.3:
            ops.append(['add', s, rng.choice([1, 3, 10, 30]), rng.choice([None, None, 1, 2, 3]), rng.choice([0, 0.2, 0.6])])
        elif k < 0.4:
            ops.append(['boot', s, rng.randint(1, {3: 4, 4: 2, 5: 1, 6: 1}[cfg['n']])])
        elif k < 0.62:
            ops.append(['descend', s, 1 if rng.random() < 0.75 or small else 2])
        elif k < 0.72:
            ops.append(['discard', s])
        elif k < 0.82:
            ops.append(['again', s])
        elif k < 0.92 and cfg['tracker'] == 'search':
            ops.append(['product', s, rng.randint(0, 10**6)])
        elif cfg['tracker'] == 'search':
            ops.append(['substrings', s])
        else:
            ops.append(['descend', s, 1])
    return ops


def warm(reps=True):
    """Import everything and build the shared tables once, before forking."""
    from . import sched
    sched.patch_locks()
    import peyl                                                      # noqa: F401
    from peyl import bucketing, braidsearch                           # noqa: F401
    for n in (3, 4, 5, 6):
        B.gindex(n)
        B.dindex(n)
    if reps:
        for n in (3, 4, 5):
            for r in range(0, n // 2 + 1):
                for p in (0, 2, 3):
                    B.fill(braidsearch.JonesSummand(n=n, r=r, p=p))
