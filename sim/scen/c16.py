"""C16: validation of a tracker confirms sound buckets after any history and reports any single damaged matrix entry."""
import collections
import io
import sys

import numpy as np

from .. import bridge as B, searchlib as S, trk, world
from ..world import Violation

ID = 'C16'
LEVEL = 'exploration'
RULE = ('one evaluation = one verdict of validation compared with what was damaged; non-trivial = an entry was damaged or the history had a fault, a discard or a full bucket; '
        'distinct = distinct histories by content and damage')
STATES = 'digest of tracker content and damage after a history'
REAL = ['peyl.braidsearch.Tracker', 'peyl.bucketing.Tracker', 'peyl evaluation', 'numpy', 'pandas']
STUB = ['memory (stored matrix entries are overwritten)', 'memory allocation', 'interrupt delivery', 'standard output', 'random generator seeds']
ASSUMPTIONS = ['a bucket of the bucketing tracker holds one kind of normal form']
CONFIG = dict(quick=dict(runs=1500, wall=240, repeat=8, run_wall=300), thorough=dict(runs=30000, wall=2400, repeat=60, run_wall=600))
HOW = ['plus', 'minus', 'bit', 'bit', 'high', 'zero', 'mod', 'neg', 'random']


def warm(tier):
    trk.warm()


def gen(rng, tier, i):
    cfg = trk.gen_cfg(rng)
    if cfg['tracker'] == 'bucketing' and 'nf' not in cfg['keys']:
        cfg['kinds'] = cfg['kinds'][:1]
    ops = trk.gen_ops(rng, cfg, rng.randint(1, 6))
    size = rng.random()
    if size < 0.25 and cfg['n'] <= 4:
        # long braids over the integers: entries so large that damage is small beside them
        cfg['p'] = 0
        ops.insert(rng.randrange(len(ops) + 1), ['add', rng.randint(0, 10**6), rng.randint(1, 4), rng.choice([12, 20, 30, 36]), 0])
    elif size < 0.35:
        # many buckets
        cfg.update(n=4, p=rng.choice([0, 3, 31]), r=1, cap=rng.choice([1, 2, 8, 100]))
        if cfg['tracker'] == 'bucketing' and 'nz' not in cfg['keys']:
            cfg['keys'].append('nz')
        ops = [['boot', rng.randint(0, 10**6), 3]] + [op for op in ops if op[0] in ('add', 'discard')]
    out = []
    for op in ops:
        out.append(op)
        if rng.random() < 0.5:
            out += [['damage', rng.randint(0, 10**6), rng.choice(HOW), rng.choice(['undo', 'undo', 'undo', 'keep'])] for _ in range(rng.choice([1, 2, 6]))]
        if rng.random() < 0.15:
            out.append(['slack', rng.randint(0, 10**6), rng.choice(HOW), 'undo'])
    out += [['damage', rng.randint(0, 10**6), rng.choice(HOW), 'undo'] for _ in range(rng.choice([1, 3, 10]))]
    faults = []
    if rng.random() < 0.4:
        for _ in range(rng.randint(1, 2)):
            k = rng.random()
            at = rng.randrange(len(out))
            if k < 0.4:
                faults.append([at, 'mem', rng.randint(1, 6)])
            elif k < 0.6:
                faults.append([at, 'int', rng.randint(1, 3)])
            elif k < 0.85:
                faults.append([at, 'line', int(10 ** rng.uniform(0, 3))])
            else:
                faults.append([at, 'out', rng.randint(1, 8)])
    return dict(cfg=cfg, ops=out, faults=faults)


def shrink(plan):
    cfg = plan['cfg']
    for c in (1, 2, 5):
        if c < cfg['cap']:
            yield dict(plan, cfg=dict(cfg, cap=c))
    for i, op in enumerate(plan['ops']):
        if op[0] == 'add' and op[2] > 1:
            for c in {1, op[2] // 2, op[2] - 1}:
                yield dict(plan, ops=plan['ops'][:i] + [['add', op[1], c, *op[3:]]] + plan['ops'][i + 1:])


class Sink(io.TextIOBase):
    def __init__(self):
        self.n, self.fail = 0, None

    def writable(self):
        return True

    def write(self, s):
        self.n += 1
        if self.fail is not None and self.n >= self.fail:
            self.fail = None
            raise OSError(32, 'simulated broken output')
        return len(s)


def arrays_of(t, skip):
    """Every array reachable from a tracker (its representation excluded)."""
    seen, out, todo = set(), [], [t]
    while todo:
        x = todo.pop()
        if id(x) in seen or x is skip or isinstance(x, (str, bytes, int, float, type)) or callable(x) and not hasattr(x, '__dict__'):
            continue
        seen.add(id(x))
        if isinstance(x, np.ndarray):
            if x.ndim >= 3:
                out.append(x)
        elif isinstance(x, dict):
            todo += list(x.values())
        elif isinstance(x, (list, tuple, set, frozenset)):
            todo += list(x)
        elif hasattr(x, '__dict__') and not callable(x):
            todo += list(vars(x).values())
    return out


def pick_entry(sim, rng):
    """A held matrix entry: (tag, index of braid, position) and the array view that stores it, or None."""
    tags = sim.tags()
    if not tags:
        return None
    tag = rng.choice(tags)
    braids, images = sim.t.bucket_braids_images(tag)
    i = rng.randrange(len(braids))
    pos = tuple(rng.randrange(k) for k in images[i].shape)
    if rng.random() < 0.3:
        pos = tuple(int(k) for k in np.unravel_index(int(np.argmax(np.abs(images[i]))), images[i].shape))
    return tag, i, pos


def damaged_value(rng, how, v, dtype, p):
    info = np.iinfo(dtype)
    v = int(v)
    w = dict(plus=v + 1, minus=v - 1, zero=0, mod=v + (p or 7), neg=-v, random=rng.randint(-5, 5), high=v + 2 ** (info.bits - 2))
    if how == 'bit':
        b = 1 << rng.randrange(info.bits - 1)
        new = v ^ b
    else:
        new = w[how]
    if new == v or not info.min <= new <= info.max:
        new = v + 1
    return new


def write(sim, tag, i, pos, val):
    """Overwrite one stored entry. False if the tracker hands out copies and the storage cannot be found."""
    _, images = sim.t.bucket_braids_images(tag)
    old = images[(i, *pos)]
    try:
        images[(i, *pos)] = val
    except ValueError:                                         # read-only view
        pass
    if sim.t.bucket_braids_images(tag)[1][(i, *pos)] == val:
        return True
    for arr in arrays_of(sim.t, sim.rep):
        if arr.ndim == 4 and arr.shape[0] > i and all(x < s for x, s in zip(pos, arr.shape[1:])) and arr[(i, *pos)] == old and arr.flags.writeable:
            arr[(i, *pos)] = val
            if sim.t.bucket_braids_images(tag)[1][(i, *pos)] == val:
                return True
            arr[(i, *pos)] = old
    return False


def run(plan):
    stats = collections.Counter()
    al = trk.Allocs()
    al.install()
    sim = trk.TrackSim(plan['cfg'], stats)
    sink = Sink()
    logs = []
    nontrivial = False
    broken = {}                                                # (tag, i, pos) -> true value

    def verdict(fault=None):
        old = sys.stdout
        sys.stdout = sink
        sink.n, sink.fail = 0, None
        try:
            if fault and fault[1] == 'line':
                left = [fault[2]]

                def hit(count, code, line):
                    if count == left[0]:
                        stats['fault:interrupt at an executed line'] += 1
                        raise KeyboardInterrupt('simulated')
                try:
                    with world.Steps(None, lines=True, on_line=hit):
                        return sim.t.valiate_buckets()
                except KeyboardInterrupt:
                    pass
            elif fault and fault[1] == 'mem':
                al.arm(fault[2])
                try:
                    return sim.t.valiate_buckets()
                except MemoryError as e:
                    if 'simulated' not in str(e):
                        raise
                    stats['fault:allocation of at least 4 kB fails'] += 1
                finally:
                    al.disarm()
            elif fault and fault[1] == 'out':
                sink.fail = fault[2]
                try:
                    return sim.t.valiate_buckets()
                except OSError as e:
                    if 'simulated' not in str(e):
                        raise
                    stats['fault:output write fails'] += 1
                finally:
                    sink.fail = None
            return sim.t.valiate_buckets()
        finally:
            sys.stdout = old

    def judge(where, fault=None):
        v = verdict(fault)
        stats['evaluations'] += 1
        if not broken:
            if not isinstance(v, str):
                raise Violation('false-alarm-of-validation', f'{where}: nothing is damaged, validation reports {describe(v)}')
            return
        if not (isinstance(v, tuple) and len(v) == 3):
            raise Violation('damage-not-detected', f'{where}: entries {list(broken)} are damaged (true values {list(map(int, broken.values()))}), validation says {v!r}')
        braid, actual, stored = v
        b = B.from_lib(braid)
        hits = []
        for tag, i, pos in broken:
            braids, images = sim.t.bucket_braids_images(tag)
            if B.from_lib(braids[i]) == b:
                hits.append((tag, i))
        if not hits:
            raise Violation('wrong-braid-reported', f'{where}: {B.show(b)} is not damaged')
        if not B.same_image(actual, sim.img(b)):
            raise Violation('wrong-true-matrix', f'{where}: the true matrix reported for {B.show(b)} is not its own')
        if not any(np.array_equal(stored, sim.t.bucket_braids_images(tag)[1][i]) for tag, i in hits):
            raise Violation('wrong-stored-matrix', f'{where}: the stored matrix reported for {B.show(b)} is not what is stored')

    def restore():
        for (t2, i2, p2), v2 in broken.items():
            if not write(sim, t2, i2, p2, v2):
                raise world.HarnessError('a damaged entry could not be restored')
        broken.clear()

    judge('before anything was added')
    for k, op in enumerate(plan['ops']):
        fl = [f for f in plan['faults'] if f[0] == k]
        fault = fl[0] if fl else None
        where = f'after step {k} {op[0]}'
        if op[0] == 'damage':
            rng = world.sub(op[1], 'damage')
            e = pick_entry(sim, rng)
            if e is None or e in broken:
                continue
            tag, i, pos = e
            images = sim.t.bucket_braids_images(tag)[1]
            was = images[(i, *pos)].copy()
            new = damaged_value(rng, op[2], was, images.dtype, sim.p)
            if not write(sim, tag, i, pos, new):
                stats['probe:storage not found'] += 1
                continue
            broken[e] = was
            stats['fault:stored matrix entry changed'] += 1
            nontrivial = True
            judge(where, fault)
            logs.append(('damage', e, int(was), int(new)))
            if op[3] == 'undo':
                restore()
                judge(where + ' undone')
            continue
        if op[0] != 'slack' and broken:
            restore()
            judge(f'before step {k}, undone')
        if op[0] == 'slack':
            # an entry of the storage beyond the braids held
            rng = world.sub(op[1], 'slack')
            full = [a for a in arrays_of(sim.t, sim.rep) if a.ndim == 4]
            held = [sim.t.bucket_braids_images(t)[1] for t in sim.tags()]
            for a in full:
                inside = [h for h in held if np.shares_memory(a, h)]
                if len(inside) == 1 and inside[0].shape[0] < a.shape[0] and inside[0].shape[1:] == a.shape[1:]:
                    at = (rng.randrange(inside[0].shape[0], a.shape[0]), *[rng.randrange(s) for s in a.shape[1:]])
                    was = a[at].copy()
                    a[at] = damaged_value(rng, op[2], was, a.dtype, sim.p)
                    stats['probe:unused storage changed'] += 1
                    judge(where, fault)
                    a[at] = was
                    break
            continue
        res = sim.apply(op, fault if fault and fault[1] in ('mem', 'int') else None, al)
        nontrivial |= res == 'cut short' or op[0] == 'discard'
        judge(where + f' ({res})', fault if fault and fault[1] in ('line', 'out') else None)
        logs.append((op[0], res, S.h(sim.digest())))
        stats[f'probe:{op[0]} {res}'] += 1
    restore()
    judge('at the end')
    sim.check('at the end', deep=False)
    dig = S.h(repr(logs))
    return dict(stats=stats, digest=dig, simtime=0.0, nontrivial=nontrivial, states=[dig],
                sample=dict(cfg=plan['cfg'], ops=[l[:2] for l in logs if l[0] != 'damage'], damages=sum(1 for l in logs if l[0] == 'damage')))


def describe(v):
    try:
        return B.show(B.from_lib(v[0]))
    except Exception:                                          # noqa: BLE001
        return repr(v)[:200]
