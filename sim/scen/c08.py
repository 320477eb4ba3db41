"""C08: operation histories on both trackers with allocation failures and interrupts."""
import collections

from .. import searchlib as S, trk, world
from ..world import Violation

ID = 'C08'
LEVEL = 'exploration'
RULE = ('one evaluation = one bucket judged after one operation of a tracker history (every braid, matrix, statistic, count and grouping of it); '
        'non-trivial = the history had a full bucket, a fault or a discard; distinct = distinct histories by content after every step')
STATES = 'digest of the whole tracker content after a history'
REAL = ['peyl.braidsearch.Tracker', 'peyl.bucketing.Tracker', 'peyl evaluation and braid arithmetic', 'numpy', 'pandas']
STUB = ['memory allocation (numpy constructors called from /repo)', 'interrupt delivery', 'random generator seeds']
ASSUMPTIONS = ['allocation failures reach the code at numpy constructor calls; smaller temporaries never fail']
CONFIG = dict(quick=dict(runs=2000, wall=240, repeat=8), thorough=dict(runs=16000, wall=2400, repeat=50))


def warm(tier):
    trk.warm()


def gen(rng, tier, i):
    cfg = trk.gen_cfg(rng)
    ops = trk.gen_ops(rng, cfg, rng.randint(3, 9))
    faults = []
    if rng.random() < 0.6:
        for _ in range(rng.randint(1, 3)):
            if rng.random() < 0.6:
                faults.append([rng.randrange(len(ops)), 'mem', rng.randint(1, 6) if rng.random() < 0.7 else rng.randint(1, 60)])
            else:
                faults.append([rng.randrange(len(ops)), 'int', rng.randint(1, 3)])
    return dict(cfg=cfg, ops=ops, faults=faults)


def shrink(plan):
    cfg = plan['cfg']
    for c in (1, 2, 5):
        if c < cfg['cap']:
            yield dict(plan, cfg=dict(cfg, cap=c))
    if cfg['p'] not in (0, 2):
        yield dict(plan, cfg=dict(cfg, p=2))
    for i, op in enumerate(plan['ops']):
        if op[0] == 'add' and op[2] > 1:
            for c in {1, op[2] // 2, op[2] - 1}:
                yield dict(plan, ops=plan['ops'][:i] + [['add', op[1], c, *op[3:]]] + plan['ops'][i + 1:])


def run(plan):
    stats = collections.Counter()
    al = trk.Allocs()
    al.install()
    sim = trk.TrackSim(plan['cfg'], stats)
    logs = []
    nontrivial = False
    for i, op in enumerate(plan['ops']):
        todo = [f for f in plan['faults'] if f[0] == i]
        res = sim.apply(op, todo[0] if todo else None, al)
        where = f'after step {i} {op[0]} ({res})'
        sim.check(where)
        logs.append((op[0], res, S.h(sim.digest())))
        stats[f'probe:{op[0]} {res}'] += 1
        nontrivial |= res == 'cut short' or op[0] == 'discard'
    dig = S.h(logs)
    return dict(stats=stats, digest=dig, simtime=0.0, nontrivial=nontrivial or stats['probe:full buckets judged'] > 0, states=[logs[-1][2]] if logs else [],
                sample=dict(cfg=plan['cfg'], ops=[(a, b) for a, b, _ in logs], buckets=len(sim.cells)))
