"""C02: every saved row is truthful, over long histories with reservoir replacement, skewed randomness, restarts and crashes."""
import collections
import random

from .. import bridge as B, oracle as O, searchlib as S, vfs, world
from ..world import Violation

ID = 'C02'
LEVEL = 'exploration'
RULE = ('one evaluation = one database row left by a simulated search (after completion, a kill, or a restart) checked against the independent model; '
        'non-trivial = at least one bucket of the search overflowed or was restarted; distinct = distinct (n, r, p, braid) rows')
STATES = 'digest of all rows of one run'
REAL = ['search.py', 'peyl', 'sqlite3 module', 'SQLite library', 'numpy', 'pandas']
STUB = ['file system (in-memory VFS)', 'clock', 'stdout', 'random generator (legal but skewed in some runs)', 'process death']
ASSUMPTIONS = ['modulus below 8192 (the documented limit), so that 32-bit products cannot overflow at the lengths simulated']
CONFIG = dict(quick=dict(runs=1500, wall=240, repeat=6), thorough=dict(runs=6000, wall=2400, repeat=40))


def warm(tier):
    S.warm_libs()


def gen(rng, tier, i):
    cfg = S.gen_cfg(rng) if i % 300 != 11 else S.gen_cfg(rng, n=6)
    cfg['p'] = rng.choice([2, 2, 3, 5, 7, 11, 97, 499, 997, 1009, 4093, 8191])
    cfg['save'] = rng.choice([cfg['bucket'] * 3, 100, 500])
    cfg['stop'] = False
    rm = None
    if rng.random() < 0.4:
        rm = [rng.choice([0.1, 0.3, 0.6]), rng.random()]
    return dict(cfg=cfg, rand_mode=rm, clock=rng.randint(0, 10**6), jumpy=rng.random() < 0.3,
                kill=rng.random() if rng.random() < 0.4 else None, seed=rng.randint(0, 10**6), warm_other=rng.random() < 0.3)


def shrink(plan):
    for k in ('kill', 'rand_mode'):
        if plan[k] is not None:
            yield dict(plan, **{k: None})
    for k in ('jumpy', 'warm_other'):
        if plan[k]:
            yield dict(plan, **{k: False})
    for c in S.shrink_cfg(plan['cfg']):
        yield dict(plan, cfg=c)


def run(plan):
    cfg = plan['cfg']
    stats = collections.Counter()
    if plan['warm_other']:
        import peyl
        for r in range(1, cfg['n'] // 2 + 1):
            for p in (0, 3):
                B.fill(peyl.JonesSummand(n=cfg['n'], r=r, p=p))
        stats['fault:caches filled by other representations'] += 1
    node = S.run_search(cfg, {}, record=plan['kill'] is not None, clock_seed=plan['clock'], jumpy=plan['jumpy'], rand_mode=plan['rand_mode'])
    S.expect_clean(node)
    sim = node['simtime']
    stats['fault:clock jumps'] += node['clock'].jumps
    if plan['rand_mode']:
        stats['fault:skewed random generator'] += 1
    text = node['text']
    files = node['disk'].image().after_kill()
    if plan['kill'] is not None:
        k = int(plan['kill'] * (len(node['disk'].log) + 1))
        files = node['disk'].at(k).after_kill()
        stats['fault:kill and restart'] += 1
        node2 = S.run_search(cfg, files, clock_seed=plan['clock'] + 1, rand_mode=plan['rand_mode'])
        S.expect_clean(node2)
        files = node2['disk'].image().after_kill()
        sim += node2['simtime']
    rec = S.snapshot(files, 3)
    rng = random.Random(plan['seed'])
    rows = rec['rows']
    cap = {3: 400, 4: 250, 5: 80, 6: 60}[cfg['n']]
    pick = set(rng.sample(range(len(rows)), min(cap, len(rows))))
    seen = set()
    overflow = False
    for i, row in enumerate(rows):
        O.check_row(cfg, row, image=i in pick)
        if i in pick:
            seen.add(row)
    for b in S.split_batches(rows):
        for pl, rs in O.groups(b).items():
            if len(rs) == cfg['bucket']:
                overflow = True
                stats['probe:full bucket saved'] += 1
    stats['evaluations'] += len(pick)
    stats['distinct'] += len(seen)
    stats['rows'] += len(rows)
    stats[f'probe:p={cfg["p"]}'] += 1
    return dict(stats=stats, digest=S.h(rows, S.normal_output(text), plan['kill']), simtime=sim, states=[S.h(rows)],
                nontrivial=overflow or plan['kill'] is not None, sample=dict(cfg=cfg, rows=len(rows), example=rows[-1] if rows else None))
