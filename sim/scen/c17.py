"""C17: searches progress and end, for every accepted configuration, on any clock and slow storage."""
import collections

from .. import oracle as O, searchlib as S, vfs, world
from ..world import Violation

ID = 'C17'
LEVEL = 'exploration'
RULE = ('one evaluation = one simulated search under a step budget; non-trivial = it processed at least two lengths; distinct = distinct run logs')
STATES = 'digest of the normalised output'
REAL = ['search.py', 'peyl', 'sqlite3 module', 'SQLite library', 'numpy', 'pandas']
STUB = ['file system (in-memory VFS, random delays)', 'clock (jumps, stalls)', 'stdout', 'random generator (legal but skewed in some runs)']
CONFIG = dict(quick=dict(runs=1100, wall=240, repeat=5, run_wall=300), thorough=dict(runs=8000, wall=2400, repeat=40, run_wall=600))
BUDGET = 60_000_000


def warm(tier):
    S.warm_libs()


def gen(rng, tier, i):
    if i == 0 or (tier == 'thorough' and i % 400 == 0):
        cfg = dict(n=6, r=rng.randint(1, 3), p=rng.choice([2, 3, 5]), boot=1, bucket=rng.choice([1, 3]), use=rng.choice([3, 6]), save=10, step=1,
                   seed=rng.randint(0, 99), stop=False, end=2)
    else:
        cfg = S.gen_cfg(rng)
        k = rng.random()
        if k < 0.15:
            cfg['r'] = 0
        elif k < 0.3:
            cfg['use'] = 0
        elif k < 0.4:
            cfg['use'] = max(0, cfg['bucket'] - 1)      # the best bucket may not fit: nothing selected
        if rng.random() < 0.15 and cfg['n'] == 3:
            cfg['end'] += 25                                # long searches
        if rng.random() < 0.12:
            cfg['boot'] = {3: 6, 4: 3, 5: 1}[cfg['n']]
            cfg['step'] = rng.randint(1, cfg['boot'])
            cfg['use'] = min(cfg['use'], 10)
            cfg['end'] = cfg['boot'] + 2
        if cfg['use'] < cfg['bucket'] and rng.random() < 0.5 and cfg['n'] < 5:
            cfg['end'] = cfg['boot'] + 40                   # the search runs dry and must still walk on
            if rng.random() < 0.15:
                cfg['end'] = 600                            # to its own end
        cfg['stop'] = rng.random() < 0.4
    return dict(cfg=cfg, rand_mode=[rng.choice([0.2, 0.6]), rng.random()] if rng.random() < 0.3 else None, clock=rng.randint(0, 10**6),
                jumpy=rng.random() < 0.5, slow=rng.randint(1, 10**6) if rng.random() < 0.3 else None, database=rng.random() < 0.6,
                cold=(cfg['n'] < 6 and rng.random() < 0.3))


def shrink(plan):
    for k in ('rand_mode', 'slow'):
        if plan[k] is not None:
            yield dict(plan, **{k: None})
    for k in ('jumpy', 'database', 'cold'):
        if plan[k]:
            yield dict(plan, **{k: False})
    for c in S.shrink_cfg(plan['cfg']):
        yield dict(plan, cfg=c)


def run(plan):
    cfg = plan['cfg']
    if plan['cold']:
        world.fresh_peyl()
    if cfg['n'] == 6:
        import peyl
        peyl.GNF.identity(6)                 # the table of B_6 takes seconds to build; not part of the step budget
    stats = collections.Counter(evaluations=1)
    node = S.run_search(cfg, {}, clock_seed=plan['clock'], jumpy=plan['jumpy'], rand_mode=plan['rand_mode'], slow=plan['slow'],
                        database=S.DB if plan['database'] else None, budget=BUDGET)
    S.expect_clean(node)
    lens = O.check_progress(cfg, node['text'], node['outcome'])
    rep = O.reports_by_length(node['text'])
    if node['outcome'] == 'ok':
        if not (cfg['stop'] and lens and rep.get(lens[-1])) and (not lens or lens[-1] < 499):
            raise Violation('stopped-early', f'ended by itself after lengths {lens[-3:]}')
        stats['probe:ended by the stop option'] += 1
    elif cfg['stop'] and any(rep.get(L) for L in lens):
        raise Violation('stop-ignored', f'went on after a report, lengths {lens}')
    if plan['database']:
        done = lens if node['outcome'] == 'ok' else lens[:-1]
        ann = [L for L, _ in S.announced(node['text'])]
        if ann != done:
            raise Violation('length-not-saved', f'lengths {done} processed, {ann} saved')
    sel = [e[1] for e in S.parse_output(node['text']) if e[0] == 'selected']
    if sel and sel[-1] == 0:
        stats['probe:nothing selected'] += 1
    stats['lengths'] += len(lens)
    stats['fault:clock jumps'] += node['clock'].jumps
    stats['fault:clock stalls'] += node['clock'].stalls
    stats['fault:slow storage runs'] += plan['slow'] is not None
    stats['fault:cold caches'] += plan['cold']
    stats[f'probe:n={cfg["n"]} r={cfg["r"]}'] += 1
    stats['probe:step size above one'] += cfg['step'] > 1
    stats['steps'] += node['steps']
    return dict(stats=stats, digest=S.h(S.normal_output(node['text']), node['steps'], node['ops']), simtime=node['simtime'], nontrivial=len(lens) >= 2,
                states=[S.h(S.normal_output(node['text']))], sample=dict(cfg=cfg, lengths=lens[:3] + lens[-1:], steps=node['steps']))
