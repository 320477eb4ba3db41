"""C04: a search is a function of its arguments and seed."""
import collections
import random
import re

from .. import bridge as B, fresh, oracle as O, searchlib as S, vfs, world
from ..world import Violation

ID = 'C04'
LEVEL = 'exploration'
RULE = ('one evaluation = one execution of a search in a perturbed environment (hash seed, clock, ambient random state, warm or cold caches, prior database, disk latency and '
        'randomness, other save limit, no database) compared with the base execution; non-trivial = a bucket overflowed, so that random draws matter; distinct = distinct (configuration, perturbation)')
STATES = 'digest of output and rows of the base execution'
REAL = ['search.py', 'peyl', 'sqlite3 module', 'SQLite library', 'numpy', 'pandas', 'fresh CPython interpreters']
STUB = ['file system (in-memory VFS)', 'clock', 'stdout']
CONFIG = dict(quick=dict(runs=400, wall=240, repeat=5, run_wall=300), thorough=dict(runs=4000, wall=2400, repeat=40, run_wall=600))
README = dict(n=4, r=1, p=2, boot=3, step=1, seed=1, bucket=10, use=100, save=500, stop=True, end=20)
README_ANSWER = (0, [(1, 3, 0, 2), (2, 0, 3, 1)] * 4)
KINDS = ['hashseed', 'clock', 'ambient', 'warm', 'cold', 'prior', 'disk', 'save', 'nodb', 'again', 'allocation']


def warm(tier):
    S.warm_libs()


def gen(rng, tier, i):
    if i == 0:
        return dict(cfg=README, readme=True, variants=[dict(kind=k, seed=rng.randint(0, 10**6)) for k in ('hashseed', 'ambient', 'clock')])
    cfg = S.gen_cfg(rng)
    if rng.random() < 0.7:
        cfg['bucket'] = min(cfg['bucket'], rng.choice([1, 2, 3, 5]))
        cfg['use'] = max(cfg['use'], 30)
    cfg['stop'] = rng.random() < 0.15
    kinds = rng.sample(KINDS, 4)
    if rng.random() < 0.3 and 'hashseed' not in kinds:
        kinds.append('hashseed')
    return dict(cfg=cfg, readme=False, variants=[dict(kind=k, seed=rng.randint(0, 10**6)) for k in kinds], _lists=['variants'])


def shrink(plan):
    if not plan['readme']:
        for c in S.shrink_cfg(plan['cfg']):
            yield dict(plan, cfg=c)


def execute(arg):
    """One execution in this process; arg = dict(cfg, kind, seed). Returns comparable observations."""
    cfg, kind, seed = arg['cfg'], arg['kind'], arg['seed']
    kw = dict(clock_seed=1, jumpy=False, disk_seed=0)
    files, prior_rows = {}, []
    database = S.DB
    if kind == 'hashseed':
        S.warm_libs()
    elif kind == 'clock':
        kw.update(clock_seed=seed, jumpy=True)
    elif kind == 'ambient':
        import numpy as np
        random.seed(seed)
        np.random.seed(seed % 2**31)
        for _ in range(seed % 97):
            random.random(), np.random.random()
    elif kind == 'warm':
        import peyl
        rng = random.Random(seed)
        for r in range(0, cfg['n'] // 2 + 1):
            for p in {0, cfg['p'], 3}:
                rep = peyl.JonesSummand(n=cfg['n'], r=r, p=p)
                B.fill(rep)
        t = peyl.Tracker(rep=peyl.JonesSummand(n=cfg['n'], r=cfg['r'], p=cfg['p']), bucket_size=2, bucket_keys=('length', 'projlen'),
                         criterion=lambda x: x['length'] >= 1, rand=rng)
        t.bootstrap_exhaustive(upto_length=1)
        for b in list(t.stats()['bucket']):
            t.nf_descendants(b, length=1)
        peyl.DGNF.identity(cfg['n'])
    elif kind == 'cold':
        world.fresh_peyl()
    elif kind == 'prior':
        files = S.make_prior('small-pages' if seed % 2 else 'wal', seed)
        prior_rows = S.snapshot(files, 1)['rows']
        files = dict(files)
    elif kind == 'disk':
        kw.update(disk_seed=seed, slow=seed)
    elif kind == 'save':
        cfg = dict(cfg, save=10 ** 9)
    elif kind == 'nodb':
        database = None
    elif kind == 'allocation':
        rng = random.Random(seed)
        arg['_junk'] = [bytearray(rng.randint(1, 5000)) for _ in range(2000)] + [object() for _ in range(rng.randint(0, 5000))]
    node = S.run_search(cfg, files, database=database, capture=False, **kw)
    S.expect_clean(node)
    rows = None
    if database:
        rec = S.snapshot(node['disk'].image().after_kill(), 1)
        rows = rec['rows']
        if rows[:len(prior_rows)] != prior_rows:
            raise Violation('prior-rows-changed', 'rows of an earlier search altered')
        rows = rows[len(prior_rows):]
    return dict(text=S.normal_output(node['text']), rows=rows, outcome=node['outcome'], simtime=node['simtime'])


def strip_saving(text):
    """Output without the part about saving."""
    return re.sub(r'Save selection:\n.*?    Saved in T seconds\.\n', '', text, flags=re.S)


def prefix_rows(rows, limit):
    """What a limit keeps of complete rows, per length: whole buckets while the cumulative count fits."""
    out = []
    for b in S.split_batches(rows):
        g = O.groups(b)
        k = O.prefix_within([len(v) for v in g.values()], limit)
        for v in list(g.values())[:k]:
            out += v
    return out


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a.split('\n'), b.split('\n'))):
        if x != y:
            return f'line {i}: {x!r} / {y!r}'
    return f'{len(a)} / {len(b)} characters'


def run(plan):
    cfg = plan['cfg']
    stats = collections.Counter()
    base = world.in_child(execute, dict(cfg=cfg, kind='base', seed=0))
    sim = base['simtime']
    if plan['readme']:
        rep = [x for xs in O.reports_by_length(base['text']).values() for x in xs]
        got = [(x[4][0], [tuple(w) for w in x[4][1]]) for x in rep]
        if base['outcome'] != 'ok' or README_ANSWER not in got:
            raise Violation('documented-example', f'the documented command reported {got[:3]}')
        stats['probe:documented example found'] += 1
    logs = []
    for v in plan['variants']:
        k = v['kind']
        if k == 'hashseed':
            o = fresh.call('sim.scen.c04', 'execute', dict(cfg=cfg, kind=k, seed=v['seed']), hashseed=v['seed'] % 4294967295)
        else:
            o = world.in_child(execute, dict(cfg=cfg, kind=k, seed=v['seed']))
        stats['evaluations'] += 1
        stats['fault:' + {'hashseed': 'other hash seed in a fresh interpreter', 'clock': 'clock jumps and stalls', 'ambient': 'ambient random state changed',
                          'warm': 'caches warm from other work', 'cold': 'cold caches', 'prior': 'existing database', 'disk': 'disk latency and randomness',
                          'save': 'other save limit', 'nodb': 'no database', 'again': 'repetition', 'allocation': 'other heap layout'}[k]] += 1
        sim += o['simtime']
        if o['outcome'] != base['outcome']:
            raise Violation('not-reproducible', f'{k}: ended {o["outcome"]}, base {base["outcome"]}')
        if k in ('save', 'nodb'):
            a, b = strip_saving(base['text']), strip_saving(o['text'])
        else:
            a, b = base['text'], o['text']
        if a != b:
            raise Violation('not-reproducible', f'{k}: output differs: {first_diff(a, b)}')
        if k == 'save':
            if prefix_rows(o['rows'], cfg['save']) != base['rows']:
                raise Violation('not-reproducible', 'saving more changed what is recorded')
        elif k != 'nodb' and o['rows'] != base['rows']:
            raise Violation('not-reproducible', f'{k}: rows differ')
        logs.append(S.h(o['text'], o['rows']))
    over = any(len(v) == cfg['bucket'] for b in S.split_batches(base['rows']) for v in O.groups(b).values())
    return dict(stats=stats, digest=S.h(base['text'], base['rows'], logs), simtime=sim, nontrivial=over, states=[S.h(base['text'], base['rows'])],
                sample=dict(cfg=cfg, variants=[v['kind'] for v in plan['variants']], rows=len(base['rows'])))
