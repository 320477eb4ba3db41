"""C05: what a search explores is exactly what its limits allow."""
import collections

from .. import oracle as O, ref, searchlib as S, vfs, world
from ..world import Violation

ID = 'C05'
LEVEL = 'exploration'
RULE = ('one evaluation = one (length, projlen) bucket of a simulated search compared with the set of extensions the reference model derives from the braids selected before; '
        'non-trivial = the run has an overflowing bucket or a binding limit; distinct = distinct run logs')
STATES = 'digest of everything a run held'
REAL = ['search.py', 'peyl', 'sqlite3 module', 'SQLite library', 'numpy', 'pandas']
STUB = ['file system (in-memory VFS)', 'clock', 'stdout', 'random generator (legal but skewed in some runs)']
CONFIG = dict(quick=dict(runs=1000, wall=240, repeat=6), thorough=dict(runs=8000, wall=2400, repeat=40))


def warm(tier):
    S.warm_libs()


def gen(rng, tier, i):
    cfg = S.gen_cfg(rng, n=rng.choice([3, 3, 4, 4, 4, 5]) if i % 300 != 11 else 6, steps=rng.random() < 0.6)
    cfg['stop'] = False
    k = rng.random()
    if k < 0.25:
        cfg['bucket'] = 3000                   # nothing overflows: exhaustive
        cfg['use'] = rng.choice([50, 200, 50000]) if cfg['n'] == 3 else rng.choice([20, 60]) if cfg['n'] < 6 else 20
        cfg['end'] = min(cfg['end'], cfg['boot'] + 3)
        if cfg['step'] > 1:
            cfg['use'] = min(cfg['use'], 20 if cfg['n'] > 3 else 50)
    if k > 0.9 and cfg['n'] <= 4:
        # more than a thousand (parent, extension) pairs in a bucket, so that descents are split into several batches
        cfg.update(n=4, r=rng.choice([1, 2]), boot=2, step=1, bucket=rng.choice([120, 200, 500]), use=rng.choice([300, 600]))
        cfg['end'] = cfg['boot'] + 1
    if i % 200 == 3:
        # tens of thousands of extensions of one bucket
        cfg.update(dict(n=3, r=1, p=rng.choice([2, 3]), boot=rng.choice([12, 13]), step=1), bucket=rng.choice([10**5, 6000, 20000]), use=rng.choice([10**5, 20000]))
        cfg['end'] = cfg['boot'] + 1
    if i % 200 == 103:
        cfg.update(dict(n=4, r=rng.choice([1, 2]), p=2, boot=3, step=1), bucket=rng.choice([10**5, 2000]), use=10**5)
        cfg['end'] = cfg['boot'] + 1
    return dict(cfg=cfg, rand_mode=[rng.choice([0.1, 0.3, 0.6]), rng.random()] if rng.random() < 0.4 else None,
                clock=rng.randint(0, 10**6), second=rng.random() < 0.6, db_kill=None)


def shrink(plan):
    if plan['rand_mode'] is not None:
        yield dict(plan, rand_mode=None)
    if plan['second']:
        yield dict(plan, second=False)
    for c in S.shrink_cfg(plan['cfg']):
        yield dict(plan, cfg=c)


def run(plan):
    cfg = plan['cfg']
    full = dict(cfg, save=10 ** 9)
    stats = collections.Counter()
    node = S.run_search(full, {}, clock_seed=plan['clock'], rand_mode=plan['rand_mode'])
    S.expect_clean(node)
    lens = O.check_progress(cfg, node['text'], node['outcome'])
    done = lens if node['outcome'] == 'ok' else lens[:-1]
    rows = S.snapshot(node['disk'].image().after_kill(), 1)['rows']
    by = collections.OrderedDict()
    for row in rows:
        by.setdefault(row[3], []).append(row)
    sel_said = {e[2]: e[1] for e in S.parse_output(node['text']) if e[0] == 'selected'}
    sav_said = {e[2]: e[1] for e in S.parse_output(node['text']) if e[0] == 'saving'}
    if plan['rand_mode']:
        stats['fault:skewed random generator'] += 1
    binding = False
    carried = {}                               # length -> braids selected there
    step = cfg['step']
    for L in done:
        # with larger steps the braids in between are offered too, so a length gathers what several lengths before it sent
        sources = [O.all_groups(cfg, L)] if L <= cfg['boot'] else []
        sources += [O.extension_groups(cfg, carried[M], L - M) for M in range(L - step, L) if M in carried]
        offered = {}
        for src in sources:
            for pl, xs in src.items():
                offered.setdefault(pl, set()).update(xs)
        stats['probe:step size above one'] += step > 1
        g = O.groups(by.get(L, []))
        pls = list(g)
        if pls != sorted(pls):
            raise Violation('not-best-first', f'length {L} saved projlens in order {pls}')
        held = {}
        for pl, rs in g.items():
            held[pl] = [O.factors_of(cfg['n'], O.parse_gnf(x[5])[2]) for x in rs]
            if any(O.parse_gnf(x[5])[1] != 0 for x in rs):
                raise Violation('unexplained-braid', f'length {L}: nonzero power')
        if set(held) != set(offered):
            miss = set(offered) - set(held)
            raise Violation('bucket-missing' if miss else 'unexplained-braid', f'length {L}: projlens {sorted(held)} held, {sorted(offered)} offered')
        for pl in sorted(held):
            O.check_bucket(held[pl], offered[pl], cfg['bucket'], f'length {L} projlen {pl}', repeated=step > 1)
            stats['evaluations'] += 1
            if len(offered[pl]) > cfg['bucket']:
                stats['probe:bucket overflowed'] += 1
                binding = True
            if len(offered[pl]) > 1000:
                stats['probe:more than 1000 offered'] += 1
        order = sorted(held)
        k = O.prefix_within([len(held[x]) for x in order], cfg['use'])
        if k < len(order):
            binding = True
            stats['probe:use limit binds'] += 1
        chosen = order[:k]
        tot = sum(len(held[x]) for x in chosen)
        if sel_said.get(L) != tot:
            raise Violation('selection', f'length {L}: announced {sel_said.get(L)} selected, the limit {cfg["use"]} allows {tot}')
        carried[L] = [fs for x in chosen for fs in held[x]]
    extra = None
    if plan['second']:
        node2 = S.run_search(cfg, {}, clock_seed=plan['clock'] + 1, rand_mode=plan['rand_mode'])
        S.expect_clean(node2)
        rows2 = S.snapshot(node2['disk'].image().after_kill(), 1)['rows']
        by2 = {}
        for row in rows2:
            by2.setdefault(row[3], []).append(row)
        for L in done:
            g = O.groups(by.get(L, []))
            order = sorted(g)
            k = O.prefix_within([len(g[x]) for x in order], cfg['save'])
            want = [r for x in order[:k] for r in g[x]]
            if by2.get(L, []) != want:
                raise Violation('save-selection', f'length {L}: {len(by2.get(L, []))} rows saved with limit {cfg["save"]}, {len(want)} expected')
            if k < len(order):
                stats['probe:save limit binds'] += 1
        extra = len(rows2)
    return dict(stats=stats, digest=S.h(rows, S.normal_output(node['text']), extra), simtime=node['simtime'], nontrivial=binding,
                states=[S.h(rows)], sample=dict(cfg=cfg, lengths=done, rows=len(rows)))
