"""C03: near-kernel reports."""
import collections

from .. import oracle as O, ref, searchlib as S, world
from ..world import Violation

ID = 'C03'
LEVEL = 'exploration'
RULE = ('one evaluation = one length processed by a simulated search, its reports compared with the reference projlen of everything held then; '
        'non-trivial = the run contained at least one report; distinct = distinct run logs')
STATES = 'digest of the reports of a run'
REAL = ['search.py', 'peyl', 'sqlite3 module', 'SQLite library', 'numpy', 'pandas']
STUB = ['file system (in-memory VFS)', 'clock', 'stdout', 'random generator (legal but skewed in some runs)']
CONFIG = dict(quick=dict(runs=1500, wall=240, repeat=6), thorough=dict(runs=4000, wall=2400, repeat=40))
README = dict(n=4, r=1, p=2, boot=3, step=1, seed=1, bucket=10, use=100, save=500, stop=True, end=12)


def warm(tier):
    S.warm_libs()


def gen(rng, tier, i):
    if i % 12 == 0:
        cfg = dict(README, seed=1 if i == 0 else rng.randint(0, 10**6), bucket=rng.choice([10, 10, 12, 15]), stop=rng.random() < 0.5)
        cfg['end'] = 12 if cfg['stop'] else 10
    else:
        cfg = S.gen_cfg(rng, n=rng.choice([3, 4, 4, 4, 5]) if i % 300 != 11 else 6)
        k = rng.random()
        if k < 0.2:
            cfg['r'] = 0                     # every braid is near-kernel
        elif k < 0.7 and cfg['n'] == 4:
            cfg['r'] = 2                     # two-dimensional, factors through B_3: many near-kernel braids
            cfg['p'] = rng.choice([2, 2, 3, 5])
            cfg['boot'] = max(cfg['boot'], 2)
            cfg['step'] = 1
            cfg['end'] = cfg['boot'] + rng.randint(1, 4)
        elif k < 0.7 and cfg['n'] == 3:
            cfg['p'] = 2
        if rng.random() < 0.06:                                # a report of hundreds of braids
            cfg.update(n=4, r=rng.choice([0, 0, 2]), p=2, boot=rng.choice([2, 3]), bucket=rng.choice([150, 300, 1000, 3000]), use=rng.choice([10, 30]), step=1)
            cfg['end'] = cfg['boot'] + rng.randint(0, 1)
        cfg['stop'] = rng.random() < 0.4
        cfg['save'] = 10 ** 9
    return dict(cfg=cfg, rand_mode=[rng.choice([0.2, 0.5]), rng.random()] if rng.random() < 0.3 else None,
                clock=rng.randint(0, 10**6), jumpy=rng.random() < 0.3, database=rng.random() < 0.7)


def shrink(plan):
    if plan['rand_mode'] is not None:
        yield dict(plan, rand_mode=None)
    if plan['jumpy']:
        yield dict(plan, jumpy=False)
    for c in S.shrink_cfg(plan['cfg']):
        yield dict(plan, cfg=c)


def run(plan):
    cfg = plan['cfg']
    n, r, p = cfg['n'], cfg['r'], cfg['p']
    held = {}
    holder = {}

    def setup(node):
        def on_length(L):
            if not node['trackers']:
                return
            t = node['trackers'][0]
            held[L] = [(tuple(b), [(br.power, br.factors) for br in t.bucket_braids_images(b)[0]]) for b in t.stats()['bucket']]
        node['out'].stop.on_length.append(on_length)
        holder['node'] = node

    node = S.run_search(cfg, {}, clock_seed=plan['clock'], jumpy=plan['jumpy'], rand_mode=plan['rand_mode'], capture=True, setup=setup,
                        database=S.DB if plan['database'] else None)
    S.expect_clean(node)
    stats = collections.Counter()
    stats['fault:clock jumps'] += node['clock'].jumps
    if plan['rand_mode']:
        stats['fault:skewed random generator'] += 1
    rep = O.reports_by_length(node['text'])
    lens = O.check_progress(cfg, node['text'], node['outcome'])
    nrep = 0
    if None in rep:
        raise Violation('report-before-search', str(rep[None][0]))
    for L, rs in rep.items():
        for (rn, rr, rp, gl, (inf, words)) in rs:
            nrep += 1
            if (rn, rr, rp) != (n, r, p):
                raise Violation('report-wrong-rep', f'{(rn, rr, rp)}')
            fs = tuple(tuple(w) for w in words)
            if not ref.is_garside_nf(n, fs):
                raise Violation('report-not-normal-form', f'{words}')
            if gl != len(fs):
                raise Violation('report-length', f'{gl} for {words}')
            t = O.true_projlen(n, r, p, fs, inf)
            if t != 1:
                raise Violation('report-false', f'projlen {t}: {inf}, {words}')
            if L is not None and gl < L and L > lens[0]:
                raise Violation('report-stale', f'at length {L}: a braid of length {gl}, processed before: {words}')
    done = lens if node['outcome'] == 'ok' else lens[:-1]
    first_report = None
    budget = 4000
    for L in done:
        stats['evaluations'] += 1
        got = collections.Counter((x[4][0], tuple(tuple(w) for w in x[4][1])) for x in rep.get(L, []))
        if rep.get(L) and first_report is None:
            first_report = L
        if L in held:
            want = collections.Counter()
            for (bucket, braids) in held[L]:
                claimed = bucket[1]
                for power, idx in braids:
                    fs = O.factors_of(n, idx)
                    if claimed > 1:
                        budget -= 1
                        if budget < 0:
                            continue
                    if O.true_projlen(n, r, p, fs, power) == 1:
                        want[(power, fs)] += 1
            if want != got:
                miss, extra = want - got, got - want
                raise Violation('report-missing' if miss else 'report-extra',
                                f'length {L}: missing {list(miss)[:2]} extra {list(extra)[:2]}')
            stats['probe:lengths compared with everything held'] += 1
    # black-box completeness at the first length processed when nothing overflowed
    if done and cfg['bucket'] >= 10 ** 6:
        pass
    # stop semantics
    if cfg['stop'] and first_report is not None:
        if node['outcome'] != 'ok' or lens[-1] != first_report:
            raise Violation('stop-ignored', f'reported at {first_report}, went on to {lens[-1]}')
        stats['probe:stopped at a report'] += 1
        if plan['database']:
            files = node['disk'].image().after_kill()
            rows = S.snapshot(files, 1)['rows']
            ann = dict(S.announced(node['text']))
            if first_report not in ann:
                raise Violation('stop-before-saving', f'length {first_report} was not saved')
            if sum(1 for x in rows if x[3] == first_report) != ann[first_report]:
                raise Violation('stop-before-saving', f'rows of length {first_report} missing')
    elif node['outcome'] == 'ok' and lens and lens[-1] < 499:
        raise Violation('stopped-early', f'ended by itself after length {lens[-1]} with no reason')
    return dict(stats=stats + collections.Counter({'reports': nrep}), digest=S.h(S.normal_output(node['text'])), simtime=node['simtime'], nontrivial=nrep > 0,
                states=[S.h(sorted((k, str(v)) for k, v in rep.items()))], sample=dict(cfg=cfg, reports=nrep, first_report=first_report))
