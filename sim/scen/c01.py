"""C01: kill the process or the machine at arbitrary storage operations of a search and recover."""
import collections
import random

from .. import searchlib as S, vfs, world
from ..world import Violation

ID = 'C01'
LEVEL = 'exploration'
RULE = ('one evaluation = one crash point (a kill, a torn write, or a power loss with a random surviving subset of unsynced sectors) inside a simulated search, '
        'followed by recovery; non-trivial = the crash hit after the first write and before the end; distinct by (configuration, disk state after the crash)')
STATES = 'digest of the files left by the crash'
REAL = ['search.py', 'peyl', 'CPython sqlite3 module', 'SQLite library (pager, WAL, recovery)', 'numpy', 'pandas']
STUB = ['file system (in-memory VFS)', 'clock', 'stdout', 'process death', 'power loss']
ASSUMPTIONS = ['a sync that returned is durable; 512-byte sectors are written atomically or not at all on power loss; directory operations reach the disk in order']
CONFIG = dict(quick=dict(runs=1200, wall=240, repeat=6), thorough=dict(runs=6000, wall=2400, repeat=50))


def warm(tier):
    S.warm_libs()


def gen(rng, tier, i):
    cfg = S.gen_cfg(rng, n=rng.choice([3, 3, 3, 4, 4]))
    cfg['save'] = rng.choice([1, cfg['bucket'], 3 * cfg['bucket'], 100, 500])
    if rng.random() < 0.06:
        S.large_batches(rng, cfg)
    prior = rng.choice(S.PRIORS)
    if prior == 'leftover-wal':
        cfg['save'] = max(500, cfg['save'])
    faults = [dict(at=rng.random(), where=rng.choice(['any', 'any', 'write', 'sync', 'after-print']),
                   mode=rng.choice(['kill', 'torn', 'none', 'all', 'prefix', 'prefix', 'subset', 'subset']), seed=rng.randint(0, 10**9))
              for _ in range(14)]
    return dict(cfg=cfg, prior=prior, prior_seed=rng.randint(0, 10**6), rerun=rng.random() < 0.3, faults=faults)


def shrink(plan):
    if plan['rerun']:
        yield dict(plan, rerun=False)
    if len(plan['faults']) <= 2:
        for c in S.shrink_cfg(plan['cfg']):
            yield dict(plan, cfg=c)
        if plan['prior'] != 'none':
            yield dict(plan, prior='none')


def crash_state(node, f, marks):
    """Resolve a planned crash against the recorded operation log."""
    disk = node['disk']
    log = disk.log
    T = len(log)
    if f['where'] == 'after-print' and marks:
        k = marks[min(len(marks) - 1, int(f['at'] * len(marks)))][0]
    elif f['where'] in ('write', 'sync'):
        idx = [i for i, op in enumerate(log) if op[0] == f['where']] or [0]
        k = idx[min(len(idx) - 1, int(f['at'] * len(idx)))]
    else:
        k = min(T, int(f['at'] * (T + 1)))
    rng = random.Random(f['seed'])
    torn = None
    if f['mode'] == 'torn' and k < T and log[k][0] == 'write':
        torn = rng.randint(0, len(log[k][4]))
    img = disk.at(k, torn)
    files = img.after_kill() if f['mode'] in ('kill', 'torn') else img.after_power_loss(rng, f['mode'])
    said = ''.join(s for pos, s in marks if pos <= k)
    # text printed at the same log position may come before or after the crash; a kill happens after it only if the crash is later
    if f['where'] != 'after-print':
        said_before = ''.join(s for pos, s in marks if pos < k)
        said = said_before if f['mode'] in ('kill', 'torn') else said
    return k, files, said


def check_rows(got, prior_rows, batches, what):
    np_ = len(prior_rows)
    if got[:np_] != prior_rows:
        raise Violation('prior-rows-changed', f'{what}: rows recorded before the search are altered or missing')
    new = got[np_:]
    pos = 0
    j = 0
    while pos < len(new) and j < len(batches):
        b = batches[j]
        part = new[pos:pos + len(b)]
        if part != b:
            if part == b[:len(part)]:
                raise Violation('partial-batch', f'{what}: {len(part)} of {len(b)} rows of length {b[0][3]} present')
            raise Violation('rows-altered', f'{what}: batch of length {b[0][3]} is not what the search records')
        pos += len(b)
        j += 1
    if pos < len(new):
        raise Violation('extra-rows', f'{what}: {len(new) - pos} rows beyond the recorded batches')
    return j


def node_main(plan):
    cfg = plan['cfg']
    prior = S.make_prior(plan['prior'], plan['prior_seed'])
    before = S.snapshot(prior, 1) if prior else dict(rows=[], other={}, has_table=False)
    node = S.run_search(cfg, prior, record=True, clock_seed=plan['prior_seed'])
    S.expect_clean(node)
    final_files = node['disk'].image().after_kill()
    stats = collections.Counter()
    after = S.snapshot(final_files, 2)
    if after['other'] != before['other']:
        raise Violation('other-tables-changed', 'a completed search altered unrelated tables')
    prior_rows = before['rows']
    if after['rows'][:len(prior_rows)] != prior_rows:
        raise Violation('prior-rows-changed', 'a completed search altered earlier rows')
    batches = S.split_batches(after['rows'][len(prior_rows):])
    lens = [b[0][3] for b in batches]
    if any(y <= x for x, y in zip(lens, lens[1:])):
        raise Violation('batches-out-of-order', f'lengths in the completed database: {lens}')
    by_len = {b[0][3]: b for b in batches}
    for L, k in S.announced(node['text']):
        if len(by_len.get(L, [])) != k:
            raise Violation('announced-not-recorded', f'announced {k} rows of length {L}, recorded {len(by_len.get(L, []))}')
    states, samples = set(), []
    marks = node['marks']
    for f in plan['faults']:
        k, files, said = crash_state(node, f, marks)
        what = f'{f["mode"]} at mutating op {k}/{len(node["disk"].log)}'
        stats['evaluations'] += 1
        stats['fault:' + ('kill' if f['mode'] == 'kill' else 'kill in a torn write' if f['mode'] == 'torn' else 'power loss, unsynced data: ' + f['mode'])] += 1
        if k < len(node['disk'].log):
            op = node['disk'].log[k]
            stats[f'probe:crash at {op[0]} of {op[2].rsplit(".", 1)[-1]}'] += 1
        if not files and before['rows'] == [] and not before['other']:
            stats['probe:no file left'] += 1
            rec = dict(rows=[], other={}, files={})
        else:
            try:
                rec = S.snapshot(files, f['seed'])
            except Violation as e:
                raise Violation(e.cls, f'{what}: {e.detail}')
        if rec['other'] != before['other']:
            raise Violation('other-tables-changed', f'{what}: unrelated tables altered')
        j = check_rows(rec['rows'], prior_rows, batches, what)
        if f['mode'] in ('kill', 'torn'):
            have = {b[0][3] for b in batches[:j]}
            for L, cnt in S.announced(said):
                if cnt and L not in have:
                    raise Violation('announced-batch-lost', f'{what}: length {L} was announced as saved and is gone after a kill')
        stats['probe:recovered %s' % ('nothing new' if j == 0 else 'all batches' if j == len(batches) else 'some batches')] += 1
        state = S.h(sorted((k2, S.h(v)) for k2, v in files.items()))
        states.add(state)
        f['_rec'] = (rec['files'], rec['rows'], j)
    if plan['faults']:
        samples = dict(cfg=cfg, prior=plan['prior'], fault={k: v for k, v in plan['faults'][0].items() if k != '_rec'}, batches=lens,
                       recovered_batches=plan['faults'][0]['_rec'][2])
    rerun_rows = None
    if plan['rerun'] and plan['faults']:
        f = plan['faults'][0]
        files, rows, j = f['_rec']
        node2 = S.run_search(cfg, files, clock_seed=3, record=True)
        if node2['outcome'] not in ('ok', 'PlannedEnd'):
            raise Violation('rerun-fails', f'after {f["mode"]}: {world.describe_exc(node2["exc"])}')
        again = S.snapshot(node2['disk'].image().after_kill(), 5)
        if again['rows'] != rows + [r for b in batches for r in b]:
            raise Violation('rerun-rows-wrong', f'after {f["mode"]}: the repeated search did not record every batch in full')
        rerun_rows = len(again['rows'])
        stats['probe:rerun after crash'] += 1
        # a second crash during the rerun
        f2 = dict(f, at=(f['seed'] % 1000) / 1000.0)
        k, files2, _ = crash_state(node2, f2, node2['marks'])
        rec2 = S.snapshot(files2, 6)
        check_rows(rec2['rows'], rows, batches, f'second crash ({f2["mode"]}) at op {k}')
        stats['evaluations'] += 1
        stats['fault:second crash during the rerun'] += 1
    stats['distinct'] = len(states)
    stats['storage operations'] = node['ops']
    return dict(stats=stats, digest=S.h(node['disk'].digest(), S.normal_output(node['text']), sorted(states), rerun_rows),
                simtime=node['simtime'], states=sorted(states), sample=samples)


def run(plan):
    return node_main(plan)
