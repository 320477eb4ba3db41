"""C06: several searches, readers and writers on one database under a seeded scheduler, with kills and stalls."""
import collections
import random
import sqlite3
import sys

from .. import oracle as O, sched, searchlib as S, vfs, world
from ..world import Violation
from . import c01

ID = 'C06'
LEVEL = 'exploration'
RULE = ('one evaluation = one complete view of the database judged (a concurrent reader\'s transaction, the final state, or the recovery of a power loss) in a run of several searches; '
        'non-trivial = the baton changed hands between two searches; distinct = distinct interleavings (digest of all hand-overs and storage operations)')
STATES = 'digest of the rows a reader saw'
REAL = ['search.py', 'peyl', 'sqlite3 module', 'SQLite library (WAL, locking, busy handling)', 'numpy', 'pandas']
STUB = ['file system, file locks and shared memory (in-memory VFS)', 'clock and sleeps', 'stdout', 'processes (threads under a baton scheduler)', 'process death', 'power loss']
ASSUMPTIONS = ['threads of one process stand for processes: they share only the simulated disk and read-only library caches',
               'a killed process loses its locks at once']
CONFIG = dict(quick=dict(runs=1100, wall=240, repeat=8), thorough=dict(runs=9000, wall=2400, repeat=50))


def warm(tier):
    S.warm_libs()


def gen(rng, tier, i):
    k = rng.choice([1, 2, 2, 2, 3, 3])
    cfgs, seen = [], set()
    while len(cfgs) < k:
        c = S.gen_cfg(rng, n=rng.choice([3, 3, 4]), steps=False)
        c['save'] = rng.choice([c['bucket'], 3 * c['bucket'], 100, 500])
        c['use'] = min(c['use'], 60)
        c['end'] = min(c['end'], c['boot'] - c['step'] + rng.randint(2, 5))
        if not cfgs and rng.random() < 0.06:
            S.large_batches(rng, c)
        key = (c['n'], c['r'], c['p'])
        if key not in seen:
            seen.add(key)
            cfgs.append(c)
    prior = rng.choice(['none', 'none', 'wal', 'wal', 'delete', 'leftover-wal'])
    searches = [dict(cfg=c, delay=rng.choice([0, 0, rng.random() * 0.01, rng.random() * 1.5])) for c in cfgs]
    budget = 3.0
    writers = []
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        hold = rng.random() * budget
        budget -= hold
        writers.append(dict(delay=rng.choice([rng.random() * 0.1, 0.9 + rng.random() * 0.3, 1.0 + rng.random() * 0.05]), hold=hold, rollback=rng.random() < 0.3))
    if rng.random() < 0.1:
        writers.append(dict(delay=1.0 + rng.random() * 0.05, hold=5.5 + rng.random() * 5, rollback=False))
    readers = [dict(delay=rng.choice([rng.random() * 1.2, 0.98 + rng.random() * 0.05]), views=rng.randint(1, 20), gap=rng.choice([0.0, 0.001, 0.004, 0.02]), hold=rng.choice([0, 0, 0.01, 0.5]), keep=rng.random() < 0.5)
               for _ in range(rng.choice([0, 1, 1, 2, 2]))]
    if rng.random() < 0.3 and any(s['delay'] == 0 for s in searches):
        # a reader that keeps its view open for long, once the searches have set up the database
        readers.append(dict(delay=0.9 + rng.random() * 0.13, views=2, gap=0.0, hold=6.0 + rng.random() * 3, keep=True))
    faults = []
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        faults.append([rng.randrange(k), int(rng.expovariate(1 / 150)) + 1, 'kill', 0])
    for _ in range(rng.choice([0, 0, 1, 2])):
        d = rng.choice([0.01, 0.1, min(0.5, budget)])
        budget -= d
        if budget > 0:
            faults.append([rng.randrange(k + len(writers) + len(readers)), int(rng.expovariate(1 / 150)) + 1, 'stall', d])
    return dict(searches=searches, writers=writers, readers=readers, prior=prior, prior_seed=rng.randint(0, 10**6), faults=faults,
                quanta=sched.gen_quanta(rng, rng.choice([0, 50, 300, 800]), rng.choice([5, 20, 80])), cost=rng.choice([2e-5, 2e-4, 5e-4]),
                losses=[dict(at=rng.random(), mode=rng.choice(['none', 'prefix', 'subset', 'subset']), seed=rng.randint(0, 10**9)) for _ in range(2)],
                _lists=['searches', 'quanta', 'faults', 'writers', 'readers', 'losses'])


def shrink(plan):
    if plan['faults']:                     # thread numbers in faults refer to the order of the other lists
        for name in ('writers', 'readers'):
            if plan[name] and not any(f[0] >= len(plan['searches']) for f in plan['faults']):
                yield dict(plan, **{name: []})
    if plan['prior'] != 'none':
        yield dict(plan, prior='none')
    if len(plan['quanta']) < 20:
        for j, s in enumerate(plan['searches']):
            for c in S.shrink_cfg(s['cfg']):
                if sum((c['n'], c['r'], c['p']) == (x['cfg']['n'], x['cfg']['r'], x['cfg']['p']) for x in plan['searches']) <= 1:
                    yield dict(plan, searches=plan['searches'][:j] + [dict(s, cfg=c)] + plan['searches'][j + 1:])


def solo(cfg):
    node = S.run_search(cfg, {}, clock_seed=1)
    S.expect_clean(node)
    return S.split_batches(S.snapshot(node['disk'].image().after_kill(), 1)['rows'])


def key(cfg):
    return (cfg['n'], cfg['r'], cfg['p'])


class Dispatch:
    """stdout for every simulated process."""

    def __init__(self, baton, outs, rest):
        self.b, self.outs, self.rest = baton, outs, rest

    def _o(self):
        t = self.b.me()
        return self.outs.get(t.tid, self.rest) if t else self.rest

    def write(self, s):
        self.b.point('print')
        return self._o().write(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    encoding = 'utf-8'


class SchedClock(world.Clock):
    def attach(self, baton):
        self.b = baton

    def tick(self):
        self.reads += 1
        self.now += 1e-6
        self.b.point('clock')

    def sleep(self, dt):
        if dt < 0:
            raise ValueError('sleep length must be non-negative')
        self.b.point('sleep')
        self.b.sleep(dt)

    def wall(self):
        return max(1.0, self.now + self.off)


def judge(rows, prior_rows, batches, what):
    """rows: a view of good_braids in rowid order. Returns {key: number of complete batches}."""
    if rows[:len(prior_rows)] != prior_rows:
        raise Violation('prior-rows-changed', f'{what}: rows recorded before are altered or missing')
    per = collections.OrderedDict((k, []) for k in batches)
    for r in rows[len(prior_rows):]:
        k = tuple(r[:3])
        if k not in per:
            raise Violation('extra-rows', f'{what}: row of an unknown search {r}')
        per[k].append(r)
    return {k: c01.check_rows(v, [], batches[k], f'{what}, search {k}') for k, v in per.items()}


def run(plan):
    stats = collections.Counter()
    cfgs = [s['cfg'] for s in plan['searches']]
    batches = {key(c): world.in_child(solo, c) for c in cfgs}
    prior = S.make_prior(plan['prior'], plan['prior_seed'])
    before = S.snapshot(prior, 1) if prior else dict(rows=[], other={})
    disk = vfs.install(vfs.SimDisk(prior, seed=7))
    disk.log = []
    clock = SchedClock(plan['prior_seed'])
    disk.clock = clock
    costs = random.Random(plan['prior_seed'])

    def handler(t, f, kind):
        if f[2] == 'kill':
            t.state = 'dead'
            disk.release(t.tid)
        elif f[2] == 'stall':
            stats['fault:stalled process'] += 1
            b.sleep(f[3])

    b = sched.Baton(plan['quanta'], plan['faults'], clock=clock, cost=lambda: costs.expovariate(1.0) * plan['cost'], handler=handler, max_events=400_000)
    clock.attach(b)
    disk.owner = lambda: (b.me().tid if b.me() else -1)
    disk.hook = lambda op, name, detail: (b.point(op), None)[1]
    disk.sleeper = b.sleep
    outs, views, wlog = {}, [], []
    for j, s in enumerate(plan['searches']):
        argv = world.argv_of(s['cfg'], S.DB)
        outs[j] = S.NodeOut(s['cfg']['end'])

        def go(argv=argv):
            return world.exec_search(argv)

        def resume(t, argv=argv):
            sys.argv = list(argv)
        b.spawn(f'search{j}', go, on_resume=resume, delay=s['delay'])

    def writer(w):
        c = sqlite3.connect(S.DB, timeout=60, isolation_level=None)
        try:
            c.execute('BEGIN IMMEDIATE')
            c.execute('create table if not exists others(x)')
            c.execute('insert into others values (randomblob(300))')
            wlog.append('begin')
            b.sleep(w['hold'])
            c.execute('ROLLBACK' if w['rollback'] else 'COMMIT')
            wlog.append('end')
        except sqlite3.OperationalError as e:
            if 'locked' not in str(e):
                raise
            wlog.append('locked')
        finally:
            c.close()

    def reader(rd):
        c = None
        for _ in range(rd['views']):
            if rd['gap']:
                b.sleep(rd['gap'])
            try:
                if c is None:
                    c = sqlite3.connect(S.DB, timeout=2, isolation_level=None)
                c.execute('BEGIN')
                rows = c.execute('select * from good_braids order by rowid').fetchall()
                if rd['hold']:
                    b.sleep(rd['hold'])
                    if c.execute('select * from good_braids order by rowid').fetchall() != rows:
                        raise Violation('reader-snapshot', 'two reads of one transaction differ')
                c.execute('COMMIT')
                views.append(rows)
            except sqlite3.OperationalError as e:
                if 'locked' not in str(e) and 'no such table' not in str(e):
                    raise Violation('reader-fails', f'{type(e).__name__}: {e}')
                stats['probe:reader turned away: ' + str(e)[:30]] += 1
                if c is not None:
                    c.close()
                    c = None
                continue
            if not rd['keep']:
                c.close()
                c = None
        if c is not None:
            c.close()

    for w in plan['writers']:
        b.spawn('writer', lambda w=w: writer(w), delay=w['delay'])
    for rd in plan['readers']:
        b.spawn('reader', lambda rd=rd: reader(rd), delay=rd['delay'])
    rest = world.Out()
    so, se = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = Dispatch(b, outs, rest), world.Out()
    world.patch_clock(clock)
    try:
        tasks = b.run()
    finally:
        world.unpatch_clock()
        sys.stdout, sys.stderr = so, se
        b.over = True
        disk.hook = disk.sleeper = None
    ns = len(plan['searches'])
    for t in tasks[ns:]:
        if t.exc is not None:
            if isinstance(t.exc, Violation):
                raise t.exc
            raise Violation('others-fail', f'{t.name}: {type(t.exc).__name__}: {t.exc}') if isinstance(t.exc, sqlite3.Error) else t.exc
    long_hold = any(w['hold'] > 3.0 for w in plan['writers'])
    strict = not long_hold and sum(w['hold'] for w in plan['writers']) + sum(f[3] for f in b.fired if f[2] == 'stall') <= 3.0
    for rows in views:
        judge(rows, before['rows'], batches, 'a reader')
        stats['evaluations'] += 1
    final = S.snapshot(disk.image().after_kill(), 3, write_probe=True)
    have = judge(final['rows'], before['rows'], batches, 'at the end')
    stats['evaluations'] += 1
    outcomes = []
    for t, c in zip(tasks, cfgs):
        k = key(c)
        text = outs[t.tid].text()
        said = {L for L, cnt in S.announced(text) if cnt}
        got = {x[0][3] for x in batches[k][:have[k]]}
        if said - got:
            raise Violation('announced-batch-lost', f'search {k} announced lengths {sorted(said - got)} which are not recorded')
        if t.state == 'dead':
            outcomes.append('killed')
            stats['fault:search killed'] += 1
            continue
        exc = t.value if t.exc is None else t.exc
        out = world.outcome(exc)
        outcomes.append(out)
        if out in ('ok', 'PlannedEnd'):
            if have[k] != len(batches[k]):
                raise Violation('completed-but-incomplete', f'search {k} ended normally with {have[k]} of {len(batches[k])} batches recorded')
        elif isinstance(exc, sqlite3.OperationalError):
            stats['probe:search failed loudly: ' + str(exc)[:40]] += 1
            if strict and 'Length' in text:
                raise Violation('short-hold-fails-save', f'search {k} failed although nobody held the database for more than three seconds: {world.describe_exc(exc)}')
            if not long_hold and before['rows'] is not None and plan['prior'] in ('wal',) and strict:
                raise Violation('short-hold-fails-start', f'search {k} could not start although nobody held the database for more than three seconds: {world.describe_exc(exc)}')
        else:
            raise Violation('search-raises', f'search {k}: {world.describe_exc(exc)}')
    if final['other'].get('notes') != before['other'].get('notes'):
        raise Violation('other-tables-changed', 'unrelated tables altered')
    committed = sum(1 for w in wlog if w == 'end')
    for ls in plan['losses']:
        k = int(ls['at'] * (len(disk.log) + 1))
        files = disk.at(k).after_power_loss(random.Random(ls['seed']), ls['mode'])
        stats['fault:power loss under all processes'] += 1
        rec = S.snapshot(files, 4) if files else dict(rows=[])
        if files or before['rows']:
            judge(rec['rows'], before['rows'], batches, f'after power loss ({ls["mode"]}) at {k}/{len(disk.log)}')
        stats['evaluations'] += 1
    stats['fault:competing writer'] += len(plan['writers'])
    stats['probe:reader views'] += len(views)
    stats['probe:hand-overs'] += b.switches
    stats['probe:partial view seen'] += sum(1 for v in views if len(before['rows']) < len(v) < len(final['rows']))
    stats['probe:lock waits'] += disk.counts.get('sleep', 0)
    stats['seam events'] = b.events
    dig = S.h(b.h.hexdigest(), disk.digest(), outcomes, len(views))
    return dict(stats=stats, digest=dig, simtime=clock.elapsed(), nontrivial=b.switches > 0, states=[S.h(v) for v in views],
                sample=dict(searches=[key(c) for c in cfgs], outcomes=outcomes, views=len(views), hand_overs=b.switches, writers=wlog, committed=committed))
