"""Running /repo's search script as a simulated node, and reading what it left behind."""
from __future__ import annotations

import ast
import hashlib
import random
import re
import sqlite3
import sys

from . import vfs, world
from .world import Violation

DB = 'runs.db'


def warm_libs():
    import numpy                                                     # noqa: F401
    import pandas
    import peyl                                                      # noqa: F401
    # pandas builds its display machinery lazily on the first print; do it once before forking
    str(pandas.DataFrame(columns=['a', 'b'], data=[[(1, 2), 0.5]]).sort_values('b'))
    world.search_code()


def gen_cfg(rng, big=False, n=None, steps=True):
    """A small search configuration (a tuning-knob swarm: every size is random)."""
    n = n or rng.choice([3, 3, 3, 4, 4, 4, 5])
    r = 0 if rng.random() < 0.05 else rng.randint(1, n // 2)
    p = rng.choice([2, 2, 3, 5, 7, 11, 31, 101, 8191])
    boot = {3: rng.randint(1, 4), 4: rng.randint(1, 2), 5: 1, 6: 1}[n]
    bucket = rng.choice([1, 2, 3, 5, 8, 10, 17, 30])
    if n >= 5:
        bucket = rng.choice([1, 2, 3, 5, 8])
    use = rng.choice([bucket, 2 * bucket, 4 * bucket, 50, 200, 200] + [rng.choice([0, 1])] * (rng.random() < 0.3))
    if n >= 5:
        use = min(use, 30 if n == 5 else 6)
    save = rng.choice([1, bucket, 3 * bucket, 20, 100, 500, 500] + [0] * (rng.random() < 0.3))
    step = rng.randint(1, boot) if steps and rng.random() < 0.25 else 1
    if n >= 5:
        step = 1
    lengths = {3: rng.randint(3, 9), 4: rng.randint(2, 6), 5: rng.randint(2, 3), 6: 2}[n]
    if step >= 2:
        use = min(use, 20 if n > 3 else 50)
        lengths = min(lengths, 4)
    return dict(n=n, r=r, p=p, boot=boot, bucket=bucket, use=use, save=save, step=step, seed=rng.choice([0, rng.randint(1, 10), 2**64 + 1]) if rng.random() < 0.15 else rng.randint(0, 10**6),
                stop=rng.random() < 0.2, end=boot - step + lengths)


def large_batches(rng, cfg):
    """Hundreds to a few thousand rows in a batch, and in a bucket."""
    cfg.update(n=4, r=rng.choice([1, 2]), p=rng.choice([2, 3, 5]), boot=rng.choice([2, 3, 3]), bucket=rng.choice([150, 300, 1000, 3000]), use=rng.choice([10, 30, 80]),
               save=rng.choice([500, 500, 1000, 2500]), step=1)
    cfg['end'] = cfg['boot'] + rng.randint(0, 1)


class LengthStop:
    """The user's Ctrl-C when the search announces a length past the planned end."""

    def __init__(self, out, end):
        self.out, self.end, self.hit = out, end, False
        self.buf = ''
        self.on_length = []

    def __call__(self, text):
        self.buf = (self.buf + text)[-200:]
        for m in re.finditer(r'Length (\d+)\n', self.buf):
            L = int(m.group(1))
            self.buf = ''
            if L > self.end:
                self.hit = True
                return True
            for fn in self.on_length:
                fn(L)
        return False


REAL_RANDOM = random.Random


def skewed(mode):
    """A legal but unlucky random generator: often at an extreme of its range.  mode = [bias, low share]."""
    bias, low = mode

    class SkewedRandom(REAL_RANDOM):
        def _skew(self):
            r = super().random()
            if r >= bias:
                return None
            return 0.0 if r < bias * low else 1.0

        def random(self):
            k = self._skew()
            if k is None:
                return super().random()
            return 0.0 if k == 0.0 else 1.0 - 2.0 ** -53

        def getrandbits(self, k):
            e = self._skew()
            if e is None:
                return super().getrandbits(k)
            return 0 if e == 0.0 else (1 << k) - 1
    return SkewedRandom


class PlannedEnd(KeyboardInterrupt):
    pass


class NodeOut(world.Out):
    def __init__(self, end=None):
        super().__init__()
        self.stop = LengthStop(self, end) if end is not None else None
        self.marks = []
        self.saving = False

    def write(self, s):
        n = super().write(s)
        if s.lstrip().startswith('Sav'):
            self.saving = s.startswith('Saving')
        if self.stop and self.stop(s):
            raise PlannedEnd('end of the planned run')
        return n


def run_search(cfg, files=None, *, database=DB, record=False, clock_seed=1, jumpy=False, disk_seed=0, budget=None, setup=None,
               end=None, slow=None, capture=False, rand_mode=None):
    """Run the search in this process on a fresh simulated disk. Returns a node record.
    setup(node) may install faults before the search starts."""
    disk = vfs.install(vfs.SimDisk(files or {}, seed=disk_seed))
    clock = world.Clock(clock_seed, jumpy)
    disk.clock = clock
    if record:
        disk.log = []
    out = NodeOut(end if end is not None else cfg['end'])
    err = world.Out()
    node = dict(cfg=cfg, disk=disk, clock=clock, out=out, marks=[])
    if record:
        def mark(op, name):
            pass
        # position of every output write in the log of mutating operations
        orig = out.write

        def write(s):
            node['marks'].append((len(disk.log), s))
            return orig(s)
        out.write = write
    if slow:
        srng = random.Random(slow)
        prev = disk.hook

        def hook(op, name, detail):
            if srng.random() < 0.2:
                clock.advance(srng.random() * 2.0)
            return prev(op, name, detail) if prev else None
        disk.hook = hook
    if setup:
        setup(node)
    node['trackers'] = []
    if capture:
        import peyl
        real = peyl.Tracker

        def make(*a, **kw):
            t = real(*a, **kw)
            node['trackers'].append(t)
            return t
        peyl.Tracker = make
    if rand_mode:
        random.Random = skewed(rand_mode)
    so, se = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = out, err
    world.patch_clock(clock)
    steps = world.Steps(budget) if budget else None
    try:
        if steps:
            with steps:
                exc = world.exec_search(world.argv_of(cfg, database))
        else:
            exc = world.exec_search(world.argv_of(cfg, database))
    finally:
        world.unpatch_clock()
        sys.stdout, sys.stderr = so, se
        random.Random = REAL_RANDOM
        if capture:
            peyl.Tracker = real
    if isinstance(exc, vfs_harness_errors()):
        raise exc
    node.update(exc=exc, outcome=world.outcome(exc), text=out.text(), ops=disk.ops, counts=dict(disk.counts),
                steps=steps.jumps if steps else 0, simtime=clock.elapsed())
    return node


def vfs_harness_errors():
    return (world.HarnessError,)


def expect_clean(node):
    """In a run without faults the search ends by itself or at the planned end."""
    if node['outcome'] not in ('ok', 'PlannedEnd'):
        if isinstance(node['exc'], world.Hang):
            raise Violation('hang', str(node['exc']))
        raise Violation('search-raises', world.describe_exc(node['exc']) + f' cfg={node["cfg"]}')


# ------------------------------------------------------------------------------------------------ output

R_LEN = re.compile(r'^-+ Length (\d+)$')
R_REPORT = re.compile(r'^\(n=(\d+), r=(\d+), p=(\d+)\) near-kernel element: Garside length (\d+), Garside form (\(.*\))$')
R_SAVING = re.compile(r'^Saving (\d+) braids of length (\d+) to the database\.\.\.$')
R_SEL = re.compile(r'^Selected (\d+) braids of length (\d+):$')


def parse_output(text):
    """Events in order: ('length', L) ('selected', k, L) ('saving', k, L) ('saved',) ('report', n, r, p, len, (inf, words))."""
    ev = []
    for line in text.split('\n'):
        m = R_LEN.match(line)
        if m:
            ev.append(('length', int(m.group(1))))
            continue
        m = R_REPORT.match(line)
        if m:
            n, r, p, l = (int(x) for x in m.groups()[:4])
            ev.append(('report', n, r, p, l, ast.literal_eval(m.group(5))))
            continue
        if 'near-kernel' in line:
            ev.append(('unparsed', line))
            continue
        m = R_SAVING.match(line)
        if m:
            ev.append(('saving', int(m.group(1)), int(m.group(2))))
            continue
        m = R_SEL.match(line)
        if m:
            ev.append(('selected', int(m.group(1)), int(m.group(2))))
            continue
        if re.match(r'\s*Saved\b', line):
            ev.append(('saved',))
    return ev


def announced(text):
    """Lengths whose saving has been announced as done, with the announced counts."""
    out, cur = [], None
    for e in parse_output(text):
        if e[0] == 'saving':
            cur = (e[2], e[1])
        elif e[0] == 'saved' and cur is not None:
            out.append(cur)
            cur = None
    return out


def normal_output(text):
    """Output without the timings."""
    return re.sub(r'\b\d+\.\d+ seconds', 'T seconds', text)


# ------------------------------------------------------------------------------------------------ database

def snapshot(files, seed=0, write_probe=False):
    """Open the database the way any later user would; return dict(rows, tables, mode). Raises Violation if damaged."""
    disk = vfs.install(vfs.SimDisk(files, seed=seed))
    disk.clock = world.Clock(seed)
    try:
        c = sqlite3.connect(DB)
        ok = c.execute('PRAGMA integrity_check').fetchall()
        if ok != [('ok',)]:
            raise Violation('corrupt', f'integrity_check: {ok[:3]}')
        tables = [t for (t,) in c.execute("select name from sqlite_master where type='table' order by name")]
        data = {t: c.execute(f'select * from "{t}" order by rowid').fetchall() for t in tables}
        mode = c.execute('PRAGMA journal_mode').fetchone()[0]
        if write_probe:
            c.execute('create table if not exists probe_lock(x)')
            c.commit()
        c.close()
    except sqlite3.DatabaseError as e:
        raise Violation('unreadable', f'{type(e).__name__}: {e}')
    return dict(rows=data.pop('good_braids', []), has_table='good_braids' in tables, other=data, mode=mode,
                files=disk.image().after_kill())


def split_batches(rows):
    """Consecutive rows of equal length column."""
    out = []
    for r in rows:
        if out and out[-1][0][3] == r[3]:
            out[-1].append(r)
        else:
            out.append([r])
    return out


def make_prior(kind, seed):
    """Contents of the database file before the search: None, an empty file's absence, rollback-journal or WAL mode, leftover WAL."""
    if kind == 'none':
        return {}
    rng = random.Random(seed)
    disk = vfs.install(vfs.SimDisk({}, seed=seed))
    disk.clock = world.Clock(seed)
    c = sqlite3.connect(DB)
    if kind in ('small-pages', 'leftover-wal'):
        c.execute('PRAGMA page_size=512')
    if kind in ('wal', 'leftover-wal'):
        c.execute('PRAGMA journal_mode=WAL')
        c.execute('PRAGMA wal_autocheckpoint=0')
    c.execute('create table notes(id integer primary key, body blob)')
    c.commit()
    k = 1300 if kind == 'leftover-wal' else rng.randint(1, 20)
    for lo in range(0, k, 100):
        c.executemany('insert into notes(body) values(?)', [(rng.randbytes(rng.randint(150, 260)),) for _ in range(min(100, k - lo))])
        c.commit()
    if rng.random() < 0.6 or kind == 'leftover-wal':
        c.execute('CREATE TABLE IF NOT EXISTS good_braids (n INT, r INT, p INT, length INT, projlen INT, gnf TEXT)')
        c.executemany('insert into good_braids values(?,?,?,?,?,?)',
                      [(4, 1, 3, 2, 5, '(4, 0, (1, 2))')] * rng.randint(0, 5) + [(3, 1, 2, 1, 3, '(3, 1, (2,))')])
        c.commit()
    img = disk.image().after_kill() if kind == 'leftover-wal' else None
    c.close()
    return img or disk.image().after_kill()


PRIORS = ['none', 'none', 'delete', 'wal', 'small-pages', 'leftover-wal']


def h(*xs):
    return hashlib.blake2b(repr(xs).encode(), digest_size=8).hexdigest()


def search_sizes(cfg):
    return {k: cfg[k] for k in ('n', 'r', 'p', 'boot', 'bucket', 'use', 'save', 'step', 'seed', 'stop', 'end')}


def shrink_cfg(cfg):
    for k, lo in (('end', cfg['boot'] - cfg['step'] + 1), ('bucket', 1), ('use', 0), ('save', 0), ('seed', 0)):
        v = cfg[k]
        for w in {lo, (lo + v) // 2, v - 1}:
            if lo <= w < v:
                yield dict(cfg, **{k: w})
    if cfg['stop']:
        yield dict(cfg, stop=False)
    if cfg['step'] > 1:
        yield dict(cfg, step=1)
    if cfg['n'] > 3:
        yield dict(cfg, n=3, r=min(cfg['r'], 1))
