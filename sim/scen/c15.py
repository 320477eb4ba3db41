"""C15: braids kept in a simulated database through the SQLite adapters, over crashes, power loss, faults, other interpreters and rotten bytes."""
import base64
import collections
import functools
import random
import re
import sqlite3

from .. import bridge as B, fresh, ref, searchlib as S, vfs, world
from ..world import Violation

ID = 'C15'
LEVEL = 'exploration'
RULE = ('one evaluation = one complete reading of the table through the adapters judged against the model, or one damaged value read; '
        'non-trivial = the run had a fault, a crash, a rollback or a damaged byte; distinct = distinct sequences of storage operations and readings')
STATES = 'digest of the rows a reading returned'
REAL = ['adapt_braid, convert_braid, register_sqlite3_adapters', 'peyl braids and their normal-form check', 'CPython sqlite3 module', 'SQLite library']
STUB = ['file system, locks, shared memory (in-memory VFS)', 'clock', 'process death and power loss', 'rotten bytes', 'interrupt delivery', 'PYTHONHASHSEED of reading and writing interpreters']
ASSUMPTIONS = ['a sync that returned is durable; in rollback-journal mode the last transaction may be undone by a power loss (SQLite synchronous=FULL)',
               'damage that turns the strand count into a digit above 5 is left out: tables of that size take minutes']
CONFIG = dict(quick=dict(runs=3600, wall=240, repeat=8, run_wall=300), thorough=dict(runs=14000, wall=2400, repeat=60, run_wall=600))
OPS = ['put', 'put', 'put', 'put', 'legacy', 'update', 'delete', 'begin', 'begin', 'commit', 'commit', 'rollback', 'save', 'rollto', 'view', 'read', 'read', 'read', 'close', 'reopen']


def warm(tier):
    B.lib()
    for n in range(2, 6):
        B.gindex(n), B.dindex(n), gtext(n), dtext(n)
        B.rand_braid(random.Random(1), 'G', n, 3), B.rand_braid(random.Random(1), 'D', n, 3)


# ---------------------------------------------------------------- what the stored text means

@functools.lru_cache(maxsize=None)
def gtext(n):
    return {w: i for i, w in enumerate(ref.lex_perms(n))}


@functools.lru_cache(maxsize=None)
def dtext(n):
    """Noncrossing partitions in enumeration order: lexicographic order of the partner sequence of the 2n dots."""
    def arcs(x):
        inv = [0] * (2 * n)
        for comp in ref.blocks_of(x):
            comp = sorted(comp)
            for a, b in zip(comp, comp[1:] + comp[:1]):
                inv[2 * a + 1], inv[2 * b] = 2 * b, 2 * a + 1
        return inv
    full = [(arcs(x), tuple(x)) for x in ref.all_noncrossing(n)]
    return {x: i for i, (_, x) in enumerate(sorted(full))}


def fields(b):
    return b[2], tuple((gtext if b[0] == 'G' else dtext)(b[1])[tuple(f)] for f in b[3])


def text(b):
    """The documented stored form, as an earlier version wrote it."""
    power, fs = fields(b)
    return f'{"GNF" if b[0] == "G" else "DGNF"}({b[1]}, {power}, {fs})'


TEXT = re.compile(rb'^\s*(D?GNF)\s*\(\s*(\d+)\s*,\s*(-?\d+)\s*,\s*[(\[]([\d,\s]*)[)\]]\s*\)\s*$')


def check_text(raw, b, where):
    m = TEXT.match(raw)
    if not m:
        raise Violation('stored-text-unreadable', f'{where}: {B.show(b)} is stored as {raw!r}')
    got = (m[1] == b'DGNF', int(m[2]), int(m[3]), tuple(int(x) for x in m[4].split(b',') if x.strip()))
    power, fs = fields(b)
    if got != (b[0] == 'D', b[1], power, fs):
        raise Violation('stored-text-changed-meaning', f'{where}: {B.show(b)} is stored as {raw!r}, which names {text(b)} by the documented order')


def braid(seed):
    """A braid to store: (library value, reference)."""
    rng = world.sub(seed, 'braid')
    kind, n = rng.choice('GGD'), rng.choice([2, 3, 3, 4, 4, 5])
    a = B.rand_braid(rng, kind, n, rng.choice([0, 1, 1, 2, 3, 5, 9]), rng.choice([None, None, None, 0, rng.choice([-1, 1]) * 10 ** rng.randint(1, 25)]))
    how = rng.choice(['plain', 'plain', 'plain', 'mul', 'inv', 'dual', 'sample', 'table'])
    x = B.to_lib(a)
    if how == 'plain':
        return x, a
    from peyl.braid import DGNF, GNF
    if how == 'mul':
        x = x * B.to_lib(B.rand_braid(rng, kind, n, 2))
    elif how == 'inv':
        x = x.inv()
    elif how == 'dual' and abs(a[2]) < 10 and kind == 'D':
        x = x.to_GNF()
    elif how == 'sample':
        x = type(x).sample(n, rng.choice([0, 1, 3]) if n > 2 else 0, rand=random.Random(seed))
    elif how == 'table' and n < 5:
        from peyl import JonesSummand, Tracker
        t = Tracker(rep=JonesSummand(n=n, r=1, p=7), bucket_size=3, bucket_keys=('length', 'projlen'), criterion=lambda s: s['length'] >= 1, rand=random.Random(seed))
        t.bootstrap_exhaustive(upto_length=1)
        tags = list(t.stats()['bucket'])
        if tags:
            x = t.bucket_braids_images(tags[seed % len(tags)])[0][0]
    return x, B.from_lib(x)


# ---------------------------------------------------------------- plan

def gen(rng, tier, i):
    k = rng.choice([1, 1, 2, 3])
    ops = []
    for _ in range(rng.randint(3, 30)):
        ops.append([rng.choice(OPS), rng.randrange(k), rng.randint(0, 10**6), rng.choice([1, 1, 2, 5, 20])])
    if rng.random() < 0.8:                                            # make transactions come to an end
        out = []
        for op in ops:
            out.append(op)
            if op[0] in ('begin', 'view') and rng.random() < 0.7:
                for _ in range(rng.randint(0, 3)):
                    out.append([rng.choice(['put', 'update', 'delete', 'read', 'save', 'rollto']), op[1], rng.randint(0, 10**6), rng.choice([1, 3])])
                out.append([rng.choice(['commit', 'commit', 'rollback', 'close']), op[1], 0, 1])
        ops = out
    faults = []
    for _ in range(rng.choice([0, 0, 1, 1, 3])):
        at = rng.randrange(len(ops))
        if rng.random() < 0.6:
            faults.append([at, 'io', rng.choice(['any', 'any', 'write', 'sync', 'read', 'lock']), rng.choice([1, 1, 2, 3, 8]), rng.choice([1, 1, 10**6])])
        else:
            faults.append([at, 'line', rng.randint(1, 60)])
    return dict(mode=rng.choice(['delete', 'wal', 'wal', 'small', 'persist']), conns=k, ops=ops, faults=faults, seed=rng.randint(0, 10**6),
                prior=rng.choice(['none', 'none', 'text', 'fresh' if rng.random() < 0.25 else 'none']), elsewhere=rng.random() < 0.08,
                crashes=[dict(at=rng.random(), where=rng.choice(['any', 'any', 'write', 'sync', 'commit']), seed=rng.randint(0, 10**9),
                              mode=rng.choice(['kill', 'kill', 'torn', 'none', 'all', 'prefix', 'subset', 'subset'])) for _ in range(rng.choice([2, 4, 8]))],
                rot=[[rng.randint(0, 10**6), rng.random(), rng.choice(['bit', 'bit', 'digit', 'digit', 'char', 'byte'])] for _ in range(rng.choice([10, 30, 60]))],
                _lists=['ops', 'faults', 'crashes', 'rot'])


def shrink(plan):
    for k, v in (('prior', 'none'), ('mode', 'delete'), ('elsewhere', False)):
        if plan[k] != v:
            yield dict(plan, **{k: v})
    for i, op in enumerate(plan['ops']):
        if op[3] > 1:
            yield dict(plan, ops=plan['ops'][:i] + [[*op[:3], 1]] + plan['ops'][i + 1:])


# ---------------------------------------------------------------- other interpreters

def pack(files):
    return {k: base64.b64encode(v).decode() for k, v in files.items()}


def unpack(files):
    return {k: base64.b64decode(v) for k, v in files.items()}


def connect(detect=sqlite3.PARSE_DECLTYPES | sqlite3.PARSE_COLNAMES):
    return Db(sqlite3.connect(S.DB, timeout=0, isolation_level=None, detect_types=detect))


LATE = []                    # exceptions of adapters and converters, to be raised once the SQLite library has returned


def late(fn):
    """The simulated disk is Python code called back from C, which must not run while an exception is pending; so an exception in an
    adapter or converter is carried past the library and raised by the caller (execute and fetch)."""
    def wrapped(x):
        try:
            return fn(x)
        except BaseException as e:                                     # noqa: BLE001
            LATE.append(e)
            return None
    wrapped.late = True
    return wrapped


def register():
    from peyl.braid import register_sqlite3_adapters
    register_sqlite3_adapters()
    from peyl.braid import DGNF, GNF
    for k, fn in list(sqlite3.converters.items()):
        if k == 'BRAID':
            sqlite3.converters[k] = late(fn)
    for k, fn in list(sqlite3.adapters.items()):
        if k[0] in (GNF, DGNF) and not hasattr(fn, 'late'):
            sqlite3.adapters[k] = late(fn)
    LATE.clear()


def raise_late():
    if LATE:
        e = LATE[0]
        LATE.clear()
        raise e


class Db:
    """A connection whose executions raise what adapters and converters raised."""

    def __init__(self, con):
        self.con = con

    def execute(self, *a):
        cur = self.con.execute(*a)
        raise_late()
        rows = None
        if cur.description:
            rows = cur.fetchall()
            raise_late()
        return Rows(rows or [])

    def executemany(self, *a):
        self.con.executemany(*a)
        raise_late()

    @property
    def in_transaction(self):
        return self.con.in_transaction

    def close(self):
        self.con.close()
        LATE.clear()


class Rows(list):
    def fetchall(self):
        return list(self)

    def fetchone(self):
        return self[0] if self else None


def reader(arg):
    """In another process: everything in the table, read through the adapters."""
    disk = vfs.install(vfs.SimDisk(unpack(arg['files']), seed=3))
    disk.clock = world.Clock(3)
    register()
    c = connect()
    rows = c.execute('select id, x from t order by id').fetchall()
    out = [(i, None if x is None else B.from_lib(x)) for i, x in rows]
    c.close()
    return out


def writer(arg):
    """In another process: store braids, hand over the disk."""
    disk = vfs.install(vfs.SimDisk({}, seed=4))
    disk.clock = world.Clock(4)
    register()
    c = connect()
    c.execute('create table t(id integer primary key, x BRAID)')
    out = []
    for j, s in enumerate(arg['seeds']):
        x, b = braid(s)
        c.execute('insert into t values(?, ?)', (j + 1, x))
        out.append((j + 1, b))
    c.close()
    return pack(disk.image().after_kill()), out


# ---------------------------------------------------------------- run

class Conn:
    def __init__(self):
        self.c = None
        self.txn = None              # None | 'write' | 'view'
        self.stack = []              # states at savepoints
        self.state = None            # rows as this transaction sees them


CODES = dict(read=[vfs.IOERR_READ], write=[vfs.IOERR_WRITE, vfs.FULL], sync=[vfs.IOERR_FSYNC], truncate=[vfs.IOERR_TRUNCATE], open=[vfs.CANTOPEN],
             lock=[vfs.IOERR_LOCK, vfs.BUSY], delete=[vfs.IOERR_DELETE])


def run(plan):
    stats = collections.Counter()
    register()
    start, files = {}, {}
    logs = []
    nontrivial = False
    if plan['prior'] == 'fresh':
        packed, rows = fresh.call('sim.scen.c15', 'writer', dict(seeds=[plan['seed'] + j for j in range(12)]), hashseed=plan['seed'])
        files, start = unpack(packed), dict((i, (b[0], b[1], b[2], tuple(map(tuple, b[3])))) for i, b in rows)
        stats['probe:written by another interpreter'] += 1
    disk = vfs.install(vfs.SimDisk(files, seed=plan['seed']))
    clock = disk.clock = world.Clock(plan['seed'])
    disk.log = []
    c = connect()
    if plan['mode'] == 'small':
        c.execute('pragma page_size=512')
    if plan['mode'] in ('wal', 'persist'):
        c.execute(f'pragma journal_mode={plan["mode"]}')
    c.execute('create table if not exists t(id integer primary key, x BRAID)')
    if plan['prior'] == 'text':
        rng = world.sub(plan['seed'], 'prior')
        for j in range(8):
            b = B.rand_braid(rng, rng.choice('GD'), rng.choice([3, 4, 5]), rng.randint(0, 5))
            start[j + 1] = b
            c.execute('insert into t values(?, ?)', (j + 1, text(b)))
    c.close()
    disk.log.clear()
    disk.initial = disk.image().after_kill()
    byid = {}
    for f in disk.files.values():
        f.durable, f.pending = bytes(f.cur), []
        byid[f.fid] = f
    disk.dirlog, disk.durable_names = [], dict(disk.files)
    fids = {name: f.fid for name, f in disk.files.items()}

    model = dict(start)                                               # the committed rows
    marks = [(0, 0, dict(model))]                                     # (log position at the start and the end of the commit, state)
    conns = [Conn() for _ in range(plan['conns'])]
    nid = [max(model, default=0)]

    def new_id():
        nid[0] += 1
        return nid[0]

    def open_(k):
        if conns[k].c is None:
            conns[k].c = connect()
        return conns[k].c

    def readback(c, how):
        if how == 0:
            rows = c.execute('select id, x from t order by id').fetchall()
        elif how == 1:
            rows = c.execute('select id, x as "x [BRAID]" from (select id, cast(x as text) as x from t) order by id').fetchall()
        else:
            rows = []
            for row in c.execute('select x, id from t order by id'):
                rows.append((row[1], row[0]))
        return rows

    def judge(rows, want, where):
        stats['evaluations'] += 1
        got = [(i, B.from_lib(x) if x is not None else None) for i, x in rows]
        exp = sorted(want.items())
        if [i for i, _ in got] != [i for i, _ in exp]:
            raise Violation('rows-lost-or-extra', f'{where}: rows {[i for i, _ in got]}, should be {[i for i, _ in exp]}')
        for (i, g), (_, e) in zip(got, exp):
            if g != e:
                raise Violation('read-back-differs', f'{where}: row {i} held {B.show(e)} and reads back {g and B.show(g)}')
        for (_, x), (_, e) in zip(rows, exp):
            if x != B.to_lib(e) or hash(x) != hash(B.to_lib(e)):
                raise Violation('read-back-unequal', f'{where}: {x!r} does not compare equal to what was stored')

    def judge_text(c, want, where):
        raw = dict(c.execute('select id, cast(x as blob) from t').fetchall())
        for i, b in want.items():
            check_text(raw[i], b, where)

    def all_closed():
        for s in conns:
            if s.c is not None:
                try:
                    s.c.close()
                except sqlite3.Error:
                    pass
            s.c, s.txn, s.stack, s.state = None, None, [], None

    def commit(c, state, sql='commit'):
        """Commit; the model follows."""
        at = len(disk.log)
        begun[0] = at
        c.execute(sql)
        if len(disk.log) > at or state != marks[-1][2]:
            marks.append((at, len(disk.log), dict(state)))
        model.clear()
        model.update(state)

    begun, doubtful = [0], []
    pend = [None]                                                      # the state a commit in progress would give

    def step(op, where):
        nonlocal nontrivial
        kind, k, seed, cnt = op
        s = conns[k]
        c = open_(k)
        rng = world.sub(seed, 'op')
        if kind in ('put', 'legacy', 'update', 'delete'):
            if s.txn == 'view':
                return 'in a view'
            auto = s.txn is None
            if auto:
                c.execute('begin immediate')
                s.state = dict(model)
            st = dict(s.state)
            if kind == 'put':
                rows = []
                for j in range(cnt):
                    x, b = braid(seed + 7919 * j)
                    i = new_id()
                    st[i] = b
                    rows.append((i, x))
                if rng.random() < 0.5:
                    c.executemany('insert into t values(?, ?)', rows)
                else:
                    for i, x in rows:
                        c.execute('insert into t(id, x) values(:i, :x)', dict(i=i, x=x))
            elif kind == 'legacy':
                for j in range(cnt):
                    b = B.rand_braid(rng, rng.choice('GD'), rng.choice([3, 4, 5]), rng.randint(0, 5))
                    i = new_id()
                    st[i] = b
                    c.execute('insert into t values(?, ?)', (i, text(b)))
            elif kind == 'update' and st:
                x, b = braid(seed)
                i = rng.choice(sorted(st))
                st[i] = b
                c.execute('update t set x = ? where id = ?', (x, i))
            elif kind == 'delete' and st:
                i = rng.choice(sorted(st))
                del st[i]
                c.execute('delete from t where id = ?', (i,))
            s.state = st
            if auto:
                pend[0] = st
                commit(c, st)
                pend[0] = None
                s.state = None
        elif kind == 'begin':
            if s.txn is not None:
                return 'already in a transaction'
            c.execute('begin immediate')
            s.txn, s.state, s.stack = 'write', dict(model), []
        elif kind == 'view':
            if s.txn is not None:
                return 'already in a transaction'
            c.execute('begin')
            judge(readback(c, rng.randrange(3)), model, where)
            s.txn, s.state = 'view', dict(model)
        elif kind == 'commit':
            if s.txn == 'write':
                pend[0] = s.state
                commit(c, s.state)
                pend[0] = None
            elif s.txn == 'view':
                c.execute('commit')
            s.txn, s.state, s.stack = None, None, []
        elif kind == 'rollback':
            if s.txn:
                c.execute('rollback')
                nontrivial = True
            s.txn, s.state, s.stack = None, None, []
        elif kind == 'save':
            if s.txn == 'write':
                c.execute(f'savepoint s{len(s.stack)}')
                s.stack.append(dict(s.state))
        elif kind == 'rollto':
            if s.txn == 'write' and s.stack:
                j = rng.randrange(len(s.stack))
                c.execute(f'rollback to s{j}')
                s.state = dict(s.stack[j])
                del s.stack[j + 1:]
                nontrivial = True
        elif kind == 'close':
            c.close()
            s.c, s.txn, s.state, s.stack = None, None, None, []
        elif kind == 'reopen':
            c.close()
            s.c, s.txn, s.state, s.stack = None, None, None, []
            c = open_(k)
            judge(readback(c, 0), model, where)
        elif kind == 'read':
            want = s.state if s.txn else model
            judge(readback(c, rng.randrange(3)), want, where)
            if rng.random() < 0.3:
                judge_text(c, want, where)
        return 'done'

    for n, op in enumerate(plan['ops']):
        where = f'step {n} {op[0]}'
        fl = [f for f in plan['faults'] if f[0] == n]
        fault = fl[0] if fl else None
        hit = [0]
        if fault and fault[1] == 'io':
            seen, left = [0], [fault[4]]

            def hook(name, fname, detail, fault=fault, seen=seen, left=left):
                if name not in CODES or fault[2] not in ('any', name):
                    return None
                seen[0] += 1
                if seen[0] < fault[3] or left[0] <= 0:
                    return None
                left[0] -= 1
                hit[0] += 1
                stats[f'fault:{name} fails'] += 1
                return CODES[name][seen[0] % len(CODES[name])]
            disk.hook = hook
        busy = None
        try:
            try:
                if fault and fault[1] == 'line':
                    def on_line(count, code, line, fault=fault):
                        if count == fault[2]:
                            hit[0] += 1
                            stats['fault:interrupt at an executed line'] += 1
                            raise KeyboardInterrupt('simulated')
                    with world.Steps(None, lines=True, on_line=on_line):
                        res = step(op, where)
                else:
                    res = step(op, where)
            finally:
                disk.hook = None
        except KeyboardInterrupt as e:
            if e.args != ('simulated',):
                raise
            busy = e
        except (sqlite3.Error, MemoryError) as e:
            busy = e
            if not hit[0]:
                if 'locked' in str(e):
                    # another connection is in the way: the operation has no effect; leave the transaction it may have begun for itself
                    s = conns[op[1]]
                    if s.c is not None and s.txn is None and s.c.in_transaction:
                        s.c.execute('rollback')
                        s.state = None
                    pend[0] = None
                    stats['probe:locked by another connection'] += 1
                    logs.append((op[0], 'locked'))
                    continue
                raise Violation('database-error', f'{where}: {type(e).__name__}: {e}')
        if busy is not None:
            nontrivial = True
            all_closed()
            c = connect()
            try:
                rows = readback(c, 0)
            except sqlite3.DatabaseError as e:
                raise Violation('unreadable', f'after {where} failed with {type(busy).__name__}: {e}')
            finally:
                c.close()
            cands = [dict(model)] + ([dict(pend[0])] if pend[0] is not None else [])
            got = [i for i, _ in rows]
            best = cands[0]
            for st in cands[1:]:
                if [(i, B.from_lib(x)) for i, x in rows] == sorted(st.items()):
                    best = st
            judge(rows, best, f'after {where} failed with {type(busy).__name__}')
            if pend[0] is not None:
                # a commit that failed half way may still be found on the disk after a crash, until the next commit
                if best != model:
                    doubtful.append((begun[0], len(marks), dict(model)))
                    marks.append((begun[0], len(disk.log), dict(best)))
                else:
                    doubtful.append((begun[0], len(marks) - 1, dict(pend[0])))
            model.clear()
            model.update(best)
            pend[0] = None
            res = 'failed'
        logs.append((op[0], res))
        stats[f'probe:{op[0]} {res}'] += 1
    all_closed()
    c = connect()
    rows = readback(c, 0)
    judge(rows, model, 'at the end')
    judge_text(c, model, 'at the end')
    c.close()
    final = disk.image().after_kill()
    opdigest = disk.digest()
    simtime = clock.elapsed()
    states = [S.h(sorted(model.items()))]

    # ---- crashes at recorded positions
    log, initial = disk.log, dict(disk.initial)

    def image_at(k, torn):
        d = vfs.SimDisk(initial)
        by = {}
        for name, f in d.files.items():
            f.fid = fids[name]
            by[f.fid] = f
        for o in log[:k]:
            d.apply(o, by)
        if torn is not None and k < len(log) and log[k][0] == 'write':
            _, fid, name, off, data = log[k]
            d.apply(('write', fid, name, off, data[:torn]), by)
        return d.image()

    for f in plan['crashes']:
        nontrivial = True
        if f['where'] in ('write', 'sync'):
            idx = [j for j, o in enumerate(log) if o[0] == f['where']] or [0]
            k = idx[int(f['at'] * len(idx))]
        elif f['where'] == 'commit':
            m = marks[int(f['at'] * len(marks))]
            k = min(len(log), random.Random(f['seed']).randint(m[0], m[1] + 1))
        else:
            k = int(f['at'] * (len(log) + 1))
        rng = random.Random(f['seed'])
        torn = rng.randint(0, len(log[k][4])) if f['mode'] == 'torn' and k < len(log) and log[k][0] == 'write' else None
        img = image_at(k, torn)
        killed = f['mode'] in ('kill', 'torn')
        left = img.after_kill() if killed else img.after_power_loss(rng, f['mode'])
        stats['fault:' + (f['mode'] if killed else 'power loss, unsynced data: ' + f['mode'])] += 1
        j = max(j for j, m in enumerate(marks) if m[1] <= k)
        allowed = [marks[j][2]]
        if j + 1 < len(marks) and marks[j + 1][0] <= k:
            allowed.append(marks[j + 1][2])
        allowed += [st for at, m, st in doubtful if at <= k and j <= m]
        if not killed and plan['mode'] != 'wal' and j > 0:
            allowed.append(marks[j - 1][2])
        vfs.install(vfs.SimDisk(left, seed=f['seed'])).clock = world.Clock(f['seed'])
        what = f'after a crash ({f["mode"]}) at storage operation {k} of {len(log)}'
        try:
            c = connect()
            rows = readback(c, 0)
            got = [(i, B.from_lib(x)) for i, x in rows]
            want = next((s for s in allowed if sorted(s.items()) == got), allowed[0])
            judge(rows, want, what)
            judge_text(c, want, what)
            c.close()
        except sqlite3.DatabaseError as e:
            raise Violation('unreadable', f'{what}: {e}')
        states.append(S.h(got))
        if rng.random() < 0.3:                                         # and go on working
            vfs.install(vfs.SimDisk(left, seed=1)).clock = world.Clock(1)
            c = connect()
            x, b = braid(f['seed'])
            c.execute('insert into t values(?, ?)', (10**6, x))
            c.close()
            c = connect()
            judge(readback(c, 0), {**want, 10**6: b}, what + ' and one more insertion')
            c.close()

    # ---- another interpreter
    if plan['elsewhere']:
        got = fresh.call('sim.scen.c15', 'reader', dict(files=pack(final)), hashseed=(plan['seed'] * 31 + 5) % 4294967295)
        got = [(i, (b[0], b[1], b[2], tuple(map(tuple, b[3])))) for i, b in got]
        stats['evaluations'] += 1
        stats['probe:read by another interpreter'] += 1
        if got != sorted(model.items()):
            raise Violation('read-back-differs', 'in another interpreter')

    # ---- rotten bytes on the disk
    clean = checkpointed(final)
    verdicts = []
    for seed, at, how in plan['rot']:
        rng = world.sub(seed, 'rot')
        if not model:
            b = None
            clean, held = lone(seed)
            i = 1
        else:
            held = model
            i = sorted(model)[int(at * len(model))]
        verdict = rot(clean, held, i, rng, how, stats)
        if verdict:
            nontrivial = True
            verdicts.append(verdict)
    stats['simulated-operations'] += disk.ops
    return dict(stats=stats, digest=S.h(opdigest, logs, verdicts), simtime=simtime, nontrivial=nontrivial, states=states,
                sample=dict(mode=plan['mode'], connections=plan['conns'], ops=logs[:12], rows=len(model), crashes=len(plan['crashes']), damaged=dict(collections.Counter(verdicts))))


def checkpointed(files):
    disk = vfs.install(vfs.SimDisk(files, seed=1))
    disk.clock = world.Clock(1)
    c = connect()
    c.execute('pragma wal_checkpoint(truncate)')
    c.execute('pragma journal_mode=delete')
    c.close()
    return disk.image().after_kill()


def lone(seed):
    disk = vfs.install(vfs.SimDisk({}, seed=1))
    disk.clock = world.Clock(1)
    c = connect()
    c.execute('create table t(id integer primary key, x BRAID)')
    x, b = braid(seed)
    c.execute('insert into t values(1, ?)', (x,))
    c.close()
    return disk.image().after_kill(), {1: b}


def rot(clean, held, i, rng, how, stats):
    """Change one byte of a stored value on the disk and read it."""
    vfs.install(vfs.SimDisk(clean, seed=1)).clock = world.Clock(1)
    c = connect(0)
    raw = c.execute('select cast(x as blob) from t where id = ?', (i,)).fetchone()[0]
    c.close()
    pos = rng.randrange(len(raw))
    if how == 'digit':
        spots = [j for j, ch in enumerate(raw) if 48 <= ch < 58] or [pos]
        pos = rng.choice(spots)
    old = raw[pos]
    new = dict(bit=old ^ (1 << rng.randrange(8)), digit=48 + rng.randrange(10), char=rng.choice(b'()[]{}, \n-+*_.jexbdGNF0123456789#"\'\\T'),
               byte=rng.randrange(256))[how]
    if new == old:
        new = old ^ 1
    bad = raw[:pos] + bytes([new]) + raw[pos + 1:]
    m = re.match(rb'\s*D?GNF\s*[^0-9]*(\d+)', bad)
    if m and (int(m[1]) > 5):
        stats['probe:damage left out (tables too big)'] += 1
        return None
    data = bytearray(clean[S.DB])
    # the live copy of this value: try its occurrences in the file until the row reads as the damaged text
    at = -1
    while True:
        at = data.find(raw, at + 1)
        if at < 0:
            stats['probe:value not found on the disk'] += 1
            return None
        one = bytearray(data)
        one[at + pos] = new
        vfs.install(vfs.SimDisk({**clean, S.DB: bytes(one)}, seed=1)).clock = world.Clock(1)
        c = connect(0)
        now = c.execute('select cast(x as blob) from t where id = ?', (i,)).fetchone()[0]
        c.close()
        if now == bad:
            break
    stats['fault:rotten byte in a stored value'] += 1
    stats['evaluations'] += 1
    c = connect()
    try:
        x = c.execute('select x from t where id = ?', (i,)).fetchone()[0]
    except Exception as e:                                             # noqa: BLE001
        stats[f'probe:damage rejected with {type(e).__name__}'] += 1
        return 'rejected'
    finally:
        LATE.clear()
        c.close()
    try:
        if type(getattr(x, 'n', None)) is int and x.n == 0 or type(x).__name__ not in ('GNF', 'DGNF'):
            if type(x).__name__ in ('GNF', 'DGNF') and x.factors == () and type(x.power) is int:
                return 'accepted'                                      # a power of the Garside element on no strands
            raise Violation('not-a-braid', repr(x))
        B.from_lib(x)
    except Violation as e:
        raise Violation('damage-accepted', f'{bad!r} (was {raw!r}) is read as a braid: {e.detail}')
    stats['probe:damage gives a well-formed normal form'] += 1
    return 'accepted'
