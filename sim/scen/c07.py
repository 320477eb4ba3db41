"""C07: storage errors, output errors, and interrupts during a search."""
import collections
import errno
import random

from .. import searchlib as S, vfs, world
from ..world import Violation
from . import c01

ID = 'C07'
LEVEL = 'exploration'
RULE = ('one evaluation = one simulated search with a storage, output or interruption fault injected, judged for silence and for what it left, and then repeated without the fault; '
        'non-trivial = the fault was actually delivered; distinct = distinct (fault kind, position, configuration) by the digest of all storage operations')
STATES = 'digest of the files left behind'
REAL = ['search.py', 'peyl', 'sqlite3 module', 'SQLite library (error handling, rollback, WAL)', 'numpy', 'pandas']
STUB = ['file system (in-memory VFS returning errors)', 'clock', 'stdout', 'signal delivery (exception raised at an executed line)']
CONFIG = dict(quick=dict(runs=2200, wall=240, repeat=8), thorough=dict(runs=20000, wall=2400, repeat=50))

CODES = dict(read=[vfs.IOERR_READ], write=[vfs.IOERR_WRITE, vfs.FULL, vfs.IOERR_WRITE, vfs.FULL, 'short'], sync=[vfs.IOERR_FSYNC], truncate=[vfs.IOERR_TRUNCATE],
             size=[vfs.IOERR_FSTAT], lock=[vfs.BUSY, vfs.IOERR_LOCK], shmlock=[vfs.BUSY, vfs.IOERR_SHMLOCK], shmmap=[vfs.IOERR_SHMMAP], open=[vfs.CANTOPEN],
             delete=[vfs.IOERR_DELETE], access=[vfs.IOERR_ACCESS])


def warm(tier):
    S.warm_libs()


def gen(rng, tier, i):
    cfg = S.gen_cfg(rng, n=rng.choice([3, 3, 3, 4, 4]))
    cfg['save'] = rng.choice([cfg['bucket'], 3 * cfg['bucket'], 100, 500])
    if rng.random() < 0.5:
        cfg['end'] = min(cfg['end'], cfg['boot'] + 3)
    if rng.random() < 0.05:
        S.large_batches(rng, cfg)
    kind = rng.choice(['storage'] * 6 + ['capacity', 'output', 'line', 'line'])
    f = dict(kind=kind, at=rng.random(), seed=rng.randint(0, 10**9))
    if kind == 'storage':
        f.update(op=rng.choice(['any', 'any', 'write', 'write', 'sync', 'sync', 'lock', 'shmlock', 'shmmap', 'read', 'open', 'truncate', 'delete']),
                 last=rng.choice(['once', 'once', 'few', 'forever', 'all-forever']), code=rng.randint(0, 99))
    elif kind == 'output':
        f.update(once=rng.random() < 0.5, exc=rng.choice(['ENOSPC', 'EPIPE', 'EIO']))
    elif kind == 'line':
        f.update(exc=rng.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError']), where=rng.choice(['any', 'script', 'save', 'save']))
    return dict(cfg=cfg, prior=rng.choice(['none', 'none', 'delete', 'wal', 'small-pages']), prior_seed=rng.randint(0, 10**6), fault=f)


def shrink(plan):
    for c in S.shrink_cfg(plan['cfg']):
        yield dict(plan, cfg=c)
    if plan['prior'] != 'none':
        yield dict(plan, prior='none')


def in_script(code):
    return code.co_filename == world.SEARCH


def clean(plan, prior):
    """The same search without a fault: expected batches and the number of places a fault could go."""
    cfg, f = plan['cfg'], plan['fault']
    n = dict(lines=0, during=[])
    if f['kind'] == 'line':
        box = []

        def on_line(i, code, line):
            if box and box[0]['out'].saving:
                n['during'].append(i)
        st = world.Steps(None, lines=True, only=None if f['where'] == 'any' else in_script, on_line=on_line if f['where'] == 'save' else None)
        with st:
            node = S.run_search(cfg, prior, clock_seed=1, setup=box.append)
        n['lines'] = st.lines
    else:
        node = S.run_search(cfg, prior, clock_seed=1)
    S.expect_clean(node)
    np_ = len(S.snapshot(prior, 1)['rows']) if prior else 0
    n['used'] = node['disk'].used()
    rows = S.snapshot(node['disk'].image().after_kill(), 1)['rows'][np_:]
    n.update(batches=S.split_batches(rows), ops=node['ops'], counts=node['counts'], writes=node['out'].writes)
    return n


def run(plan):
    cfg, f = plan['cfg'], plan['fault']
    stats = collections.Counter()
    prior = S.make_prior(plan['prior'], plan['prior_seed'])
    before = S.snapshot(prior, 1) if prior else dict(rows=[], other={})
    base = world.in_child(clean, plan, prior)
    batches = base['batches']
    rng = random.Random(f['seed'])
    hits = [0]
    label = f['kind']

    def setup(node):
        nonlocal label
        disk, out = node['disk'], node['out']
        if f['kind'] == 'storage':
            op = f['op']
            total = base['ops'] if op == 'any' else base['counts'].get(op, 0)
            k = int(f['at'] * max(1, total))
            left = dict(once=1, few=rng.randint(2, 6)).get(f['last'], 10**9)
            seen = [0]
            state = dict(left=left)

            def hook(name, fname, detail):
                if name not in CODES:
                    return None
                if name == 'shmlock' and False:
                    return None
                match = op in ('any', name)
                if match:
                    seen[0] += 1
                if seen[0] <= k or state['left'] <= 0:
                    return None
                if not match and f['last'] != 'all-forever':
                    return None
                state['left'] -= 1
                hits[0] += 1
                codes = CODES[name]
                code = codes[f['code'] % len(codes)]
                stats[f'fault:{name} fails with {"a short write" if code == "short" else code}'] += 1
                if code == 'short':
                    return ('torn', rng.randint(0, max(0, detail[1] - 1)), vfs.IOERR_WRITE)
                return code
            disk.hook = hook
        elif f['kind'] == 'capacity':
            lo = sum(len(v) for v in prior.values())
            disk.capacity = lo + int(f['at'] * 1.2 * max(1, base['used'] - lo))
        elif f['kind'] == 'output':
            out.fail_from = int(f['at'] * base['writes'])
            out.fail_once = f['once']
            out.exc = OSError(getattr(errno, f['exc']), 'simulated output failure')
            label = f'output write fails ({f["exc"]})'
    end = None
    if f['kind'] == 'line':
        k = 1 + int(f['at'] * max(1, base['lines']))
        if base['during']:
            k = base['during'][int(f['at'] * len(base['during']))]
        exc = dict(KeyboardInterrupt=KeyboardInterrupt, MemoryError=MemoryError)[f['exc']]

        def on_line(i, code, line):
            if i == k:
                hits[0] += 1
                stats[f'fault:{f["exc"]} at a line'] += 1
                raise exc('simulated')
        with world.Steps(None, lines=True, on_line=on_line, only=None if f['where'] == 'any' else in_script):
            node = S.run_search(cfg, prior, clock_seed=1, setup=setup)
    else:
        node = S.run_search(cfg, prior, clock_seed=1, setup=setup, budget=None)
    if f['kind'] == 'capacity':
        hits[0] = node['counts'].get('disk_full', 0)
        stats['fault:disk full'] += hits[0]
    if f['kind'] == 'output':
        hits[0] = node['out'].failed
        stats['fault:' + label] += hits[0]
    node['disk'].hook = None
    exc, out = node['exc'], node['outcome']
    files = node['disk'].image().after_kill()
    what = f'{f} -> {out}'
    done_quietly = out in ('ok', 'PlannedEnd')
    rec = S.snapshot(files, 3, write_probe=False) if files else dict(rows=[], other={}, files={})
    if before['other'] != {k: v for k, v in rec['other'].items()}:
        raise Violation('other-tables-changed', f'{what}: unrelated tables altered')
    j = c01.check_rows(rec['rows'], before['rows'], batches, what)
    have = {b[0][3]: len(b) for b in batches[:j]}
    for L, cnt in S.announced(node['text']):
        if cnt and have.get(L) != cnt:
            raise Violation('announced-not-recorded', f'{what}: announced {cnt} rows of length {L}, recorded {have.get(L, 0)}')
    if done_quietly and j != len(batches):
        raise Violation('silent-failure', f'{what}: ended as if all was well with {j} of {len(batches)} batches recorded')
    if hits[0] and not done_quietly:
        stats['probe:ended with ' + out] += 1
    elif hits[0]:
        stats['probe:fault survived'] += 1
    # the same search again, without the fault
    node2 = S.run_search(cfg, files, clock_seed=2)
    if node2['outcome'] not in ('ok', 'PlannedEnd'):
        raise Violation('rerun-fails', f'{what}; then without the fault: {world.describe_exc(node2["exc"])}')
    again = S.snapshot(node2['disk'].image().after_kill(), 5)
    if again['rows'] != rec['rows'] + [r for b in batches for r in b]:
        raise Violation('rerun-rows-wrong', f'{what}: the repeated search did not record every batch in full')
    stats['evaluations'] += 1
    stats['probe:recovered %s' % ('nothing new' if j == 0 else 'all batches' if j == len(batches) else 'some batches')] += 1
    return dict(stats=stats, digest=S.h(node['disk'].digest(), out, S.normal_output(node['text']), len(again['rows'])), simtime=node['simtime'] + node2['simtime'],
                nontrivial=hits[0] > 0, states=[S.h(sorted((k, S.h(v)) for k, v in files.items()))],
                sample=dict(cfg=cfg, fault=f, outcome=out, recovered_batches=j, of=len(batches)))
