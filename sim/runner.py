"""
Seeded search over plans: one seed -> one plan -> one simulated run in its own forked process; minimisation; replay; evidence.
"""
from __future__ import annotations

import collections
import functools
import hashlib
import importlib
import json
import os
import random
import resource
import selectors
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import vfs, world

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_now = time.perf_counter


class Result(dict):
    pass


def warm(scen, tier):
    """Import everything before forking."""
    scen.warm(tier)
    world.import_peyl()


def run_plan(scen, plan):
    """Execute one plan in this process."""
    res = dict(v=None, harness=None, digest='', stats={}, simtime=0.0, states=[], nontrivial=True, sample=None)
    world.cpu_limit(world.CPU_LIMIT)
    try:
        out = scen.run(plan)
        if out:
            res.update(out)
    except BaseException as e:                                       # noqa: BLE001
        kind, cls, detail, key = world.classify(e)
        if kind == 'violation':
            res['v'] = dict(cls=cls, detail=detail, key=key)
        else:
            res['harness'] = f'{cls}: {detail}'
    if vfs.ERRORS and not res['harness']:
        res['harness'] = 'VFS callback: ' + vfs.ERRORS[0]
    res['stats'] = dict(res['stats'])
    res['cpu'] = time.process_time()
    return res


def _report_hang(w, bad):
    kind, val = bad
    world._send(w, dict(v=dict(cls=val[0], detail=val[1], key=val[2]) if kind == 'violation' else None,
                        harness=val if kind == 'error' else None, digest='hang', stats={}, simtime=0, states=[], nontrivial=False, sample=None))


class Pool:
    """Fork one child per job; at most W at a time."""

    def __init__(self, workers, wall):
        self.W, self.wall = workers, wall
        self.sel = selectors.DefaultSelector()
        self.live = {}

    def start(self, tag, fn, *args):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                os.close(r)
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                world.REAL_STDOUT = sys.stdout
                world.report_hang = functools.partial(_report_hang, w)
                world._send(w, fn(*args))
            except BaseException:                                    # noqa: BLE001
                try:
                    world._send(w, dict(v=None, harness=traceback.format_exc(), digest='', stats={}, simtime=0, states=[],
                                        nontrivial=False, sample=None))
                except BaseException:                                # noqa: BLE001
                    pass
            finally:
                os._exit(0)
        os.close(w)
        try:
            os.setpgid(pid, pid)
        except OSError:
            pass
        self.sel.register(r, selectors.EVENT_READ, pid)
        self.live[pid] = [tag, r, b'', _now()]

    def free(self):
        return len(self.live) < self.W

    def wait(self, timeout=1.0):
        """Yield (tag, result) of finished jobs."""
        done = []
        for key, _ in self.sel.select(timeout):
            pid = key.data
            job = self.live[pid]
            k = os.read(job[1], 1 << 20)
            if k:
                job[2] += k
            else:
                done.append(pid)
        t = _now()
        for pid, job in list(self.live.items()):
            if pid not in done and t - job[3] > self.wall:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
                job[2] = None
                done.append(pid)
        for pid in done:
            tag, r, buf, _ = self.live.pop(pid)
            self.sel.unregister(r)
            os.close(r)
            try:
                os.killpg(pid, signal.SIGKILL)                        # stragglers of the run
            except OSError:
                pass
            os.waitpid(pid, 0)
            if buf is None:
                yield tag, dict(v=None, harness='wall limit of a run exceeded', digest='', stats={}, simtime=0, states=[],
                                nontrivial=False, sample=None)
                continue
            import pickle
            if len(buf) < 8:
                yield tag, dict(v=None, harness='run died without a result', digest='', stats={}, simtime=0, states=[],
                                nontrivial=False, sample=None)
            else:
                yield tag, pickle.loads(buf[8:])

    def kill(self):
        for pid, job in list(self.live.items()):
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(pid, 0)
            self.sel.unregister(job[1])
            os.close(job[1])
        self.live = {}


def load_known():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith('#') and line.startswith('{'):
                out.append(json.loads(line))
    return out


def plan_for(scen, vseed, tier, i):
    rng = world.sub(vseed, scen.ID, tier, i)
    plan = scen.gen(rng, tier, i)
    return json.loads(json.dumps(plan))


# ------------------------------------------------------------------------------------------------ minimisation

def _shrink_generic(plan):
    """Candidates: drop chunks of every list marked in plan['_lists'] (default: 'ops', 'faults'), then single elements."""
    for name in plan.get('_lists', ['ops', 'faults']):
        xs = plan.get(name)
        if not isinstance(xs, list) or not xs:
            continue
        n = len(xs)
        k = n
        while k >= 1:
            for s in range(0, n, k):
                q = dict(plan)
                q[name] = xs[:s] + xs[s + k:]
                if len(q[name]) < n:
                    yield q
            k //= 2


def minimise(scen, plan, cls, workers, wall, budget_s, log):
    t0 = _now()
    tried = 0
    seen = {json.dumps(plan, sort_keys=True)}
    best, best_res = plan, None
    improved = True
    while improved and _now() - t0 < budget_s:
        improved = False

        def cands():
            if hasattr(scen, 'shrink'):
                yield from scen.shrink(best)
            yield from _shrink_generic(best)
        gen = cands()
        pool = Pool(workers, wall)
        nxt, results, idx, exhausted = 0, {}, 0, False
        queue = {}
        while _now() - t0 < budget_s:
            while pool.free() and not exhausted:
                try:
                    c = next(gen)
                except StopIteration:
                    exhausted = True
                    break
                c = json.loads(json.dumps(c))
                key = json.dumps(c, sort_keys=True)
                if key in seen:
                    continue
                seen.add(key)
                queue[idx] = c
                pool.start(idx, run_plan, scen, c)
                idx += 1
                tried += 1
            if not pool.live and exhausted:
                break
            for tag, res in pool.wait(0.2):
                results[tag] = res
            hit = None
            while nxt in results:
                r = results[nxt]
                if r['v'] and r['v']['cls'] == cls:
                    hit = nxt
                    break
                nxt += 1
            if hit is not None:
                best, best_res = queue[hit], results[hit]
                improved = True
                break
        pool.kill()
    log(f'minimised with {tried} candidate runs in {_now() - t0:.1f} s')
    return best, best_res, tried


# ------------------------------------------------------------------------------------------------ main

def load(prop):
    return importlib.import_module(f'sim.scen.{prop.lower()}')


def check(prop, tier, vseed, workers, args):
    scen = load(prop)
    t0 = _now()
    log = lambda s: print(f'[{prop}] {s}', flush=True)
    known = [k for k in load_known() if k.get('property') == prop and k.get('status') == 'finding']
    cfg = scen.CONFIG[tier]
    nruns = args.runs or cfg['runs']
    cap = args.wall or cfg.get('wall', 240 if tier == 'quick' else 3000)
    run_wall = cfg.get('run_wall', 400)
    log(f'VERIF_SEED={vseed} tier={tier} runs={nruns} workers={workers}')
    if hasattr(scen, 'warm'):
        try:
            warm(scen, tier)
        except BaseException as e:                                   # noqa: BLE001
            kind, cls, detail, key = world.classify(e)
            if kind == 'violation':
                log(f'the library failed while warming up: {cls}: {detail}')
                path = write_replay(prop, vseed, tier, -1, dict(warm=True), dict(cls=cls, detail=detail), None, 0)
                print(f'VIOLATION property={prop} replay={path}', flush=True)
                evidence(prop, scen, tier, vseed, [], {}, _now() - t0, 1, dict(warmup=detail))
                return 1
            raise
    t_warm = _now() - t0
    pool = Pool(workers, run_wall)
    nxt = 0
    results = {}
    viol, harness, knownhits = {}, {}, collections.Counter()
    stop_at = None
    redo = set(range(0, nruns, max(1, nruns // cfg.get('repeat', 10)))) if cfg.get('repeat', 10) else set()
    redo_res = {}
    redo_queue = []
    t_run = _now()
    while True:
        while pool.free():
            if redo_queue and stop_at is None:
                i = redo_queue.pop()
                pool.start(('redo', i), run_plan, scen, plan_for(scen, vseed, tier, i))
            elif nxt < nruns and stop_at is None and _now() - t0 < cap and not harness:
                pool.start(('run', nxt), run_plan, scen, plan_for(scen, vseed, tier, nxt))
                nxt += 1
            else:
                break
        if not pool.live:
            break
        for (kind, i), res in pool.wait():
            if kind == 'redo':
                redo_res[i] = res
                continue
            results[i] = res
            if res['harness']:
                harness[i] = res['harness']
            elif res['v']:
                k = next((k for k in known if k['class'] == res['v']['cls'] and k.get('key') in (None, res['v'].get('key'))), None)
                if k:
                    knownhits[json.dumps(k['what'])] += 1
                else:
                    viol[i] = res
                    stop_at = i if stop_at is None else min(stop_at, i)
            if i in redo:
                redo_queue.append(i)
    pool.kill()
    dt = _now() - t_run
    mism = [i for i, r in redo_res.items() if i in results and not results[i]['harness'] and
            (r['digest'], bool(r['v'])) != (results[i]['digest'], bool(results[i]['v']))]
    for k in known:
        print(f'KNOWN-FINDING: property={prop} {k["what"]}', flush=True)
    extra = dict(determinism_reruns=len(redo_res), determinism_mismatches=len(mism), planned_runs=nruns,
                 run_seconds=round(dt, 2), warmup_seconds=round(t_warm, 2))
    code = 0
    if viol:
        i = min(viol)
        v = viol[i]['v']
        log(f'run {i}: {v["cls"]}: {v["detail"]}')
        plan = plan_for(scen, vseed, tier, i)
        small, sres, tried = minimise(scen, plan, v['cls'], workers, run_wall, args.shrink if args.shrink is not None else 60, log)
        sv = sres['v'] if sres else v
        path = write_replay(prop, vseed, tier, i, small, sv, plan, tried)
        ok = replay_fresh(prop, path)
        if not ok and small != plan:
            log('minimised plan does not replay in a fresh process; reporting the original plan')
            path = write_replay(prop, vseed, tier, i, plan, v, plan, tried)
            ok = replay_fresh(prop, path)
        log(f'minimised: {sv["cls"]}: {sv["detail"]}')
        log(f'replay in a fresh process reproduces it: {ok}')
        extra['replay_verified'] = ok
        print(f'VIOLATION property={prop} replay={path}', flush=True)
        code = 1
    elif harness:
        i = min(harness)
        log(f'harness error in run {i} (plan seed {vseed}/{prop}/{tier}/{i}):\n{harness[i]}')
        code = 2
    if mism:
        log(f'WARNING: {len(mism)} of {len(redo_res)} repeated runs had a different event log: {mism[:10]}')
    evidence(prop, scen, tier, vseed, [results[i] for i in sorted(results)], cfg, _now() - t0, 1 if viol else 0, extra)
    log(f'{len(results)} runs in {dt:.1f} s (+{t_warm:.1f} s warm-up), {len(redo_res)} repeated, exit {code}')
    if os.environ.get('SIM_TIMES'):
        log('processor seconds of the longest runs: ' + str(sorted((round(r.get('cpu', 0), 1) for r in results.values()), reverse=True)[:6]))
        log('steps of the longest runs: ' + str(sorted((r.get('stats', {}).get('steps', 0) for r in results.values()), reverse=True)[:6]))
    return code


def write_replay(prop, vseed, tier, i, plan, v, orig, tried):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{prop}-{tier}-{vseed}-{i}.json')
    with open(path, 'w') as f:
        json.dump(dict(property=prop, verif_seed=vseed, tier=tier, run=i, plan=plan, violation=v, original_plan=orig,
                       minimisation_runs=tried), f, indent=1, sort_keys=True)
    return path


def replay_fresh(prop, path):
    try:
        p = subprocess.run([os.path.join(VERIF, 'bin/check'), prop, '--replay', path], capture_output=True, timeout=250, text=True)
    except subprocess.TimeoutExpired:
        return False
    return p.returncode == 1


def replay(prop, path):
    rec = json.load(open(path))
    scen = load(prop)
    plan = rec['plan']
    if plan.get('warm') and rec['run'] == -1:
        try:
            warm(scen, rec['tier'])
        except Exception as e:                                       # noqa: BLE001
            print(f'[{prop}] replay: {e!r}')
            print(f'VIOLATION property={prop} replay={path}')
            return 1
        return 3
    if hasattr(scen, 'warm'):
        warm(scen, rec['tier'])
    pool = Pool(1, 200)
    pool.start(0, run_plan, scen, plan)
    res = None
    while res is None:
        for _, res in pool.wait():
            pass
    if res['harness']:
        print(res['harness'])
        return 2
    if res['v'] and res['v']['cls'] == rec['violation']['cls']:
        print(f'[{prop}] {res["v"]["cls"]}: {res["v"]["detail"]}')
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    print(f'[{prop}] replay did not reproduce: {res["v"]}')
    return 3


def evidence(prop, scen, tier, vseed, results, cfg, wall, nviol, extra):
    stats = collections.Counter()
    states = set()
    digests = set()
    sim = 0.0
    for r in results:
        stats.update(r['stats'])
        states.update(r['states'])
        if r['nontrivial']:
            digests.add(r['digest'])
        sim += r['simtime']
    runs = len(results)
    secs = max(extra.get('run_seconds', wall), 1e-9)
    evals = int(stats.pop('evaluations', 0)) or runs
    distinct = int(stats.pop('distinct', 0)) or len(digests)
    cov = dict(
        evaluations=evals,
        distinct_nontrivial=min(distinct, evals) if evals else 0,
        rule=scen.RULE,
        samples=[r['sample'] for r in results if r.get('sample')][:3] or [dict(note='no completed run')],
        simulated_runs=runs,
        runs_per_hour=round(runs / secs * 3600),
        seeds_per_hour=round(runs / secs * 3600),
        simulated_seconds=round(sim, 3),
        faults_injected={k[6:]: v for k, v in sorted(stats.items()) if k.startswith('fault:')},
        probes={k[6:]: v for k, v in sorted(stats.items()) if k.startswith('probe:')},
        counters={k: v for k, v in sorted(stats.items()) if ':' not in k},
        distinct_event_logs=len(digests),
        distinct_states=len(states),
        state_measure=getattr(scen, 'STATES', 'digest of the observable event log of a run'),
        real_components=scen.REAL,
        stubbed_components=scen.STUB,
    )
    cov.update(extra)
    doc = dict(property=prop, tier=tier, seed=vseed, level=scen.LEVEL, coverage=cov,
               assumptions=getattr(scen, 'ASSUMPTIONS', []), wall_s=round(wall, 2), violations=nviol)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', f'{prop}.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(doc, f, indent=1, default=str)
    os.replace(tmp, os.path.join(VERIF, 'evidence', f'{prop}.json'))


def main(argv=None):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--replay')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--wall', type=float)
    ap.add_argument('--shrink', type=float)
    ap.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--one', type=int, help='execute run number ONE only, in this process tree, and print its result')
    ap.add_argument('--digests', action='store_true', help='print the digest of every run (determinism proof)')
    args = ap.parse_args(argv)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    import warnings
    warnings.simplefilter('ignore')
    sys.setswitchinterval(1000.0)
    scratch = tempfile.mkdtemp(prefix='simrun')
    os.chdir(scratch)
    code = 2
    try:
        if args.replay:
            code = replay(args.property, os.path.join(VERIF, args.replay) if not os.path.isabs(args.replay) else args.replay)
        elif args.one is not None or args.digests:
            scen = load(args.property)
            if hasattr(scen, 'warm'):
                warm(scen, args.tier)
            idx = [args.one] if args.one is not None else range(args.runs or 50)
            pool = Pool(args.workers, 300)
            todo, out = list(idx), {}
            while todo or pool.live:
                while todo and pool.free():
                    i = todo.pop(0)
                    pool.start(i, run_plan, scen, plan_for(scen, args.seed, args.tier, i))
                for i, r in pool.wait():
                    out[i] = r
            for i in sorted(out):
                if args.one is not None:
                    print(json.dumps(plan_for(scen, args.seed, args.tier, i)))
                    print(json.dumps(out[i], indent=1, default=str))
                    if out[i]['harness']:
                        print(out[i]['harness'])
                else:
                    print(i, out[i]['digest'], out[i]['v'] and out[i]['v']['cls'], out[i]['harness'] and out[i]['harness'][:200])
            code = 0
        else:
            code = check(args.property, args.tier, args.seed, args.workers, args)
    except SystemExit:
        raise
    except BaseException:                                            # noqa: BLE001
        traceback.print_exc()
        code = 2
    finally:
        os.chdir('/')
        import shutil
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


if __name__ == '__main__':
    main()
