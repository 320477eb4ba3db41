"""Oracles for a finished (or interrupted) search, against the independent reference model."""
from __future__ import annotations

import ast
import collections

from . import ref, searchlib as S
from .world import Violation

_perms = {}


def perms(n):
    if n not in _perms:
        _perms[n] = ref.lex_perms(n)
    return _perms[n]


def factors_of(n, idx):
    ps = perms(n)
    return tuple(ps[i] for i in idx)


def true_projlen(n, r, p, fs, power=0):
    return ref.refrep(n, r, p).projlen(ref.garside_image(n, r, p, fs, power))


def parse_gnf(text):
    try:
        t = ast.literal_eval(text)
    except Exception:                                                # noqa: BLE001
        raise Violation('row-unparsable', f'gnf text {text!r}')
    if not (isinstance(t, tuple) and len(t) == 3 and type(t[0]) is int and type(t[1]) is int and isinstance(t[2], tuple)
            and all(type(x) is int for x in t[2])):
        raise Violation('row-unparsable', f'gnf text {text!r} is not (n, power, factors)')
    return t


def check_row(cfg, row, image=True):
    if len(row) != 6:
        raise Violation('row-shape', f'row {row}')
    n, r, p, length, projlen, text = row
    if not all(type(x) is int for x in row[:5]) or type(text) is not str:
        raise Violation('row-type', f'row {row!r}')
    if (n, r, p) != (cfg['n'], cfg['r'], cfg['p']):
        raise Violation('row-rep', f'row {row}: searched n={cfg["n"]} r={cfg["r"]} p={cfg["p"]}')
    m, power, idx = parse_gnf(text)
    order = len(perms(n))
    if m != n or any(not 0 <= x < order for x in idx):
        raise Violation('row-not-normal-form', f'row {row}')
    fs = factors_of(n, idx)
    if not ref.is_garside_nf(n, fs):
        raise Violation('row-not-normal-form', f'row {row}')
    if length != len(idx):
        raise Violation('row-length', f'row {row}: Garside length {len(idx)}')
    if image:
        t = true_projlen(n, r, p, fs, power)
        if t != projlen:
            raise Violation('row-projlen', f'row {row}: true projlen {t}')
    return power, fs


def groups(rows):
    """rows of one length -> {projlen: [rows]} in order of first appearance."""
    out = collections.OrderedDict()
    for row in rows:
        out.setdefault(row[4], []).append(row)
    return out


def prefix_within(sizes, limit):
    """How many leading groups fit: the longest prefix with cumulative size <= limit."""
    tot, k = 0, 0
    for s in sizes:
        tot += s
        if tot > limit:
            break
        k += 1
    return k


def extension_groups(cfg, parents, letters=1):
    """{projlen: set of factor tuples} of the extensions of the parents by so many letters."""
    n, r, p = cfg['n'], cfg['r'], cfg['p']
    out = {}
    ext = list(parents)
    for _ in range(letters):
        ext = [(*fs, y) for fs in ext for y in ref.follows_cached(fs[-1])]
    for fs in ext:
        out.setdefault(true_projlen(n, r, p, fs), set()).add(fs)
    return out


def all_groups(cfg, length):
    n, r, p = cfg['n'], cfg['r'], cfg['p']
    out = {}
    for fs in ref.all_garside(n, length):
        out.setdefault(true_projlen(n, r, p, fs), set()).add(fs)
    return out


def check_bucket(held, offered, cap, what, repeated=False):
    """held: list of factor tuples in one bucket; offered: the set that belongs there (repeated: each perhaps more than once,
    so that a full bucket may take a braid it holds already)."""
    if len(set(held)) != len(held) and not (repeated and len(offered) >= cap):
        raise Violation('duplicate-in-bucket', f'{what}: {len(held) - len(set(held))} duplicates')
    bad = set(held) - offered
    if bad:
        raise Violation('unexplained-braid', f'{what}: {sorted(bad)[0]} was never offered')
    want = min(cap, len(offered))
    if len(held) != want:
        raise Violation('bucket-size', f'{what}: holds {len(held)}, offered {len(offered)}, bucket size {cap}')


def check_progress(cfg, text, outcome):
    """Lengths are visited once each, in order, from the first unprocessed one."""
    ev = S.parse_output(text)
    lens = [e[1] for e in ev if e[0] == 'length']
    first = cfg['boot'] - cfg['step'] + 1
    want = list(range(first, first + len(lens)))
    if lens != want:
        raise Violation('lengths-visited', f'visited {lens}, expected to start {want[:5]}')
    if outcome == 'PlannedEnd' and (not lens or lens[-1] != cfg['end'] + 1):
        raise Violation('lengths-visited', f'ended at {lens[-3:]}')
    return lens


def reports_by_length(text):
    """{length: [report, ...]} in order of the 'Length' headings (None = before any)."""
    out = {}
    cur = None
    for e in S.parse_output(text):
        if e[0] == 'length':
            cur = e[1]
        elif e[0] == 'report':
            out.setdefault(cur, []).append(e[1:])
        elif e[0] == 'unparsed':
            raise Violation('report-unparsable', e[1][:200])
    return out
