"""Repeated trials of one offering history against a tracker, and exact tests on what it keeps."""
from __future__ import annotations

import collections
import hashlib
import math
import random

import numpy as np

from . import bridge as B, world
from .world import Violation


class OtherBits(random.Random):
    """A legal generator that is not the Mersenne Twister: its bits come from a hash chain."""

    def __init__(self, seed):
        self._key = repr(seed).encode()
        self._ctr = 0
        self._buf = 0
        self._have = 0
        super().__init__(0)

    def seed(self, *a, **k):
        pass

    def _bits(self, k):
        while self._have < k:
            self._ctr += 1
            self._buf |= int.from_bytes(hashlib.blake2b(self._key + self._ctr.to_bytes(8, 'big'), digest_size=64).digest(), 'big') << self._have
            self._have += 512
        out = self._buf & ((1 << k) - 1)
        self._buf >>= k
        self._have -= k
        return out

    def getrandbits(self, k):
        return self._bits(k)

    def random(self):
        return self._bits(53) / 2**53


def generator(kind, seed):
    return OtherBits(seed) if kind == 'other' else random.Random(seed)


class Source:
    """The braids of a history, with the images a user would evaluate for them."""

    def __init__(self, tracker, n, r, p, kind, braids):
        self.tracker, self.n, self.r, self.p, self.kind = tracker, n, r, p, kind
        self.braids = braids
        if tracker == 'search':
            from peyl import braidsearch, polymat
            self.rep = braidsearch.JonesSummand(n=n, r=r, p=p)
            self.lib = [B.to_lib(b) for b in braids]
            self.images = polymat.pack(braidsearch.evaluate_braids(self.rep, self.lib))
        else:
            from peyl import polymat
            from peyl.jonesrep import JonesCellRep
            self.rep = JonesCellRep(n=n, r=r, p=p)
            self.lib = [B.to_lib(b) for b in braids]
            by = {}
            for i, b in enumerate(braids):
                by.setdefault(len(b[3]), []).append(i)
            order = [i for idx in by.values() for i in idx]
            imgs = polymat.concatenate([self.rep.polymat_evaluate_braids_of_same_length([self.lib[i] for i in idx]) for idx in by.values()])
            self.images = imgs[np.argsort(np.array(order), kind='stable')]
        self.tag = [self.tag_of(b) for b in braids]
        self.index = {x: i for i, x in enumerate(self.lib)}
        if len(self.index) != len(self.lib):
            raise Violation('equality-wrong', 'two different braids compare equal')

    def tag_of(self, b):
        return (len(b[3]), B.image(self.n, self.r, self.p, b).shape[2])

    def make(self, cap, method, rand, weight=None, criterion=None):
        if self.tracker == 'search':
            from peyl import braidsearch
            return braidsearch.Tracker(rep=self.rep, bucket_size=cap, bucket_keys=('length', 'projlen'),
                                       criterion=criterion or (lambda x: x['length'] >= 0), rand=rand)
        from peyl import bucketing
        St = bucketing.Stats
        w = None
        if weight is not None:
            class w(bucketing.BraidStatBase):                          # noqa: N801
                name = 'w'

                @staticmethod
                def calculate(rep, braids, images):
                    return [weight(x) for x in braids]
        return bucketing.Tracker(rep=self.rep, bucket_capacity=cap, bucket_braidstats=[St.CanonicalLength, St.ProjectiveLength],
                                 other_braidstats=[], reservoir_method=method, reservoir_weight=w, rand=rand)

    def offer(self, t, idx):
        t.add_braids_images([self.lib[i] for i in idx], self.images[idx])

    def held(self, t, tag):
        return [self.index[x] for x in t.bucket_braids_images(tag)[0]]


def log_tail(x, T, p):
    """Upper bound on ln P(|Bin(T,p) - Tp| at least as far on x's side): Chernoff, rigorous for every T."""
    if p <= 0:
        return 0.0 if x == 0 else -math.inf
    if p >= 1:
        return 0.0 if x == T else -math.inf
    q = x / T
    out = 0.0
    if q > 0:
        out += q * math.log(q / p)
    if q < 1:
        out += (1 - q) * math.log((1 - q) / (1 - p))
    return -T * out


def binomial(x, T, p, tests, what, detail):
    if log_tail(x, T, p) < math.log(1e-11 / max(1, tests)):
        raise Violation(what, f'{detail}: {x} of {T} trials ({x / T:.4f}), should be {p:.4f}')


def gauss(z, what, detail):
    if abs(z) > 8.0:
        raise Violation(what, f'{detail}: {z:+.1f} standard deviations')


class Tally:
    """Inclusion counts of one bucket: N offers in order, k kept."""

    def __init__(self, N, k, pairs=True):
        self.N, self.k, self.T = N, k, 0
        self.c = np.zeros(N, dtype=np.int64)
        self.pairs = np.zeros((N, N), dtype=np.int64) if pairs and N <= 40 else None
        self.sets = collections.Counter() if math.comb(N, k) <= 60 else None
        self.rank = 0

    def add(self, pos):
        self.T += 1
        pos = sorted(pos)
        self.c[pos] += 1
        self.rank += sum(pos)
        if self.pairs is not None:
            for a in range(len(pos)):
                self.pairs[pos[a], pos[a + 1:]] += 1
        if self.sets is not None:
            self.sets[tuple(pos)] += 1

    def uniform(self, where):
        """Is this what uniformly random k-subsets of N look like?"""
        N, k, T = self.N, self.k, self.T
        if k >= N:
            return 0
        tests = 0
        for i in range(N):
            binomial(int(self.c[i]), T, k / N, N, 'not-uniform', f'{where}: offer {i + 1} of {N} kept in a bucket of {k}')
            tests += 1
        if self.pairs is not None and k >= 2:
            pi = k * (k - 1) / (N * (N - 1))
            for i in range(N):
                for j in range(i + 1, N):
                    binomial(int(self.pairs[i, j]), T, pi, N * N, 'pairs-not-uniform', f'{where}: offers {i + 1} and {j + 1} of {N} both kept in a bucket of {k}')
                    tests += 1
        if self.sets is not None:
            C = math.comb(N, k)
            for s, x in sorted(self.sets.items()):
                binomial(x, T, 1 / C, C, 'subsets-not-uniform', f'{where}: offers {[i + 1 for i in s]} of {N} kept together in a bucket of {k}')
            tests += C
        if T * min(k, N - k) * 1.0 >= 400:
            var = T * k * (N - k) * (N + 1) / 12
            z = (self.rank - T * k * (N - 1) / 2) / math.sqrt(var)
            gauss(z, 'not-uniform', f'{where}: {N} offers, bucket of {k}: mean rank of the kept offers over {T} trials ({"late" if z > 0 else "early"} offers favoured)')
            tests += 1
        pi = k / N
        if T * min(pi, 1 - pi) >= 100 and N > 2:
            chi = (N - 1) / N * float(((self.c - T * pi) ** 2).sum()) / (T * pi * (1 - pi))
            d = N - 1
            z = ((chi / d) ** (1 / 3) - (1 - 2 / (9 * d))) / math.sqrt(2 / (9 * d))
            if z > 8.5:
                raise Violation('not-uniform', f'{where}: {N} offers, bucket of {k}: inclusion counts over {T} trials are {z:.1f} deviations from uniform')
            tests += 1
        return tests


def chao_law(ws, k):
    """Exact inclusion and pair probabilities of the weighted reservoir: an item arriving at a full bucket replaces a uniformly chosen slot with
    probability min(1, k w / W), W the total weight seen including its own."""
    N = len(ws)
    W, p = 0.0, []
    for i, w in enumerate(ws):
        W += w
        p.append(1.0 if i < k else (min(1.0, k * w / W) if W > 0 else 0.0))
    inc = []
    for i in range(N):
        x = p[i]
        for j in range(max(i + 1, k), N):
            x *= 1 - p[j] / k
        inc.append(x)
    pair = {}
    if N <= 40:
        for i in range(N):
            x = p[i]
            for j in range(i + 1, N):
                if j < k:
                    both = 1.0
                    start = k
                else:
                    both = x * p[j] * (1 - 1 / k)
                    start = j + 1
                    x *= 1 - p[j] / k
                for m in range(start, N):
                    both *= 1 - 2 * p[m] / k
                pair[i, j] = both
    return p, inc, pair


def noise():
    """Everything the code must not depend on."""
    random.seed(random.getrandbits(20))
    np.random.seed(random.getrandbits(20))
