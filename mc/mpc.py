"""Property C31: MPCKMeans follows metric pairwise constrained k-means."""
import itertools
import math

import numpy as np

from .clustering import crash
from .common import Res, parallel
from .domain import DATA, GENERIC, IDS, NEAR, closures, grid, mcase, model, partition, run
from .model import CL, ML

# ------------------------------------------------------------------------------------------------ reference transition system
# A state is (partition with its centers, diagonal metric). One pass visits the data in some order (every order is
# explored, through the set of reachable partial labellings), sends each datum to a cluster of least cost (every cluster
# whose cost is equal up to rounding is explored), fills empty clusters, and recomputes centers and metric. Initial centers
# are explored for every random draw.
REL = 1e-7


def ties_min(vals):
    b = min(vals)
    tol = REL * max(1.0, max(abs(v) for v in vals))
    return [i for i, v in enumerate(vals) if v <= b + tol]


class Ref:
    def __init__(self, case, m, nb, w):
        self.ids = list(case["ids"])
        n = self.n = len(self.ids)
        self.X = [tuple(float(x) for x in p) for p in case["pts"]]
        self.D = len(self.X[0])
        self.k = min(nb, n)
        self.w = w
        idx = {x: i for i, x in enumerate(self.ids)}
        self.groups = [sorted(idx[x] for x in g) for g in m.groups()]
        self.ml = [[j for j in range(n) if j != i and m.rel(self.ids[i], self.ids[j]) == ML] for i in range(n)]
        self.cl = [[j for j in range(n) if m.rel(self.ids[i], self.ids[j]) == CL] for i in range(n)]
        self.states = self.transitions = 0
        self.cache = {}

    def d(self, a, b, A):
        return sum(A[t] * (a[t] - b[t]) ** 2 for t in range(self.D))

    def mean(self, members):
        return tuple(sum(self.X[i][t] for i in members) / len(members) for t in range(self.D))

    # -------- initial centers
    def starts(self):
        gc = [self.mean(g) for g in self.groups]
        G = len(gc)
        if G > self.k:
            wt = [len(g) / self.n for g in self.groups]
            out = set()

            def rec(chosen):
                if len(chosen) == self.k:
                    out.add(tuple(sorted(gc[c] for c in chosen)))
                    return
                rest = [j for j in range(G) if j not in chosen]
                cost = [-wt[j] * min(math.dist(gc[j], gc[c]) for c in chosen) for j in rest]
                for t in ties_min(cost):
                    rec(chosen + [rest[t]])

            for g in range(G):
                rec([g])
            return out
        return {tuple(sorted(gc + [self.X[i] for i in draw])) for draw in itertools.combinations(range(self.n), self.k - G)}

    # -------- one pass
    def assign(self, cents, A, far):
        n, K, w = self.n, self.k, self.w
        dc = [[self.d(self.X[i], c, A) for c in cents] for i in range(n)]
        dd = [[self.d(self.X[i], self.X[j], A) for j in range(n)] for i in range(n)]
        layer = {(-1,) * n}
        for _ in range(n):
            nxt = set()
            for lab in layer:
                for i in range(n):
                    if lab[i] >= 0:
                        continue
                    cost = []
                    for c in range(K):
                        v = dc[i][c]
                        for j in self.ml[i]:
                            if lab[j] >= 0 and lab[j] != c:
                                v += 2 * w * dd[i][j]
                        for j in self.cl[i]:
                            if lab[j] == c:
                                v += 2 * w * (far - dd[i][j])
                        cost.append(v)
                    for c in ties_min(cost):
                        nxt.add(lab[:i] + (c,) + lab[i + 1:])
                        self.transitions += 1
            layer = nxt
            self.states += len(layer)
        done, todo = set(), list(layer)
        while todo:
            lab = todo.pop()
            size = [lab.count(c) for c in range(K)]
            empty = [c for c in range(K) if not size[c]]
            if not empty:
                done.add(lab)
                continue
            cand = [i for i in range(n) if size[lab[i]] > 1]
            for t in ties_min([-dc[i][lab[i]] for i in cand]):
                for e in empty:
                    todo.append(lab[:cand[t]] + (e,) + lab[cand[t] + 1:])
        return done

    def metric(self, lab, cents, far):
        n, w, out = self.n, self.w, []
        for t in range(self.D):
            x = [p[t] for p in self.X]
            v = sum((x[i] - cents[lab[i]][t]) ** 2 for i in range(n))
            v += sum(0.5 * w * (x[i] - x[j]) ** 2 for i in range(n) for j in self.ml[i] if lab[i] != lab[j])
            v += sum(w * max((x[far[0]] - x[far[1]]) ** 2 - (x[i] - x[j]) ** 2, 0) for i in range(n) for j in self.cl[i] if lab[i] == lab[j])
            out.append(n / max(v, 1e-9))
        return tuple(out)

    def step(self, cents, A):
        """-> set of (partition, next centers, next metric, converged)."""
        key = (cents, A)
        if key in self.cache:
            return self.cache[key]
        pairs = [(i, j) for i in range(self.n) for j in range(i)]
        dist = [self.d(self.X[i], self.X[j], A) for i, j in pairs]
        best = ties_min([-v for v in dist]) if dist else []
        fars = [pairs[t] for t in best] if dist and max(dist) > 0 else [(0, 0)]
        far_d = max(dist) if dist else 0.0
        out = set()
        for lab in self.assign(cents, A, far_d):
            new = tuple(self.mean([i for i in range(self.n) if lab[i] == c]) for c in range(self.k))
            conv = all(abs(a - b) <= 1e-6 for x, y in zip(cents, new) for a, b in zip(x, y))
            p = frozenset(frozenset(self.ids[i] for i in range(self.n) if lab[i] == c) for c in range(self.k))
            for f in fars:
                B = tuple(float("%.9g" % v) for v in self.metric(lab, new, f))
                out.add((p, tuple(sorted(new)), B, conv))
        self.cache[key] = out
        return out

    def results(self, limit):
        out, pend = set(), {(None, c, (1.0,) * self.D) for c in self.starts()}
        seen, trail = {}, []
        for it in range(limit):
            if not pend:
                break
            key = frozenset(pend)
            if key in seen:
                period = it - seen[key]
                pend = trail[seen[key] + (limit - seen[key]) % period]
                break
            seen[key] = it
            trail.append(key)
            nxt = set()
            for _, c, A in pend:
                for p, c2, A2, conv in self.step(c, A):
                    if conv:
                        out.add(p)
                    else:
                        nxt.add((p, c2, A2))
            pend = nxt
        return out | {p for p, _, _ in pend if p is not None}


def c31_case(case, res):
    m = model(case)
    ref = Ref(case, m, case["nb"], case["par"].get("w", 1.0))
    want = ref.results(case["par"].get("max_iteration", 150))
    res.add(states=ref.states, transitions=ref.transitions)
    for s in case["seeds"]:
        c = dict(case, seed=s)
        st, r, _ = run(c)
        res.add(traces=1)
        if st != "ok":
            return res.problem(dict(case, seeds=[s]), crash(c, st, r))
        if partition(r) not in want:
            return res.problem(dict(case, seeds=[s]), "%r is none of the %d clusterings that MPCKMeans can reach for %d clusters" %
                               (sorted(map(sorted, partition(r))), len(want), case["nb"]))
        res.outcome((case["nb"], partition(r)))
    res.count("reachable_results", len(want))


def c31_cases(tier):
    T = tier == "thorough"
    pars = [{}, {"w": 0}, {"w": 0.25}, {"w": 5}, {"max_iteration": 1}, {"max_iteration": 2}, {"max_iteration": 3, "w": 0.5}]

    def mk(n, led, pts, nb, seeds, par):
        return dict(mcase(n, led, pts, "mpckmeans", nb, **par), seeds=list(range(seeds)) + [None])
    for n in (2, 3):
        for led in closures(n):
            for pts in list(DATA[n]) + list(grid(n, (0, 1, 4))):
                for nb in range(2, n + 2):
                    for par in pars:
                        yield mk(n, led, pts, nb, 4, par)
    two = [[[0, 0], [1, 6], [2, 1], [7, 3]], [[0, 0], [9, 1], [1, 2], [8, 4]]]
    for i, pts in enumerate(list(DATA[4]) + [GENERIC[4]] + two + (list(grid(4, (0, 1, 5))) if T else [])):
        for k, led in enumerate(closures(4)):
            for nb in (2, 3, 4):
                for j, par in enumerate(pars):
                    if T or (i + k) % len(pars) == j or (j == 0 and i >= 10):
                        yield mk(4, led, pts, nb, 8 if T else 4, par)
    for i, pts in enumerate(DATA[5] + [GENERIC[5]]):
        for k, led in enumerate(closures(5)):
            if T or (k + i) % 12 == 0:
                yield mk(5, led, pts, 2 + k % 3, 6, pars[(k // 12) % len(pars)])


def check(pid, tier, res):
    parallel(pid, c31_case, c31_cases(tier), res=res)


def replay(pid, case):
    r = Res()
    c31_case(case, r)
    return [m for _, m in r.problems]


RULES = {"C31": "for every constraint closure over n<=4 data (n=5 thinned in quick) x datasets x k x (w, iteration limit): the transition system of MPCKMeans (all initial draws, all visiting orders, all ties) is explored completely to get the set of reachable partitions, and every result of the code (several seeds) must be one of them; states/transitions = partial labellings and assignments of the reference system, traces = executions of the code"}
ASSUMES = {"C31": ["costs equal up to 1e-7 (relative) are ties and may be broken either way"]}
