"""Properties C16 and C30: fixed points, centroids and cluster counts of the k-means family."""
import itertools
import math

import numpy as np

from .clustering import crash
from .common import Res, call, parallel
from .domain import DATA, NEAR, GENERIC, IDS, build, closures, grid, sparse60, manager, mcase, model, partition, run, structured, vectors
from .model import CL, ML

# ------------------------------------------------------------------------------------------------ reference transition system
# One state of constrained k-means is the set of centroids of a partition (or an initial draw). A step assigns the
# MUST_LINK groups one after the other to a nearest allowed centroid (every tie is explored), opens a new cluster when
# none is allowed, and recomputes the means. Coordinates are scaled by lcm(1..n), so that all means are integers, all
# arithmetic is exact and ties are real ties. Cluster labels are symmetric, so states are partitions.


def scaled(case):
    n = len(case["ids"])
    f = math.lcm(*range(1, n + 1))
    return {i: tuple(int(x) * f for x in p) for i, p in zip(case["ids"], case["pts"])}


def mean(pts):
    return tuple(sum(col) // len(pts) for col in zip(*pts))


def d2(a, b):
    return sum((x - y) ** 2 for x, y in zip(a, b))


class Ref:
    def __init__(self, case, m, nb, seq, tol=None):
        self.ids, self.pos = case["ids"], scaled(case)
        # a pass may be the last one when no centroid moved, or when every centroid moved by less than `tol`
        unit = math.lcm(*range(1, len(self.ids) + 1)) * case.get("den", 1)
        self.slack = None if tol is None else (tol * unit) ** 2
        self.nb = min(nb, len(self.ids))
        self.order, self.group, seen = [], {}, set()
        for x in seq:
            if x not in seen:
                g = next(g for g in m.groups() if x in g)
                self.group[x] = tuple(sorted(g))
                self.order.append(x)
                seen |= set(g)
        self.banned_by = {x: [y for y in self.order if m.rel(x, y) == CL] for x in self.order}
        self.cache = {}
        self.states = self.transitions = 0

    def settled(self, new, old):
        return new == old if self.slack is None else new == old or d2(new, old) < self.slack

    def step(self, cents):
        """cents: tuple of points. -> (set of next partitions, set of those reached with unchanged centroids)."""
        if cents in self.cache:
            return self.cache[cents]
        order, K = self.order, len(cents)
        finals = set()

        def rec(k, assigned, fresh):
            if k == len(order):
                finals.add(tuple(assigned[x] for x in order))
                return
            rep = order[k]
            banned = {assigned[y] for y in self.banned_by[rep] if y in assigned}
            free = [c for c in range(K) if c not in banned]
            if not free:
                choices = [fresh]
                fresh += 1
            else:
                ds = [d2(self.pos[rep], cents[c]) for c in free]
                best = min(ds)
                choices = [c for c, v in zip(free, ds) if v == best]
            for c in choices:
                assigned[rep] = c
                rec(k + 1, assigned, fresh)
                del assigned[rep]

        rec(0, {}, K)
        nxt, stay = set(), set()
        for f in finals:
            parts = {}
            for x, c in zip(order, f):
                parts.setdefault(c, []).extend(self.group[x])
            p = frozenset(frozenset(v) for v in parts.values())
            nxt.add(p)
            if set(parts) == set(range(K)) and all(self.settled(mean([self.pos[i] for i in parts[c]]), cents[c]) for c in range(K)):
                stay.add(p)
        self.cache[cents] = (nxt, stay)
        self.states += 1
        self.transitions += len(nxt)
        return self.cache[cents]

    def cents(self, p):
        return tuple(sorted(mean([self.pos[i] for i in c]) for c in p))

    def results(self, limit):
        """Partitions that may be returned from some initial draw with at most `limit` passes."""
        out, pending = set(), set()
        for draw in itertools.permutations(self.ids, self.nb):
            n, stay = self.step(tuple(sorted(self.pos[x] for x in draw)))
            pending |= n
            if self.slack is not None:
                out |= stay
        seen, trail, it = {}, [], 1
        while it < limit and pending:
            key = frozenset(pending)
            if key in seen:  # the set of pending states recurs: jump to the limit
                period = it - seen[key]
                pending = trail[seen[key] - 1 + (limit - seen[key]) % period]
                break
            seen[key] = it
            trail.append(key)
            nxt = set()
            for p in pending:
                n, stay = self.step(self.cents(p))
                out |= stay
                # the same partition may also be reached with other centroid labels, so it stays pending unless every way converges
                nxt |= n - stay if n == stay and self.slack is None else n
            pending = nxt
            it += 1
        return out | set(pending)

    def recurrent(self, p):
        """Can the run come back to partition p without converging there?"""
        frontier, seen = {p}, set()
        while frontier:
            nxt = set()
            for q in frontier:
                nxt |= self.step(self.cents(q))[0]
            if p in nxt:
                return True
            nxt -= seen
            seen |= nxt
            frontier = nxt
        return False


def reference(case, m, nb, limit, res=None, tol=None):
    results = set()
    for seq in (list(reversed(case["ids"])), list(case["ids"])):
        ref = Ref(case, m, nb, seq, tol)
        results |= ref.results(limit)
        if res is not None:
            res.add(states=ref.states, transitions=ref.transitions)
    return results


def fixed_point_problem(case, m, r):
    pos = scaled(case)
    parts = {}
    for i, c in r.items():
        parts.setdefault(c, []).append(pos[i])
    cents = {c: mean(v) for c, v in parts.items()}
    for g in m.groups():
        c = r[next(iter(g))]
        if not any(all(d2(pos[x], cents[k]) >= d2(pos[x], cents[c]) or any(r[y] == k and m.rel(x, y) == CL for y in case["ids"])
                       for k in cents) for x in g):
            return "group %r sits in cluster %r although each of its members is nearer to the centroid of an allowed cluster: %r" % (sorted(g), c, r)
    return None


def centroid_problem(case, r, exposed):
    pos = {i: [x / case.get("den", 1) for x in p] for i, p in zip(case["ids"], case["pts"])}
    if exposed is None or set(exposed) != set(r.values()):
        return "centroids are exposed for %r, but the labels are %r" % (exposed and sorted(exposed), sorted(set(r.values())))
    for c in set(r.values()):
        want = np.mean([pos[i] for i in r if r[i] == c], axis=0)
        got = exposed[c]
        got = np.asarray(got.toarray() if hasattr(got, "toarray") else got, dtype=float).ravel()
        if got.shape != want.shape or not np.allclose(got, want, rtol=1e-7, atol=1e-7):
            return "centroid of cluster %r is %r instead of %r" % (c, got.tolist(), want.tolist())
    return None


def c16_one(case, res, outcomes=None):
    m = model(case)
    st, r, inst = run(case)
    res.add(traces=1)
    if st != "ok":
        return res.problem(case, crash(case, st, r))
    p = centroid_problem(case, r, getattr(inst, "centroids", None))
    if p:
        return res.problem(case, p)
    if case["par"].get("max_iteration", 150) == 150 and case["par"].get("tolerance", 1e-4) <= 1e-4:
        p = fixed_point_problem(case, m, r)
        if p:
            # allowed only if the iteration limit stopped it, i.e. if k-means goes round in circles through this result
            if not any(Ref(case, m, case["nb"], seq).recurrent(partition(r)) for seq in (list(reversed(case["ids"])), list(case["ids"]))):
                return res.problem(case, p)
            res.count("stopped_by_iteration_limit")
    if outcomes is not None and partition(r) not in outcomes:
        return res.problem(case, "constrained k-means cannot reach %r from any initial centroids drawn among the data" % (sorted(map(sorted, partition(r))),))
    res.outcome((case["nb"], partition(r)))


def c16_case(case, res):
    """One instance: the reference transition system is explored completely, then the code runs with several seeds."""
    m = model(case)
    for par in case["pars"]:
        limit = par.get("max_iteration", 150)
        outs = reference(case, m, case["nb"], limit, res, par.get("tolerance")) if case["reach"] else None
        for s in case["seeds"]:
            c = {"ids": case["ids"], "led": case["led"], "pts": case["pts"], "algo": "kmeans", "par": par, "nb": case["nb"], "seed": s, "den": case.get("den", 1)}
            n0 = len(res.problems)
            c16_one(c, res, outs)
            if len(res.problems) > n0:
                # report the whole instance so that replay recomputes the reference
                c0, msg = res.problems.pop()
                return res.problem(dict(case, pars=[par], seeds=[s]), msg)
    res.add(states=1)


DEN = 100000


def near(n):
    """Numerators of the near-tie data; kept coarse enough that no shift of centroids falls below the tolerance."""
    return [[[round(x * DEN) for x in p] for p in pts] for pts in NEAR[n] if max(x for p in pts for x in p) >= 1]


def c16_cases(tier):
    T = tier == "thorough"
    base = {"algo": "kmeans", "reach": True}
    every = [{}, {"max_iteration": 1}, {"max_iteration": 2}, {"max_iteration": 3}]
    for n in (2, 3):
        for led in closures(n):
            for pts in list(DATA[n]) + list(grid(n, (0, 1, 4))):
                for nb in range(2, n + 2):
                    yield dict(base, ids=IDS[n], led=led, pts=pts, nb=nb, pars=every, seeds=list(range(4)) + [None])
    sets = list(DATA[4]) + [GENERIC[4]] + (list(grid(4, (0, 1, 5))) if T else [])
    for i, pts in enumerate(sets):
        for k, led in enumerate(closures(4)):
            for nb in (2, 3, 4):
                if T or (i + k) % 2 == 0:
                    yield dict(base, ids=IDS[4], led=led, pts=pts, nb=nb, pars=[{}] + ([every[1 + k % 3]] if k % 4 == 0 else []),
                               seeds=list(range(8 if T else 3)) + [None])
    for n in (3, 4, 5):  # coarse tolerances: a run may stop early only after a pass that moved every centroid by less than that
        for i, pts in enumerate(list(DATA[n]) + [GENERIC[n]]):
            for k, led in enumerate(closures(n)):
                for nb in range(2, n):
                    if n == 3 or T or (i + k + nb) % (3, 80)[n - 4] == 0:
                        yield dict(base, ids=IDS[n], led=led, pts=pts, nb=nb, pars=[{"tolerance": 0.4}, {"tolerance": 2.0}], seeds=list(range(8 if n < 5 else 12)))
    for n in (3, 4):  # nearly equal distances
        for i, pts in enumerate(near(n)):
            for k, led in enumerate(closures(n)):
                for nb in range(2, n + 1):
                    yield dict(base, ids=IDS[n], led=led, pts=pts, den=DEN, nb=nb, pars=[{}], seeds=list(range(6 if T else 4)))
    for i, pts in enumerate(DATA[5]):
        for k, led in enumerate(closures(5)):
            if T or (k + i) % 15 == 0:
                yield dict(base, ids=IDS[5], led=led, pts=pts, nb=2 + k % 3, pars=[{}], seeds=[0, 1, 2])
    for n in (6, 8, 9):
        for j, led in enumerate(structured(n)):
            for pts in DATA[n]:
                for nb in (2, 3, 4, 6):
                    yield dict(base, reach=False, ids=IDS[n], led=led, pts=pts, nb=nb,
                               pars=[{}, {"max_iteration": 1}, {"tolerance": 50.0}], seeds=[j % 3] if not T else list(range(5)))
    for n in (12, 20):
        for j, led in enumerate(structured(n)):
            for i, pts in enumerate(DATA[n]):
                for nb in (2, 5, 11, n - 1):
                    if T or (i + j + nb) % (4 if n == 12 else 12) == 0:
                        yield dict(base, reach=False, ids=IDS[n], led=led, pts=pts, nb=nb, pars=[{}, {"max_iteration": 2}], seeds=[j % 3])
    for j, led in enumerate(sparse60()):
        for i, pts in enumerate(DATA[60]):
            if T or (i + j) % 2 == 0:
                yield dict(base, reach=False, ids=IDS[60], led=led, pts=pts, nb=(3, 8)[j % 2], pars=[{}, {"max_iteration": 2}], seeds=[j % 3])


# ------------------------------------------------------------------------------------------------ C30
def c30_case(case, res):
    st, r, inst = run(case)
    res.add(states=1, transitions=1, traces=1)
    if st != "ok":
        return res.problem(case, crash(case, st, r))
    want = min(case["nb"], len(case["ids"]))
    if len(set(r.values())) != want or min(r.values()) < 0:
        return res.problem(case, "%d clusters asked, labels %r" % (case["nb"], r))
    pos = dict(zip(case["ids"], case["pts"]))
    means = sorted(tuple(float(x) for x in np.mean([pos[i] for i in r if r[i] == c], axis=0)) for c in set(r.values()))
    cc = np.asarray(inst.cluster_centers, dtype=float)
    got = sorted(tuple(float(x) for x in row) for row in cc)
    if len(got) != len(means):
        return res.problem(case, "%d centers exposed for %d clusters" % (len(got), len(means)))
    # match as multisets (labels may be renamed by order, so pairs are matched through the clusters)
    left = list(got)
    for w in means:
        k = next((x for x in left if np.allclose(x, w, rtol=1e-7, atol=1e-7)), None)
        if k is None:
            return res.problem(case, "centers %r are not the means %r of the returned clusters" % (got, means))
        left.remove(k)
    res.outcome((case["nb"], partition(r)))


def c30_cases(tier):
    T = tier == "thorough"
    pars = [{}, {"max_iteration": 1}, {"w": 0}, {"w": 10}]
    for n in (2, 3):
        for led in closures(n):
            for pts in list(DATA[n]) + list(grid(n, (0, 1, 4))):
                for nb in range(2, n + 3):
                    for par in pars:
                        yield mcase(n, led, pts, "mpckmeans", nb, seed=nb, **par)
    for i, pts in enumerate(list(DATA[4]) + list(grid(4, (0, 1, 4) if T else (0, 1)))):
        for k, led in enumerate(closures(4)):
            for nb in (2, 3, 4, 5):
                for s in range(4 if T else 1):
                    yield mcase(4, led, pts, "mpckmeans", nb, seed=s + k % 4, **(pars[k % 4]))
    for i, pts in enumerate(DATA[5] + [GENERIC[5]]):
        for k, led in enumerate(closures(5)):
            if T or (i + k) % 4 == 0:
                for nb in (2, 3, 5) if not T else (2, 3, 4, 5):
                    yield mcase(5, led, pts, "mpckmeans", nb, seed=k % 3)
    for n in (6, 8, 9):
        for j, led in enumerate(structured(n)):
            for pts in DATA[n] + [[[i % 3] for i in range(n)], [[1, 2]] * n]:
                for nb in (2, 3, 4, n - 1, n):
                    yield mcase(n, led, pts, "mpckmeans", nb, seed=j % 3)
    for n in (12, 20):
        for j, led in enumerate(structured(n)):
            for i, pts in enumerate(DATA[n]):
                for nb in (2, 5, 11, n - 1, n):
                    if T or (i + j + nb) % (2 if n == 12 else 8) == 0:
                        yield mcase(n, led, pts, "mpckmeans", nb, seed=j % 3)
    for n in (3, 4):
        for led in closures(n):
            for pts in DATA[n]:
                for nb in range(2, n + 1):
                    yield mcase(n, led, pts, "mpckmeans", nb, seed=None)
    for j, led in enumerate(sparse60()):
        yield mcase(60, led, DATA[60][j % 2], "mpckmeans", 2 + j % 3, seed=j % 3)


FUNC = {"C16": c16_case, "C30": c30_case}


def check(pid, tier, res):
    parallel(pid, FUNC[pid], {"C16": c16_cases, "C30": c30_cases}[pid](tier), res=res)


def replay(pid, case):
    r = Res()
    FUNC[pid](case, r)
    return [m for _, m in r.problems]


RULES = {
    "C16": "for every constraint closure over n<=4 data (n=5 thinned in quick) x datasets x k: the transition system of constrained k-means (all initial draws, all ties, both processing orders, exact rational arithmetic) is explored completely to get the set of reachable partitions, and every result of the code (several seeds and iteration limits) must be one of them, be a fixed point and expose matching centroids; states/transitions = those of the reference system, traces = executions of the code",
    "C30": "every constraint closure over n<=4 data x datasets (duplicates, equidistant, generic) x k x settings, plus n=5 and structured n=6..9, each executed; outcomes = distinct (k, partition)",
}
ASSUMES = {
    "C16": ["integer coordinates: exact ties may be broken either way, anything else must match", "the group is placed by one of its members, groups are processed in list order or its reverse"],
    "C30": ["integer coordinates"],
}
