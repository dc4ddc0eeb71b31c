"""Properties C10-C13 and C32: the clustering algorithms."""
import itertools
import json
import os
import random
import subprocess
import sys
from fractions import Fraction

import numpy as np

from . import common
from .common import Res, call, lib, parallel
from .domain import (DATA, GENERIC, IDS, LINKAGES, NEAR, sparse60, build, closures, grid, manager, mcase, model, partition, run, structured,
                     vectors)
from .model import CL, ML, Model, all_partitions, model_of


def is_int(x):
    return isinstance(x, (int, np.integer)) and not isinstance(x, (bool, np.bool_))


def crash(case, st, r):
    return "%s(%s) on %d data gave %s: %s" % (case["algo"], json.dumps(case["par"]), len(case["ids"]), st, r)


# ------------------------------------------------------------------------------------------------ C10
def canonical_labels(labels):
    """The labels 0,1,2,... in order of first appearance when IDs are sorted."""
    m, out = {}, {}
    for k in sorted(labels):
        out[k] = m.setdefault(labels[k], len(m))
    return out


def c10_case(case, res):
    st, r, inst = run(case)
    res.add(states=1, transitions=1, traces=1)
    if st != "ok":
        return res.problem(case, crash(case, st, r))
    if not isinstance(r, dict) or set(r) != set(case["ids"]) or len(r) != len(case["ids"]):
        return res.problem(case, "result %r does not label exactly %r" % (r, case["ids"]))
    if not all(isinstance(k, str) for k in r) or not all(is_int(v) for v in r.values()):
        return res.problem(case, "labels are not integers: %r" % (r,))
    reg = dict(r)
    if case["algo"] == "dbscan":
        noise = {k: v for k, v in r.items() if v < 0}
        reg = {k: v for k, v in r.items() if v >= 0}
        if len(set(noise.values())) != len(noise):
            return res.problem(case, "noise labels are not distinct: %r" % (r,))
    if {k: int(v) for k, v in reg.items()} != canonical_labels(reg):
        return res.problem(case, "labels are not canonical: %r" % (r,))
    res.outcome((case["algo"], tuple(sorted(r.values()))))


def c10_rename(case, res):
    f = lib("clustering.abstract").rename_clusters_by_order
    d = dict(case["clusters"])
    st, r = call(f, clusters=d)
    res.add(states=1, transitions=1, traces=1)
    if st != "ok":
        return res.problem(case, "renaming %r gave %s %s" % (d, st, r))
    if dict(r) != canonical_labels(dict(case["clusters"])):
        return res.problem(case, "renaming %r gave %r" % (case["clusters"], r))
    if d != dict(case["clusters"]):
        return res.problem(case, "renaming modified its input")
    res.outcome(tuple(r.values()))


ALGOS_NB = ("kmeans", "hierarchical", "spectral", "mpckmeans")


def configs(tier, n):
    T = tier == "thorough"
    out = []
    for nb in range(2, n + 2):
        out += [("kmeans", nb, {})]
        out += [("hierarchical", nb, {"linkage": l}) for l in LINKAGES]
        out += [("spectral", nb, {})]
        out += [("mpckmeans", nb, {})]
    out += [("ap", None, {}), ("ap", None, {"absolute_must_links": False}), ("ap", None, {"max_iteration": 1}),
            ("ap", None, {"max_iteration": 5, "convergence_iteration": 1})]
    out += [("dbscan", None, {"eps": e, "min_samples": s}) for e in (0.5, 1, 4, 9.5) for s in (1, 2, 3, 5)]
    return out


def c10_cases(tier):
    T = tier == "thorough"
    for n in (2, 3, 4):
        sets = list(DATA[n]) + (list(grid(n, (0, 1, 4))) if n < 4 else [])
        for algo, nb, par in configs(tier, n):
            slow = algo in ("kmeans", "spectral", "ap")
            for i, pts in enumerate(sets):
                if n == 4 and slow and not T and i not in (0, 2, 5, 8, 9):
                    continue
                if n == 4 and algo == "hierarchical" and not T and i % 2:
                    continue
                if slow and nb is not None and nb == n + 1 and n == 4 and not T:
                    continue
                for k, led in enumerate(closures(n)):
                    if n == 4 and not T and slow and k % 2 and i:
                        continue
                    yield mcase(n, led, pts, algo, nb, seed=k % 3, **par)
    # no random seed: any draw has to give a valid result
    for n in (3, 4):
        for algo, nb, par in configs(tier, n):
            for i, pts in enumerate(DATA[n]):
                for k, led in enumerate(closures(n)):
                    if n == 3 or (i + k) % (2 if T else 9) == 0:
                        yield mcase(n, led, pts, algo, nb, seed=None, **par)
    # single datum (spectral clustering of one datum is not defined)
    for algo, nb, par in configs(tier, 1):
        if algo != "spectral":
            yield mcase(1, [], [[3]], algo, nb if nb is None else 2, **par)
    for n in (8, 9):
        for led in structured(n):
            for algo, nb, par in (("kmeans", 3, {}), ("hierarchical", 3, {}), ("spectral", 3, {}), ("mpckmeans", 3, {}),
                                  ("ap", None, {}), ("dbscan", None, {"eps": 9, "min_samples": 2})):
                yield mcase(n, led, DATA[n][0], algo, nb, **par)
    for n in (12, 20):
        for k, led in enumerate(structured(n)):
            for i, pts in enumerate(DATA[n]):
                for algo, nb, par in (("kmeans", 3, {}), ("kmeans", n - 1, {}), ("hierarchical", 3, {}), ("hierarchical", n - 1, {"linkage": "single"}),
                                      ("spectral", 3, {}), ("mpckmeans", 3, {}), ("mpckmeans", n - 3, {}),
                                      ("ap", None, {}), ("dbscan", None, {"eps": 9, "min_samples": 2})):
                    if T or algo != "kmeans" or (k + i + nb) % (4 if n == 12 else 12) == 0:
                        yield mcase(n, led, pts, algo, nb, seed=k % 3, **par)
    for k, led in enumerate(sparse60()):
        for pts in DATA[60]:
            for algo, nb, par in (("kmeans", 4, {}), ("hierarchical", 3 + k, {"linkage": LINKAGES[k % 4]}), ("spectral", 3, {}), ("mpckmeans", 3, {}),
                                  ("ap", None, {}), ("dbscan", None, {"eps": 9, "min_samples": 2})):
                yield mcase(60, led, pts, algo, nb, seed=k % 3, **par)
    if T:
        for led in closures(5):
            for pts in DATA[5]:
                for algo, nb, par in configs(tier, 5):
                    if algo in ("hierarchical", "dbscan", "mpckmeans") or (pts is DATA[5][0] and nb in (None, 2, 3)):
                        yield mcase(5, led, pts, algo, nb, **par)


def c10(tier, res):
    parallel("c10", c10_case, c10_cases(tier), res=res)
    if res.problems:
        return
    L = (-2, -1, 0, 1, 3, 7)
    cases = []
    for n in range(0, 6 if tier == "thorough" else 5):
        ids = ["b", "10", "é", "9", ""][:n]
        cases += [{"kind": "rename", "clusters": list(map(list, zip(ids, v)))} for v in itertools.product(L, repeat=n)]
    cases += [{"kind": "rename", "clusters": [[str(i), (i * 7) % 12] for i in range(25)]}]
    parallel("c10r", c10_rename, cases, res=res)


# ------------------------------------------------------------------------------------------------ C11 / C12
def violations(m, r):
    for a, b, t in m.known_pairs():
        if t == ML and r[a] != r[b]:
            yield "MUST_LINK", a, b
        if t == CL and r[a] == r[b]:
            yield "CANNOT_LINK", a, b


def strict_case(only=None):
    def f(case, res):
        m = model(case)
        st, r, inst = run(case)
        res.add(states=1, transitions=1, traces=1)
        if st != "ok":
            return res.problem(case, crash(case, st, r))
        for t, a, b in violations(m, r):
            if only is None or t == only:
                return res.problem(case, "%s between %r and %r violated by %r" % (t, a, b, r))
        res.outcome((case["algo"], len(set(r.values())), len(m.groups())))
    return f


def c11_cases(tier):
    T = tier == "thorough"
    for n in (2, 3):
        for led in closures(n):
            for pts in list(DATA[n]) + list(grid(n, (0, 1, 4))):
                for nb in range(2, n + 2):
                    for l in LINKAGES:
                        yield mcase(n, led, pts, "hierarchical", nb, linkage=l)
                    for s in range(3 if n == 3 else 1):
                        yield mcase(n, led, pts, "kmeans", nb, seed=s)
    led4 = closures(4)
    for i, pts in enumerate(list(DATA[4]) + (list(grid(4, (0, 1, 4))) if T else [])):
        for k, led in enumerate(led4):
            for nb in (2, 3, 4):
                for l in LINKAGES:
                    yield mcase(4, led, pts, "hierarchical", nb, linkage=l)
            if T or i in (0, 1, 2, 5, 8, 9):
                for nb in (2, 3, 4):
                    yield mcase(4, led, pts, "kmeans", nb, seed=(k + i) % 4)
    for i, pts in enumerate(DATA[5] if T else DATA[5][:2]):
        for k, led in enumerate(closures(5)):
            if T or i == 0:
                for l in LINKAGES:
                    yield mcase(5, led, pts, "hierarchical", 2 + (k % 2), linkage=l)
            if T or (i == 0 and k % 2) or (i == 1 and k % 2 == 0):
                for nb in ((2, 3) if T else (2,)):
                    yield mcase(5, led, pts, "kmeans", nb, seed=k % 5)
    for n in (8, 9):
        for led in structured(n):
            for nb in (2, 3, 4, 6):
                for l in LINKAGES:
                    yield mcase(n, led, DATA[n][0], "hierarchical", nb, linkage=l)
                for s in (0, 1) if not T else range(6):
                    yield mcase(n, led, DATA[n][0], "kmeans", nb, seed=s)
    for n in (12, 20):
        for k, led in enumerate(structured(n)):
            for i, pts in enumerate(DATA[n]):
                for nb in (2, 5, 11, n):
                    yield mcase(n, led, pts, "hierarchical", nb, linkage=LINKAGES[(k + i) % 4])
                    if T or (k + i + nb) % (4 if n == 12 else 12) == 0:
                        yield mcase(n, led, pts, "kmeans", nb, seed=k % 3)
    for k, led in enumerate(sparse60()):
        for i, pts in enumerate(DATA[60]):
            for nb in (2, 7, 30):
                yield mcase(60, led, pts, "hierarchical", nb, linkage=LINKAGES[(k + i) % 4])
                if nb < 30 or T:
                    yield mcase(60, led, pts, "kmeans", nb, seed=k % 3)
    # no random seed
    for n in (3, 4):
        for led in closures(n):
            for pts in DATA[n][:3]:
                for nb in range(2, n + 1):
                    yield mcase(n, led, pts, "kmeans", nb, seed=None)
    # iteration limits and tolerances
    for led in led4:
        for par in ({"max_iteration": 1}, {"max_iteration": 2}, {"tolerance": 0}, {"tolerance": 100.0}):
            yield mcase(4, led, DATA[4][0], "kmeans", 2, seed=1, **par)
    if T:
        for k, led in enumerate(closures(6)):
            yield mcase(6, led, DATA[6][k % 3], "hierarchical", 2 + k % 3, linkage=LINKAGES[k % 4])


def c12_cases(tier):
    T = tier == "thorough"
    params = [{}, {"max_iteration": 1}, {"max_iteration": 3, "convergence_iteration": 1}, {"max_iteration": 30, "convergence_iteration": 5}]
    for n in (1, 2, 3):
        for led in (closures(n) if n > 1 else [[]]):
            for pts in (list(DATA[n]) if n > 1 else [[[1]]]) + list(grid(n, (0, 1, 4))):
                for par in params:
                    yield mcase(n, led, pts, "ap", None, **par)
    for i, pts in enumerate(list(DATA[4]) + list(grid(4, (0, 1, 4) if T else (0, 1)))):
        for k, led in enumerate(closures(4)):
            for j, par in enumerate(params):
                if T or j == 0 or (j == 1 + k % 3 and i < 11):
                    yield mcase(4, led, pts, "ap", None, seed=k % 3, **par)
    for n in (3, 4):
        for led in closures(n):
            for pts in DATA[n]:
                yield mcase(n, led, pts, "ap", None, seed=None)
    for i, pts in enumerate(DATA[5]):
        for k, led in enumerate(closures(5)):
            if T or i == k % 5:
                yield mcase(5, led, pts, "ap", None, seed=k % 2)
    for n in (8, 9):
        for led in structured(n):
            for pts in (DATA[n][0], [[i % 2] for i in range(n)], [[5]] * n):
                yield mcase(n, led, pts, "ap", None)
                yield mcase(n, led, pts, "ap", None, max_iteration=12)
    for n in (12, 20):
        for k, led in enumerate(structured(n)):
            for pts in DATA[n]:
                yield mcase(n, led, pts, "ap", None, seed=k % 3)
                yield mcase(n, led, pts, "ap", None, max_iteration=25, convergence_iteration=3)
    for k, led in enumerate(sparse60()):
        for pts in DATA[60]:
            yield mcase(60, led, pts, "ap", None, seed=k % 3)


# ------------------------------------------------------------------------------------------------ C13
def c13_case(case, res):
    m = model(case)
    st, r, inst = run(case)
    res.add(states=1, transitions=1, traces=1)
    if st != "ok":
        return res.problem(case, crash(case, st, r))
    neg = [v for v in r.values() if v < 0]
    reg = {v for v in r.values() if v >= 0}
    if len(set(neg)) != len(neg):
        return res.problem(case, "two noise points share a label: %r" % (r,))
    got = (inst.number_of_regular_clusters, inst.number_of_single_noise_point_clusters, inst.number_of_clusters)
    if tuple(map(int, got)) != (len(reg), len(neg), len(reg) + len(neg)):
        return res.problem(case, "numbers of clusters %r do not match %r" % (got, r))
    vs = list(violations(m, r))
    for t, a, b in vs:
        if t == CL:
            return res.problem(dict(case, violated=[t, a, b]), "CANNOT_LINK between %r and %r violated by %r" % (a, b, r))
    for t, a, b in vs:
        return res.problem(dict(case, violated=[t, a, b]), "MUST_LINK between %r and %r violated by %r" % (a, b, r))
    res.outcome((len(reg), len(neg), len(m.groups())))


def c13_cases(tier):
    T = tier == "thorough"
    P = [{"eps": e, "min_samples": s} for e in (0.5, 1, 4, 9.5) for s in (1, 2, 3)]
    for n in (1, 2, 3):
        for led in (closures(n) if n > 1 else [[]]):
            for pts in (list(DATA[n]) if n > 1 else [[[1]]]) + list(grid(n, (0, 1, 4))):
                for par in P:
                    yield mcase(n, led, pts, "dbscan", None, **par)
    for pts in DATA[4]:
        for led in closures(4):
            for par in P:
                yield mcase(4, led, pts, "dbscan", None, **par)
    for n in (8, 9):
        for led in structured(n):
            for par in ({"eps": 4, "min_samples": 2}, {"eps": 9, "min_samples": 2}, {"eps": 9, "min_samples": 3}, {"eps": 30, "min_samples": 3}):
                yield mcase(n, led, DATA[n][0], "dbscan", None, **par)
    for led in structured(12):
        for pts in DATA[12]:
            for par in ({"eps": 3, "min_samples": 2}, {"eps": 17, "min_samples": 3}):
                yield mcase(12, led, pts, "dbscan", None, **par)
    if T:
        for led in closures(5):
            for pts in DATA[5]:
                for par in ({"eps": 1, "min_samples": 2}, {"eps": 4, "min_samples": 3}, {"eps": 9.5, "min_samples": 2}):
                    yield mcase(5, led, pts, "dbscan", None, **par)


# ------------------------------------------------------------------------------------------------ C32
def c32_case(case, res):
    """Clusters only join data linked by steps of at most eps or MUST_LINK; data without dense neighbourhood are noise."""
    m = model(case)
    st, r, inst = run(case)
    res.add(states=1, transitions=1, traces=1)
    if st != "ok":
        return res.problem(case, crash(case, st, r))
    ids, pos, par = case["ids"], dict(zip(case["ids"], case["pts"])), case["par"]
    e2 = Fraction(str(par["eps"])) ** 2
    near = {i: {j for j in ids if sum((Fraction(str(x)) - Fraction(str(y))) ** 2 for x, y in zip(pos[i], pos[j])) <= e2} for i in ids}
    comp = {}
    for i in ids:
        if i not in comp:
            comp[i], todo = i, [i]
            while todo:
                x = todo.pop()
                for y in ids:
                    if y not in comp and (y in near[x] or m.rel(x, y) == ML):
                        comp[y] = i
                        todo.append(y)
    for a, b in itertools.combinations(ids, 2):
        if r[a] == r[b] and comp[a] != comp[b]:
            return res.problem(case, "%r and %r share a cluster although nothing within eps=%r nor any MUST_LINK leads from one to the other: %r" % (a, b, par["eps"], r))
    for i in ids:
        if r[i] >= 0 and not any(len(near[j]) >= par["min_samples"] for j in near[i]) and not any(j != i and m.rel(i, j) == ML for j in ids):
            return res.problem(case, "%r has no dense neighbourhood and no MUST_LINK but is not noise: %r" % (i, r))
    # conversely: without CANNOT_LINK around, a dense neighbourhood is never noise; an isolated, unconstrained ball is one cluster
    step = {}
    for i in ids:
        if i not in step:
            K, todo = {i}, [i]
            while todo:
                new = near[todo.pop()] - K
                K |= new
                todo.extend(new)
            step.update({x: frozenset(K) for x in K})
    for K in set(step.values()):
        if any(m.rel(x, y) == CL for x in K for y in ids):
            continue
        for i in sorted(K):
            if r[i] < 0 and any(len(near[j]) >= par["min_samples"] for j in near[i]):
                return res.problem(case, "%r has a dense neighbourhood and no CANNOT_LINK around, but is noise: %r" % (i, r))
        if len(K) >= par["min_samples"] and all(near[x] == K for x in K) and not any(x != y and m.rel(x, y) == ML for x in K for y in ids):
            if len({r[x] for x in K}) != 1 or any(r[y] == r[x] for x in K for y in ids if y not in K):
                return res.problem(case, "the unconstrained data %r, all within eps of each other and of no other, are not one cluster: %r" % (sorted(K), r))
            res.count("isolated_balls")
    res.outcome((len(set(comp.values())), len(set(r.values())), sum(v < 0 for v in r.values())))


def c32_cases(tier):
    T = tier == "thorough"
    P = [{"eps": e, "min_samples": s} for e in (0.5, 1, 2, 4, 9.5) for s in (1, 2, 3, 4, 5)]
    for n in (2, 3):
        for led in closures(n):
            for pts in list(DATA[n]) + list(grid(n, (0, 1, 4))) + [p for p in NEAR[3] if n == 3]:
                for par in P:
                    yield mcase(n, led, pts, "dbscan", None, **par)
    for i, pts in enumerate(DATA[4] + NEAR[4] + (list(grid(4, (0, 1, 2, 5))) if T else [])):
        for k, led in enumerate(closures(4)):
            for j, par in enumerate(P):
                if T or (i + k + j) % 2 == 0:
                    yield mcase(4, led, pts, "dbscan", None, **par)
    for i, pts in enumerate(DATA[5] + NEAR[5]):
        for k, led in enumerate(closures(5)):
            for j, par in enumerate(P):
                if T or (i + k + j) % 24 == 0:
                    yield mcase(5, led, pts, "dbscan", None, **par)
    for n in (6, 8, 9, 12, 20, 60):
        for k, led in enumerate(sparse60() if n == 60 else [[]] + list(structured(n))):
            for pts in DATA[n]:
                for j, par in enumerate([{"eps": e, "min_samples": s} for e in (2, 4, 9, 17, 30) for s in (1, 2, 3, 5)]):
                    if T or not led or (j + k) % 4 == 0:
                        yield mcase(n, led, pts, "dbscan", None, **par)


# ------------------------------------------------------------------------------------------------ dispatch
def check(pid, tier, res):
    if pid == "C10":
        c10(tier, res)
    elif pid == "C11":
        parallel("c11", strict_case(), c11_cases(tier), res=res)
    elif pid == "C12":
        parallel("c12", strict_case(ML), c12_cases(tier), res=res)
    elif pid == "C13":
        parallel("c13", c13_case, c13_cases(tier), res=res, maxp=10**9, stop_on_problem=False)
    elif pid == "C32":
        parallel("c32", c32_case, c32_cases(tier), res=res)


def replay(pid, case):
    r = Res()
    if pid == "C10":
        (c10_rename if case.get("kind") == "rename" else c10_case)(case, r)
    elif pid == "C11":
        strict_case()(case, r)
    elif pid == "C12":
        strict_case(ML)(case, r)
    elif pid == "C13":
        c13_case(case, r)
    elif pid == "C32":
        c32_case(case, r)
    return [m for _, m in r.problems]


RULES = {
    "C10": "every constraint closure over n<=4 data x datasets x every algorithm configuration (plus structured n=8,9,12,20; n=5 in thorough), each executed on the real code; every label dictionary over 6 label values and up to 5 IDs for the renaming; outcomes = distinct (algorithm, label multiset)",
    "C11": "every constraint closure over n<=5 data x datasets x numbers of clusters x 4 linkages / several k-means seeds, and structured states over 8-20 data, each executed and compared pair by pair with the closure model; outcomes = distinct (algorithm, clusters, groups)",
    "C12": "every constraint closure over n<=5 data x datasets (equidistant, duplicate and generic) x iteration limits, executed and compared pair by pair with the closure model",
    "C32": "every constraint closure over n<=4 data (n=5 thinned in quick) x datasets x (eps, min_samples), plus structured states over 6-20 data, executed and compared with the exact graph of steps of at most eps and MUST_LINK",
    "C13": "every constraint closure over n<=4 data x datasets x (eps, min_samples), plus structured states over 8-20 data, executed and compared with the closure model and with the reported counts",
}
ASSUMES = {
    "C10": ["spectral clustering of a single datum is not defined by scikit-learn and is left out", "a call that uses more than 30 s of CPU time is taken not to terminate (normal calls take milliseconds)"],
    "C11": ["datasets have small integer coordinates"],
    "C12": ["the default mode absolute_must_links=True"],
    "C32": ["distances to compare with eps are exact (integer or five-decimal coordinates)"],
    "C13": ["the MUST_LINK half is known not to hold for the inputs listed in known_findings.json"],
}
