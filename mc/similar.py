"""Property C17: spectral clustering and affinity propagation on the constraint-adjusted similarity."""
import warnings

import numpy as np
from sklearn.cluster import SpectralClustering, affinity_propagation

from .clustering import crash
from .common import Res, parallel
from .domain import DATA, GENERIC, IDS, closures, mcase, model, partition, run, structured
from .model import CL, ML


def labels_partition(ids, labels):
    return partition(dict(zip(ids, [int(x) for x in labels])))


def spectral_reference(case, m):
    """The partition scikit-learn gives on the documented similarity, or None when it is not unambiguous."""
    ids = case["ids"]
    X = np.array(case["pts"], dtype=float)
    D2 = ((X[:, None, :] - X[None, :, :]) ** 2).sum(axis=2)
    S = np.exp(-D2 / X.shape[1])
    for i, a in enumerate(ids):
        for j, b in enumerate(ids):
            t = m.rel(a, b)
            if t == ML:
                S[i, j] = 1.0
            elif t == CL:
                S[i, j] = 0.0
    out = set()
    n = len(ids)
    # eigengap: without one, the embedding itself is arbitrary
    A = S - np.diag(np.diag(S))
    deg = A.sum(axis=1)
    if (deg < 1e-9).any():
        return None
    L = np.eye(n) - A / np.sqrt(np.outer(deg, deg))
    ev = np.sort(np.linalg.eigvalsh(L))
    k = min(case["nb"], n)
    if k < n and ev[k] - ev[k - 1] < 1e-2:
        return None
    pert = np.array([[((i * 7 + j * 7 + (i * j) * 3) % 11) / 11.0 - 0.5 for j in range(n)] for i in range(n)])
    for k, seed in enumerate((case["seed"], 0, 1, 2, 3, 4, 5, 6, 7)):
        # several seeds, data orders and slightly perturbed matrices (relative 1e-5): an ambiguous instance is not judged
        T = S if k == 0 else S * (1 + (-1) ** k * 10.0 ** (-4 - k) * pert)
        order = list(range(n)) if k < 5 else list(reversed(range(n)))
        sc = SpectralClustering(n_clusters=min(case["nb"], n), affinity="precomputed", random_state=seed)
        lab = sc.fit_predict(T[np.ix_(order, order)])
        out.add(labels_partition([ids[o] for o in order], lab))
        if len(out) > 1:
            return None
    return out.pop()


def plain_ap(S, pref, limit, conv):
    """Affinity propagation without any random noise (Frey & Dueck), or None if it does not converge."""
    n = len(S)
    S = S.copy()
    np.fill_diagonal(S, pref)
    R, A = np.zeros((n, n)), np.zeros((n, n))
    hist = []
    for it in range(limit):
        AS = A + S
        for i in range(n):
            for k in range(n):
                R[i, k] = 0.5 * R[i, k] + 0.5 * (S[i, k] - max(AS[i, j] for j in range(n) if j != k))
        new = np.zeros((n, n))
        P = np.maximum(R, 0)
        for i in range(n):
            for k in range(n):
                tot = sum(P[j, k] for j in range(n) if j not in (i, k))
                new[i, k] = tot if i == k else min(0.0, R[k, k] + tot)
        A = 0.5 * A + 0.5 * new
        E = tuple((np.diag(A) + np.diag(R)) > 0)
        hist.append(E)
        if it >= conv and any(E) and all(h == E for h in hist[-conv:]):
            break
    else:
        return None
    if it > limit - 20:
        return None
    ex = [k for k in range(n) if E[k]]
    lab = [k if E[k] else max(ex, key=lambda e: S[k, e]) for k in range(n)]
    centers = []
    for e in ex:
        mem = [i for i in range(n) if lab[i] == e]
        centers.append(max(mem, key=lambda j: sum(S[i, j] for i in mem)))
    return [i if i in centers else max(centers, key=lambda e: S[i, e]) for i in range(n)]


def ap_reference(case, m):
    ids = case["ids"]
    X = {i: np.array(p, dtype=float) for i, p in zip(ids, case["pts"])}
    groups = sorted((sorted(g) for g in m.groups()), key=lambda g: min(ids.index(x) for x in g))
    if len(groups) < 2:
        return partition({i: 0 for i in ids})
    K = len(groups)
    S = np.array([[max(-np.linalg.norm(X[a] - X[b]) for a in g for b in h) for h in groups] for g in groups])
    off = S[~np.eye(K, dtype=bool)]
    full = np.array([[-np.linalg.norm(X[a] - X[b]) for b in ids] for a in ids])
    foff = full[~np.eye(len(ids), dtype=bool)]
    if np.ptp(foff) < 1e-9 or np.ptp(off) < 1e-9:
        return None  # all similarities equal: degenerate, see C12
    out = set()
    limit = case["par"].get("max_iteration", 150)
    for T, pref in ((S, np.median(S)), (S, np.median(S) * (1 - 1e-6)), (S, np.median(S) * (1 + 1e-6))):
        lab = plain_ap(T, float(pref), limit, case["par"].get("convergence_iteration", 10))
        if lab is None:
            return None
        out.add(partition({x: l for g, l in zip(groups, lab) for x in g}))
        if len(out) > 1:
            return None
    for k in range(10):
        # different seeds, group orders, and asymmetric perturbations of the similarities and of the preference
        pert = np.array([[((i * (7 + k) + j * (5 + 2 * k) + 3 * k) % 11) / 11.0 - 0.5 for j in range(K)] for i in range(K)])
        mag = 0.0 if k < 2 else 10.0 ** (-5 - 2 * (k % 4))
        T = S * (1 + mag * pert)
        pref = float(np.median(S)) * (1 + mag * ((k % 3) - 1))
        order = list(range(K)) if k < 5 else list(reversed(range(K)))
        centers, lab, iters = affinity_propagation(T[np.ix_(order, order)].copy(), preference=pref, max_iter=limit,
                                                   convergence_iter=case["par"].get("convergence_iteration", 10), damping=0.5,
                                                   random_state=case["seed"] if k == 0 else k, return_n_iter=True)
        if len(centers) == 0 or iters > limit - 20:
            return None  # did not (comfortably) converge
        d = {}
        for o, l in zip(order, lab):
            for x in groups[o]:
                d[x] = int(l)
        out.add(partition(d))
        if len(out) > 1:
            return None
    return out.pop()


def c17_case(case, res):
    m = model(case)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        want = (spectral_reference if case["algo"] == "spectral" else ap_reference)(case, m)
    res.add(states=1)
    if want is None:
        return res.count("ambiguous_" + case["algo"])
    res.count("judged_" + case["algo"])
    st, r, inst = run(case)
    res.add(transitions=1, traces=1)
    if st != "ok":
        return res.problem(case, crash(case, st, r))
    got = partition(r)
    if got != want:
        return res.problem(case, "%s returned %r, the adjusted similarity gives %r" % (case["algo"], sorted(map(sorted, got)), sorted(map(sorted, want))))
    res.outcome((case["algo"], case["nb"], got, frozenset(map(frozenset, m.groups()))))


# coordinates on the scale of the RBF kernel
SPEC = {3: [[[0.0], [0.9], [2.1]], [[0.0, 0.0], [1.3, 0.2], [0.4, 1.9]]],
        4: [[[0.0], [0.7], [1.9], [2.4]], [[0, 0], [1, 0.2], [0.3, 1.4], [1.7, 1.9]], [[0.0, 0, 0], [0.5, 0, 0.1], [0, 1.1, 0.4], [0.2, 1.2, 1.5]]],
        5: [[[0.0], [0.6], [1.5], [1.9], [3.1]], [[0, 0], [1, 0.2], [0.3, 1.4], [1.7, 1.9], [0.9, 0.8]]],
        6: [[[0, 0], [0.3, 0.2], [1.4, 0.1], [1.9, 0.4], [0.6, 1.8], [1.1, 2.2]]],
        8: [[[0, 0], [0.3, 0.2], [1.4, 0.1], [1.9, 0.4], [0.6, 1.8], [1.1, 2.2], [2.4, 1.9], [2.2, 2.6]]],
        9: [[[0, 0], [0.3, 0.2], [0.1, 0.7], [2.0, 0.1], [2.4, 0.4], [2.2, 0.9], [0.6, 2.0], [1.1, 2.2], [0.9, 2.7]]],
        12: [[[0.7 * (i % 3) + 0.11 * (i % 5), 1.1 * (i // 4) - 0.07 * ((i * i) % 7)] for i in range(12)]]}


def cases(tier):
    T = tier == "thorough"
    for n in (3, 4, 5):
        for led in closures(n):
            for pts in SPEC[n][: (1 if n == 5 and not T else 9)]:
                for nb in range(2, n):
                    yield mcase(n, led, pts, "spectral", nb, seed=1)
    for n in (3, 4, 5):
        for i, led in enumerate(closures(n)):
            for pts in SPEC[n] + [GENERIC[n]] + DATA[n]:
                yield mcase(n, led, pts, "ap", None, seed=i % 3)
    for n in (6, 8, 9, 12):
        for i, led in enumerate(structured(n)):
            for pts in SPEC[n]:
                for nb in (2, 3, 4, 5):
                    yield mcase(n, led, pts, "spectral", nb, seed=i % 3)
            for pts in SPEC[n] + DATA[n]:
                yield mcase(n, led, pts, "ap", None, seed=i % 3)
                yield mcase(n, led, pts, "ap", None, seed=i % 3, max_iteration=80, convergence_iteration=5)
    if T:
        for led in closures(6):
            yield mcase(6, led, SPEC[6][0], "ap", None)
            yield mcase(6, led, SPEC[6][0], "spectral", 3)


def check(pid, tier, res):
    parallel(pid, c17_case, cases(tier), res=res)


def replay(pid, case):
    r = Res()
    c17_case(case, r)
    return [m for _, m in r.problems]


RULE = ("every constraint closure over n=3..5 data (n=6 in thorough) and structured states over 6-12 data x datasets x k: the adjusted similarity is built "
        "independently from the closure model, clustered by scikit-learn with several seeds, orders and perturbations, and when all of these agree the library "
        "must return that partition; instances on which they disagree are counted as ambiguous and not judged")
ASSUME = ["scikit-learn's SpectralClustering and affinity_propagation are trusted as the meaning of 'spectral clustering' and 'affinity propagation'",
          "ambiguous instances (result depends on seed, data order or a relative perturbation of 1e-5) and non-convergent ones are not judged"]
