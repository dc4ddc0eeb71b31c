"""Bounded domains shared by the clustering and sampling checks: constraint states x datasets x configurations."""
import itertools

import numpy as np
from scipy.sparse import csr_matrix

from . import common
from .common import call, lib
from .model import CL, ML, Model, closure_states, model_of

IDS = {1: ["a"], 2: ["b", "a"], 3: ["b", "10", "9"], 4: ["b", "a", "10", "9"], 5: ["2", "b", "10", "a", "1"],
       6: ["c", "2", "b", "10", "a", "1"], 8: ["c", "2", "b", "10", "a", "1", "z", "0"],
       9: ["c", "2", "b", "10", "a", "1", "z", "0", "y"],
       12: ["c", "2", "b", "10", "a", "1", "z", "0", "B", "\u00e9", "11", "-3"],
       20: [str((7 * i) % 20) for i in range(20)],
       60: [str((7 * i) % 60) if i % 3 else "k%d" % i for i in range(60)]}

# datasets: integer coordinates, so sums, means and squared distances are exact or nearly so
DATA = {
    2: [[[0], [3]], [[0], [0]], [[0, 4], [3, 0]]],
    3: [[[0], [1], [5]], [[0], [0], [5]], [[0], [0], [0]], [[0, 0], [4, 0], [0, 3]], [[1, 0, 0], [0, 1, 0], [0, 0, 1]]],
    4: [[[0], [1], [3], [7]], [[7], [0], [3], [1]], [[0], [0], [5], [5]], [[0], [5], [0], [5]], [[0], [0], [0], [5]],
        [[0], [0], [0], [0]], [[0], [1], [2], [3]], [[0], [1], [2], [100]], [[0, 0], [0, 1], [1, 0], [1, 1]],
        [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]], [[0, 0], [5, 1], [1, 5], [7, 7]]],
    5: [[[0], [1], [4], [9], [11]], [[0, 0], [10, 0], [1, 1], [9, 2], [5, 30]], [[0], [0], [6], [6], [6]],
        [[5], [5], [5], [5], [5]], [[2], [0], [4], [1], [3]]],
    6: [[[0], [1], [4], [10], [12], [17]], [[0, 0], [0, 3], [20, 1], [21, 5], [50, 50], [47, 58]], [[0], [0], [0], [9], [9], [9]]],
    8: [[[0, 0], [1, 3], [20, 0], [21, 4], [0, 30], [2, 37], [40, 41], [43, 40]]],
    9: [[[0, 0], [1, 3], [2, 7], [20, 0], [21, 4], [25, 1], [0, 30], [2, 37], [5, 31]]],
}
# larger data: negative coordinates, far apart, many dimensions, duplicates
DATA[12] = [[[(i * 37) % 41 - 20, (i * i * 11) % 53 - 26] for i in range(12)],
            [[1000 * ((i * 5) % 12) + i * i, -3 * i] for i in range(12)],
            [[3 if j == i % 7 else (1 if j == (i * i) % 7 else 0) for j in range(7)] for i in range(12)],
            [[(i % 4) * 9 - 13] for i in range(12)]]
DATA[20] = [[[(i * 37) % 83 - 40, (i * i * 11) % 97 - 48] for i in range(20)],
            [[(i * 29) % 20 - 3, (i * i) % 7, -i // 3] for i in range(20)],
            [[(i % 5) * 7, (i % 5) * (i % 2)] for i in range(20)]]
DATA[60] = [[[(i * 37) % 83 - 40, (i * i * 11) % 97 - 48, i % 7] for i in range(60)],
            [[100 * (i % 4) + (i * i) % 13, 3 * (i // 15) + i % 5] for i in range(60)]]
# datasets without ties: all pairwise distances and all linkage values of interest differ
GENERIC = {3: [[0], [1], [5]], 4: [[0, 0], [5, 1], [1, 7], [12, 9]], 5: [[0, 0], [10, 0], [1, 3], [9, 5], [4, 30]],
           6: [[0, 0], [0, 3], [20, 1], [21, 6], [50, 50], [43, 59]],
           12: [[(i * i * 173) % 1009, (i * i * i * 57) % 997 - 400] for i in range(12)]}

# nearly equal distances (both orders) and small coordinates, such as those of TF-IDF vectors
NEAR = {3: [[[0], [1], [2.00001]], [[0], [1], [1.99999]], [[0.001], [0.002], [0.0032]]],
        4: [[[0], [1], [2.00001], [3.00003]], [[0], [1.00002], [2.00003], [3.00003]], [[0.001], [0.002], [0.004], [0.0059]],
            [[0.6, 0.8], [0.8, 0.6], [1, 0], [0.70711, 0.7071]]],
        5: [[[0], [1], [2.00001], [3.00003], [4.00006]], [[0, 1], [1.00001, 1], [1.00001, 2], [0, 2.00002], [2, 4]],
            [[0.001], [0.0005], [0.004], [0.0059], [0.0091]]]}


def grid(n, values):
    for v in itertools.product(values, repeat=n):
        yield [[x] for x in v]


def vectors(ids, pts):
    return {i: csr_matrix(np.array([p], dtype=float)) for i, p in zip(ids, pts)}


def manager(ids, ledger):
    m = lib("constraints.binary").BinaryConstraintsManager(list_of_data_IDs=list(ids))
    for a, b, t in ledger:
        m.add_constraint(data_ID1=a, data_ID2=b, constraint_type=t)
    return m


_CLOS = {}


def closures(n):
    if n not in _CLOS:
        _CLOS[n] = [[list(c) for c in led] for led in closure_states(IDS[n])]
    return _CLOS[n]


FACTORY = {"kmeans": "kmeans", "hierarchical": "hierarchical", "spectral": "spectral", "ap": "affinity_propagation",
           "dbscan": "dbscan", "mpckmeans": "mpckmeans"}


def build(algo, par, seed):
    return lib("clustering.factory").clustering_factory(algorithm=FACTORY[algo], random_seed=seed, **par)


def run(case, man=None, vec=None, model=None):
    """Execute one clustering described by a case -> (status, result, instance)."""
    man = man if man is not None else manager(case["ids"], case["led"])
    if vec is None:
        den = case.get("den", 1)  # coordinates given as fractions with a common denominator
        vec = vectors(case["ids"], case["pts"] if den == 1 else [[x / den for x in p] for p in case["pts"]])
    inst = model or build(case["algo"], case.get("par", {}), case.get("seed", 1))
    st, r = call(inst.cluster, constraints_manager=man, vectors=vec, nb_clusters=case["nb"])
    return st, r, inst


def mcase(n, led, pts, algo, nb, seed=1, ids=None, **par):
    return {"ids": ids or IDS[n], "led": led, "pts": pts, "algo": algo, "par": par, "nb": nb, "seed": seed}


LINKAGES = ("ward", "average", "complete", "single")


def model(case):
    return model_of(case["ids"], [tuple(x) for x in case["led"]])


def partition(labels):
    d = {}
    for k, v in labels.items():
        d.setdefault(v, set()).add(k)
    return frozenset(frozenset(x) for x in d.values())


def ckey(case):
    return common.digest(case)


def sparse60():
    """Constraint states over 60 data: every third structured state and some with few constraints."""
    ids = IDS[60]
    yield []
    yield [[ids[i], ids[i + 1], ML] for i in range(0, 59, 2)]
    yield [[ids[i], ids[i + 1], ML] for i in range(0, 50)]
    yield [[ids[i], ids[i + 7], CL] for i in range(0, 50, 3)]
    yield [[ids[0], ids[i], CL] for i in range(1, 60)]
    yield [[ids[i], ids[j], CL] for i in range(0, 60, 10) for j in range(i)  if j % 10 == 0] + [[ids[i], ids[i + 1], ML] for i in range(0, 60, 10)]
    for k, led in enumerate(structured(60)):
        if k % 7 == 0:
            yield led


def structured(n, pts_list=None):
    """Larger constraint states: for several target partitions, reveal subsets of the true constraints systematically."""
    ids = IDS[n]
    targets = [[i % 2 for i in range(n)], [i % 3 for i in range(n)], [i // 3 for i in range(n)], [i // 2 for i in range(n)],
               [0] * (n - 1) + [1], [min(i, 4) for i in range(n)], list(range(n))]
    pairs = list(itertools.combinations(range(n), 2))
    for t in targets:
        for step in (1, 2, 3, 5, 7):
            for off in range(min(step, 3)):
                led = [[ids[i], ids[j], ML if t[i] == t[j] else CL] for i, j in pairs[off::step]]
                yield led
        yield [[ids[i], ids[j], ML] for i, j in pairs if t[i] == t[j]]
        yield [[ids[j], ids[i], CL] for i, j in pairs if t[i] != t[j]]
