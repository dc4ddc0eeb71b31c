"""Property C25: every parameter domain, on and around its boundary, in every combination."""
import itertools
import os

import numpy as np
from scipy.sparse import csr_matrix

from .common import Res, call, lib, parallel
from .domain import IDS, manager, vectors
from .model import CL, ML

# name -> (module, class, factory name, {parameter: (valid values, invalid values)})
CLASSES = {
    "kmeans": ("clustering.kmeans", "KMeansConstrainedClustering",
               {"model": (["COP"], ["cop", "MPC", "", None, "SPEC"]), "max_iteration": ([1, 2, 150], [0, -1, -150]),
                "tolerance": ([0, 0.0, 1e-12, 1e-4, 3.5], [-1e-12, -1, -0.5]), "random_seed": ([None, 0, 1, 42], [])}),
    "hierarchical": ("clustering.hierarchical", "HierarchicalConstrainedClustering",
                     {"linkage": (["ward", "average", "complete", "single"], ["Ward", "", None, "wards", "centroid", "median", "sin"]),
                      "random_seed": ([None, 0, 7], [])}),
    "spectral": ("clustering.spectral", "SpectralConstrainedClustering",
                 {"model": (["SPEC"], ["CCSR", "spec", "", None, "COP"]), "nb_components": ([None, 2, 3, 10], [1, 0, -2]),
                  "random_seed": ([None, 0, 3], [])}),
    "affinity_propagation": ("clustering.affinity_propagation", "AffinityPropagationConstrainedClustering",
                             {"max_iteration": ([1, 2, 150], [0, -1]), "convergence_iteration": ([1, 2, 10, 15], [0, -3]),
                              "absolute_must_links": ([True, False], []), "random_seed": ([None, 0, 5], [])}),
    "dbscan": ("clustering.dbscan", "DBScanConstrainedClustering",
               {"eps": ([1e-9, 0.5, 1, 30.0], [0, 0.0, -1e-9, -1]), "min_samples": ([1, 2, 5], [0, -1]), "random_seed": ([None, 0], [])}),
    "mpckmeans": ("clustering.mpckmeans", "MPCKMeansConstrainedClustering",
                  {"model": (["MPC"], ["mpc", "COP", "", None]), "max_iteration": ([1, 2, 150], [0, -1]), "w": ([0, 0.0, 0.5, 1.0, 10], [-1e-9, -1]),
                   "random_seed": ([None, 0, 9], [])}),
    "sampler": ("sampling.clusters_based", "ClustersBasedConstraintsSampling",
                {"clusters_restriction": ([None, "same_cluster", "different_clusters"], ["same_clusters", "different_cluster", "", "closest_neighbors", "specific_clusters", 0]),
                 "distance_restriction": ([None, "closest_neighbors", "farthest_neighbors"], ["closest", "", "closest_neighbours", "same_cluster", 0]),
                 "without_added_constraints": ([True, False], [None, 0, 1, "True"]), "without_inferred_constraints": ([True, False], [None, 0, 1, "no"]),
                 "random_seed": ([None, 0, 4], [])}),
}
NAMED = {"random": (None, None), "random_in_same_cluster": ("same_cluster", None),
         "farthest_in_same_cluster": ("same_cluster", "farthest_neighbors"), "closest_in_different_clusters": ("different_clusters", "closest_neighbors")}


def expect(res, case, what, got, want_ok):
    res.add(transitions=1)
    if want_ok and got[0] != "ok":
        res.problem(case, "%s is refused: %s" % (what, got))
        return False
    if not want_ok and got[0] != "ValueError":
        res.problem(case, "%s is not refused with a ValueError: %s" % (what, (got[0], str(got[1])[:200])))
        return False
    return True


def same(a, b):
    return a == b and type(a) is type(b) or (a == b and not isinstance(a, bool) and not isinstance(b, bool))


def combos(params):
    """Every combination with at most two values away from the first valid one, plus the full product when it is small."""
    names = list(params)
    every = [list(params[p][0]) + list(params[p][1]) for p in names]
    size = 1
    for e in every:
        size *= len(e)
    if size <= 4000:
        yield from (dict(zip(names, v)) for v in itertools.product(*every))
        return
    for i, j in itertools.combinations(range(len(names)), 2):
        for a in every[i]:
            for b in every[j]:
                d = {n: e[0] for n, e in zip(names, every)}
                d[names[i]], d[names[j]] = a, b
                yield d


def constructor_case(case, res):
    key = case["cls"]
    mod, cls, params = CLASSES[key]
    C = getattr(lib(mod), cls)
    for d in combos(params):
        ok = all(any(x is v or (x == v and type(x) is type(v)) for x in params[p][0]) for p, v in d.items())
        makers = [("constructor", lambda: C(**d))]
        if key != "sampler":
            makers.append(("factory", lambda: lib("clustering.factory").clustering_factory(algorithm=key, **d)))
            makers.append(("package factory", lambda: lib("clustering.factory").clustering_factory(key, **d)))
        for name, mk in makers:
            got = call(mk)
            if not expect(res, case, "%s %s%r" % (name, key, d), got, ok):
                return
            if ok:
                inst = got[1]
                if type(inst) is not C:
                    return res.problem(case, "%s %s%r is a %s" % (name, key, d, type(inst).__name__))
                for p, v in d.items():
                    if not hasattr(inst, p) or not same(getattr(inst, p), v):
                        return res.problem(case, "%s %s: parameter %s=%r is stored as %r" % (name, key, p, v, getattr(inst, p, "<missing>")))
        # defaults: leaving a parameter out is always accepted
        if ok:
            for p in d:
                e = {q: v for q, v in d.items() if q != p}
                if not expect(res, case, "%s%r" % (key, e), call(lambda: C(**e)), True):
                    return
        res.outcome((key, ok, tuple(map(str, d.values()))))
    if not expect(res, case, "%s()" % key, call(lambda: C()), True):
        return
    res.add(states=1, traces=1)


DEFAULTS = {"kmeans": {"model": "COP", "max_iteration": 150, "tolerance": 1e-4, "random_seed": None},
            "hierarchical": {"linkage": "ward", "random_seed": None}, "spectral": {"model": "SPEC", "nb_components": None, "random_seed": None},
            "affinity_propagation": {"max_iteration": 150, "convergence_iteration": 10, "absolute_must_links": True, "random_seed": None},
            "dbscan": {"eps": 0.5, "min_samples": 5, "random_seed": None}, "mpckmeans": {"model": "MPC", "max_iteration": 150, "w": 1.0, "random_seed": None},
            "sampler": {"clusters_restriction": None, "distance_restriction": None, "without_added_constraints": True, "without_inferred_constraints": True, "random_seed": None}}


def factory_case(case, res):
    cf, sf, mf = lib("clustering.factory").clustering_factory, lib("sampling.factory").sampling_factory, lib("constraints.factory").managing_factory
    for key in CLASSES:
        C = getattr(lib(CLASSES[key][0]), CLASSES[key][1])
        inst = C()
        for p, v in DEFAULTS[key].items():
            if not same(getattr(inst, p), v):
                return res.problem(case, "%s: default %s is %r instead of %r" % (key, p, getattr(inst, p), v))
        res.add(transitions=1)
    got = call(cf)
    if not expect(res, case, "clustering_factory()", got, True) or type(got[1]).__name__ != "KMeansConstrainedClustering":
        return res.problem(case, "the default clustering algorithm is %r" % (got,))
    for bad in ("", "KMEANS", "kmean", "kmeans ", None, 0, "agglomerative", "cop", "affinity", "affinity propagation", "db_scan", "MPCKMEANS"):
        if not expect(res, case, "clustering_factory(%r)" % (bad,), call(cf, algorithm=bad), False):
            return
    S = lib("sampling.clusters_based").ClustersBasedConstraintsSampling
    for name, (cr, dr) in NAMED.items():
        for wa, wi, seed in itertools.product((None, True, False), (None, True, False), (None, 0, 3)):
            kw = {k: v for k, v in (("without_added_constraints", wa), ("without_inferred_constraints", wi), ("random_seed", seed)) if v is not None}
            got = call(sf, algorithm=name, **kw)
            if not expect(res, case, "sampling_factory(%r, %r)" % (name, kw), got, True):
                return
            s = got[1]
            want = {"clusters_restriction": cr, "distance_restriction": dr, "without_added_constraints": wa is None or wa,
                    "without_inferred_constraints": wi is None or wi, "random_seed": seed}
            if type(s) is not S or any(not same(getattr(s, k), v) for k, v in want.items()):
                return res.problem(case, "sampling_factory(%r, %r) is configured as %r" % (name, kw, {k: getattr(s, k, None) for k in want}))
    for bad in ("", "Random", "random_in_same_clusters", None, 0, "closest", "farthest_in_different_clusters", "closest_in_same_cluster", "random_in_different_clusters"):
        if not expect(res, case, "sampling_factory(%r)" % (bad,), call(sf, algorithm=bad), False):
            return
    for name in NAMED:
        for kw in ({"without_added_constraints": 1}, {"without_inferred_constraints": None}):
            if not expect(res, case, "sampling_factory(%r, %r)" % (name, kw), call(sf, algorithm=name, **kw), False):
                return
    for ids in ([], ["a"], ["b", "a"], ["2", "10", "é"]):
        for kw in ({}, {"manager": "binary"}):
            got = call(mf, list_of_data_IDs=list(ids), **kw)
            if not expect(res, case, "managing_factory(%r)" % ids, got, True):
                return
            if type(got[1]).__name__ != "BinaryConstraintsManager" or list(got[1].get_list_of_managed_data_IDs()) != ids:
                return res.problem(case, "managing_factory(%r) manages %r" % (ids, got[1].get_list_of_managed_data_IDs()))
        for bad in ("", "Binary", None, "ternary", 0):
            if not expect(res, case, "managing_factory(manager=%r)" % (bad,), call(mf, list_of_data_IDs=list(ids), manager=bad), False):
                return
    res.add(states=1, traces=1)


NOT_MANAGERS = (None, "manager", {}, [], 3, {"a": {"b": None}}, object)
NOT_VECTORS = (None, [], "vectors", 5, (), np.zeros((2, 2)))


def cluster_case(case, res):
    key = case["cls"]
    ids = IDS[3]
    pts = [[0.0], [0.6], [1.7]]
    man, vec = manager(ids, [[ids[0], ids[1], ML]]), vectors(ids, pts)
    mk = lambda: lib("clustering.factory").clustering_factory(algorithm=key, random_seed=1)
    wants_nb = key in ("kmeans", "hierarchical", "spectral", "mpckmeans")
    good = [2, 3, 4, 1000] if wants_nb else [None]
    bad = [None, 1, 0, -1, -2] if wants_nb else [1, 2, 3, 0, -1]
    inst = mk()
    for x in (mk(), inst):
        for nb in good + bad:
            if not expect(res, case, "%s: nb_clusters=%r" % (key, nb), call(x.cluster, constraints_manager=man, vectors=vec, nb_clusters=nb), nb in good):
                return
        for w in NOT_MANAGERS:
            if not expect(res, case, "%s: constraints_manager=%r" % (key, w), call(x.cluster, constraints_manager=w, vectors=vec, nb_clusters=good[0]), False):
                return
        for w in NOT_VECTORS:
            if not expect(res, case, "%s: vectors=%r" % (key, w), call(x.cluster, constraints_manager=man, vectors=w, nb_clusters=good[0]), False):
                return
        # a refused call does not prevent the next one
        if not expect(res, case, "%s after refused calls" % key, call(x.cluster, constraints_manager=man, vectors=vec, nb_clusters=good[0]), True):
            return
    if key == "hierarchical":
        if not expect(res, case, "cutting before clustering", call(mk().compute_predicted_clusters, nb_clusters=2), False):
            return
        Cl = lib("clustering.hierarchical").Cluster
        leaf = lambda m, i: Cl(vectors=vec, cluster_ID=i, clustering_iteration=0, members=list(m))
        for ch, me, ok in ((None, [ids[0]], True), ([leaf(ids[:1], 0), leaf(ids[1:], 1)], None, True), (None, None, False), ([leaf(ids[:1], 0)], [ids[1]], False)):
            if not expect(res, case, "tree node with children=%r, members=%r" % (bool(ch), me), call(Cl, vectors=vec, cluster_ID=5, clustering_iteration=1, children=ch, members=me), ok):
                return
    elif not wants_nb:
        if not expect(res, case, "%s without nb_clusters" % key, call(mk().cluster, constraints_manager=man, vectors=vec), True):
            return
    res.add(states=1, traces=1)
    res.outcome(key)


def sample_case(case, res):
    ids = IDS[3]
    man, vec = manager(ids, []), vectors(ids, [[0], [1], [5]])
    clu = {ids[0]: 0, ids[1]: 0, ids[2]: 1}
    S = lib("sampling.clusters_based").ClustersBasedConstraintsSampling
    for cr in (None, "same_cluster", "different_clusters"):
        for dr in (None, "closest_neighbors", "farthest_neighbors"):
            s = S(random_seed=1, clusters_restriction=cr, distance_restriction=dr)
            for nb in (0, 1, 2, 3, 100):
                if not expect(res, case, "sampling %r %r nb=%r" % (cr, dr, nb), call(s.sample, constraints_manager=man, nb_to_select=nb, clustering_result=clu, vectors=vec), True):
                    return
            for nb in (-1, -100, None, "1", 1.5, 1.0, [], "all"):
                if not expect(res, case, "sampling %r %r nb=%r" % (cr, dr, nb), call(s.sample, constraints_manager=man, nb_to_select=nb, clustering_result=clu, vectors=vec), False):
                    return
            for w in NOT_MANAGERS:
                if not expect(res, case, "sampling with manager %r" % (w,), call(s.sample, constraints_manager=w, nb_to_select=1, clustering_result=clu, vectors=vec), False):
                    return
            for w in (None, [], "x", 3, (("a", 0),)):
                if not expect(res, case, "sampling %r with clustering %r" % (cr, w), call(s.sample, constraints_manager=man, nb_to_select=1, clustering_result=w, vectors=vec), cr is None):
                    return
            for w in NOT_VECTORS:
                if not expect(res, case, "sampling %r with vectors %r" % (dr, w), call(s.sample, constraints_manager=man, nb_to_select=1, clustering_result=clu, vectors=w), dr is None):
                    return
    res.add(states=1, traces=1)


def manager_case(case, res):
    M = lib("constraints.binary").BinaryConstraintsManager
    for ids in (["a", "b", "c"], ["1", "10", "2"], ["", " ", "é"]):
        for a, b in itertools.product(ids + ["zz", "A", "01"], repeat=2):
            known = a in ids and b in ids
            for t in (ML, CL, "must_link", "MUST-LINK", "CANNOT", "", None, 0, "MUST_LINK ", "LINK"):
                m = M(list_of_data_IDs=list(ids))
                ok = known and t in (ML, CL) and not (a == b and t == CL)
                if not expect(res, case, "add(%r, %r, %r)" % (a, b, t), call(m.add_constraint, data_ID1=a, data_ID2=b, constraint_type=t), ok):
                    return
                okc = known and t in (ML, CL)
                if not expect(res, case, "conflict(%r, %r, %r)" % (a, b, t), call(m.get_list_of_involved_data_IDs_in_a_constraint_conflict, data_ID1=a, data_ID2=b, constraint_type=t), okc):
                    return
            m = M(list_of_data_IDs=list(ids))
            for f in (m.get_added_constraint, m.get_inferred_constraint, m.delete_constraint):
                if not expect(res, case, "%s(%r, %r)" % (f.__name__, a, b), call(f, data_ID1=a, data_ID2=b), known):
                    return
        for x in ids + ["zz", "A"]:
            m = M(list_of_data_IDs=list(ids))
            if not expect(res, case, "add_data_ID(%r)" % x, call(m.add_data_ID, data_ID=x), x not in ids):
                return
            m = M(list_of_data_IDs=list(ids))
            if not expect(res, case, "delete_data_ID(%r)" % x, call(m.delete_data_ID, data_ID=x), x in ids):
                return
    res.add(states=1, traces=1)


def text_case(case, res):
    t = {"0": "carte bleue perdue", "1": "carte bleue volée"}
    v, p = lib("utils.vectorization").vectorize, lib("utils.preprocessing").preprocess
    if not expect(res, case, "vectorize tfidf", call(v, dict_of_texts=t, vectorizer_type="tfidf"), True) or not expect(res, case, "vectorize default", call(v, dict_of_texts=t), True):
        return
    for bad in ("", "TFIDF", "tf-idf", None, 0, "spaCy", "word2vec", "bert"):
        if not expect(res, case, "vectorizer %r" % (bad,), call(v, dict_of_texts=t, vectorizer_type=bad), False):
            return
    for bad in ("no_such_model_anywhere", "fr_core_news_xx", "/nonexistent/model"):
        if not expect(res, case, "vectorize with model %r" % bad, call(v, dict_of_texts=t, vectorizer_type="spacy", spacy_language_model=bad), False):
            return
        for flags in itertools.product((False, True), repeat=3):
            if not expect(res, case, "preprocess with model %r" % bad, call(p, dict_of_texts=t, apply_stopwords_deletion=flags[0], apply_parsing_filter=flags[1], apply_lemmatization=flags[2], spacy_language_model=bad), False):
                return
    res.add(states=1, traces=1)


FUNCS = {"constructor": constructor_case, "factory": factory_case, "cluster": cluster_case, "sample": sample_case, "manager": manager_case, "text": text_case}


def one(case, res):
    FUNCS[case["kind"]](case, res)


def check(pid, tier, res):
    cases = [{"kind": "constructor", "cls": k} for k in CLASSES] + [{"kind": "cluster", "cls": k} for k in CLASSES if k != "sampler"]
    cases += [{"kind": k} for k in ("factory", "sample", "manager", "text")]
    parallel(pid, one, cases, chunk=1, res=res)


def replay(pid, case):
    r = Res()
    one(case, r)
    return [m for _, m in r.problems]


RULE = ("the full product of boundary and representative values of every constructor parameter (pairwise for the sampler), of every argument of cluster(), sample(), "
        "the manager operations, the factories and the text utilities: each call must be accepted exactly when all its values are in the documented domain, raise "
        "ValueError otherwise, and an accepted constructor must store the values; transitions = calls judged, outcomes = distinct constructor combinations")
ASSUME = ["types beyond those the documentation mentions (e.g. non-integer cluster numbers, booleans as sample sizes) are not exercised", "the stored parameters are read from the attributes of the same name"]
