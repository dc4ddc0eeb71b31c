"""Properties C18, C19, C20: reproducibility, absence of side effects, dependence on the meaning of the constraints only."""
import concurrent.futures
import itertools
import json
import os
import random
import subprocess
import sys
import tempfile
import warnings

import numpy as np
from scipy.sparse import csr_matrix

from . import common, explorer
from .clustering import crash
from .common import Res, call, lib, parallel
from .domain import DATA, GENERIC, IDS, LINKAGES, build, closures, manager, mcase, sparse60, model, partition, run, structured, vectors
from .model import CL, ML, closure_states, model_of
from .similar import SPEC, ap_reference, spectral_reference

CONFIGS = ([("kmeans", 2, {}), ("kmeans", 3, {})] + [("hierarchical", 2, {"linkage": l}) for l in LINKAGES]
           + [("spectral", 2, {}), ("ap", None, {}), ("ap", None, {"absolute_must_links": False}),
              ("dbscan", None, {"eps": 4, "min_samples": 2}), ("dbscan", None, {"eps": 1, "min_samples": 1}),
              ("mpckmeans", 2, {}), ("mpckmeans", 3, {})])


def skip(case):
    """Spectral clustering is judged only where the adjusted similarity determines the result: elsewhere scikit-learn's own
    answer depends on rounding (even from one call to the next, with the memory alignment of the arrays)."""
    return case["algo"] == "spectral" and unambiguous(case) is None


def unambiguous(case):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return spectral_reference(case, model(case))


def ints(r):
    return {k: int(v) for k, v in r.items()} if isinstance(r, dict) else r


# ------------------------------------------------------------------------------------------------ C18
def stored(p):
    """csr_matrix with every entry explicit, columns in decreasing order."""
    w = len(p)
    return csr_matrix((np.array([float(x) for x in reversed(p)]), np.arange(w)[::-1].copy(), np.array([0, w])), shape=(1, w))


def c18_case(case, res):
    if skip(case):
        return res.count("ambiguous_spectral")
    n = len(case["ids"])
    man = manager(case["ids"], case["led"])
    vec = vectors(case["ids"], case["pts"])
    random.seed(99)
    np.random.seed(99)
    st, r0, inst = run(case, man, vec)
    res.add(states=1, traces=1)
    if st != "ok":
        return res.problem(case, crash(case, st, r0))
    r0 = ints(r0)

    def same(what, st, r):
        res.add(transitions=1, traces=1)
        if st != "ok":
            res.problem(case, "%s: %s" % (what, crash(case, st, r)))
            return False
        if ints(r) != r0:
            res.problem(case, "%s: %r instead of %r" % (what, ints(r), r0))
            return False
        return True

    # a fresh instance, with other global random states
    for gs in (0, 12345):
        random.seed(gs)
        np.random.seed(gs)
        random.random(), np.random.rand(3)
        st, r, _ = run(case)
        if not same("other state of the global random generators", st, r):
            return
    # vectors dictionary: other order, extra entries (first, in the middle, last)
    rev = {k: vec[k] for k in reversed(list(vec))}
    if not same("vectors given in reverse order", *run(case, man, rev)[:2]):
        return
    width = len(case["pts"][0])
    extra = {"!extra": csr_matrix(np.full((1, width), 2.0))}
    for k in sorted(vec):
        extra[k] = vec[k]
        extra["extra-" + k] = csr_matrix(np.full((1, width), 7.0) + len(extra))
    extra["zzz"] = csr_matrix(np.zeros((1, width)))
    if not same("vectors of unmanaged data present", *run(case, man, extra)[:2]):
        return
    # the same numbers stored otherwise: explicit zeros in any order of columns
    if not same("vectors stored with explicit zeros", *run(case, man, {k: stored(p) for k, p in zip(case["ids"], case["pts"])})[:2]):
        return
    # the same instance again, at once, and after other work
    if not same("same instance called twice", *run(case, man, vec, inst)[:2]):
        return
    ids2 = ["w%d" % i for i in range(n + 1)]
    man2 = manager(ids2, [[ids2[0], ids2[1], CL], [ids2[-2], ids2[-1], ML]])
    vec2 = vectors(ids2, [[3 * i * i] + [i] * (width - 1) for i in range(n + 1)])
    nb2 = None if case["nb"] is None else 2
    call(inst.cluster, constraints_manager=man2, vectors=vec2, nb_clusters=nb2)
    if not same("same instance after clustering other data", *run(case, man, vec, inst)[:2]):
        return
    man3 = manager(case["ids"], [])
    call(inst.cluster, constraints_manager=man3, vectors=rev, nb_clusters=None if case["nb"] is None else case["nb"] + 1)
    if case["algo"] == "hierarchical":
        call(inst.compute_predicted_clusters, nb_clusters=n, by="iteration")
    if not same("same instance after clustering without constraints", *run(case, man, vec, inst)[:2]):
        return
    other = build(case["algo"], dict(case["par"]), 77)
    call(other.cluster, constraints_manager=man2, vectors=vec2, nb_clusters=nb2)
    if not same("another instance was used in between", *run(case, man, vec, inst)[:2]):
        return
    # verbose output
    if not same("verbose output", *call(inst.cluster, constraints_manager=man, vectors=vec, nb_clusters=case["nb"], verbose=True)):
        return
    # an instance that saw the same data IDs with other vectors and another state of the same manager, and a refused call
    inst = build(case["algo"], dict(case["par"]), case["seed"])
    man4 = manager(case["ids"], [])
    vec4 = vectors(case["ids"], [[(5 * i * i) % 11 + j for j in range(width)] for i in range(n)])
    call(inst.cluster, constraints_manager=man4, vectors=vec4, nb_clusters=case["nb"])
    call(inst.cluster, constraints_manager=man4, vectors=vec4, nb_clusters=1)
    call(inst.cluster, constraints_manager=None, vectors=vec4, nb_clusters=case["nb"])
    for a, b, t in case["led"]:
        man4.add_constraint(data_ID1=a, data_ID2=b, constraint_type=t)
    vec4.update(vec)
    if not same("same instance, manager and dictionary after their content changed", *run(case, man4, vec4, inst)[:2]):
        return
    res.outcome((case["algo"], case["seed"], partition(r0)))


def c18_cases(tier):
    T = tier == "thorough"
    for n in (2, 3):
        for k, led in enumerate(closures(n)):
            for i, pts in enumerate(DATA[n]):
                for j, (algo, nb, par) in enumerate(CONFIGS):
                    for s in (0, 1, 42) if T or n == 2 else ((0, 1, 42)[(i + j + k) % 3],):
                        yield mcase(n, led, pts_for(algo, n, pts), algo, nb, seed=s, **par)
    for i, pts in enumerate(DATA[4] + [GENERIC[4]]):
        for k, led in enumerate(closures(4)):
            for j, (algo, nb, par) in enumerate(CONFIGS):
                if T or (i + j + k) % 4 == 0:
                    yield mcase(4, led, pts_for(algo, 4, pts), algo, nb, seed=(k % 5), **par)
    for n in (6, 8, 9):
        for k, led in enumerate(structured(n)):
            for pts in DATA[n]:
                for j, (algo, nb, par) in enumerate(CONFIGS):
                    if T or (j + k) % 2 == 0:
                        yield mcase(n, led, pts_for(algo, n, pts), algo, nb, seed=k % 4, **par)
    for k, led in enumerate(structured(12)):
        for j, (algo, nb, par) in enumerate(CONFIGS):
            if T or (j + k) % 6 == 0:
                yield mcase(12, led, pts_for(algo, 12, DATA[12][k % 4]), algo, nb and (nb if k % 2 else 8), seed=k % 4, **par)
    for k, led in enumerate(sparse60()):
        for j, (algo, nb, par) in enumerate(CONFIGS):
            if algo != "spectral" and (T or (j + k) % 9 == 0):
                yield mcase(60, led, DATA[60][k % 2], algo, nb, seed=k % 4, **par)
    if T:
        for k, led in enumerate(closures(5)):
            for j, (algo, nb, par) in enumerate(CONFIGS):
                if (j + k) % 3 == 0:
                    yield mcase(5, led, pts_for(algo, 5, DATA[5][k % 5]), algo, nb, seed=k % 3, **par)


def interp_cases():
    out = []
    for i, pts in enumerate((DATA[4][0], DATA[4][2], DATA[4][9], GENERIC[4])):
        for k, led in enumerate(closures(4)):
            for j, (algo, nb, par) in enumerate(CONFIGS):
                if (i + j + k) % 6 == 0:
                    out.append(mcase(4, led, pts_for(algo, 4, pts), algo, nb, seed=k % 3, **par))
    for k, led in enumerate(structured(9)):
        for algo, nb, par in CONFIGS:
            out.append(mcase(9, led, pts_for(algo, 9, DATA[9][0]), algo, nb, seed=1, **par))
    return [c for c in out if not skip(c)]


def pts_for(algo, n, pts):
    return SPEC[n][0] if algo == "spectral" and n in SPEC else pts


def interp_run():
    """Executed in a fresh interpreter: results of all interp_cases, plus sampling and ranges."""
    from .sampling import interp_samples
    out = []
    for c in json.load(sys.stdin):
        st, r, _ = run(c)
        out.append([st, sorted(ints(r).items()) if st == "ok" else str(r)[:60]])
    out += interp_samples()
    print("RESULT" + json.dumps(out))


def interpreters(tier):
    """Run the batch in interpreters with different hash seeds; returns (number of results, list of differences)."""
    seeds = ["0", "1", "2", "31337", "random"] + (["5", "6", "7", "8"] if tier == "thorough" else [])
    procs = []
    cases = interp_cases()
    text = json.dumps(cases)
    for s in seeds:
        env = dict(os.environ, PYTHONHASHSEED=s)
        procs.append(subprocess.Popen([sys.executable, "-B", "-c", "from mc import common; common.setup_import(); from mc import invariance; invariance.interp_run()"],
                                      cwd=common.VERIF, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True))
    outs = []
    with concurrent.futures.ThreadPoolExecutor(len(procs)) as pool:
        results = list(pool.map(lambda p: p.communicate(text), procs))
    for s, (o, e) in zip(seeds, results):
        line = [x for x in o.splitlines() if x.startswith("RESULT")]
        if not line:
            return 0, [({"kind": "interpreter", "hashseed": s}, "the interpreter with PYTHONHASHSEED=%s failed: %s" % (s, e[-500:]))]
        outs.append(json.loads(line[0][6:]))
    diffs = []
    for s, o in zip(seeds[1:], outs[1:]):
        for k, (a, b) in enumerate(zip(outs[0], o)):
            if a != b:
                diffs.append(({"kind": "interpreter", "hashseed": s, "index": k, "case": cases[k] if k < len(cases) else None},
                              "results differ between interpreters (hash seeds 0 and %s): %r / %r" % (s, a, b)))
                break
    return len(outs[0]) * len(seeds), diffs


# ------------------------------------------------------------------------------------------------ C19
def freeze_vectors(vec):
    return {k: (type(v).__name__, getattr(v, "format", None), str(v.dtype), v.shape, v.toarray().tolist() if hasattr(v, "toarray") else v.tolist())
            for k, v in vec.items()}, list(vec), {k: id(v) for k, v in vec.items()}


def full_view(man):
    with tempfile.TemporaryDirectory(prefix="mc19") as d:
        p = os.path.join(d, "m.json")
        man.to_json(p)
        with open(p, encoding="utf-8") as f:
            content = json.load(f)
    return explorer.observe(man), list(man.get_list_of_managed_data_IDs()), content


def c19_case(case, res):
    man = manager(case["ids"], case["led"])
    vec = vectors(case["ids"], case["pts"])
    if case.get("rich"):
        # redundant constraints, vectors of unmanaged data and explicit zeros are part of what is given
        for a, b, t in model(case).known_pairs():
            if a != b:
                man.add_constraint(data_ID1=b, data_ID2=a, constraint_type=t)
        vec = {"~first": csr_matrix(np.full((1, len(case["pts"][0])), 3.0))}
        vec.update({k: stored(p) for k, p in zip(case["ids"], case["pts"])})
        vec["!last"] = csr_matrix(np.zeros((1, len(case["pts"][0]))))
    obs0 = full_view(man)
    v0 = freeze_vectors(vec)
    inst = build(case["algo"], case["par"], case["seed"])
    kept = []
    for nb in (case["nb"], case["nb"]) if case["nb"] is None else (case["nb"], case["nb"] + 1):
        for verbose in (False, True):
            st, r = call(inst.cluster, constraints_manager=man, vectors=vec, nb_clusters=nb, verbose=verbose)
            res.add(transitions=1, traces=1)
            if st != "ok":
                return res.problem(case, crash(case, st, r))
            kept.append((r, dict(r)))
            if full_view(man) != obs0:
                return res.problem(case, "%s changed the constraints manager" % case["algo"])
            if freeze_vectors(vec) != v0:
                return res.problem(case, "%s changed the vectors" % case["algo"])
    if case["algo"] == "hierarchical":
        for k in range(1, len(case["ids"]) + 1):
            for by in ("size", "iteration"):
                r = inst.compute_predicted_clusters(nb_clusters=k, by=by)
                kept.append((r, dict(r)))
    # other data through the same instance, then samplers on the same inputs
    ids2 = ["w%d" % i for i in range(5)]
    man2 = manager(ids2, [[ids2[0], ids2[1], CL], [ids2[3], ids2[4], ML]])
    vec2 = vectors(ids2, [[3 * i * i] for i in range(5)])
    call(inst.cluster, constraints_manager=man2, vectors=vec2, nb_clusters=None if case["nb"] is None else 2)
    clu = kept[0][0]
    if case.get("rich"):
        clu = dict([("~first", 0)] + list(clu.items()) + [("!last", 99)])
    S = lib("sampling.clusters_based").ClustersBasedConstraintsSampling
    for cr in (None, "same_cluster", "different_clusters"):
        for dr in (None, "closest_neighbors", "farthest_neighbors"):
            c0 = list(clu.items())
            st, pairs = call(S(random_seed=1, clusters_restriction=cr, distance_restriction=dr).sample,
                             constraints_manager=man, nb_to_select=2, clustering_result=clu, vectors=vec)
            res.add(transitions=1)
            if st != "ok":
                return res.problem(case, "sampling gave %s %s" % (st, pairs))
            if list(clu.items()) != c0:
                return res.problem(case, "sampling changed the clustering result")
            kept.append((pairs, list(pairs)))
    st, fr = call(lib("utils.frequency").compute_clusters_frequency, clustering_result=clu)
    for r, copy_ in kept:
        if (dict(r) if isinstance(r, dict) else list(r)) != copy_:
            return res.problem(case, "a result returned earlier was altered by a later call: %r was %r" % (r, copy_))
    if full_view(man) != obs0 or freeze_vectors(vec) != v0:
        return res.problem(case, "sampling changed the constraints manager or the vectors")
    res.add(states=1)
    # the caller may freely modify a returned result
    r = kept[0][0]
    if isinstance(r, dict) and case["algo"] != "hierarchical" and not skip(case):
        before = dict(r)
        r.clear()
        st, r2, _ = run(case, man, vec, inst)
        if st != "ok" or ints(r2) != ints(before):
            return res.problem(case, "modifying a returned result changed a later one: %r" % (r2,))
    if full_view(man) != obs0:
        return res.problem(case, "modifying a returned result changed the constraints manager")
    # and use the manager afterwards: same verdicts as a manager never used for clustering
    fresh = manager(case["ids"], case["led"])
    for a, b in itertools.combinations(case["ids"], 2):
        for t in (ML, CL):
            x, y = call(man.add_constraint, a, b, t), call(fresh.add_constraint, a, b, t)
            if x[0] != y[0]:
                return res.problem(case, "add(%r, %r, %s) gives %s after clustering, %s without" % (a, b, t, x[0], y[0]))
    if explorer.observe(man) != explorer.observe(fresh):
        return res.problem(case, "the manager behaves differently after clustering")
    res.outcome((case["algo"], tuple(sorted(kept[0][1].values()))))


def c19_cases(tier):
    T = tier == "thorough"
    for n in (2, 3, 4):
        for i, pts in enumerate(DATA[n]):
            for k, led in enumerate(closures(n)):
                for j, (algo, nb, par) in enumerate(CONFIGS):
                    if n < 4 or T or (i + j + k) % 5 == 0:
                        yield mcase(n, led, pts, algo, nb, seed=1, **par)
                    if T or (n < 4 and i < 2) or (n == 4 and (i + j + k) % 10 == 1):
                        yield dict(mcase(n, led, pts, algo, nb, seed=1, **par), rich=1)
    for n in (6, 8, 9):
        for k, led in enumerate(structured(n)):
            for algo, nb, par in CONFIGS:
                if T or k % 3 == 0:
                    yield dict(mcase(n, led, DATA[n][0], algo, nb, seed=1, **par), rich=k % 2)
    for k, led in enumerate(structured(12)):
        for j, (algo, nb, par) in enumerate(CONFIGS):
            if T or (j + k) % 6 == 0:
                yield mcase(12, led, DATA[12][k % 4], algo, nb, seed=1, **par)


# ------------------------------------------------------------------------------------------------ C20
def histories(ids, led, m):
    """Different ways of arriving at the same inferred constraints: (name, build function)."""
    def plain():
        return manager(ids, led)

    def backwards():
        return manager(ids, [[b, a, t] for a, b, t in reversed(led)])

    def redundant():
        x = manager(ids, led)
        for a, b, t in m.known_pairs():
            if a != b:
                x.add_constraint(b, a, t)
        return x

    def redundant_first():
        return manager(ids, [[b, a, t] for a, b, t in reversed(list(m.known_pairs())) if a != b])

    def retracted():
        x = manager(ids, [])
        unknown = [(a, b) for a, b in itertools.combinations(ids, 2)]
        for a, b in unknown:  # an annotator who changed their mind about everything
            if call(x.add_constraint, a, b, ML)[0] == "ok":
                x.delete_constraint(a, b)
        for a, b, t in led:
            x.add_constraint(a, b, t)
        for a, b in unknown:
            if m.rel(a, b) is None:
                x.add_constraint(b, a, CL)
                x.delete_constraint(a, b)
        return x

    def reloaded():
        with tempfile.TemporaryDirectory(prefix="mc20") as d:
            p = os.path.join(d, "m.json")
            manager(ids, led).to_json(p)
            return lib("constraints.binary").load_constraints_manager_from_json(p)

    def visitor():
        x = manager(ids, [])
        for a, b, t in led:
            x.add_constraint(a, b, t)
        x.add_data_ID("~visitor")
        for i in ids[:1]:
            x.add_constraint("~visitor", i, ML)
        x.delete_data_ID("~visitor")
        return x

    return [("plain", plain), ("reversed", backwards), ("with all deduced constraints added", redundant),
            ("deduced constraints added first", redundant_first), ("retracted and re-entered", retracted),
            ("saved and reloaded", reloaded), ("with a data ID added and deleted", visitor)]


def c20_case(case, res):
    if skip(case):
        return res.count("ambiguous_spectral")
    m = model(case)
    hs = histories(case["ids"], case["led"], m)
    st, r0, _ = run(case, hs[0][1](), None)
    res.add(states=1, traces=1)
    if st != "ok":
        return res.problem(case, crash(case, st, r0))
    if case["algo"] != "dbscan":
        for name, f in hs[1:]:
            st, r, _ = run(case, f(), None)
            res.add(transitions=1, traces=1)
            if st != "ok":
                return res.problem(case, "constraints %s: %s" % (name, crash(case, st, r)))
            if ints(r) != ints(r0):
                return res.problem(case, "constraints %s give %r instead of %r" % (name, ints(r), ints(r0)))
    # order-preserving renamings
    srt = sorted(case["ids"])
    for names in RENAMES[len(srt)]:
        ren = dict(zip(srt, names))
        c2 = dict(case, ids=[ren[i] for i in case["ids"]], led=[[ren[a], ren[b], t] for a, b, t in case["led"]])
        st, r, _ = run(c2)
        res.add(transitions=1, traces=1)
        if st != "ok":
            return res.problem(case, "after renaming to %r: %s" % (names, crash(case, st, r)))
        if ints(r) != {ren[k]: int(v) for k, v in r0.items()}:
            return res.problem(case, "after renaming %r to %r: %r instead of %r" % (srt, names, ints(r), ints(r0)))
    res.outcome((case["algo"], frozenset(map(frozenset, m.groups())), partition(r0)))


def _renames(n):
    pool = ["", " ", "!", "-1", "0", "00", "1", "10", "CANNOT_LINK", "CORE", "MUST_LINK", "NOISE", "NONE", "None", "UNLABELED", "false", "nan", "null", "é", "ÿ", "中", "🙂"]
    pool = sorted(pool)
    out = []
    step = max(1, len(pool) // n)
    for off in range(0, len(pool) - n + 1, max(1, (len(pool) - n) // 4)):
        out.append(pool[off:off + n])
    out.append(["d%04d" % (i * 7) for i in range(n)])
    i = pool.index("NONE")
    out += [pool[max(0, i - k):max(0, i - k) + n] for k in range(n) if len(pool[max(0, i - k):max(0, i - k) + n]) == n]
    return out


RENAMES = {n: _renames(n) for n in (3, 4, 5, 6, 8, 9, 12)}


def c20_cases(tier):
    T = tier == "thorough"
    conf = [c for c in CONFIGS if not (c[0] == "ap" and c[2])]
    for n in (3, 4):
        for k, led in enumerate(closures(n)):
            for j, (algo, nb, par) in enumerate(conf):
                if n == 3 or T or (k + j) % 2 == 0 or algo == "dbscan":
                    yield mcase(n, led, pts_for(algo, n, GENERIC[n]), algo, nb, seed=1 + k % 2, **par)
                if n == 4 and algo == "dbscan":
                    for pts in DATA[4][:4]:
                        yield mcase(n, led, pts, algo, nb, **par)
    for n in (5, 6):
        for k, led in enumerate(closures(5) if n == 5 else list(structured(6))):
            for j, (algo, nb, par) in enumerate(conf):
                if (T or (k * 5 + j) % (20 if n == 5 else 3) == 0):
                    yield mcase(n, led, pts_for(algo, n, GENERIC[n]), algo, nb, seed=1, **par)
    for k, led in enumerate(structured(12)):
        for j, (algo, nb, par) in enumerate(conf):
            if T or (j + k) % 6 == 0:
                yield mcase(12, led, pts_for(algo, 12, GENERIC[12]), algo, nb and (nb if k % 2 else 7), seed=k % 3, **par)


# ------------------------------------------------------------------------------------------------ C33
# All transformations are exact in floating point: powers of two, small integer translations, sign changes, permutations.
SCALES = (0.25, 2.0 ** -36, 2.0 ** 30)


def frames(case):
    """(name, transformed points, transformed parameters, factor) for each change of unit or frame that must not matter."""
    pts, algo, par = case["pts"], case["algo"], case["par"]
    w = len(pts[0])
    whole = all(float(x).is_integer() for p in pts for x in p)
    if algo not in ("spectral", "mpckmeans"):  # the kernel of the one has a fixed width; the other starts from a fixed metric
        for f in SCALES:
            q = dict(par)
            if algo == "dbscan":
                q["eps"] = par["eps"] * f
            if algo == "kmeans":
                q["tolerance"] = par.get("tolerance", 1e-4) * f
            yield "coordinates multiplied by %r" % f, [[x * f for x in p] for p in pts], q
    if case.get("ties"):
        return
    if whole:
        yield "coordinates shifted", [[x + 16 - 24 * (j % 2) for j, x in enumerate(p)] for p in pts], par
    yield "coordinates negated", [[-x for x in p] for p in pts], par
    if w > 1:
        yield "axes exchanged", [list(reversed(p)) for p in pts], par
        yield "one axis negated", [[-p[0]] + list(p[1:]) for p in pts], par
    if algo not in ("spectral",):
        yield "a constant axis added", [[0] + list(p) for p in pts], par
        yield "each axis doubled as two halves", [[0.5 * x for x in p for _ in range(4)] for p in pts], par


def c33_case(case, res):
    if case["algo"] == "sampler":
        return c33_sampler(case, res)
    if skip(case) or (case["algo"] == "ap" and c33_ap(case) is None):
        return res.count("ambiguous_" + case["algo"])
    st, r0, _ = run(case)
    res.add(states=1, traces=1)
    if st != "ok":
        return res.problem(case, crash(case, st, r0))
    for name, pts, par in frames(case):
        if case["algo"] == "mpckmeans" and name[0] in "ae" and name.split()[1] != "exchanged":
            continue  # each axis weighs in its metric
        st, r, _ = run(dict(case, pts=pts, par=par))
        res.add(transitions=1, traces=1)
        if st != "ok":
            return res.problem(case, "%s: %s" % (name, crash(case, st, r)))
        if ints(r) != ints(r0):
            return res.problem(case, "%s: %r instead of %r" % (name, ints(r), ints(r0)))
    res.outcome((case["algo"], partition(r0)))


def c33_ap(case):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return ap_reference(case, model(case))


def c33_sampler(case, res):
    man = manager(case["ids"], case["led"])
    clu = {x: k % 2 for k, x in enumerate(case["ids"])}
    for cr in (None, "same_cluster", "different_clusters"):
        for dr in ("closest_neighbors", "farthest_neighbors"):
            def sample(pts):
                return call(lib("sampling.clusters_based").ClustersBasedConstraintsSampling(random_seed=1, clusters_restriction=cr, distance_restriction=dr).sample,
                            constraints_manager=man, nb_to_select=3, clustering_result=clu, vectors=vectors(case["ids"], pts))
            st, r0 = sample(case["pts"])
            if st != "ok":
                return res.problem(case, "sampling gave %s %s" % (st, r0))
            for name, pts, _ in frames(case):
                st, r = sample(pts)
                res.add(transitions=1, traces=1)
                if st != "ok" or r != r0:
                    return res.problem(case, "%s, sampler %r: %r instead of %r" % (name, (cr, dr), r, r0))
    res.add(states=1)


def c33_cases(tier):
    T = tier == "thorough"
    conf = [c for c in CONFIGS if not (c[0] == "ap" and c[2])] + [("dbscan", None, {"eps": 6, "min_samples": 3}), ("dbscan", None, {"eps": 30, "min_samples": 1}), ("sampler", None, {})]
    for n in (3, 4, 5, 6, 12):
        leds = list(closures(n)) if n < 6 else list(structured(n))
        for k, led in enumerate(leds):
            for j, (algo, nb, par) in enumerate(conf):
                if n < 5 or T or (k + j) % {5: 12, 6: 2, 12: 4}[n] == 0:
                    yield mcase(n, led, pts_for(algo, n, GENERIC[n]), algo, nb, seed=1 + k % 2, **par)
    # ties and duplicates: a change of unit is still exact
    for n in (3, 4):
        for i, pts in enumerate(DATA[n]):
            for k, led in enumerate(closures(n)):
                for j, (algo, nb, par) in enumerate(conf):
                    if algo in ("kmeans", "hierarchical", "dbscan", "sampler") and (n == 3 or T or (i + j + k) % 6 == 0):
                        yield dict(mcase(n, led, pts, algo, nb, seed=1, **par), ties=1)
    for n in (8, 20):
        for k, led in enumerate(structured(n)):
            for j, (algo, nb, par) in enumerate(conf):
                if algo in ("hierarchical", "dbscan", "sampler", "kmeans") and (T or (j + k) % (4 if n == 8 else 12) == 0):
                    yield dict(mcase(n, led, DATA[n][0], algo, nb, seed=1, **par), ties=1)


FUNC = {"C18": c18_case, "C19": c19_case, "C20": c20_case, "C33": c33_case}


def check(pid, tier, res):
    cases = {"C18": c18_cases, "C19": c19_cases, "C20": c20_cases, "C33": c33_cases}[pid](tier)
    if pid == "C18":
        n, diffs = interpreters(tier)
        res.add(traces=n)
        res.count("executions_in_other_interpreters", n)
        for c, m in diffs:
            res.problem(c, m)
        if diffs:
            return
    parallel(pid, FUNC[pid], cases, res=res)


def replay(pid, case):
    r = Res()
    if case.get("kind") == "interpreter":
        return [m for _, m in interpreters("quick")[1]]
    FUNC[pid](case, r)
    return [m for _, m in r.problems]


RULES = {
    "C18": "every constraint closure over n<=3 data (n=4 thinned in quick) x datasets x 13 algorithm configurations x seeds, each executed in 9 contexts (global generators, dictionary order, extra vectors, instance history) that must agree; a batch is also run in interpreters with different hash seeds",
    "C19": "every constraint closure over n<=3 data (n=4 thinned in quick) x datasets x 13 configurations: full observation of manager, vectors and earlier results before and after each clustering and each of the 9 sampler configurations",
    "C20": "every constraint closure over n=3,4 data x 12 configurations on tie-free data, reached by 7 different histories with the same meaning and by order-preserving renamings of the IDs; all executions must agree",
    "C33": "every constraint closure over n=3,4 data (5, 6, 12 thinned in quick) x 15 configurations and 6 distance-based samplers on tie-free data, each executed again after every exact change of unit or frame (3 scales, shift, sign changes, axes exchanged or doubled, a constant axis); data with ties for the changes of unit",
}
ASSUMES = {
    "C18": ["integer random seeds", "integer coordinates, so that adding vectors cannot change rounding"],
    "C19": ["vectors are compared by type, shape, values and identity"],
    "C20": ["tie-free integer datasets: with distance ties the code may legitimately depend on the order of entries", "DBSCAN takes part in the renaming half only"],
    "C33": ["transformations are exact in floating point (powers of two, small integers)", "affinity propagation and spectral clustering only where their result is determined (see C17)"],
}
