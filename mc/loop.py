"""Property C29: the interactive loop (cluster, sample, annotate) converges to the annotator's clustering.

Part 1 (annotation): for every target partition, breadth-first exploration of every set of truthful answers, every answer
being tried in every state, on live managers; samplers are questioned in every state.
Part 2 (loop): the closed loop itself - clustering -> sampler -> truthful answers - executed for every target, several
clustering algorithms, samplers and batch sizes.  The loop is deterministic once these are fixed; every reachable state of
each of these transition systems is visited, because the runs go on until the constraints are complete.
"""
import itertools
import os
import tempfile

from . import common
from .common import Res, call, lib, parallel
from .domain import DATA, GENERIC, IDS, LINKAGES, build, manager, partition, vectors
from .model import CL, ML, Model, all_partitions, model_of

NAMED = ("random", "random_in_same_cluster", "farthest_in_same_cluster", "closest_in_different_clusters")


def targets(ids, least=2):
    for p in all_partitions(ids):
        if len(p) >= least:
            yield {i: k for k, g in enumerate(p) for i in g}


def truth(t, a, b):
    return ML if t[a] == t[b] else CL


def sampler(name, seed):
    return lib("sampling.factory").sampling_factory(algorithm=name, random_seed=seed)


def propose(name, man, clu, vec, nb, seed):
    return call(sampler(name, seed).sample, constraints_manager=man, nb_to_select=nb, clustering_result=clu, vectors=vec)


def finished(case, ids, t, man, vec, res):
    """What must hold once the constraints are complete."""
    k = len(set(t.values()))
    n = len(ids)
    st, r = call(man.get_min_and_max_number_of_clusters)
    if st != "ok" or tuple(r) != (k, k):
        return "constraints are complete for %d clusters but the announced range is %s %r" % (k, st, r)
    want = partition(t)
    for nb in range(2, n + 1):
        runs = [("kmeans", {}, 0), ("kmeans", {}, nb + 1)] + [("hierarchical", {"linkage": l}, 1) for l in LINKAGES]
        for algo, par, seed in runs:
            if algo == "hierarchical" and nb > k:
                continue  # handled below: groups are never split
            st, r = call(build(algo, par, seed).cluster, constraints_manager=man, vectors=vec, nb_clusters=nb)
            res.add(transitions=1)
            if st != "ok" or partition(r) != want:
                return "constraints are complete but %s(%r) with %d clusters returned %s %r instead of the target %r" % (algo, par, nb, st, r, t)
    for l in LINKAGES:
        st, r = call(build("hierarchical", {"linkage": l}, 1).cluster, constraints_manager=man, vectors=vec, nb_clusters=n)
        if st != "ok" or partition(r) != want:
            return "constraints are complete but hierarchical(%s) with %d clusters returned %s %r" % (l, n, st, r)
    for name in NAMED:
        for clu in (t, {i: 0 for i in ids}, {i: q for q, i in enumerate(ids)}):
            st, r = propose(name, man, clu, vec, 5, 3)
            if st != "ok" or list(r) != []:
                return "constraints are complete but sampler %s proposes %s %r" % (name, st, r)
    return None


def annotate_case(case, res):
    """All orders of truthful annotation for one target: states are the sets of answers (or their closures, for n=5)."""
    ids, pts = case["ids"], case["pts"]
    t = {k: v for k, v in case["target"]}
    vec = vectors(ids, pts)
    pairs = list(itertools.combinations(ids, 2))
    start = ()
    seen, frontier, final_done = {start}, [start], set()
    keyed = {Model(ids).closure_key()}
    while frontier:
        nxt = []
        for led in frontier:
            ledger = [(a, b, truth(t, a, b)) for a, b in led]
            m = model_of(ids, ledger)
            man = manager(ids, [])
            for a, b, ty in ledger:
                st, r = call(man.add_constraint, data_ID1=a, data_ID2=b, constraint_type=ty)
                if st != "ok":
                    return res.problem(dict(case, led=list(led)), "truthful answer %r refused (%s) after %r" % ((a, b, ty), r, ledger))
            res.add(states=1, traces=1)
            st, done = call(man.check_completude_of_constraints)
            if st != "ok" or bool(done) != m.complete():
                return res.problem(dict(case, led=list(led)), "completeness is %s %r after %r" % (st, done, ledger))
            if done:
                msg = finished(case, ids, t, man, vec, res) if m.closure_key() not in final_done else None
                final_done.add(m.closure_key())
                if msg:
                    return res.problem(dict(case, led=list(led)), msg)
                continue
            # a new informative pair is always proposed
            for c, clu in enumerate((t, {i: 0 for i in ids}, {i: q % 2 for q, i in enumerate(ids)})):
                got = {}
                for name in NAMED:
                    st, r = propose(name, man, clu, vec, 1 + (c + len(led)) % 2, 7 + c)
                    res.add(transitions=1)
                    if st != "ok":
                        return res.problem(dict(case, led=list(led)), "sampler %s: %s %s" % (name, st, r))
                    for p in r:
                        if p[0] == p[1] or m.rel(*p) is not None:
                            return res.problem(dict(case, led=list(led)), "sampler %s proposes %r, which is already known" % (name, p))
                    got[name] = r
                if not got["random"]:
                    return res.problem(dict(case, led=list(led)), "constraints are not complete but the random sampler proposes nothing")
                if not got["random_in_same_cluster"] and not got["closest_in_different_clusters"]:
                    return res.problem(dict(case, led=list(led)), "no sampler proposes a pair although constraints are not complete")
            for a, b in pairs:
                # redundant answers are accepted too; only informative ones lead on
                st, r = call(manager(ids, ledger).add_constraint, data_ID1=b, data_ID2=a, constraint_type=truth(t, a, b))
                res.add(transitions=1)
                if st != "ok":
                    return res.problem(dict(case, led=list(led)), "truthful answer %r refused (%s) after %r" % ((b, a, truth(t, a, b)), r, ledger))
                if (a, b) in led or (case["grain"] == "closure" and m.rel(a, b) is not None):
                    continue
                if case["grain"] == "closure":
                    new = led + ((a, b),)
                    k = m.apply(("add", a, b, truth(t, a, b)))[1].closure_key()
                    if k in keyed:
                        continue
                    keyed.add(k)
                else:
                    new = tuple(sorted(led + ((a, b),)))
                    if new in seen:
                        continue
                    seen.add(new)
                nxt.append(new)
        frontier = nxt
    if not final_done:
        return res.problem(case, "no complete state reached")
    res.outcome(("annotate", tuple(sorted(t.values()))))


WORDS = ("carte", "perdue", "voyage", "virement", "compte", "plafond")


def text(p):
    """A text that repeats words according to the coordinates of a point."""
    return " ".join(w for j, x in enumerate(p) for w in [WORDS[j]] * (1 + abs(int(x)) % 7)) + " " + WORDS[3 + abs(int(sum(p))) % 3]


def reloaded(man):
    with tempfile.TemporaryDirectory(prefix="mc29") as d:
        p = os.path.join(d, "m.json")
        man.to_json(p)
        return lib("constraints.binary").load_constraints_manager_from_json(p)


def loop_case(case, res):
    """One closed loop, on one live manager, from no constraint to completeness."""
    ids, pts = case["ids"], case["pts"]
    t = {k: v for k, v in case["target"]}
    session = case.get("session", [])
    if "texts" in session:  # the vectors come from the library, as in the documentation
        st, vec = call(lib("utils.vectorization").vectorize, dict_of_texts={i: text(p) for i, p in zip(ids, pts)}, vectorizer_type="tfidf")
        if st != "ok":
            return res.problem(case, "vectorization failed: %s %s" % (st, vec))
    else:
        vec = vectors(ids, pts)
    n = len(ids)
    man = manager(ids, [])
    m = Model(ids)
    live = {}  # one clustering and one sampler for the whole session, or new ones for each round
    answers, rounds = 0, 0
    algo, par, name, batch = case["algo"], case["par"], case["sampler"], case["batch"]
    clu = None
    while True:
        st, done = call(man.check_completude_of_constraints)
        if st != "ok" or bool(done) != m.complete():
            return res.problem(case, "completeness is %s %r after %d answers" % (st, done, answers))
        if done:
            break
        rounds += 1
        if rounds > n * (n - 1) // 2:
            return res.problem(case, "the loop is not complete after one round per pair of data")
        kmax = len(m.groups())
        nb = None if algo in ("ap", "dbscan") else min(max(2, case.get("nb", 2)), max(2, kmax))
        if "reload" in session:
            man = reloaded(man)
        if "live" in session:
            inst = live.setdefault("c", build(algo, par, case["seed"]))
        else:
            inst = build(algo, par, case["seed"])
        st, clu = call(inst.cluster, constraints_manager=man, vectors=vec, nb_clusters=nb)
        res.add(states=1, transitions=1)
        if st != "ok":
            return res.problem(case, "clustering failed in round %d: %s %s" % (rounds, st, clu))
        if "live" in session:
            st, sel = call(live.setdefault("s", sampler(name, case["seed"])).sample, constraints_manager=man, nb_to_select=batch, clustering_result=clu, vectors=vec)
        else:
            st, sel = propose(name, man, clu, vec, batch, case["seed"])
        if st == "ok" and not sel:
            if name == "random":
                return res.problem(case, "the random sampler proposes nothing in round %d although constraints are not complete" % rounds)
            st, sel = propose("random", man, clu, vec, batch, case["seed"])
        if st != "ok" or not sel:
            return res.problem(case, "no pair proposed in round %d: %s %r" % (rounds, st, sel))
        for a, b in sel:
            if m.rel(a, b) is not None and batch == 1:
                return res.problem(case, "pair %r proposed in round %d is already known" % ((a, b), rounds))
            st, r = call(man.add_constraint, data_ID1=a, data_ID2=b, constraint_type=truth(t, a, b))
            verdict, m = m.apply(("add", a, b, truth(t, a, b)))
            answers += 1
            res.add(transitions=1)
            if st != "ok":
                return res.problem(case, "truthful answer %r refused after %d answers: %s" % ((a, b), answers, r))
            if "hesitate" in session:  # the answer is withdrawn and given again
                call(man.delete_constraint, data_ID1=b, data_ID2=a)
                st, r = call(man.add_constraint, data_ID1=b, data_ID2=a, constraint_type=truth(t, a, b))
                if st != "ok":
                    return res.problem(case, "truthful answer %r refused when given again: %s" % ((a, b), r))
    if answers > n * (n - 1) // 2:
        return res.problem(case, "%d answers for %d pairs of data" % (answers, n * (n - 1) // 2))
    res.add(traces=1)
    res.outcome((algo, name, rounds, answers))
    msg = finished(case, ids, t, man, vec, res) if case.get("final") else None
    if msg:
        return res.problem(case, msg)


def annotate_cases(tier):
    T = tier == "thorough"
    for n in (2, 3, 4):
        sets = DATA[n] if (T or n < 4) else [DATA[n][0], DATA[n][2], DATA[n][5]]
        for pts in sets:
            for t in targets(IDS[n]):
                yield {"kind": "annotate", "ids": IDS[n], "pts": pts, "target": [[i, t[i]] for i in IDS[n]], "grain": "ledger"}
    for t in targets(IDS[5]):
        yield {"kind": "annotate", "ids": IDS[5], "pts": GENERIC[5], "target": [[i, t[i]] for i in IDS[5]], "grain": "ledger" if T else "closure"}
    if T:
        for t in targets(IDS[6]):
            yield {"kind": "annotate", "ids": IDS[6], "pts": GENERIC[6], "target": [[i, t[i]] for i in IDS[6]], "grain": "closure"}


def loop_cases(tier):
    T = tier == "thorough"
    ALG = [("kmeans", {}), ("hierarchical", {"linkage": "ward"}), ("hierarchical", {"linkage": "single"}), ("spectral", {}), ("ap", {}),
           ("mpckmeans", {}), ("dbscan", {"eps": 4, "min_samples": 2})]
    k = 0
    for n in (3, 4, 5):
        for di, pts in enumerate([GENERIC[n]] + (DATA[n] if T else DATA[n][2:3])):
            for t in targets(IDS[n]):
                for algo, par in ALG:
                    for name in NAMED:
                        k += 1
                        if not T and n == 5 and k % 3:
                            continue
                        yield {"kind": "loop", "ids": IDS[n], "pts": pts, "target": [[i, t[i]] for i in IDS[n]], "algo": algo, "par": par,
                               "sampler": name, "batch": 1 + (k % 2) * (k % 4), "seed": k % 5, "nb": 2 + k % 3, "final": k % 7 == 0}
    # whole sessions: the same instances in every round, manager saved and reloaded, answers withdrawn and given again, texts
    sessions = [["live"], ["live", "reload"], ["live", "hesitate"], ["texts", "live", "reload", "hesitate"], ["texts"]]
    for n in (4, 5, 6):
        for t in (targets(IDS[n]) if n < 6 else [{i: j % q for j, i in enumerate(IDS[n])} for q in (2, 3, 6)]):
            for algo, par in ALG:
                for name in NAMED:
                    k += 1
                    if T or n != 5 or k % 6 == 0:
                        yield {"kind": "loop", "ids": IDS[n], "pts": GENERIC[n], "target": [[i, t[i]] for i in IDS[n]], "algo": algo, "par": par if algo != "dbscan" else dict(par, eps=(4, 0.5)[k % 5 > 2]),
                               "sampler": name, "batch": 1 + (k % 2) * (k % 3), "seed": k % 5, "nb": 2 + k % 3, "session": sessions[k % 5]}
    for n in (8, 9):
        for q in (2, 3, 4, n):
            for algo, par in ALG:
                for name in NAMED:
                    for batch in (1, 5) if T else (3,):
                        k += 1
                        yield {"kind": "loop", "ids": IDS[n], "pts": DATA[n][0], "target": [[i, j % q] for j, i in enumerate(IDS[n])],
                               "algo": algo, "par": par, "sampler": name, "batch": batch, "seed": k % 5, "nb": q, "final": True}


def check(pid, tier, res):
    parallel("c29a", annotate_case, list(annotate_cases(tier))[::-1], chunk=1, res=res)
    if not res.problems:
        parallel("c29b", loop_case, list(loop_cases(tier))[::-1], chunk=4, res=res)


def replay(pid, case):
    r = Res()
    (annotate_case if case["kind"] == "annotate" else loop_case)(case, r)
    return [m for _, m in r.problems]


RULES = {"C29": "for every target partition of n<=5 data in at least two clusters, breadth-first exploration of every set of truthful answers (n<=4; closures for n=5, ledgers in thorough), all samplers questioned in every state; closed loops cluster-sample-annotate run to completeness for every target of n<=5 data, 7 clustering configurations, 4 samplers, several batch sizes, and regular targets over 8-9 data; outcomes = distinct (algorithm, sampler, rounds, answers)"}
ASSUMES = {"C29": ["the annotator answers truthfully", "a sampler restricted to one side (same cluster / different clusters) may have nothing to propose; then the unrestricted one must"]}
