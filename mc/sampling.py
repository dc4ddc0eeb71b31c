"""Properties C21-C24: the constraint samplers, over every small constraint ledger, clustering and configuration."""
import itertools
import math
import random

import numpy as np
from scipy.sparse import csr_matrix

from . import common
from .common import Res, call, lib, parallel
from .domain import DATA, GENERIC, IDS, NEAR, closures, manager, structured, vectors
from .model import CL, ML, Model, all_partitions, model_of

CR = (None, "same_cluster", "different_clusters")
DR = (None, "closest_neighbors", "farthest_neighbors")
FLAGS = ((True, True), (True, False), (False, True), (False, False))
NAMED = {"random": (None, None), "random_in_same_cluster": ("same_cluster", None),
         "farthest_in_same_cluster": ("same_cluster", "farthest_neighbors"),
         "closest_in_different_clusters": ("different_clusters", "closest_neighbors")}

_LEDGERS = {}


def ledgers(n):
    """Every consistent ledger over n data (added constraints, not only their closure)."""
    if n not in _LEDGERS:
        ids = IDS[n]
        pairs = list(itertools.combinations(ids, 2))
        out = []
        for v in itertools.product((None, ML, CL), repeat=len(pairs)):
            m, ok = Model(ids), True
            for (a, b), t in zip(pairs, v):
                if t is not None:
                    verdict, m = m.apply(("add", a, b, t))
                    if verdict != "ok":
                        ok = False
                        break
            if ok:
                out.append([[a, b, t] for (a, b), t in zip(pairs, v) if t is not None])
        _LEDGERS[n] = out
    return _LEDGERS[n]


LABELS = [0, 1, 2, 3, 4, 5, 6, 7, 8]
ODD = [-1, -2, 7, 1000, 0, 3, 5, 9, 2]


def clusterings(n):
    ids = IDS[n]
    for k, p in enumerate(all_partitions(ids)):
        names = LABELS if k % 2 == 0 else ODD
        yield [[i, names[c]] for c, g in enumerate(p) for i in g]


def make(conf, seed=1):
    cr, dr, wa, wi, named = conf
    if named:
        kw = {}
        if (wa, wi) != (True, True):
            kw = {"without_added_constraints": wa, "without_inferred_constraints": wi}
        return lib("sampling.factory").sampling_factory(algorithm=named, random_seed=seed, **kw)
    return lib("sampling.clusters_based").ClustersBasedConstraintsSampling(
        random_seed=seed, clusters_restriction=cr, distance_restriction=dr, without_added_constraints=wa, without_inferred_constraints=wi)


def confs():
    for cr in CR:
        for dr in DR:
            for wa, wi in FLAGS:
                yield (cr, dr, wa, wi, None)
    for name, (cr, dr) in NAMED.items():
        yield (cr, dr, True, True, name)
        yield (cr, dr, True, False, name)


def eligible(m, clu, conf):
    cr, dr, wa, wi, _ = conf
    out = set()
    for a in m.ids:
        for b in m.ids:
            if a < b:
                if cr == "same_cluster" and clu[a] != clu[b]:
                    continue
                if cr == "different_clusters" and clu[a] == clu[b]:
                    continue
                if wa and m.added(a, b) is not None:
                    continue
                if wi and m.rel(a, b) is not None:
                    continue
                out.add((a, b))
    return out


class Inst:
    """One sampling instance described by a case."""

    def __init__(self, case):
        self.case = case
        self.ids = case["ids"]
        self.m = model_of(case["ids"], [tuple(x) for x in case["led"]])
        self.man = manager(case["ids"], case["led"])
        self.clu = {k: v for k, v in case["clu"]}
        self.vec = vectors(case["ids"], case["pts"])
        self.pos = {i: p for i, p in zip(case["ids"], case["pts"])}
        self.via = case.get("via", "adds")
        if self.via == "visitor":  # IDs that come and go, constraints retracted
            self.man.add_data_ID("~v")
            self.man.add_constraint("~v", self.ids[0], ML)
            self.man.add_constraint("~v", self.ids[-1], self.m.rel(self.ids[0], self.ids[-1]) or CL)
            self.man.delete_data_ID("~v")
        elif self.via == "moved":  # one ID deleted and added again at the end of the list
            x = self.ids[0]
            self.man.delete_data_ID(x)
            self.man.add_data_ID(x)
            for a, b, t in case["led"]:
                if x in (a, b):
                    self.man.add_constraint(b, a, t)
        elif self.via == "retracted":
            for a, b in itertools.combinations(self.ids, 2):
                if self.m.rel(a, b) is None:
                    self.man.add_constraint(a, b, ML)
                    self.man.delete_constraint(b, a)

    def sample(self, conf, nb, seed=1, sampler=None, vec=None):
        s = sampler if sampler is not None else make(conf, seed)
        kw = {"constraints_manager": self.man, "nb_to_select": nb}
        if conf[0] is not None:
            kw["clustering_result"] = self.clu
        if conf[1] is not None:
            kw["vectors"] = self.vec if vec is None else vec
        return call(s.sample, **kw)

    def warm(self, sampler, conf, k):
        """The sampler was used before: with the same manager in another state, another clustering and other vectors."""
        ids = self.ids
        man = manager(ids, [])
        if len(ids) > 2:
            man.add_constraint(ids[0], ids[-1], (ML, CL)[k % 2])
        kw = {"constraints_manager": man, "nb_to_select": 1 + k % 3}
        clu = {x: (i + k) % 2 for i, x in enumerate(ids)}
        vec = {i: csr_matrix(np.array([[float((3 * q * q) % 7)] * len(self.case["pts"][0])])) for q, i in enumerate(reversed(ids))}
        if conf[0] is not None:
            kw["clustering_result"] = clu
        if conf[1] is not None:
            kw["vectors"] = vec
        call(sampler.sample, **kw)
        if k % 3 == 0:
            return
        # the same manager and dictionaries, whose content is now that of the case
        if len(ids) > 2:
            man.delete_constraint(ids[0], ids[-1])
        for a, b, t in self.case["led"]:
            man.add_constraint(a, b, t)
        clu.update(self.clu)
        self.clu = clu
        vec.update(self.vec)
        self.vec = vec
        self.man = man

    def dist(self, p):
        return math.dist(self.pos[p[0]], self.pos[p[1]])


def nbs(e, k):
    base = sorted({1, max(1, e // 2), e, e + 1, 100000} - {0})
    return base if k < 0 else [base[k % len(base)], base[(k + 2) % len(base)]]


def c21_case(case, res):
    I = Inst(case)
    for k, conf in enumerate(confs()):
        E = eligible(I.m, I.clu, conf)
        s = None
        if (case["k"] + k) % 2:
            s = make(conf, k if k % 4 else None)
            I.warm(s, conf, (case["k"] + k) // 2)
        for nb in [0] + nbs(len(E), case["k"] + k):
            st, r = I.sample(conf, nb, seed=k if k % 5 else None, sampler=s)
            res.add(transitions=1)
            if st != "ok":
                return res.problem(case, "sampler %r, nb=%d: %s %s" % (conf, nb, st, r))
            if not isinstance(r, list):
                return res.problem(case, "sampler %r returned %r" % (conf, type(r)))
            for p in r:
                if not isinstance(p, tuple) or len(p) != 2 or tuple(p) not in E:
                    return res.problem(case, "sampler %r, nb=%d proposed %r, which is not eligible (eligible: %r)" % (conf, nb, p, sorted(E)))
            if len(set(r)) != len(r):
                return res.problem(case, "sampler %r, nb=%d repeats a pair: %r" % (conf, nb, r))
        res.outcome((conf, len(E)))
    res.add(states=1, traces=1)


def c22_case(case, res):
    I = Inst(case)
    for k, conf in enumerate(confs()):
        E = eligible(I.m, I.clu, conf)
        if (k + case["k"]) % 3 == 0:
            prev = []
            s = make(conf, None if k % 2 else 1)
            I.warm(s, conf, case["k"] + k)
            todo = (list(range(0, len(E) + 2)) if len(E) < 400 else [0, 1, 2, 399, len(E) - 1, len(E), len(E) + 1]) + [100000]
        else:
            s, prev, todo = None, None, nbs(len(E), case["k"] + k)
        for nb in todo:
            st, r = I.sample(conf, nb, seed=(1, None, 0)[(case["k"] + k) % 3], sampler=s)
            res.add(transitions=1)
            if st != "ok":
                return res.problem(case, "sampler %r, nb=%d: %s %s" % (conf, nb, st, r))
            if len(set(map(tuple, r))) != min(nb, len(E)) or len(r) != min(nb, len(E)):
                return res.problem(case, "sampler %r, nb=%d returned %d pairs %r although %d are eligible" % (conf, nb, len(r), r, len(E)))
            if prev is not None and conf[1] is not None and not set(prev) <= set(r):
                return res.problem(case, "sampler %r: %r for %d pairs is not extended by %r for %d" % (conf, prev, len(prev), r, nb))
            if prev is not None:
                prev = r
        res.outcome((conf, len(E)))
    res.add(states=1, traces=1)


def c23_case(case, res):
    I = Inst(case)
    other = {i: csr_matrix(np.array([[float((3 * k * k) % 7)] * len(case["pts"][0])])) for k, i in enumerate(reversed(I.ids))}
    tol = 1e-6 * (max(abs(float(x)) for p in case["pts"] for x in p) or 1.0)  # rounding of distances between data of that size
    for k, conf in enumerate(c for c in confs() if c[1] is not None):
        E = eligible(I.m, I.clu, conf)
        s = make(conf, seed=k if (case["k"] + k) % 4 else None)
        # something else was sampled before with the same sampler
        if (case["k"] + k) % 2:
            I.sample(conf, 2, sampler=s, vec=other)
        for nb in nbs(len(E), case["k"] + k):
            extra = dict(I.vec)
            if (case["k"] + k + nb) % 3 == 0:  # dictionary order and unmanaged entries are irrelevant
                extra = {"!x": csr_matrix(np.zeros((1, len(case["pts"][0]))))}
                extra.update({i: I.vec[i] for i in sorted(I.vec)})
            st, r = I.sample(conf, nb, sampler=s, vec=extra)
            res.add(transitions=1)
            if st != "ok":
                return res.problem(case, "sampler %r, nb=%d: %s %s" % (conf, nb, st, r))
            sign = 1 if conf[1] == "closest_neighbors" else -1
            d = [sign * I.dist(p) for p in r]
            if any(y < x - tol for x, y in zip(d, d[1:])):
                return res.problem(case, "sampler %r, nb=%d: distances %r are not in order" % (conf, nb, [abs(x) for x in d]))
            rest = E - set(map(tuple, r))
            if d and rest:
                b = min(rest, key=lambda p: sign * I.dist(p))
                if sign * I.dist(b) < max(d) - tol:
                    return res.problem(case, "sampler %r, nb=%d left out %r at %.4g but returned %r at %.4g" % (conf, nb, b, I.dist(b), r[-1], abs(max(d))))
            res.outcome((conf, tuple(float("%.5g" % x) for x in d)))
    res.add(states=1, traces=1)


def c24_case(case, res):
    I = Inst(case)
    for k, conf in enumerate(confs()):
        E = sorted(eligible(I.m, I.clu, conf))
        nb = max(1, (len(E) + 1) // 2)
        for seed in (0, 1, 2 ** 31 - 1, 7 + k):
            s = make(conf, seed)
            random.seed(5)
            np.random.seed(5)
            st, r0 = I.sample(conf, nb, sampler=s)
            random.seed(321)
            np.random.seed(11)
            random.random()
            out = [I.sample(conf, nb, sampler=s)]
            I.sample(conf, nb + 1, sampler=s)  # other samplings in between
            I.sample((None, None, False, False, None), 3, seed=8)
            out.append(I.sample(conf, nb, sampler=s))
            out.append(Inst(case).sample(conf, nb, seed=seed))
            res.add(transitions=4)
            if st != "ok" or any(x != ("ok", r0) for x in out):
                return res.problem(case, "sampler %r with seed %d gave %r, then %r" % (conf, seed, (st, r0), out))
        if case.get("reach") and conf[1] is None and E:
            seen = set()
            full = len(E) * nb
            for seed in range(400):
                st, r = I.sample(conf, nb, seed=seed)
                res.add(transitions=1)
                if st != "ok":
                    return res.problem(case, "sampler %r: %s %s" % (conf, st, r))
                seen |= {(tuple(p), i) for i, p in enumerate(r)}
                if len(seen) == full:
                    break
            if len(seen) < full:
                miss = next((p, i) for p in E for i in range(nb) if (p, i) not in seen)
                return res.problem(case, "sampler %r never proposes %r in position %d over 400 seeds" % (conf, miss[0], miss[1]))
            res.outcome((conf, frozenset(seen)))
    res.add(states=1, traces=1)


VIA = ("adds", "visitor", "moved", "retracted")


def base_cases(tier, light=1):
    T = tier == "thorough"
    k = 0
    for n in (1, 2, 3):
        for led in (ledgers(n) if n > 1 else [[]]):
            for clu in clusterings(n):
                for pts in (DATA[n] + NEAR.get(n, []) if n > 1 else [[[1]]]):
                    k += 1
                    yield {"ids": IDS[n], "led": led, "clu": clu, "pts": pts, "k": k, "via": VIA[k % 4] if n > 1 else "adds"}
    L = ledgers(4)
    P = list(clusterings(4))
    D = DATA[4] + [GENERIC[4]] + NEAR[4]
    for i, led in enumerate(L):
        for j, clu in enumerate(P):
            if T or (i + j) % light == 0:
                k += 1
                yield {"ids": IDS[4], "led": led, "clu": clu, "pts": D[k % len(D)], "k": k, "via": VIA[(i * 15 + j) % 4]}
    P5 = list(clusterings(5))
    for i, led in enumerate(closures(5)):
        for j in range(len(P5)):
            if (i * 7 + j * 3) % (26 if T else 26 * light) == 0:
                k += 1
                yield {"ids": IDS[5], "led": led, "clu": P5[j], "pts": (DATA[5] + [GENERIC[5]] + NEAR[5])[k % 9], "k": k, "via": VIA[k % 4]}
    for n in (8, 9):
        for i, led in enumerate(structured(n)):
            for clu in ([[x, q % 3] for q, x in enumerate(IDS[n])], [[x, q] for q, x in enumerate(IDS[n])], [[x, 0] for x in IDS[n]], [[x, q // 4 - 1] for q, x in enumerate(IDS[n])]):
                k += 1
                yield {"ids": IDS[n], "led": led, "clu": clu, "pts": DATA[n][0], "k": k, "via": VIA[k % 4]}
    ids = [str(i) for i in range(25)]
    for led in ([], [[str(i), str(i + 5), ML] for i in range(20)], [["3", str(i), CL] for i in range(10, 20)]):
        for q in (2, 5, 25):
            k += 1
            yield {"ids": ids, "led": led, "clu": [[str(i), i % q - 1] for i in range(25)], "pts": [[(i * i) % 31, (i * 7) % 13] for i in range(25)], "k": k, "via": VIA[k % 4]}


def large_cases():
    """60 and 130 data: up to 8385 pairs."""
    k = 0
    for n in (60, 130):
        ids = [str((7 * i) % n) if i % 3 else "k%d" % i for i in range(n)]
        leds = [[], [[ids[i], ids[i + 1], ML] for i in range(0, n - 1, 2)], [[ids[0], ids[i], CL] for i in range(1, n)]]
        for led in leds[: 3 if n == 60 else 2]:
            for q in (3, n):
                k += 1
                yield {"ids": ids, "led": led, "clu": [[x, i % q] for i, x in enumerate(ids)],
                       "pts": [[(i * 37) % 83, (i * i * 11) % 97] for i in range(n)], "k": k, "via": VIA[k % 4]}


def scaled_cases(tier):
    """Very small and very large coordinates."""
    k = 0
    for n in (3, 4, 5):
        for led in closures(n)[:: 1 if tier == "thorough" or n < 5 else 8]:
            for pts in DATA[n] + [GENERIC[n]]:
                for f in (2.0 ** -26, 2.0 ** 24):
                    k += 1
                    if tier == "thorough" or n == 3 or k % 5 == 0:
                        yield {"ids": IDS[n], "led": led, "clu": [[x, q % (1 + k % 3)] for q, x in enumerate(IDS[n])], "pts": [[x * f for x in p] for p in pts],
                               "k": k, "via": VIA[k % 4]}


def c24_cases(tier):
    T = tier == "thorough"
    for c in base_cases(tier, 12 if not T else 2):
        if len(c["ids"]) <= 4 or c["k"] % (4 if T else 16) == 0:
            yield dict(c, reach=len(c["ids"]) <= 3 or (len(c["ids"]) == 4 and c["k"] % (4 if T else 24) == 0))


def c24_large(case, res):
    """Many pairs: over enough seeds, every eligible pair is proposed (a missing one has probability below 1e-9)."""
    I = Inst(case)
    for conf in case["confs"]:
        conf = tuple(conf)
        E = set(eligible(I.m, I.clu, conf))
        nb = (len(E) + 1) // 2
        seen, first = set(), set()
        for seed in range(45):  # each pair is left out half of the time
            st, r = I.sample(conf, nb, sampler=make(conf, seed))
            res.add(transitions=1)
            if st != "ok":
                return res.problem(case, "sampler %r: %s %s" % (conf, st, r))
            seen.update(map(tuple, r))
            first.add(tuple(map(tuple, r[:2])))
        res.add(states=1, traces=1)
        if seen != E:
            return res.problem(case, "sampler %r never proposed %r over 45 seeds (%d of %d pairs seen)" % (conf, sorted(E - seen)[:1] or sorted(seen - E)[:1], len(seen), len(E)))
        if len(E) >= 6 and len(first) < 10:
            return res.problem(case, "sampler %r begins with one of %d proposals over 45 seeds" % (conf, len(first)))
        st, a = I.sample(conf, nb, sampler=make(conf, 3))
        random.seed(99)
        st2, b = I.sample(conf, nb, sampler=make(conf, 3))
        if st != "ok" or st2 != "ok" or list(a) != list(b):
            return res.problem(case, "sampler %r gives other pairs for the same seed" % (conf,))
        res.outcome((conf, len(E)))


def c24_large_cases(tier):
    rnd = [c for c in confs() if c[1] is None]
    for c in large_cases():
        if len(c["ids"]) == 60 or tier == "thorough":
            for x in rnd:
                yield dict(c, confs=[list(x)], large=True)


FUNC = {"C21": c21_case, "C22": c22_case, "C23": c23_case, "C24": c24_case}


def check(pid, tier, res):
    if pid == "C24":
        parallel("c24l", c24_large, c24_large_cases(tier), res=res, chunk=1)
        if res.problems:
            return
    cases = c24_cases(tier) if pid == "C24" else base_cases(tier, 1 if pid == "C21" else 2)
    if pid == "C23":
        cases = itertools.chain(cases, scaled_cases(tier))
    parallel(pid, FUNC[pid], cases, res=res)
    if pid != "C24" and not res.problems:
        parallel(pid, FUNC[pid], large_cases(), res=res, chunk=1)


def replay(pid, case):
    r = Res()
    (c24_large if case.get("large") else FUNC[pid])(case, r)
    return [m for _, m in r.problems]


def interp_samples():
    """For the other-interpreter part of C18/C24: seeded samples as plain lists."""
    out = []
    for k, c in enumerate(base_cases("quick", 9)):
        if k % 40 == 0:
            I = Inst(c)
            for conf in confs():
                st, r = I.sample(conf, 3, seed=k)
                out.append([st, [list(p) for p in r] if st == "ok" else str(r)])
    return out


_SP = "every consistent ledger of added constraints over n<=4 data (closures for n=5, structured states for n=8,9,25) x every clustering (set partition, also with negative labels) x the 36 sampler configurations and the 4 named ones, reached by 4 kinds of manager history; "
RULES = {
    "C21": _SP + "every returned pair is compared with the set of eligible pairs computed from the model",
    "C22": _SP + "every returned length is compared with the number of eligible pairs, for requests 0, 1, .., E, E+1, 1000, and inclusion is checked for growing requests",
    "C23": _SP + "order and optimality are judged against all eligible pairs with independently computed distances; samplers are reused with other vectors before",
    "C24": _SP + "each seeded sampler is run four times in different contexts; for the random samplers seeds are enumerated until every (eligible pair, position) has been proposed (bound: 400 seeds)",
}
ASSUMES = {
    "C21": ["the eligible pairs are those with a<b as strings, as returned by the code"], "C22": [],
    "C23": ["distances within 1e-6 are ties"],
    "C24": ["reachability over seeds 0..399: a fair generator misses a (pair, position) with probability below 1e-28 for the sizes used"],
}
