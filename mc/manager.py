"""Properties C01-C09: the constraints manager, decided by exploring the real object against the reference model."""
import itertools
import json
import os
import pickle
import random
import tempfile
from collections import Counter

from . import common
from .common import VERIF, Res, call, lib, parallel
from .explorer import (BAD, QUERIES, alphabet, apply_op, bfs, canon, dumps, new_manager, observe, query, run_history,
                       sequences)
from .model import CL, ML, Model, closure_states, model_of

# ID alphabets: insertion order, lexicographic order and numeric order all differ
IDS3 = ["b", "10", "9"]
IDS4 = ["b", "a", "10", "9"]
IDS5 = ["2", "b", "10", "a", "1"]
IDS6 = ["c", "2", "b", "10", "a", "1"]
ODD = ["", "é\"'", "NONE", "0\n"]


class Spec:
    needs_pre = False

    def state(self, obj, model, res):
        return []

    def edge(self, node, pre, op, expected, status, value, obj, nm, res):
        return []


def q(f, *a, **k):
    """Library query that must succeed."""
    st, v = call(f, *a, **k)
    if st != "ok":
        raise QueryFailed("%s from %s%r: %s" % (st, getattr(f, "__name__", f), a, v))
    return v


class QueryFailed(Exception):
    pass


def guarded(f):
    def g(self, *a):
        try:
            return f(self, *a)
        except QueryFailed as e:
            return [str(e)]
    return g


# ------------------------------------------------------------------------------------------------ C01
class Closure(Spec):
    @guarded
    def state(self, obj, m, res):
        out, vec = [], []
        for a in m.ids:
            for b in m.ids:
                exp = m.rel(a, b)
                got = q(obj.get_inferred_constraint, a, b)
                vec.append(got)
                if got != exp:
                    out.append("inferred(%r,%r)=%r, the added constraints %r imply %r" % (a, b, got, m.ledger, exp))
        res.outcome(tuple(vec))
        res.add(traces=1)
        return out


# ------------------------------------------------------------------------------------------------ C02
class Verdicts(Spec):
    needs_pre = True

    def state(self, obj, m, res):
        res.add(traces=1)
        return []

    def edge(self, node, pre, op, expected, status, value, obj, nm, res):
        if op[0] == "query":
            return []
        if expected == "ok":
            if status != "ok":
                return ["%r must be accepted (constraints %r), got %s %s" % (op, nm.ledger, status, value)]
            if op[0] == "add" and value is not True:
                return ["%r accepted but returned %r" % (op, value)]
            return []
        if status != "ValueError":
            return ["%r must be refused with ValueError (constraints %r), got %s %r" % (op, nm.ledger, status, value)]
        res.count("refusals")
        post = observe(obj)
        if pre is not None and post != pre:
            d = [x[0] for x, y in zip(pre, post) if x != y]
            return ["refused %r changed the answers to %s" % (op, d)]
        # later: every continuation gives the same verdict and the same knowledge with and without the refused operation
        if node.blob is not None:
            before = pickle.loads(node.blob)
            if canon(obj) != canon(before):
                blob = dumps(obj)
                for op2 in alphabet(nm.ids, nm.ids + ("fresh",), "full"):
                    x, y = pickle.loads(blob), pickle.loads(node.blob)
                    if apply_op(x, op2)[0] != apply_op(y, op2)[0] or observe(x) != observe(y):
                        return ["refused %r changes the effect of a later %r" % (op, op2)]
        return []


# ------------------------------------------------------------------------------------------------ C03
class Ledger(Spec):
    @guarded
    def state(self, obj, m, res):
        out, vec = [], []
        for a in m.ids:
            for b in m.ids:
                exp = m.added(a, b)
                got = q(obj.get_added_constraint, a, b)
                vec.append(got)
                if exp is None:
                    if got is not None:
                        out.append("added(%r,%r)=%r but nothing was added" % (a, b, got))
                elif got is None or tuple(got) != (exp, 1.0):
                    out.append("added(%r,%r)=%r, expected %r" % (a, b, got, (exp, 1.0)))
        res.outcome(tuple(vec))
        res.add(traces=1)
        return out

    def edge(self, node, pre, op, expected, status, value, obj, nm, res):
        if op[0] in ("add", "del") and expected == "ok" and status == "ok" and op[1] != op[2] and value is not True:
            return ["%r returned %r" % (op, value)]
        if op[0] == "del" and op[1] == op[2] and status == "ok" and value is not False:
            return ["%r returned %r although the link of a data with itself cannot be deleted" % (op, value)]
        return []


# ------------------------------------------------------------------------------------------------ C04
class Groups(Spec):
    @guarded
    def state(self, obj, m, res):
        out = []
        comps = q(obj.get_connected_components)
        flat = [x for c in comps for x in c]
        if sorted(flat) != sorted(m.ids):
            out.append("components %r are not a partition of %r" % (comps, m.ids))
        elif Counter(frozenset(c) for c in comps) != Counter(m.groups()):
            out.append("components %r, expected %r" % (comps, [sorted(g) for g in m.groups()]))
        c = q(obj.check_completude_of_constraints)
        if c is not m.complete() and not (isinstance(c, bool) and c == m.complete()):
            out.append("completeness %r, expected %r (constraints %r over %r)" % (c, m.complete(), m.ledger, m.ids))
        res.outcome((c, len(comps)))
        res.add(traces=1)
        return out


# ------------------------------------------------------------------------------------------------ C05
class Range(Spec):
    seeds = (0,)

    @guarded
    def state(self, obj, m, res):
        if not m.ids:
            return []
        chi, ngroups = m.chromatic()
        res.outcome((chi, ngroups))
        for seed in self.seeds:
            random.seed(seed)
            r = q(obj.get_min_and_max_number_of_clusters)
            res.add(traces=1)
            try:
                lo, hi = r
            except Exception:  # noqa
                return ["range is %r" % (r,)]
            if hi != ngroups:
                return ["maximum %r, there are %d MUST_LINK groups" % (hi, ngroups)]
            if lo < 2:
                return ["minimum %r is below 2" % (lo,)]
            if lo < chi:
                return ["minimum %r, but no violation-free partition has fewer than %d clusters (%r)" % (lo, chi, m.ledger)]
            if ngroups <= 6 and lo != max(2, chi):
                return ["minimum %r, true minimum %d with %d groups (%r)" % (lo, chi, ngroups, m.ledger)]
            if lo > max(2, ngroups):
                return ["minimum %r exceeds the number of groups %d" % (lo, ngroups)]
        return []


# ------------------------------------------------------------------------------------------------ C06
class Conflict(Spec):
    @guarded
    def state(self, obj, m, res):
        f = obj.get_list_of_involved_data_IDs_in_a_constraint_conflict
        before = tuple(q(query, obj, x) for x in ("ids", "inferred", "added"))
        for a in m.ids:
            for b in m.ids:
                for t in (ML, CL):
                    got = q(f, data_ID1=a, data_ID2=b, constraint_type=t)
                    res.add(traces=1)
                    r = m.rel(a, b)
                    if r is None or r == t:
                        if got is not None:
                            return ["no conflict for (%r,%r,%s) but got %r" % (a, b, t, got)]
                    else:
                        exp = sorted(m.group(a) | m.group(b))
                        if got is None or sorted(got) != exp:
                            return ["conflict (%r,%r,%s) involves %r, expected %r" % (a, b, t, got, exp)]
                        res.outcome(len(exp))
        if m.ids:
            x = m.ids[0]
            for args in ((BAD, x, ML), (x, BAD, CL), (x, x, "must_link"), (x, x, None)):
                st, v = call(f, *args)
                if st != "ValueError":
                    return ["conflict query %r must raise ValueError, got %s %r" % (args, st, v)]
        if before != tuple(q(query, obj, x) for x in ("ids", "inferred", "added")):
            return ["asking about conflicts changed the constraints"]
        return []


# ------------------------------------------------------------------------------------------------ C07
def roundtrip(obj, d, name="m.json"):
    p = os.path.join(d, name)
    ok = q(obj.to_json, filepath=p)
    return q(lib("constraints.binary").load_constraints_manager_from_json, filepath=p), p, ok


def doc(p):
    with open(p, encoding="utf-8") as f:
        x = json.load(f)
    return x


class Json(Spec):
    continuations = True

    @guarded
    def state(self, obj, m, res):
        with tempfile.TemporaryDirectory(prefix="mcjson") as d:
            before = observe(obj)
            new, p, ok = roundtrip(obj, d)
            res.add(traces=1)
            if ok is not True:
                return ["saving returned %r" % (ok,)]
            if observe(obj) != before:
                return ["saving changed the manager"]
            if observe(new) != before:
                diff = [a for a, b in zip(before, observe(new)) if a != b]
                return ["reloaded manager differs: had %r" % (diff[:1],)]
            new2, p2, _ = roundtrip(new, d, "m2.json")
            if norm(doc(p)) != norm(doc(p2)):
                return ["saving the reloaded manager gives a different file"]
            if observe(new2) != before:
                return ["second reload differs"]
            if self.continuations:
                b1, b2 = dumps(obj), dumps(new)
                for op in alphabet(m.ids, tuple(m.ids) + ("fresh",), "full"):
                    if op[0] == "query":
                        continue
                    x, y = pickle.loads(b1), pickle.loads(b2)
                    rx, ry = apply_op(x, op), apply_op(y, op)
                    res.add(transitions=1)
                    if rx[0] != ry[0]:
                        return ["%r: original %r, reloaded %r" % (op, rx, ry)]
                    ox, oy = observe(x), observe(y)
                    res.outcome(ox[1][1])
                    if ox != oy:
                        return ["after %r the original and the reloaded manager differ" % (op,)]
        return []


def norm(x):
    """Order-insensitive form of a JSON document."""
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items()}
    if isinstance(x, list):
        return sorted((norm(v) for v in x), key=lambda v: json.dumps(v, sort_keys=True))
    return x


# ------------------------------------------------------------------------------------------------ C08
def scramble(x):
    """Mutate a returned object in place, as deeply as it allows."""
    if isinstance(x, list):
        for y in x:
            scramble(y)
        x.append("intruder")
        x.reverse()
        if len(x) > 1:
            x.pop()
    elif isinstance(x, dict):
        for y in list(x.values()):
            scramble(y)
        x.clear()
    elif isinstance(x, set):
        x.clear()


def returned_objects(obj, ids):
    yield "managed IDs", lambda: obj.get_list_of_managed_data_IDs()
    yield "components", lambda: obj.get_connected_components()
    for a in ids:
        for b in ids:
            yield "added", lambda a=a, b=b: obj.get_added_constraint(a, b)
            for t in (ML, CL):
                yield "conflict", lambda a=a, b=b, t=t: obj.get_list_of_involved_data_IDs_in_a_constraint_conflict(a, b, t)


class Purity(Spec):
    """Compared with itself and with a manager rebuilt from the model's ledger by the same library: no reference answer
    about inference is needed, only that questions and returned objects are inert."""

    def state(self, obj, m, res):
        blob = dumps(obj)
        base = observe(pickle.loads(blob))
        res.outcome(base[1][1])
        # every ordered pair of question kinds, then all answers again
        for q1 in QUERIES:
            if q1 == "json":
                continue
            x = pickle.loads(blob)
            for q2 in (q1,) + QUERIES[:-1]:
                call(query, x, q2)
            res.add(transitions=1 + len(QUERIES))
            if observe(x) != base:
                return ["after asking %s then everything, some answers changed" % q1]
        # mutate every returned object
        x = pickle.loads(blob)
        for name, f in returned_objects(x, m.ids):
            st, v = call(f)
            if st == "ok":
                scramble(v)
        if observe(x) != base:
            return ["modifying a returned list changed the manager"]
        res.add(traces=1)
        # later behaviour: questioned/scrambled object against an untouched one
        b2 = dumps(x)
        if canon(x) != canon(pickle.loads(blob)):
            for op in alphabet(m.ids, tuple(m.ids) + ("fresh",), "full"):
                y, z = pickle.loads(b2), pickle.loads(blob)
                if apply_op(y, op)[0] != apply_op(z, op)[0] or observe(y) != observe(z):
                    return ["questions asked before change the effect of %r" % (op,)]
        return []


def isolation_case(case, res):
    """Two live managers built from the same list object; operations interleaved; each must behave as if alone."""
    ids, opsA, opsB = case["ids"], case["A"], case["B"]
    src = list(ids)
    L = lib("constraints.binary").BinaryConstraintsManager
    a, b = L(list_of_data_IDs=src), L(list_of_data_IDs=src)
    mf = lib("constraints.factory").managing_factory(list_of_data_IDs=src, manager="binary")
    ref = new_manager(ids)
    base = observe(ref)
    src.append("later")
    src.reverse()
    src.pop()
    for x, nm in ((a, "first"), (b, "second"), (mf, "third")):
        if observe(x) != base:
            res.problem(case, "changing the list given at construction changed the %s manager" % nm)
            return
    solo_a, solo_b = new_manager(ids), new_manager(ids)
    res.add(states=1, traces=1)
    for i in range(max(len(opsA), len(opsB))):
        for obj, solo, ops in ((a, solo_a, opsA), (b, solo_b, opsB)):
            if i < len(ops):
                r1 = apply_op(obj, tuple(ops[i]))
                observe(obj)
                r2 = apply_op(solo, tuple(ops[i]))
                res.add(transitions=2)
                if r1[0] != r2[0]:
                    res.problem(case, "operation %r: %r beside another manager, %r alone" % (ops[i], r1, r2))
                    return
        oa, ob = observe(a), observe(b)
        res.outcome((oa[1][1], ob[1][1]))
        if observe(mf) != base:
            res.problem(case, "a third manager changed while it was not used")
            return
    # the solo managers were not questioned between operations and ran alone in lock-step: same final knowledge
    if observe(a) != observe(solo_a) or observe(b) != observe(solo_b):
        res.problem(case, "two managers influence each other, or questions changed a later state")


# ------------------------------------------------------------------------------------------------ C09
class Members(Spec):
    @guarded
    def state(self, obj, m, res):
        ids = q(obj.get_list_of_managed_data_IDs)
        if sorted(ids) != sorted(m.ids):
            return ["managed IDs %r, expected %r" % (ids, m.ids)]
        res.outcome(tuple(sorted(ids)))
        res.add(traces=1)
        for a in m.ids:
            for b in m.ids:
                exp, got = m.added(a, b), q(obj.get_added_constraint, a, b)
                if (got is None) != (exp is None) or (got is not None and got[0] != exp):
                    return ["after ID changes added(%r,%r)=%r, expected %r" % (a, b, got, exp)]
                exp, got = m.rel(a, b), q(obj.get_inferred_constraint, a, b)
                if got != exp:
                    return ["after ID changes inferred(%r,%r)=%r, expected %r" % (a, b, got, exp)]
        for a in self.universe(m):
            if a not in m.ids:
                for x in list(m.ids) + [a]:
                    for f in (obj.get_added_constraint, obj.get_inferred_constraint):
                        for args in ((a, x), (x, a)):
                            st, v = call(f, *args)
                            if st != "ValueError":
                                return ["%s%r must raise ValueError for an unmanaged ID, got %s %r" % (f.__name__, args, st, v)]
        return []

    def universe(self, m):
        return set(IDS4) | {BAD}

    def edge(self, node, pre, op, expected, status, value, obj, nm, res):
        if op[0] in ("addid", "delid"):
            res.count("id_operations")
            if expected == "ok" and (status != "ok" or value is not True):
                return ["%r gave %s %r" % (op, status, value)]
            if expected != "ok" and status != "ValueError":
                return ["%r must raise ValueError, got %s %r" % (op, status, value)]
        return []



WEIRD = ["", " ", "a\u2028b", "\x00", "\ud800", "\U0001f600", "x" * 70, "NaN", "null", "1e3", "01", "1", "{\"a\":1}", "\\", "\n", "\r\n", "\ufeff",
         "e\u0301", "\u00e9", "\u65e5\u672c", "a/b", "../x", "%s", "data_ID1"]


def file_scripts():
    """Pairs of histories over the unusual IDs: every ordered pair of them linked one way or the other."""
    n = len(WEIRD)
    for k in range(1, n):
        ids = WEIRD[k:] + WEIRD[:k]
        ops = [("add", ids[i], ids[i + 1], ML) for i in range(0, n - 1, 2)] + [("add", ids[i], ids[(i + 3) % n], CL) for i in range(0, n, 4)]
        yield {"kind": "file", "ids": ids, "ops": [list(o) for o in ops]}
    for k in (1, 2, 3, 6, n):
        yield {"kind": "file", "ids": WEIRD[:k], "ops": []}


def file_case(case, res):
    """Saving: over a longer file, over a shorter one, to the default path, twice; what is on disk is what was saved last."""
    Load = lib("constraints.binary").load_constraints_manager_from_json
    obj, model = new_manager(case["ids"]), Model(case["ids"])
    cwd = os.getcwd()
    res.add(states=1)
    for op in case["ops"]:
        apply_op(obj, tuple(op))
    want = observe(obj)
    small = new_manager(case["ids"][:1])
    long_ = new_manager(["long%d" % i for i in range(60)])
    for i in range(59):
        apply_op(long_, ("add", "long%d" % i, "long%d" % (i + 1), ML))
    with tempfile.TemporaryDirectory(prefix="mcjson") as d:
        os.chdir(d)
        try:
            for name, first in (("longer", long_), ("shorter", small), ("same", obj)):
                p = os.path.join(d, "m " + name + ".json")
                for x in (first, obj):
                    st, v = call(x.to_json, filepath=p)
                    if st != "ok":
                        return res.problem(case, "saving: %s %s" % (st, v))
                st, new = call(Load, filepath=p)
                res.add(transitions=2, traces=1)
                if st != "ok" or observe(new) != want:
                    return res.problem(case, "saved over a %s file, then loaded: %s" % (name, st if st != "ok" else "another manager"))
            for path in (None, "rel.json", os.path.join(".", "x.y.z")):
                st, v = call(obj.to_json) if path is None else call(obj.to_json, path)
                st2, new = call(Load, path or "./constraint_manager.json")
                res.add(transitions=2, traces=1)
                if st != "ok" or st2 != "ok" or observe(new) != want:
                    return res.problem(case, "saved to path %r and loaded: %s %s %s" % (path, st, v, st2))
            # the object keeps working after being saved, and the file is not tied to it
            apply_op(obj, ("addid", "later"))
            st, new = call(Load, os.path.join(d, "m same.json"))
            if st != "ok" or observe(new) != want:
                return res.problem(case, "a change after saving changed the file")
        finally:
            os.chdir(cwd)
    res.outcome(repr(want))


LOCALE = r"""
import sys, json, os
sys.path.insert(0, sys.argv[1])
sys.dont_write_bytecode = True
from mc import common
common.setup_import()
from mc.manager import file_scripts, file_case
from mc.common import Res
res = Res()
for c in file_scripts():
    file_case(c, res)
    if res.problems:
        break
print("MCDONE" + json.dumps([[c, m] for c, m in res.problems], ensure_ascii=True))
"""


def locale_case(case, res):
    """The same in a process whose default encoding is ASCII (or UTF-8): the encoding of the machine must not matter."""
    import subprocess
    import sys
    env = dict(os.environ, LC_ALL=case["locale"], PYTHONUTF8="0", PYTHONCOERCECLOCALE="0", PYTHONIOENCODING="utf-8")
    p = subprocess.run([sys.executable, "-B", "-c", LOCALE, VERIF], env=env, capture_output=True, text=True, timeout=600)
    out = [x for x in p.stdout.splitlines() if x.startswith("MCDONE")]
    res.add(states=1)
    if not out:
        return res.problem(case, "round trip in locale %s: %s" % (case["locale"], p.stderr[-400:]))
    for c, m in json.loads(out[-1][6:]):
        res.problem(dict(case, inner=c), "in locale %s: %s" % (case["locale"], m))


SPECS = {"C01": Closure, "C02": Verdicts, "C03": Ledger, "C04": Groups, "C05": Range, "C06": Conflict, "C07": Json,
         "C08": Purity, "C09": Members}

# ------------------------------------------------------------------------------------------------ larger scripted families
def integer_partitions(n, largest=None):
    largest = largest or n
    if n == 0:
        yield []
        return
    for k in range(min(n, largest), 0, -1):
        for r in integer_partitions(n - k, k):
            yield [k] + r


def big_histories(n, shapes=None):
    """n IDs; every group shape; several merge orders; CANNOT_LINK between every two groups through varying members;
    then every single constraint deleted in turn (and, for small n, re-entered), or one ID removed."""
    ids = [str((7 * i) % n + (0 if i % 2 else 10 * n)) for i in range(n)]
    for shape in shapes or integer_partitions(n):
        groups, pos = [], 0
        for k in shape:
            groups.append(ids[pos:pos + k])
            pos += k
        for style in ("chain", "star", "rev", "inter"):
            adds = []
            per = []
            for g in groups:
                if style == "chain":
                    per.append([("add", g[i], g[i + 1], ML) for i in range(len(g) - 1)])
                elif style == "star":
                    per.append([("add", g[i], g[0], ML) for i in range(1, len(g))])
                elif style == "rev":
                    per.append([("add", g[i + 1], g[i], ML) for i in reversed(range(len(g) - 1))])
                else:
                    per.append([("add", g[i], g[-1 - i], ML) for i in range(len(g) // 2)]
                               + [("add", g[i], g[i + 1], ML) for i in range(len(g) - 1)])
            cls = [("add", a[(i + j) % len(a)], b[(2 * i + j) % len(b)], CL)
                   for (i, a), (j, b) in itertools.combinations(enumerate(groups), 2) if (i + j) % 3 or style == "star"]
            if style in ("chain", "inter"):
                adds = [o for os_ in per for o in os_] + cls
            elif style == "star":
                adds = cls + [o for os_ in per for o in os_]
            else:
                width = max([len(x) for x in per] + [0])
                adds = [x[i] for i in range(width) for x in per if i < len(x)]
                for i, c in enumerate(cls):
                    adds.insert((3 * i) % (len(adds) + 1), c)
            yield ids, adds, []
            pick = adds if len(adds) <= 12 else adds[::3] if not shapes else adds[::1 + len(adds) // 3]
            for o in pick:
                yield ids, adds, [("del", o[2], o[1]), o]
            yield ids, adds, [("delid", ids[n // 2]), ("addid", ids[n // 2])]


def huge_histories(n):
    """n IDs (16, 40): a few group shapes, all styles; three constraints deleted and re-entered, one ID removed."""
    ids = [str((7 * i) % n + (0 if i % 2 else 10 * n)) for i in range(n)]
    half = [n // 2, n - n // 2]
    steps, k = [], 1
    while sum(steps) + k <= n:
        steps.append(k)
        k += 1
    steps[-1] += n - sum(steps)
    shapes = [[n], [n - 1, 1], half, steps, [2] * (n // 2), [4] * (n // 4)]
    for h in big_histories(n, shapes):
        yield h


def big_case(pid):
    spec = SPECS[pid]()
    if pid == "C07":
        spec.continuations = False
    if pid == "C08":
        return None

    def f(case, res):
        ids, adds, tail = case["ids"], [tuple(o) for o in case["adds"]], [tuple(o) for o in case["tail"]]
        obj, model = new_manager(ids), Model(ids)
        from .explorer import Node
        node = Node(None, model, None, None, 0, ids)
        res.add(states=1)
        ops = adds + tail
        for i, op in enumerate(ops):
            pre = observe(obj) if spec.needs_pre and i >= len(adds) else None
            status, value = apply_op(obj, op)
            res.add(transitions=1)
            expected, nm = model.apply(op)
            node.model = model
            msgs = spec.edge(node, pre, op, expected, status, value, obj, nm, res)
            if not msgs and (status == "ok") != (expected == "ok"):
                if status in ("error", "timeout"):
                    msgs = ["%r: %s %s" % (op, status, value)]
                else:
                    res.count("pruned_wrong_verdicts")
                    return
            model = nm
            if not msgs and (i >= len(adds) - 1 or i % case.get("every", 4) == 0):
                msgs = spec.state(obj, model, res)
            if msgs:
                res.problem(dict(case, kind="big"), "; ".join(msgs[:2]))
                return

    return f


def colouring_case(case, res):
    """CANNOT_LINK graphs on seven singleton groups: bounds only (the estimate may exceed the true minimum)."""
    ids = case["ids"]
    obj, m = new_manager(ids), Model(ids)
    for a, b in case["edges"]:
        op = ("add", ids[a], ids[b], CL)
        apply_op(obj, op)
        _, m = m.apply(op)
    spec = Range()
    spec.seeds = (0, 1)
    res.add(states=1, transitions=len(case["edges"]))
    msgs = spec.state(obj, m, res)
    if msgs:
        res.problem(dict(case, kind="colouring"), msgs[0])


def named_graphs(T):
    """CANNOT_LINK graphs on 8-20 groups on which colouring heuristics are known to differ."""
    import networkx as nx
    gs = [nx.petersen_graph(), nx.mycielski_graph(4), nx.mycielski_graph(5) if T else nx.frucht_graph(), nx.cubical_graph(), nx.dodecahedral_graph(),
          nx.icosahedral_graph(), nx.octahedral_graph(), nx.grid_2d_graph(3, 4), nx.heawood_graph(), nx.bull_graph(), nx.house_x_graph(),
          nx.moebius_kantor_graph(), nx.complete_graph(11), nx.barbell_graph(4, 2), nx.lollipop_graph(5, 5), nx.turan_graph(11, 4), nx.balanced_tree(2, 3)]
    for n in range(8, 13 if T else 11):
        for k in range(1, 2 ** min(n // 2, 5)):
            gs.append(nx.circulant_graph(n, [j + 1 for j in range(n // 2) if k >> j & 1]))
        gs += [nx.wheel_graph(n), nx.star_graph(n), nx.path_graph(n), nx.cycle_graph(n)]
    for k in (4, 5, 6):  # crown graphs: two colours are enough, greedy colourings may take k
        g = nx.Graph([("u%d" % i, "v%d" % j) for i in range(k) for j in range(k) if i != j])
        gs.append(g)
    for parts in ((1, 2, 3, 4), (3, 3, 3), (2, 2, 2, 2, 2), (1, 1, 6)):
        gs.append(nx.complete_multipartite_graph(*parts))
    for g in gs:
        nodes = sorted(g.nodes(), key=str)
        n = len(nodes)
        for style in range(3):
            order = nodes if style == 0 else nodes[::-1] if style == 1 else nodes[::2] + nodes[1::2]
            pos = {x: i for i, x in enumerate(order)}
            ids = [str((5 * i) % n + 7 * n) if i % 2 else "g%d" % i for i in range(n)]
            yield {"ids": ids, "edges": sorted([pos[a], pos[b]] for a, b in g.edges())}


# ------------------------------------------------------------------------------------------------ scopes per property
# (roots, universe, scope, depth, grain)


def scopes(pid, tier):
    T = tier == "thorough"
    perms3 = [list(p) for p in itertools.permutations(IDS3)]
    perms4 = [list(p) for p in itertools.permutations(IDS4)]
    S = [(perms3 + [[]], IDS3, "full", None, "fine")]
    if pid == "C07":
        S.append(([ODD], ODD, "full", 2 if not T else 3, "fine"))
        S.append(([IDS4], IDS4, "constraints", None, "ledger"))
        if T:
            S.append(([IDS4, IDS4[:2]], IDS4, "full", 4, "fine"))
        return S
    if pid == "C08":
        S.append(([ODD], ODD, "full", 2, "fine"))
        S.append(([IDS4], IDS4, "constraints", 3 if not T else 5, "fine"))
        S.append(([IDS4], IDS4, "constraints", None, "ledger"))
        return S
    S.append(([ODD], ODD, "full", 3 if not T else 4, "fine"))
    if pid == "C09":
        S.append(([IDS4, IDS4[:2], []], IDS4, "full", 5 if not T else None, "fine"))
        S.append(([IDS4], IDS4, "constraints", 4, "fine"))
        return S
    S.append((perms4 if T else [IDS4], IDS4, "constraints", None, "fine"))
    S.append(([IDS4, IDS4[:2], []], IDS4, "full", 4 if not T else 7, "fine"))
    S.append(([IDS5], IDS5, "constraints", None, "closure"))
    if T:
        S.append(([IDS5], IDS5, "constraints", None, "ledger"))
        S.append(([IDS5], IDS5, "constraints", 4, "fine"))
        S.append(([IDS6], IDS6, "adds", None, "closure"))
    else:
        S.append(([IDS5], IDS5, "adds", None, "ledger"))
    if pid == "C05" and not T:
        S.append(([IDS6], IDS6, "adds", None, "closure"))
    return S


def check(pid, tier, res):
    T = tier == "thorough"
    spec = SPECS[pid]()
    if pid == "C05":
        spec.seeds = (0, 1) if not T else (0, 1, 2, 3)
    # 1. stateful exploration
    for sc in scopes(pid, tier):
        bfs(spec, *sc, res=res, seconds=None if T else 60 if sc[-1] == "fine" else 90)
        if res.problems:
            return
    # 2. stateless: every sequence of canonical operations, on one live object questioned after every step
    cases = []
    for ids, uni, scope, length in ((IDS3[:2], IDS3, "full", 4 + T), (IDS3, IDS3, "constraints", 4 + T), (IDS3, IDS3, "full", 3 + T)):
        cases += [{"kind": "history", "ids": ids, "ops": [list(o) for o in h]} for h in sequences(ids, uni, scope, length)]
    if pid == "C07":
        cases = [c for c in cases if len(c["ops"]) <= 3 + T]
    spec2 = SPECS[pid]()
    if pid == "C07":
        spec2.continuations = False

    def seq(case, r):
        r.add(states=1)
        msgs = run_history(spec2, case["ids"], case["ops"], r)
        if msgs:
            r.problem(case, "; ".join(msgs[:3]))

    n0 = len(cases)
    if pid == "C08":
        cases = [c for c in cases if len(c["ops"]) <= 3 + T]
    parallel("seq", seq, cases, res=res)
    res.count("linear_histories", n0)
    if res.problems:
        return
    # 3. larger scripted families
    f = big_case(pid)
    if f:
        big = [{"ids": i, "adds": [list(o) for o in a], "tail": [list(o) for o in t]}
               for n in ((8, 9) if not T else (7, 8, 9, 10, 11, 12)) for i, a, t in big_histories(n)]
        if pid in ("C06", "C07") and not T:
            big = big[::3]
        huge = [{"ids": i, "adds": [list(o) for o in a], "tail": [list(o) for o in t]}
                for n in ((16, 40) if T else (16, 24)) for i, a, t in huge_histories(n)]
        for n in (60, 120) if pid not in ("C06", "C07") or T else (60,):  # long chains and wide stars, observed now and then
            long_ = [{"ids": i, "adds": [list(o) for o in a], "tail": [list(o) for o in t], "every": 1 + len(a) // 2}
                     for i, a, t in huge_histories(n) if len(a) <= 3 * n]
            huge += long_ if T else long_[::2]
        if pid == "C05":  # the exact colour number of many groups is not computed
            huge = [c for c in huge if sum(o[3] == ML for o in c["adds"]) >= len(c["ids"]) - 10]
        big += huge
        parallel("big", f, big, res=res)
        res.count("large_scripted_histories", len(big))
        if res.problems:
            return
    # 4. property-specific
    if pid == "C08":
        hs = [h for h in sequences(IDS3, IDS3, "constraints", 2)]
        pairs = [{"kind": "isolation", "ids": IDS3, "A": [list(o) for o in a], "B": [list(o) for o in b]} for a in hs for b in hs]
        hs1 = [h for h in sequences(IDS3, IDS3, "full", 2 if T else 1)]
        pairs += [{"kind": "isolation", "ids": IDS3, "A": [list(o) for o in a], "B": [list(o) for o in b]} for a in hs1 for b in hs1]
        parallel("iso", isolation_case, pairs, res=res)
        res.count("interleaved_manager_pairs", len(pairs))
    if pid == "C07":
        parallel("file", file_case, file_scripts(), res=res)
        if not res.problems:
            parallel("locale", locale_case, [{"kind": "locale", "locale": x} for x in ("C", "C.UTF-8")], chunk=1, res=res)
        res.count("file_scripts", len(list(file_scripts())))
    if pid == "C05":
        import networkx as nx
        ids = ["c", "2", "b", "10", "a", "1", "é"]
        gs = [g for g in nx.graph_atlas_g() if g.number_of_nodes() == 7]
        cases = [{"ids": ids, "edges": [list(e) for e in g.edges()]} for g in gs]
        parallel("col", colouring_case, cases, res=res)
        res.count("colouring_graphs_on_7_groups", len(cases))
        if not res.problems:
            cases = list(named_graphs(T))
            parallel("col", colouring_case, cases, res=res, chunk=2)
            res.count("colouring_graphs_on_8_or_more_groups", len(cases))


def replay(pid, case):
    res = Res()
    kind = case.get("kind")
    if kind == "history":
        spec = SPECS[pid]()
        for qb in (True, False):
            msgs = run_history(spec, case["ids"], case["ops"], res, query_between=qb)
            if msgs:
                return msgs
        return []
    if kind == "big":
        big_case(pid)(case, res)
    elif kind == "file":
        file_case(case, res)
    elif kind == "locale":
        locale_case(case, res)
    elif kind == "isolation":
        isolation_case(case, res)
    elif kind == "colouring":
        colouring_case(case, res)
    return [m for _, m in res.problems]


RULE = ("every history of manager operations within the stated scopes, executed on the real manager; the state space is that of"
        " live library objects (attributes, orders, aliasing) paired with the reference model")
ASSUME = ["bounds: 3 IDs with all operations to fixpoint; 4 IDs with all constraint operations to fixpoint (fine grain) and with"
          " ID operations to the stated depth; 5 and 6 IDs at ledger/closure grain; scripted families of 8-120 IDs",
          "data IDs are strings; one thread; CPython with the installed networkx"]
