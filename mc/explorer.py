"""Explicit-state exploration of the real constraints manager against the reference model.

A node is a live library object (kept as a pickle) paired with the reference model reached by the same history.  Two
nodes are merged only if the model states are equal AND the library objects are structurally identical: same attributes,
same values, same dictionary orders and same aliasing between containers (grain "fine").  The larger scopes keep one
representative object per ledger or per closure of the model (grains "ledger", "closure"): every model state and every
operation from it is still covered, but not every library representation of it.  Queries are transitions too, so an object whose answers depend on earlier queries (caches,
lazy initialisation) yields extra nodes that are explored as well.
"""
import copy
import multiprocessing
import os
import pickle
import tempfile
import time

from . import common
from .common import Res, call
from .model import CL, ML, Model

BAD = "zz-unknown"


def new_manager(ids):
    return common.lib("constraints.binary").BinaryConstraintsManager(list_of_data_IDs=list(ids))


# ---------------------------------------------------------------- canonical form of a live object


def canon(obj):
    memo = {}
    keep = []

    def w(x):
        if x is None or isinstance(x, (str, int, float, bool, bytes)):
            return x
        if isinstance(x, tuple):
            return ("t",) + tuple(w(y) for y in x)
        i = memo.get(id(x))
        if i is not None:
            return ("ref", i)
        memo[id(x)] = len(memo)
        keep.append(x)
        if isinstance(x, dict):
            items = [(w(k), w(v)) for k, v in x.items()]
            return ("d", type(x).__name__) + tuple(items)
        if isinstance(x, list):
            items = [w(y) for y in x]
            return ("l",) + tuple(items)
        if isinstance(x, (set, frozenset)):
            return ("s",) + tuple(sorted((w(y) for y in x), key=repr))
        d = getattr(x, "__dict__", None)
        if d is not None:
            items = [(k, w(v)) for k, v in d.items()]
            return ("o", type(x).__name__) + tuple(items)
        try:
            return ("p", pickle.dumps(x))
        except Exception:  # noqa
            return ("r", type(x).__name__)

    return hash(w(obj))


def dumps(obj):
    return pickle.dumps(obj, protocol=5)


# ---------------------------------------------------------------- operations


def apply_op(obj, op):
    """Apply one operation to the live object -> (status, value)."""
    k = op[0]
    if k == "add":
        if op[1] > op[2]:  # the reversed direction also passes the (ignored) constraint value
            return call(obj.add_constraint, op[1], op[2], op[3], 0.5)
        return call(obj.add_constraint, data_ID1=op[1], data_ID2=op[2], constraint_type=op[3])
    if k == "del":
        return call(obj.delete_constraint, data_ID1=op[1], data_ID2=op[2])
    if k == "addid":
        return call(obj.add_data_ID, data_ID=op[1])
    if k == "delid":
        return call(obj.delete_data_ID, data_ID=op[1])
    if k == "query":
        return call(query, obj, op[1])
    raise AssertionError(op)


QUERIES = ("ids", "inferred", "added", "components", "complete", "range", "conflict", "json")


def query(obj, what):
    ids = sorted(obj.get_list_of_managed_data_IDs())
    if what == "ids":
        return ids
    if what == "inferred":
        return tuple(obj.get_inferred_constraint(a, b) for a in ids for b in ids)
    if what == "added":
        return tuple(obj.get_added_constraint(a, b) for a in ids for b in ids)
    if what == "components":
        return sorted(sorted(c) for c in obj.get_connected_components())
    if what == "complete":
        return obj.check_completude_of_constraints()
    if what == "range":
        if not ids:
            return None
        lo, hi = obj.get_min_and_max_number_of_clusters()
        # beyond six groups the minimum is a randomised estimate (see C05): only its presence is compared
        return (lo if hi <= 6 else lo >= 2, hi)
    if what == "conflict":
        return tuple(
            (lambda r: None if r is None else tuple(sorted(r)))(
                obj.get_list_of_involved_data_IDs_in_a_constraint_conflict(a, b, t))
            for a in ids for b in ids for t in (ML, CL))
    if what == "json":
        with tempfile.TemporaryDirectory(prefix="mcq") as d:
            p = os.path.join(d, "m.json")
            obj.to_json(p)
            return None
    raise AssertionError(what)


def observe(obj, json_too=False):
    """Everything a user can ask, normalised to what is specified (orders of components are not)."""
    return tuple((q, call(query, obj, q)) for q in QUERIES if q != "json")


def alphabet(ids, all_ids, scope):
    """Operations tried in every state. scope: constraints | full | adds"""
    ops = []
    for a in ids:
        for b in ids:
            for t in (ML, CL):
                if scope == "adds" and not a < b:
                    continue
                ops.append(("add", a, b, t))
    if scope == "adds":
        return ops
    for a in ids:
        for b in ids:
            ops.append(("del", a, b))
    ops += [("query", q) for q in QUERIES if q != "json"]
    if ids:
        x, y = ids[0], ids[-1]
        ops += [("add", BAD, x, ML), ("add", x, BAD, CL), ("add", x, y, "must_link"), ("add", y, x, ""),
                ("del", BAD, y), ("del", x, BAD)]
    ops += [("delid", BAD)]
    if ids:
        ops += [("addid", ids[0])]
    if scope == "full":
        ops += [("delid", a) for a in ids]
        ops += [("addid", a) for a in all_ids if a not in ids]
        for a in all_ids:
            if a not in ids and ids:
                ops += [("add", a, ids[0], ML), ("del", ids[0], a)]
    return ops


def minimal_alphabet(ids, all_ids, scope):
    """Canonical operations only (for stateless replays of all sequences)."""
    ops = []
    for i, a in enumerate(ids):
        for b in ids[i + 1:]:
            ops += [("add", a, b, ML), ("add", b, a, CL), ("del", a, b)]
    if scope == "full":
        ops += [("delid", a) for a in ids]
        ops += [("addid", a) for a in all_ids if a not in ids]
    return ops


# ---------------------------------------------------------------- stateful exploration (level-synchronous BFS)

_G = {}


class Node:
    __slots__ = ("blob", "model", "parent", "op", "depth", "root")

    def __init__(self, blob, model, parent, op, depth, root):
        self.blob, self.model, self.parent, self.op, self.depth, self.root = blob, model, parent, op, depth, root


def _expand(keys):
    g = _G
    res = Res()
    succ = {}
    spec, nodes, seen, last = g["spec"], g["nodes"], g["seen"], g["last"]
    for key in keys:
        if time.time() > g["deadline"]:
            res.count("states_left_by_time_limit")
            continue
        node = nodes[key]
        model = node.model
        try:
            obj = pickle.loads(node.blob)
            msgs = spec.state(obj, model, res)
        except Exception as e:  # noqa
            msgs = ["unexpected %s: %s" % (type(e).__name__, str(e)[:200])]
        res.add(states=1)
        if msgs:
            res.problem((key, None), "; ".join(msgs[:3]))
            break
        if last:
            continue
        pre = None
        bad = False
        for op in alphabet(model.ids, g["all_ids"], g["scope"]):
            obj = pickle.loads(node.blob)
            status, value = apply_op(obj, op)
            res.add(transitions=1)
            if op[0] == "query":
                expected, nm = "ok", model
            else:
                expected, nm = model.apply(op)
            res.outcome((op[0], status, expected))
            if pre is None and spec.needs_pre:
                pre = observe(pickle.loads(node.blob))
            msgs = spec.edge(node, pre, op, expected, status, value, obj, nm, res)
            if msgs:
                res.problem((key, op), "; ".join(msgs[:3]))
                bad = True
                break
            if status in ("error", "timeout"):
                res.problem((key, op), "%s raised by %r: %s" % (status, op, value))
                bad = True
                break
            if (status == "ok") != (expected == "ok"):
                res.count("pruned_wrong_verdicts")
                continue
            k2 = state_key(nm, obj, g["grain"])
            if k2 in seen or k2 in succ:
                continue
            succ[k2] = Node(dumps(obj), nm, key, op, node.depth + 1, node.root)
        if bad:
            break
    return res, succ


def state_key(model, obj, grain):
    if grain == "fine":
        return (hash(model.key()), canon(obj))
    if grain == "ledger":
        return (hash(model.key()), 0)
    return (hash(model.closure_key()), 1)


def history(nodes, key):
    ops = []
    while True:
        n = nodes[key]
        if n.op is None:
            return n.root, ops[::-1]
        ops.append(n.op)
        key = n.parent


def bfs(spec, roots, all_ids, scope, depth, grain="fine", max_states=400000, res=None, seconds=None):
    """roots: list of ID lists (insertion orders). `seconds` is a safety limit, far above what the scopes need: it matters
    only for code whose objects never repeat a state (an operation counter, a log), and is reported when it is hit."""
    deadline = time.time() + seconds if seconds else float("inf")
    res = res or Res()
    nodes, seen, frontier = {}, set(), []
    for r in roots:
        obj = new_manager(r)
        m = Model(r)
        k = state_key(m, obj, grain)
        if k not in nodes:
            nodes[k] = Node(dumps(obj), m, None, None, 0, list(r))
            frontier.append(k)
    seen.update(nodes)
    level = 0
    capped = False
    while frontier:
        last = depth is not None and level >= depth
        if len(seen) > max_states or time.time() > deadline:
            capped, last = True, True
        _G.update(spec=spec, nodes=nodes, seen=seen, all_ids=list(all_ids), scope=scope, grain=grain, last=last, deadline=deadline)
        size = max(1, min(200, len(frontier) // (common.NPROC * 4) or 1))
        chunks = [frontier[i : i + size] for i in range(0, len(frontier), size)]
        nxt = []
        if len(chunks) <= 2:
            it = map(_expand, chunks)
            pool = None
        else:
            pool = multiprocessing.get_context("fork").Pool(min(common.NPROC, len(chunks)))
            it = pool.imap(_expand, chunks)
        found = None
        for r, succ in it:
            if r.problems and found is None:
                (key, op), msg = r.problems[0]
                root, ops = history(nodes, key)
                found = ({"kind": "history", "ids": root, "ops": [list(o) for o in ops + ([op] if op else [])]}, msg)
                r.problems = []
                res.merge(r)
                break
            res.merge(r)
            for k, n in succ.items():
                if k not in seen:
                    seen.add(k)
                    nodes[k] = n
                    nxt.append(k)
        if pool is not None:
            pool.terminate()
        if found:
            res.problem(*found)
            return res
        for k in frontier:  # free memory of expanded nodes
            nodes[k].blob = None
        if last:
            break
        frontier = nxt
        level += 1
    tag = "%s n=%d %s" % (scope, len(all_ids), grain)
    res.extra["depth[%s]" % tag] = level
    res.extra["nodes[%s]" % tag] = len(seen)
    if capped:
        res.count("capped_scopes")
    if len(res.samples) < 3 and nodes:
        k = list(nodes)[len(nodes) // 2]
        root, ops = history(nodes, k)
        res.samples.append({"ids": root, "history": [list(o) for o in ops]})
    return res


# ---------------------------------------------------------------- stateless exploration (all sequences, one live object)


def sequences(ids, all_ids, scope, length):
    """Every sequence of canonical operations (valid or contradictory) of exactly `length`."""
    def rec(model, hist):
        if len(hist) == length:
            yield hist
            return
        for op in minimal_alphabet(model.ids, all_ids, scope):
            _, m2 = model.apply(op)
            yield from rec(m2, hist + [op])
    yield from rec(Model(ids), [])


def run_history(spec, ids, ops, res, query_between=True):
    """Replay one history on one live object (never cloned), checking the property after every step."""
    obj, model = new_manager(ids), Model(ids)
    node = Node(None, model, None, None, 0, ids)
    msgs = list(spec.state(obj, model, res) or [])
    for i, op in enumerate(ops):
        op = tuple(op)
        if msgs:
            return msgs
        pre = observe(obj) if (query_between or spec.needs_pre) else None
        node.model = model
        status, value = apply_op(obj, op)
        res.add(transitions=1)
        expected, nm = ("ok", model) if op[0] == "query" else model.apply(op)
        node.blob = None
        msgs = list(spec.edge(node, pre, op, expected, status, value, obj, nm, res) or [])
        if not msgs and status in ("error", "timeout"):
            msgs = ["%s raised by %r: %s" % (status, op, value)]
        if msgs:
            return msgs
        if (status == "ok") != (expected == "ok"):
            res.count("pruned_wrong_verdicts")
            return []
        model = nm
        msgs = list(spec.state(obj, model, res) or [])
    return msgs
