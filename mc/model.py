"""The reference model of a constraints manager: a list of IDs and a ledger of explicit constraints.

Everything else (inference, groups, completeness, conflicts) is *defined* from those two by the obvious closure.
Kept deliberately naive: no incremental maintenance, no shared structure.
"""
from itertools import combinations

ML, CL = "MUST_LINK", "CANNOT_LINK"


class Model:
    __slots__ = ("ids", "ledger", "_g", "_cl")

    def __init__(self, ids, ledger=()):
        self.ids = tuple(ids)
        self.ledger = dict(ledger)  # (a,b) with a<b -> type
        self._g = None
        self._cl = None

    def copy(self):
        return Model(self.ids, self.ledger)

    def key(self):
        return (self.ids, tuple(sorted(self.ledger.items())))

    # ---- closure
    def _close(self):
        g = {i: i for i in self.ids}

        def find(x):
            while g[x] != x:
                x = g[x]
            return x

        for (a, b), t in self.ledger.items():
            if t == ML:
                g[find(a)] = find(b)
        rep = {i: find(i) for i in self.ids}
        cl = set()
        for (a, b), t in self.ledger.items():
            if t == CL:
                cl.add((rep[a], rep[b]))
                cl.add((rep[b], rep[a]))
        self._g, self._cl = rep, cl

    def rel(self, a, b):
        if self._g is None:
            self._close()
        ra, rb = self._g[a], self._g[b]
        if ra == rb:
            return ML
        if (ra, rb) in self._cl:
            return CL
        return None

    def groups(self):
        if self._g is None:
            self._close()
        out = {}
        for i in self.ids:
            out.setdefault(self._g[i], []).append(i)
        return [frozenset(v) for v in out.values()]

    def group(self, a):
        return next(g for g in self.groups() if a in g)

    def complete(self):
        return all(self.rel(a, b) is not None for a, b in combinations(self.ids, 2))

    def added(self, a, b):
        if a == b:
            return ML
        return self.ledger.get((min(a, b), max(a, b)))

    def closure_key(self):
        return (self.ids, tuple(self.rel(a, b) for a, b in combinations(self.ids, 2)))

    def conflict_free_partition(self, labels):
        return all((labels[a] == labels[b]) if r == ML else (labels[a] != labels[b])
                   for a, b, r in self.known_pairs())

    def known_pairs(self):
        for a, b in combinations(self.ids, 2):
            r = self.rel(a, b)
            if r is not None:
                yield a, b, r

    def chromatic(self):
        """(true minimum number of clusters of a violation-free partition, number of groups)"""
        gs = self.groups()
        reps = [next(iter(g)) for g in gs]
        adj = {i: {j for j in range(len(reps)) if j != i and self.rel(reps[i], reps[j]) == CL} for i in range(len(reps))}
        return chromatic_number(adj), len(gs)

    # ---- operations; return expected verdict "ok" / "reject" and the successor
    def apply(self, op):
        k = op[0]
        if k == "add":
            _, a, b, t = op
            if a not in self.ids or b not in self.ids or t not in (ML, CL):
                return "reject", self
            r = self.rel(a, b)
            if r is not None and r != t:
                return "reject", self
            if a == b or (min(a, b), max(a, b)) in self.ledger:
                return "ok", self
            m = self.copy()
            m.ledger[(min(a, b), max(a, b))] = t
            return "ok", m
        if k == "del":
            _, a, b = op
            if a not in self.ids or b not in self.ids:
                return "reject", self
            if a == b or (min(a, b), max(a, b)) not in self.ledger:
                return "ok", self
            m = self.copy()
            del m.ledger[(min(a, b), max(a, b))]
            return "ok", m
        if k == "addid":
            if op[1] in self.ids:
                return "reject", self
            return "ok", Model(self.ids + (op[1],), self.ledger)
        if k == "delid":
            if op[1] not in self.ids:
                return "reject", self
            return "ok", Model(tuple(i for i in self.ids if i != op[1]),
                               {p: t for p, t in self.ledger.items() if op[1] not in p})
        raise AssertionError(op)


def chromatic_number(adj):
    n = len(adj)
    if n == 0:
        return 0
    nodes = sorted(adj, key=lambda i: -len(adj[i]))

    def ok(k):
        col = {}

        def rec(p):
            if p == n:
                return True
            v = nodes[p]
            used = max(col.values(), default=-1)
            for c in range(min(k, used + 2)):
                if all(col.get(w) != c for w in adj[v]):
                    col[v] = c
                    if rec(p + 1):
                        return True
                    del col[v]
            return False

        return rec(0)

    k = 1
    while not ok(k):
        k += 1
    return k


def all_partitions(items):
    """Every set partition, as a list of lists."""
    items = list(items)
    if not items:
        yield []
        return
    first, rest = items[0], items[1:]
    for p in all_partitions(rest):
        yield [[first]] + p
        for i in range(len(p)):
            yield p[:i] + [[first] + p[i]] + p[i + 1:]


def closure_states(ids):
    """Every consistent closure over ids: a partition into MUST_LINK groups and a CANNOT_LINK graph on the groups.
    Yields ledgers (lists of (a,b,type)) whose closure is that state, simplest first."""
    out = []
    pos = {d: i for i, d in enumerate(ids)}
    for p in all_partitions(ids):
        p = sorted((sorted(g, key=pos.get) for g in p), key=lambda g: pos[g[0]])
        mls = [(g[i], g[i + 1], ML) for g in p for i in range(len(g) - 1)]
        pairs = list(combinations(range(len(p)), 2))
        for mask in range(1 << len(pairs)):
            cls = [(p[i][0], p[j][-1], CL) for b, (i, j) in enumerate(pairs) if mask >> b & 1]
            out.append(mls + cls)
    out.sort(key=len)
    return out


def model_of(ids, ledger):
    m = Model(ids)
    for a, b, t in ledger:
        v, m = m.apply(("add", a, b, t))
        assert v == "ok"
    return m
