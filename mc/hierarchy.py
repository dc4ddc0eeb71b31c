"""Properties C14 and C15: the dendrogram and its cuts."""
import itertools
import math

from .common import parallel
from .domain import sparse60, DATA, NEAR, GENERIC, IDS, LINKAGES, closures, grid, manager, mcase, model, partition, run, structured
from .clustering import crash

TOL = 1e-6


def link_value(kind, A, B, pos):
    """Linkage between two sets of data, as documented (plain float arithmetic, independent of the library)."""
    d = lambda a, b: math.dist(pos[a], pos[b])
    if kind == "single":
        return min(d(a, b) for a in A for b in B)
    if kind == "complete":
        return max(d(a, b) for a in A for b in B)
    if kind == "average":
        ca = [sum(c) / len(A) for c in zip(*(pos[a] for a in A))]
        cb = [sum(c) / len(B) for c in zip(*(pos[b] for b in B))]
        return math.dist(ca, cb)
    return sum(d(a, b) for a, b in itertools.combinations(sorted(A | B), 2)) / (len(A) * len(B))


def nodes_of(root):
    out, stack = [], [root]
    while stack:
        x = stack.pop()
        out.append(x)
        stack.extend(x.children)
        if len(out) > 500:
            break
    return out


def snapshot(root):
    return (root.cluster_ID, root.clustering_iteration, root.cluster_inverse_depth, tuple(root.members),
            tuple(snapshot(c) for c in root.children))


def as_dict(root):
    return {"cluster_ID": root.cluster_ID, "clustering_iteration": root.clustering_iteration,
            "children": [as_dict(c) for c in root.children], "cluster_inverse_depth": root.cluster_inverse_depth,
            "members": list(root.members)}


def conflict(m, A, B):
    return any(m.rel(a, b) == "CANNOT_LINK" for a in A for b in B)


def tree_problem(case, m, inst):
    """None, or why the tree exposed by the instance is not a greedy constrained dendrogram."""
    pos = {i: [float(x) for x in p] for i, p in zip(case["ids"], case["pts"])}
    root = inst.clustering_root
    nodes = nodes_of(root)
    if sorted(root.members) != sorted(case["ids"]):
        return "root holds %r, not all data" % (root.members,)
    if len({n.cluster_ID for n in nodes}) != len(nodes):
        return "two nodes of the tree share an identifier"
    for x in nodes:
        if len(set(x.members)) != len(x.members):
            return "node %r has duplicate members %r" % (x.cluster_ID, x.members)
        if x.children:
            if sorted(x.members) != sorted(i for c in x.children for i in c.members):
                return "node %r holds %r, not the disjoint union of its children" % (x.cluster_ID, x.members)
            if len(x.children) < 2:
                return "node %r has a single child" % x.cluster_ID
            if x.cluster_inverse_depth != 1 + max(c.cluster_inverse_depth for c in x.children):
                return "inverse depth of node %r is wrong" % x.cluster_ID
    leaves = frozenset(frozenset(x.members) for x in nodes if not x.children)
    groups = frozenset(frozenset(g) for g in m.groups())
    if leaves != groups:
        return "leaves %r are not the MUST_LINK groups %r" % (sorted(map(sorted, leaves)), sorted(map(sorted, groups)))
    current = set(groups)
    kind = case["par"].get("linkage", "ward")
    inner = sorted((x for x in nodes if x.children), key=lambda x: x.clustering_iteration)
    if len({x.clustering_iteration for x in inner}) != len(inner):
        return "two merges share an iteration number"
    for k, x in enumerate(inner):
        kids = [frozenset(c.members) for c in x.children]
        if any(c not in current for c in kids):
            return "merge %d joins %r, which are not current clusters" % (k, [sorted(c) for c in kids])
        free = {(a, b): link_value(kind, a, b, pos) for a, b in itertools.combinations(sorted(current, key=sorted), 2) if not conflict(m, a, b)}
        if free:
            if len(kids) != 2 or conflict(m, *kids):
                return "merge %d joins %r while %d allowed merges remain" % (k, [sorted(c) for c in kids], len(free))
            v = link_value(kind, kids[0], kids[1], pos)
            best = min(free.values())
            if v > best + TOL * (1 + abs(best)):
                a, b = min(free, key=lambda ab: free[ab])
                return "merge %d (%s linkage) joins %r and %r at %.6g although %r and %r are at %.6g" % (
                    k, kind, sorted(kids[0]), sorted(kids[1]), v, sorted(a), sorted(b), best)
        elif set(kids) != current:
            return "the last merge joins %r instead of all remaining clusters %r" % ([sorted(c) for c in kids], [sorted(c) for c in current])
        current -= set(kids)
        current.add(frozenset(x.members))
    if len(current) != 1:
        return "clusters %r are never joined" % [sorted(c) for c in current]
    if inst.clustering_root.to_dict() != as_dict(root):
        return "to_dict does not describe the tree"
    return None


def c14_case(case, res):
    m = model(case)
    st, r, inst = run(case)
    res.add(states=max(1, 2 * len(m.groups()) - 1), transitions=max(1, len(m.groups()) - 1), traces=1)
    if st != "ok":
        return res.problem(case, crash(case, st, r))
    p = tree_problem(case, m, inst)
    if p:
        return res.problem(case, p)
    res.outcome(snapshot(inst.clustering_root))


def cut_nodes(root, part):
    allnodes = {frozenset(x.members): x for x in nodes_of(root)}
    return [allnodes.get(p) for p in part]


def c15_case(case, res):
    m = model(case)
    st, r, inst = run(case)
    res.add(states=1, traces=1)
    if st != "ok":
        return res.problem(case, crash(case, st, r))
    G = len(m.groups())
    n = len(case["ids"])
    root = inst.clustering_root
    before = snapshot(root)
    cuts = {}
    for by in ("size", "iteration"):
        prev = None
        for k in range(0, n + 3):
            c = inst.compute_predicted_clusters(nb_clusters=k, by=by)
            res.add(transitions=1)
            if set(c) != set(case["ids"]):
                return res.problem(case, "cut k=%d by %s does not label all data: %r" % (k, by, c))
            part = partition(c)
            cuts[by, k] = c
            where = "cut k=%d by %s" % (k, by)
            ns = cut_nodes(root, part)
            if any(x is None for x in ns):
                return res.problem(case, "%s: %r are not nodes of the tree" % (where, sorted(map(sorted, part))))
            if k <= 1 and len(part) != 1:
                return res.problem(case, "%s gives %d clusters" % (where, len(part)))
            if k > 1 and len(part) < min(k, G):
                return res.problem(case, "%s gives %d clusters although there are %d groups" % (where, len(part), G))
            if len(part) > max(k, 1) and any(not conflict(m, a, b) for a, b in itertools.combinations(part, 2)):
                return res.problem(case, "%s gives %d clusters, two of which could be merged" % (where, len(part)))
            if prev is not None:
                if any(not any(p <= q for q in prev) for p in part):
                    return res.problem(case, "%s does not refine the cut for %d" % (where, k - 1))
                if part != prev:
                    gone = [q for q in prev if q not in part]
                    if len(gone) != 1:
                        return res.problem(case, "%s splits %d clusters of the cut for %d" % (where, len(gone), k - 1))
                    pn = {frozenset(x.members): x for x in cut_nodes(root, prev)}
                    split = [x for x in pn.values() if x.children]
                    g = pn[gone[0]]
                    if by == "size" and len(g.members) < max(len(x.members) for x in split):
                        return res.problem(case, "%s splits %r, not a biggest cluster" % (where, g.members))
                    if by == "iteration" and g.clustering_iteration < max(x.clustering_iteration for x in split):
                        return res.problem(case, "%s undoes iteration %r, not the latest merge" % (where, g.clustering_iteration))
            prev = part
            res.outcome((by, k, part))
    for k in list(range(n + 2, -1, -1)):
        for by in ("iteration", "size"):
            if inst.compute_predicted_clusters(nb_clusters=k, by=by) != cuts[by, k]:
                return res.problem(case, "cut k=%d by %s depends on the cuts asked before" % (k, by))
    if inst.compute_predicted_clusters(nb_clusters=2) != cuts["size", 2]:
        return res.problem(case, "the default criterion is not the size")
    if r != cuts["size", min(case["nb"], n)]:
        return res.problem(case, "cluster() gives %r, not the cut by size for %d" % (r, case["nb"]))
    if snapshot(root) != before or inst.clustering_root is not root:
        return res.problem(case, "cutting modified the tree")


def cases(tier, pid):
    T = tier == "thorough"
    for n in (2, 3):
        for led in closures(n):
            for pts in list(DATA[n]) + list(grid(n, (0, 1, 4))):
                for l in LINKAGES:
                    yield mcase(n, led, pts, "hierarchical", 2, linkage=l)
    for i, pts in enumerate(list(DATA[4]) + list(grid(4, (0, 1, 4) if T else (0, 1)))):
        for led in closures(4):
            for l in LINKAGES:
                yield mcase(4, led, pts, "hierarchical", 2 + i % 4, linkage=l)
    for i, pts in enumerate(DATA[5] + [GENERIC[5]]):
        for k, led in enumerate(closures(5)):
            for j, l in enumerate(LINKAGES):
                if T or (i + j + k) % 3 == 0:
                    yield mcase(5, led, pts, "hierarchical", 2 + k % 4, linkage=l)
    for n in (3, 4, 5):  # nearly equal distances
        for i, pts in enumerate(NEAR[n]):
            for k, led in enumerate(closures(n)):
                for j, l in enumerate(LINKAGES):
                    if n < 5 or T or (i + j + k) % 4 == 0:
                        yield mcase(n, led, pts, "hierarchical", 2 + k % 3, linkage=l)
    for n in (6, 8, 9):
        for led in structured(n):
            for pts in DATA[n]:
                for l in LINKAGES:
                    for nb in (2, 3, 5, 8):
                        yield mcase(n, led, pts, "hierarchical", nb, linkage=l)
    for n in (12, 20):
        for k, led in enumerate(structured(n)):
            for i, pts in enumerate(DATA[n]):
                if T or (k + i) % (1 if n == 12 else 4) == 0:
                    yield mcase(n, led, pts, "hierarchical", (2, 5, 11, n)[k % 4], linkage=LINKAGES[(k + i) % 4])
    for k, led in enumerate(sparse60()):
        for i, pts in enumerate(DATA[60]):
            if T or (i + k) % 2 == 0:
                yield mcase(60, led, pts, "hierarchical", (2, 5, 30)[k % 3], linkage=LINKAGES[(k // 2 + i) % 4])
    # a longer unconstrained / lightly constrained history of merges
    ids = [str(i) for i in range(14)]
    pts = [[(i * i * 7) % 53, (i * 11) % 29] for i in range(14)]
    for led in ([], [["0", "5", "MUST_LINK"], ["5", "13", "MUST_LINK"], ["3", "4", "CANNOT_LINK"]],
                [[str(i), str(i + 1), "CANNOT_LINK"] for i in range(13)],
                [[str(i), str(j), "CANNOT_LINK"] for i in range(6) for j in range(i)],
                [[str(i), str(j), "CANNOT_LINK"] for i in range(14) for j in range(i)]):
        for l in LINKAGES:
            for nb in (2, 4, 13):
                yield mcase(14, led, pts, "hierarchical", nb, ids=ids, linkage=l)
    if T:
        for k, led in enumerate(closures(6)):
            for i, pts in enumerate(DATA[6]):
                if (k + i) % 3 == 0:
                    yield mcase(6, led, pts, "hierarchical", 2 + k % 5, linkage=LINKAGES[k % 4])


def node_case(case, res):
    """A node to which children are added step by step (some twice): members, inverse depth, centroid, iteration, export."""
    from .common import call, lib
    from scipy.sparse import csr_matrix
    import numpy as np
    Cluster = lib("clustering.hierarchical").Cluster
    pos = {i: [float(k), float((k * k) % 7)] for k, i in enumerate(IDS[5])}
    V = {i: csr_matrix(np.array([p])) for i, p in pos.items()}
    leaves = [Cluster(vectors=V, cluster_ID=k, clustering_iteration=0, members=list(g)) for k, g in enumerate(case["leaves"])]
    inner = Cluster(vectors=V, cluster_ID=50, clustering_iteration=1, children=leaves[:2])
    pool = [inner] + leaves[2:]
    st, node = call(Cluster, vectors=V, cluster_ID=99, clustering_iteration=3, children=[pool[0]])
    seen = [pool[0]]
    for it, batch in enumerate([[]] + case["batches"]):
        if it:
            st, r = call(node.add_new_children, new_children=[pool[k] for k in batch], new_clustering_iteration=10 + it)
            if st != "ok":
                return res.problem(case, "adding children: %s %s" % (st, r))
            for k in batch:
                if pool[k] not in seen:
                    seen.append(pool[k])
        res.add(states=1, transitions=1)
        want = [i for c in seen for i in c.members]
        mean = [sum(c) / len(want) for c in zip(*(pos[i] for i in want))]
        if sorted(node.members) != sorted(want) or node.get_cluster_size() != len(want):
            return res.problem(case, "node holds %r, its children hold %r" % (node.members, want))
        if sorted(c.cluster_ID for c in node.children) != sorted(c.cluster_ID for c in seen):
            return res.problem(case, "node has children %r" % [c.cluster_ID for c in node.children])
        if node.cluster_inverse_depth != 1 + max(c.cluster_inverse_depth for c in seen):
            return res.problem(case, "inverse depth of the node is %r" % node.cluster_inverse_depth)
        if node.clustering_iteration != (10 + it if it else 3):
            return res.problem(case, "iteration of the node is %r" % node.clustering_iteration)
        if not np.allclose(np.asarray(node.centroid.todense()).ravel(), mean):
            return res.problem(case, "centroid of the node is not the mean of its members")
        if node.to_dict() != as_dict(node):
            return res.problem(case, "to_dict does not describe the node")
        res.outcome((tuple(sorted(want)), it))


def node_cases():
    ids = IDS[5]
    for cuts in ((1, 2, 3, 4), (1, 3, 4), (2, 3, 4)):
        b = [0] + list(cuts) + [5]
        leaves = [ids[x:y] for x, y in zip(b, b[1:])]
        k = range(len(leaves) - 1)
        batches = [list(x) for n in (0, 1, 2, 3) for x in itertools.permutations(k, n)]
        for x in batches:
            for y in batches:
                yield {"node": True, "leaves": leaves, "batches": [x, y]}


FUNC = {"C14": lambda case, res: (node_case if case.get("node") else c14_case)(case, res), "C15": c15_case}


def check(pid, tier, res):
    parallel(pid, FUNC[pid], cases(tier, pid), res=res)
    if pid == "C14" and not res.problems:
        parallel("C14n", FUNC[pid], node_cases(), res=res)


def replay(pid, case):
    from .common import Res
    r = Res()
    FUNC[pid](case, r)
    return [m for _, m in r.problems]


RULES = {
    "C14": "every constraint closure over n data x integer datasets x 4 linkages; the whole merge history exposed by the tree is replayed merge by merge against the set of all allowed merges (ties: any minimal one); states = tree nodes visited, transitions = merges judged; outcomes = distinct trees",
    "C15": "every constraint closure over n data x integer datasets x 4 linkages; all cuts k=0..n+2 by size and by iteration on the real tree, asked in increasing and decreasing order; transitions = cuts judged; outcomes = distinct (criterion, k, partition)",
}
ASSUMES = {p: ["datasets have integer coordinates; linkage values closer than 1e-6 are treated as ties, any of which may be merged first",
               "the tree is read from the documented attribute clustering_root (cluster_ID, clustering_iteration, children, members)"] for p in ("C14", "C15")}
