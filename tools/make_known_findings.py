"""Regenerate known_findings.json (run by hand, never by a check): the inputs on which the unchanged tree breaks C13's MUST_LINK half."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import common  # noqa: E402

common.setup_import()
from mc import clustering  # noqa: E402
from mc.run import finding_key  # noqa: E402

FIXED = [
    ("C16", "cfc00de", "after canonical relabelling, KMeansConstrainedClustering.centroids was still keyed by the old labels, so centroids belonged to other clusters"),
    ("C15", "bc921c0", "hierarchical cut by size stopped as soon as the biggest cluster was an unsplittable MUST_LINK group, returning fewer clusters than asked"),
    ("C12", "f71d9b2", "affinity propagation on equal similarities (scikit-learn's degenerate branch) split MUST_LINK groups"),
    ("C18", "8f4d03e", "MPCKMeans paired vectors with data IDs by dictionary order: reordering the vectors dictionary, or extra vectors, changed the result"),
    ("C10", "ce5b752", "MPCKMeans reported nonexistent empty clusters after filling one and did not answer"),
    ("C18", "ffa54cb", "MPCKMeans ignored its random seed and drew from the global generator"),
    ("C30", "0d5c0c4", "MPCKMeans raised or looped on duplicated and identical points (also C10)"),
    ("C28", "de2001b", "preprocess lower-cased the raw value: a non-string value raised AttributeError although str(text) is forced"),
    ("C03", "590b104", "delete_constraint(x, x) erased the MUST_LINK between a data and itself and corrupted later inference (also C07)"),
    ("C20", "8999195", "DBScan treated a data ID equal to 'NONE' as its missing-cluster sentinel"),
    ("C33", "8403e1e", "DBScan kept a remaining local cluster only if its size reached eps: with eps above 1 core points became noise, and another unit gave other clusters (also C32)"),
]
found = {}
for tier in ("quick", "thorough"):
    r = common.Res()
    clustering.check("C13", tier, r)
    for case, msg in r.problems:
        assert case["violated"][0] == "MUST_LINK", msg
        found[finding_key("C13", case)] = (case, msg)
out = {
    "findings": [{"property": "C13", "key": k,
                  "what": "DBSCAN eps=%s min_samples=%s, data %s, constraints %s: %s" % (
                      c["par"]["eps"], c["par"]["min_samples"], json.dumps(dict(zip(c["ids"], c["pts"]))), json.dumps(c["led"]), m),
                  "input": {x: c[x] for x in ("ids", "led", "pts", "par")}, "violated": c["violated"]}
                 for k, (c, m) in sorted(found.items(), key=lambda kv: (len(kv[1][0]["ids"]), kv[0]))],
    "fixed": ["fixed: property=%s %s %s" % f for f in FIXED],
}
with open(os.path.join(common.VERIF, "known_findings.json"), "w") as f:
    f.write('{"findings": [\n' + ",\n".join(json.dumps(x) for x in out["findings"]) + '\n],\n"fixed": [\n' + ",\n".join(json.dumps(x) for x in out["fixed"]) + "\n]}\n")
print(len(found))
