"""Writes MANIFEST.json from the list of checks below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = "TLA+ map specification (KVStore), TLC trace validation of seeded and specification-generated programs run on the real library"
SEQN = ("Exact judgement of every observation in the executions run (many geometries, node limits shrunk to get deep "
        "trees); not a proof for executions not run. Trusts TLC, the driver's value codec and the tmpfs device.")
CHECKS = {
 "P01": (SEQ, "model_checking", SEQN), "P02": (SEQ, "model_checking", SEQN), "P03": (SEQ, "model_checking", SEQN),
 "P04": (SEQ, "model_checking", SEQN), "P05": (SEQ, "model_checking", SEQN), "P23": (SEQ, "model_checking", SEQN),
}
CHECKS["P25"] = ("TLA+ specification of the sorted-merge cursor (MergeIter), TLC trace validation of exhaustively enumerated and seeded small inputs and walks run on the real merge iterator",
    "model_checking", "Exhaustive for up to 2 sources x 2 keys (all walks starting anywhere, seeded directions), sampled above; scripted sources stand for btree/trunk iterators.")
try:
    from mkmanifest_more import MORE
    CHECKS.update(MORE)
except ImportError:
    pass
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = dict(version=1, setup_cmd="bin/setup",
         hooks=dict(guard="SPLINTERDB_VERIF", enable="-DSPLINTERDB_VERIF (no hooks are needed so far: /repo carries none)",
                    source_commits=[]),
         checks=[dict(property=p, quick_cmd="bin/check %s quick" % p, thorough_cmd="bin/check %s thorough" % p,
                      technique=CHECKS[p][0], level=CHECKS[p][1], level_note=CHECKS[p][2]) for p in props if p in CHECKS],
         not_applicable=[dict(property=p, reason="check not built yet") for p in props if p not in CHECKS])
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
