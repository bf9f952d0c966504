#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
TECH = "TLA+ specification checked with TLC; executions of the real code validated against it by TLC (trace validation), programs generated from the specification replayed into the code"
NOTE = ("Bounded model checking of the specification, plus trace validation: every operation of every recorded execution is compared with what the "
        "specification allows. Covers the executions made (all operations, several node capacities, tree heights and histories), not all executions. "
        "Trusts TLC, the driver (driver/src) and the translation of operations into actions (spec/TraceCheck.tla).")
EXTRA = {
    "C14": " Concurrent readers run with real threads; interleavings are forced at key comparisons, other interleavings are left to the machine.",
    "C15": " A call that does not return within 20 s counts as hanging.",
    "C16": " Panics are injected at key comparisons only.",
    "C20": " The executions are judged by spec/WildCheck.tla; what an execution does after a panic of its own is not judged, only that nothing is dropped twice.",
    "C19": " Panics are injected at clones of keys, values and augmentation values and at the iterator given to a bulk load only.",
}
m = dict(
    version=1,
    setup_cmd="python3 tools/check.py --setup",
    hooks=dict(guard="cfg sweep_node_cap",
               enable="RUSTFLAGS='--cfg sweep_node_cap=\"4\"' (or \"8\") when building /verif/driver, whose path dependency is /repo; unset, nodes have their usual 64 keys",
               source_commits=["69e4197"]),
    checks=[dict(property=p["id"], quick_cmd=f"python3 tools/check.py {p['id']} --tier quick",
                 thorough_cmd=f"python3 tools/check.py {p['id']} --tier thorough",
                 evidence_file=f"evidence/{p['id']}.json", technique=TECH, level="model_checking",
                 level_note=NOTE + EXTRA.get(p["id"], "")) for p in props],
    not_applicable=[],
    notes="See DESIGN.md. known-findings.txt lists the genuine defects found (all repaired in /repo).")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
