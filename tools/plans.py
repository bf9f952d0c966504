"""What each check judges, runs and model checks."""

import concurrent.futures as cf
import json
import os
import zlib

import gen
import walks

BATCH = 150000

POINT = {"insert", "sinsert", "del", "sdel", "get", "getmut", "member", "len", "isempty", "least", "greatest", "sleast", "sgreatest", "collect",
         "fill", "wipe", "churn", "slide", "probe"}
ITER = {"inext", "iback", "inth", "inthback", "ilen", "irest", "irestrev", "icount", "ilast", "imin", "imax", "iclone",
        "itake", "ifind", "irfind", "ipos", "irpos", "iall", "ifold", "ieach", "irfold", "istep", "iskip", "iminby", "imaxby"}
INDEX = {"at", "atmut", "attake", "rank", "attakes", "ats", "ranks"}
GROUP = {"gat", "gmut", "gtake", "gsize", "grank"}
FIND = {"find", "findbad", "findmut", "findtake", "foldrank"}
CURSOR = {"cfirst", "cfirstp", "clast", "cget", "cnext", "cnextp", "cprev", "cprevp", "ccopy", "ckey", "cval", "cexists", "cwalk"}
EVERYTHING = POINT | ITER | INDEX | GROUP | FIND | CURSOR | {"collectrev", "root", "visit", "shape"}

JUDGE = {
    "C01": POINT,
    "C02": ITER | {"collect", "collectrev"},
    "C03": ITER,
    "C04": EVERYTHING,
    "C05": {"root", "shape"},
    "C06": INDEX | {"root", "len"},
    "C07": GROUP | {"root"},
    "C08": CURSOR,
    "C09": {"insert", "del", "attake", "getmut", "collect"} | ITER,
    "C10": EVERYTHING,
    "C11": set(),
    "C12": {"visit", "collect", "get", "len"},
    "C13": ITER,
    "C14": EVERYTHING,
    "C15": set(),
    "C16": EVERYTHING,
    "C17": EVERYTHING,
    "C18": FIND | {"root"},
    "C19": EVERYTHING | {"clone", "bulk"},
    "C20": {"insert", "del", "getmut", "atmut", "attake", "fill", "wipe", "get", "member", "cfirst", "clast", "cget", "cnext", "cprev", "ccopy",
            "cval", "cexists", "len", "isempty", "root", "rank", "at", "collect", "collectrev", "shape", "clone", "bulk", "drop", "clear",
            "inext", "iback", "ilen", "irest", "irestrev", "idrop"},
}
# the module that judges the executions
ORACLE = {"C20": "WildCheck"}
EXTRA = {"C05": {"augs"}, "C09": {"own"}, "C10": {"own"}, "C11": {"balance"}, "C16": {"own"}, "C19": {"safe"}, "C03": {"own"}}

# node capacity -> [(programs, operations each)]
QUICK = {4: [(48, 400)], 8: [(32, 500)], 64: [(16, 700)]}
THOROUGH = {4: [(600, 500)], 8: [(400, 700)], 64: [(200, 1200)]}

# trees with many more entries, grown and shrunk by runs of calls
QUICK_DEEP = {4: 4, 8: 4, 64: 8}
THOROUGH_DEEP = {4: 40, 8: 40, 64: 100}
# tens of thousands of entries (four levels of nodes of 64), more nodes used up than 16 bits can number
QUICK_HUGE = {4: 1, 8: 1, 64: 1}
THOROUGH_HUGE = {4: 4, 8: 4, 64: 3}

# more than two million entries: five levels of nodes of 64

# models of the specification that belong to a property: (module, configurations at every run, configurations when thorough)
MODELS = {
    "C01": [("MCTree", ["TreeFull"], ["TreeFull-t", "TreeModify-t"]), ("MCStep", [], ["Step-t"])],
    "C02": [("Iterators", ["Iter"], ["Iter-t"]), ("MCTree", ["TreeModify"], ["TreeModify-t"])],
    "C03": [("Iterators", ["IntoIter"], ["IntoIter-t"])],
    "C04": [("MCStep", ["Bulk"], ["BulkOne-t", "Bulk8-t"])],
    "C05": [("MCTree", ["TreeModify", "TreeModifyV"], ["TreeModifyV-t", "TreeModify8-t"]), ("MCStep", ["Step"], ["Step-t", "StepOdd-t"])],
    "C06": [("MCSearch", ["SearchIndex"], ["SearchIndex-t"]), ("MCStep", [], ["StepSearch-t"])],
    "C07": [("MCGroupAug", ["MCGroupAug"], ["MCGroupAug-t"]), ("MCSearch", ["SearchGroup", "SearchGroup3"], ["SearchGroup-t", "SearchGroup3-t"]),
            ("MCStep", ["StepSearch"], ["StepSearch-t"])],
    "C08": [("MCTree", ["TreeCursor", "TreeMoves"], ["TreeCursor-t", "TreeMoves-t"])],
    "C09": [("Iterators", ["IntoIter"], ["IntoIter-t"]), ("MCTree", ["TreeModify"], ["TreeModifyV-t"])],
    "C10": [("MCSweepAPI", ["Contract"], ["Contract-t"])],
    "C11": [("MCTree", ["TreeModify"], ["TreeModify-t", "TreeModify8-t"]), ("MCStep", ["Step", "Bulk"], ["Step-t", "StepOdd-t", "Bulk8-t"])],
    "C12": [("MCSearch", ["SearchIndex"], ["SearchIndex-t"])],
    "C13": [("MergeUnion", ["MergeUnion"], ["MergeUnion-t"])],
    "C14": [("Readers", ["Readers"], ["Readers-t"])],
    "C15": [("MCTree", ["TreeMoves"], ["TreeMoves-t", "TreeModify8-t"]), ("MCStep", ["Step"], ["BulkOne-t", "Step-t"])],
    "C16": [("MCTree", ["TreeFull"], ["TreeFull-t"]), ("Unwind", [], ["Unwind-t"])],
    "C17": [("MCTree", ["TreeEmpty"], ["TreeEmpty-t"])],
    "C18": [("MCTree", ["TreeModifyV"], []), ("MCSearch", ["SearchFind"], ["SearchFind-t"]), ("MCStep", [], ["StepSearch-t"])],
    "C19": [("Unwind", ["Unwind"], ["Unwind-t"])],
    "C20": [("MCWild", ["Wild", "Wild8"], ["Wild-t", "Wild8-t"])],
}


def plan(prop, tier):
    runs = QUICK if tier == "quick" else THOROUGH
    models = []
    deep = QUICK_DEEP if tier == "quick" else THOROUGH_DEEP
    huge = QUICK_HUGE if tier == "quick" else THOROUGH_HUGE
    vast = {64: 1} if prop == "C15" or prop in gen.VAST_PROPS and tier == "thorough" else {}
    for module, quick, thorough in MODELS[prop]:
        for c in quick + (thorough if tier == "thorough" else []):
            models.append(dict(module=module + ".tla", cfg=f"cfg/{c}.cfg", timeout=600 if c in quick else 3000))
    if os.environ.get("SWEEP_LIGHT"):       # for mass runs over planted changes
        deep, huge, vast = {4: 1, 8: 1, 64: 3}, {}, {}
        runs, models = {n: [(max(4, g[0][0] // 3), g[0][1])] for n, g in QUICK.items()}, []
    return dict(oracle=ORACLE.get(prop, "TraceCheck"), deep=deep, huge=huge, vast=vast, judge=JUDGE[prop], extra=EXTRA.get(prop, set()), runs=runs, threads=prop == "C14", models=models)


# walk specification -> (node capacity, keys, letter)
WALKS = {"TreeWalk4.cfg": (4, 48, "a"), "TreeWalk4deep.cfg": (4, 130, "b"), "TreeWalk8.cfg": (8, 150, "c"), "TreeWalk8deep.cfg": (8, 460, "d")}
LIVE = {"quick": {"TreeWalk4.cfg": 60}, "thorough": {"TreeWalk4.cfg": 4000, "TreeWalk4deep.cfg": 1500, "TreeWalk8.cfg": 1500, "TreeWalk8deep.cfg": 600}}
# one in so many walks, where the questions of a property are many
SHARE = {"C08": 2, "C14": 3}


def corpus(spec):
    """walks the specification produced earlier, kept in git: everything that was structurally new"""
    for name, (n, u, tag) in WALKS.items():
        with open(os.path.join(spec, f"walks-{tag}.ndjson")) as f:
            for line in f:
                yield json.loads(line)


def live(prop, tier, seed, spec, tlc):
    """walks the specification produces now"""
    def run(name):
        n, u, tag = WALKS[name]
        rc, out = tlc("TreeWalk.tla", os.path.join(spec, "cfg", name), workers=1, mem="2g", timeout=700,
                      args=("-simulate", f"num={LIVE[tier][name]}", "-depth", "400", "-seed", str(zlib.crc32(f"{prop}/{seed}/{name}".encode()))))
        got = walks.parse(out, n, u, f"live{tag}")
        if not got:
            raise RuntimeError("no walks from " + name + ": " + out[-2000:])
        return got
    with cf.ThreadPoolExecutor(4) as ex:
        return [w for ws in ex.map(run, LIVE[tier]) for w in ws]


def walk_programs(prop, tier, seed, spec, tlc):
    """(name, node capacity, walk)"""
    ws = list(corpus(spec))
    if os.environ.get("SWEEP_LIGHT"):
        return [(f"{prop}-walk-{w['id']}-s{seed}", w["n"], w) for i, w in enumerate(ws) if i % 4 == int(seed) % 4]
    if tier == "quick":
        share = SHARE.get(prop, 1)
        ws = [w for i, w in enumerate(ws) if i % share == seed % share]
    return [(f"{prop}-walk-{w['id']}-s{seed}", w["n"], w) for w in ws + live(prop, tier, seed, spec, tlc)]
