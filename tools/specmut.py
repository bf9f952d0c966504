#!/usr/bin/env python3
"""Do the models notice when the design is wrong?  Plants faults in copies of the specification's modules and
runs the quick configurations: each fault must make at least one of them fail.  Not used by any check."""
import concurrent.futures as cf
import os
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check  # noqa: E402

TREE = [("MCTree", c) for c in ("TreeFull", "TreeModify", "TreeCursor", "TreeMoves", "TreeEmpty")] + [("MCStep", "Step"), ("MCStep", "Bulk")]
SEARCH = [("MCSearch", c) for c in ("SearchIndex", "SearchGroup", "SearchGroup3", "SearchFind")] + [("MCStep", "StepSearch")]
GROUP = [("MCGroupAug", "MCGroupAug")] + SEARCH
UNWIND = [("Unwind", "Unwind")]
WILD = [("MCWild", "Wild"), ("MCWild", "Wild8")]
ITER = [("Iterators", "Iter"), ("Iterators", "IntoIter")]

FAULTS = [
    ("BPTree", "x.ks[i] <= k})\n\\* slot", "x.ks[i] < k})\n\\* slot", TREE),
    ("BPTree", "!.nx = id], y |->", "!.nx = x.nx], y |->", TREE),
    ("BPTree", "fix |-> <<x.nx, id>>,", "fix |-> <<0, 0>>,", TREE),
    ("BPTree", "!.ag[c] = AugFor(r.x)] IN", "!.ag[c] = IF r.st = \"upd\" THEN @ ELSE AugFor(r.x)] IN", [("MCTree", "TreeModifyV")]),
    ("BPTree", "ag == InsAt(y1.ag, c + 1, AugFor(r.y))", "ag == InsAt(y1.ag, c, AugFor(r.y))", TREE),
    ("BPTree", "!.key = ks[H + 1],", "!.key = ks[H + 2],", TREE),
    ("BPTree", "Inner(SubSeq(ks, H + 2, N + 1), SubSeq(ch, H + 2, N + 2), SubSeq(ag, H + 2, N + 2))",
     "Inner(SubSeq(ks, H + 2, N + 1), SubSeq(ch, H + 2, N + 2), SubSeq(ag, H + 1, N + 1))", TREE),
    ("BPTree", "CanLend(x) == Len(x.ks) > MinN", "CanLend(x) == Len(x.ks) >= MinN", TREE),
    ("BPTree", "!.ag[c - 1] = AugFor(p1), !.ag[c] = AugFor(c1),\n                                !.ks[c - 1] = p.ks[m]]]\n       [] act",
     "!.ag[c] = AugFor(c1),\n                                !.ks[c - 1] = p.ks[m]]]\n       [] act", TREE),
    ("BPTree", "!.ks[c] = n1.ks[1]]]", "!.ks[c] = n.ks[1]]]", TREE),
    ("BPTree", "!.nx = cur.nx]\n", "!.nx = @]\n", TREE),
    ("BPTree", "fix |-> <<n.nx, cur.id>>", "fix |-> <<n.nx, n.id>>", TREE),
    ("BPTree", "c1 == Inner(<<x.ks[c - 1]>> \\o cur.ks,", "c1 == Inner(<<p.ks[m]>> \\o cur.ks,", TREE),
    ("BPTree", "!.ks[c] = n.ks[1]]]\n     ELSE LET s", "!.ks[c] = cur.ks[1]]]\n     ELSE LET s", TREE),
    ("BPTree", "l1 == Inner(l.ks \\o <<x.ks[s]>> \\o r.ks, l.ch \\o r.ch, l.ag \\o r.ag)",
     "l1 == Inner(l.ks \\o <<x.ks[s]>> \\o r.ks, l.ch \\o r.ch, r.ag \\o l.ag)", TREE),
    ("BPTree", "IF n = N + 2 THEN N ELSE", "", [("MCStep", "Bulk")]),
    ("BPTree", "MakeInner(ch) == Inner([i \\in 1..(Len(ch) - 1) |-> FirstKey(ch[i + 1])]", "MakeInner(ch) == Inner([i \\in 1..(Len(ch) - 1) |-> ch[i + 1].ks[1]]", [("MCStep", "Bulk")]),
    ("BPTree", "l.nx # 0 => Len(l.ks) > 0 /\\ k <= l.ks[Len(l.ks)]", "TRUE", TREE),
    ("BPTree", "l.pv # 0 => Len(l.ks) > 0 /\\ k >= l.ks[1]", "TRUE", TREE),
    ("BPTree", "IF off <= Len(l.ks) /\\ off >= 1 /\\ l.ks[off] = k THEN off + 1\n", "IF off <= Len(l.ks) /\\ off >= 1 THEN off + 1\n", TREE),
    ("BPTree", "ELSE IF HasSlot(l, k) THEN LocateSlot(l, k) + 1 ELSE LocateSlot(l, k)", "ELSE LocateSlot(l, k) + 1", TREE),
    ("BPTree", "THEN off - 1 ELSE LocateSlot(l, k) - 1", "THEN off - 1 ELSE LocateSlot(l, k)", TREE),
    ("MCTree", "raug' = <<>> /\\ cnt' = 0", "raug' = raug /\\ cnt' = 0", TREE),
    ("MCTree", "cnt' = IF r.isnew THEN cnt + 1 ELSE cnt", "cnt' = cnt + 1", TREE),
    ("GroupAug", "ELSE IF a.n = 1 THEN [a EXCEPT !.lc = @ + 1] ELSE", "ELSE", GROUP),
    ("GroupAug", "(IF l.hi = r.lo THEN 1 ELSE 0)", "0", GROUP),
    ("GroupAug", "GC(l.n, l.lo, l.lc, l.hi, l.hc + r.lc)", "GC(l.n, l.lo, l.lc, l.hi, l.hc)", GROUP),
    ("GroupAug", "GC(r.n, l.lo, l.lc + r.lc, r.hi, r.hc)", "GC(r.n, l.lo, r.lc, r.hi, r.hc)", GROUP),
    ("GroupAug", "GroupInInner(as, i + 1, g, o - as[i].hc)", "GroupInInner(as, i + 1, g, o)", GROUP),
    ("GroupAug", "THEN <<a.hi, rank[2] + c>> ELSE <<a.hi, c>>", "THEN <<a.hi, c>> ELSE <<a.hi, c>>", GROUP),
    ("GroupAug", "IF r[1] = g THEN <<g, slot + r[2]>>", "IF r[1] = g THEN <<g, slot>>", GROUP),
    ("GroupAug", "GroupVisit(as, i + 1, g, as[i].hc, add + prev)", "GroupVisit(as, i + 1, g, as[i].hc, prev)", GROUP),
    ("Iterators", "fo' = 0 /\\ fl' = IF fl < Len(sizes) THEN fl + 1 ELSE 0", "fo' = 0 /\\ fl' = 0", ITER),
    ("Iterators", "o == IF bl # 0 /\\ bo > 0 THEN bo - 1 ELSE sizes[l] - 1\n       IN Use(l, o, \"out\") /\\ left' = left - 1",
     "o == IF bl # 0 /\\ bo > 0 THEN bo - 1 ELSE sizes[l] - 1\n       IN Use(l, o, \"out\") /\\ left' = left", ITER),
    ("Iterators", "FreeRest(slots, left, fl, fo)", "FreeRest(slots, left + 1, fl, fo)", ITER),
    ("Unwind", "Cloned(<<\"split\">>, <<\"assign\", \"link\", \"count+\">>)", "<<\"split\", \"clone\", \"assign\", \"link\", \"count+\">>", UNWIND),
    ("Unwind", "Cloned(<<\"lendlast\">>, <<\"acceptfirst\", \"setleft\", \"count-\">>)", "<<\"lendlast\", \"clone\", \"acceptfirst\", \"setleft\", \"count-\">>", UNWIND),
    ("Unwind", "Cloned(<<\"lendfirst\">>, <<\"acceptlast\", \"setright\", \"count-\">>)", "<<\"count-\", \"clone\", \"lendfirst\", \"acceptlast\", \"setright\">>", UNWIND),
    ("Unwind", "!.owned = ~Early]", "!.owned = TRUE]", UNWIND),
    ("Unwind", "IF L(c).ks[H] < k /\\ k < L(c).ks[H + 1] THEN k ELSE L(c).ks[H + 1]", "L(c).ks[H + 1]", UNWIND),
    ("Unwind", "L(c + 1).ks[2]", "L(c + 1).ks[1]", UNWIND),
    ("BPTree", "With(FixLeaf(x, c, LocateSlot(r.x, k))", "With(FixLeaf(x, c, 1)", WILD),
    ("BPTree", "ELSE LET left == i <= H      \\* the new entry goes to the left half", "ELSE LET left == k < x.ks[H + 1]", WILD),
    ("BPTree", "ks == DelAt(cur.ks, d)\n      vs == DelAt(cur.vs, d)", "ks == SelectSeq(cur.ks, LAMBDA y : y # cur.ks[d])\n      vs == DelAt(cur.vs, 1)", WILD),
    ("BPTree", "!.nx = id], y |->", "!.nx = x.nx], y |->", WILD),
    ("BPTree", "!.ag[c] = AugFor(r.x)] IN", "!.ag[c] = IF r.st = \"upd\" THEN @ ELSE AugFor(r.x)] IN", WILD),
    ("MCWild", "THEN cnt + 1 ELSE cnt", "THEN cnt + 1 ELSE cnt + 1", WILD),
    ("MergeUnion", "x < y THEN <<\"b\", y>>", "x <= y THEN <<\"b\", y>>", [("MergeUnion", "MergeUnion")]),
    ("MergeUnion", "Rest(want)\nSpec", "want\nSpec", [("MergeUnion", "MergeUnion")]),
    ("MergeUnion", "LenA == Len(a) +", "LenA == Len(a) -", [("MergeUnion", "MergeUnion")]),
    ("Readers", "leaf' = [leaf EXCEPT ![t] = IF HintHit(Ls, h, key[t]) THEN h ELSE 0]", "leaf' = [leaf EXCEPT ![t] = IF HintHit(Ls, h, key[t]) THEN hint ELSE 0]",
     [("Readers", "Readers")]),
]


def run(job):
    i, (mod, old, new, cfgs) = job
    tmp = tempfile.mkdtemp(prefix="specmut-")
    try:
        src = open(os.path.join(check.SPEC, mod + ".tla")).read()
        if old not in src:
            return i, "not found: " + old[:60]
        for f in os.listdir(check.SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(check.SPEC, f), tmp)
        with open(os.path.join(tmp, mod + ".tla"), "w") as f:
            f.write(src.replace(old, new, 1))
        for m, c in cfgs:
            try:
                rc, out = check.tlc(m + ".tla", os.path.join(check.SPEC, "cfg", c + ".cfg"), workers=2, mem="3g", timeout=300, cwd=tmp)
            except check.ToolError:
                return i, "killed by " + c + " (does not end)"
            if "No error has been found" not in out:
                why = [x for x in out.splitlines() if "violated" in x or "Error:" in x][:1]
                return i, "killed by " + c + ": " + (why or ["?"])[0][:110]
        return i, "SURVIVED"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    want = [int(x) for x in sys.argv[1:]] or range(len(FAULTS))
    left = 0
    with cf.ThreadPoolExecutor(3) as ex:
        for i, r in ex.map(run, [(i, FAULTS[i]) for i in want]):
            left += not r.startswith("killed")
            print(i, FAULTS[i][0], "|", FAULTS[i][2].replace("\n", " ")[:70], "|", r, flush=True)
    sys.exit(1 if left else 0)
