------------------------------ MODULE TraceCheck ------------------------------
(***************************************************************************)
(* Checks recorded executions of the real collections against SweepAPI.    *)
(*                                                                         *)
(* The file named by the environment variable TRACES has one JSON object   *)
(* per line: an execution.  Each is an initial state; event by event the   *)
(* corresponding action of SweepAPI is taken, and what the implementation  *)
(* answered is compared with what the action says.  The first event that   *)
(* disagrees is printed, and the execution stops there.                    *)
(***************************************************************************)
EXTENDS Shape, TLC, TLCExt, Json, IOUtils

CONSTANTS Judged,      \* operations whose results this property speaks about
          JudgeOwn,    \* releases and live objects
          JudgeSafe,   \* nothing released that is still in use
          JudgeAugs,   \* augmentations seen by visitors
          JudgeBalance \* shape seen by visitors

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, i, stop,
          lin   \* how each collection was built: decides how full its nodes must be
tvars == <<vars, tr, i, stop, lin>>

T == Traces[tr]
Ev == T.ev

KindName(n) == CASE n % 10 = 0 -> "map" [] n % 10 = 1 -> "set" [] n % 10 = 2 -> "tree"

Apply(e) ==
  LET a == e.a IN
  CASE e.op = "new"      -> Create(a[1], KindName(a[2]))
    [] e.op = "bulk"     -> Bulk(a[1], KindName(a[2]), e.items)
    [] e.op = "clone"    -> CloneOf(a[1], a[2])
    [] e.op = "drop"     -> Discard(a[1])
    [] e.op = "scrap"    -> IF Live(a[1]) THEN Discard(a[1]) ELSE Keep /\ res' = <<>> /\ drops' = {}
    [] e.op = "clear"    -> Clear(a[1])
    [] e.op = "insert"   -> Insert(a[1], a[2], a[3])
    [] e.op = "sinsert"  -> SetInsert(a[1], a[2])
    [] e.op = "del"      -> Delete(a[1], a[2])
    [] e.op = "sdel"     -> SetDelete(a[1], a[2])
    [] e.op = "get"      -> Get(a[1], a[2])
    [] e.op = "getmut"   -> GetMut(a[1], a[2], a[3])
    [] e.op = "member"   -> Member(a[1], a[2])
    [] e.op = "least"    -> Least(a[1])
    [] e.op = "greatest" -> Greatest(a[1])
    [] e.op = "sleast"   -> SetLeast(a[1])
    [] e.op = "sgreatest" -> SetGreatest(a[1])
    [] e.op = "len"      -> LenOf(a[1])
    [] e.op = "isempty"  -> IsEmpty(a[1])
    [] e.op = "collect"  -> Collect(a[1])
    [] e.op = "collectrev" -> CollectRev(a[1])
    [] e.op = "root"     -> Augmented(a[1])
    [] e.op = "at"       -> At(a[1], a[2])
    [] e.op = "atmut"    -> AtMut(a[1], a[2], a[3])
    [] e.op = "attake"   -> AtTake(a[1], a[2])
    [] e.op = "rank"     -> Rank(a[1], a[2])
    [] e.op = "gat"      -> GroupAt(a[1], a[2], a[3])
    [] e.op = "gmut"     -> GroupMut(a[1], a[2], a[3], a[4])
    [] e.op = "gtake"    -> GroupTake(a[1], a[2], a[3])
    [] e.op = "gsize"    -> GroupSize(a[1], a[2])
    [] e.op = "grank"    -> GroupRank(a[1], a[2])
    [] e.op = "find"     -> Find(a[1], a[2])
    [] e.op = "findbad"  -> FindBad(a[1], a[3], a[6], e.r)
    [] e.op = "findmut"  -> FindMut(a[1], a[2], a[3])
    [] e.op = "findtake" -> FindTake(a[1], a[2])
    [] e.op = "foldrank" -> FoldRank(a[1], a[2])
    [] e.op = "cfirst"   -> CursorFirst(a[1], a[2])
    [] e.op = "cfirstp"  -> CursorFirst(a[1], a[2])
    [] e.op = "clast"    -> CursorLast(a[1], a[2])
    [] e.op = "cget"     -> CursorGet(a[1], a[2], a[3])
    [] e.op = "cnext"    -> CursorNext(a[1], a[2], a[3])
    [] e.op = "cnextp"   -> CursorNext(a[1], a[2], a[3])
    [] e.op = "cprev"    -> CursorPrev(a[1], a[2], a[3])
    [] e.op = "cprevp"   -> CursorPrev(a[1], a[2], a[3])
    [] e.op = "ccopy"    -> CursorCopy(a[1], a[2])
    [] e.op = "ckey"     -> CursorKey(a[1])
    [] e.op = "cval"     -> CursorValue(a[1], a[2])
    [] e.op = "cexists"  -> CursorExists(a[1], a[2])
    [] e.op = "iter"     -> IterNew(a[1], a[2])
    [] e.op = "into"     -> IntoIter(a[1], a[2])
    [] e.op = "union"    -> UnionNew(a[1], a[2], a[3])
    [] e.op = "iclone"   -> IterClone(a[1], a[2])
    [] e.op = "inext"    -> IterNext(a[1])
    [] e.op = "iback"    -> IterBack(a[1])
    [] e.op = "inth"     -> IterNth(a[1], a[2])
    [] e.op = "inthback" -> IterNthBack(a[1], a[2])
    [] e.op = "ilen"     -> IF iters[a[1]].st = "union" THEN Keep /\ res' = e.r /\ drops' = {} ELSE IterLen(a[1])
    [] e.op = "idrop"    -> IterDrop(a[1])
    [] e.op = "irest"    -> IterRest(a[1])
    [] e.op = "irestrev" -> IterRestRev(a[1])
    [] e.op = "icount"   -> IterCount(a[1])
    [] e.op = "ilast"    -> IterLast(a[1])
    [] e.op = "imin"     -> IterMin(a[1])
    [] e.op = "imax"     -> IterMax(a[1])
    [] e.op = "itake"    -> IterTake(a[1], a[2])
    [] e.op = "ifind"    -> IterFind(a[1], a[2])
    [] e.op = "irfind"   -> IterRFind(a[1], a[2])
    [] e.op = "ipos"     -> IterPos(a[1], a[2])
    [] e.op = "irpos"    -> IterRPos(a[1], a[2])
    [] e.op = "iall"     -> IterAll(a[1], a[2])
    [] e.op \in {"ifold", "ieach"} -> IterRest(a[1])
    [] e.op = "irfold"   -> IterRestRev(a[1])
    [] e.op = "istep"    -> IterStep(a[1], a[2])
    [] e.op = "iskip"    -> IterSkip(a[1], a[2])
    [] e.op = "iminby"   -> IterMin(a[1])
    [] e.op = "imaxby"   -> IterMax(a[1])
    [] e.op = "fill"     -> Fill(a[1], a[2], a[3], a[4], a[5])
    [] e.op = "wipe"     -> Wipe(a[1], a[2], a[3], a[4])
    [] e.op = "churn"    -> Churn(a[1], a[2], a[3], a[4], a[5], a[6])
    [] e.op = "slide"    -> Slide(a[1], a[2], a[3], a[4], a[5], a[6])
    [] e.op = "attakes"  -> AtTakes(a[1], a[2], a[3])
    [] e.op = "probe"    -> Probe(a[1], a[2], a[3], a[4])
    [] e.op = "ats"      -> Ats(a[1], a[2], a[3], a[4])
    [] e.op = "ranks"    -> Ranks(a[1], a[2], a[3], a[4])
    [] e.op = "cwalk"    -> CursorWalk(a[1], a[2], a[3], a[4])
    [] e.op = "shape"    -> Live(a[1]) /\ Read(RootAug(M(a[1])))
    [] e.op = "visit"    -> Live(a[1]) /\ Read(e.r)
    [] e.op = "stat"     -> Live(a[1]) /\ Read(e.r)
    [] e.op = "end"      -> /\ colls' = [h \in Handles |-> NoColl]
                            /\ iters' = [j \in IterIds |-> NoIter]
                            /\ curs' = [c \in CursorIds |-> 0]
                            /\ res' = <<>> /\ drops' = {} /\ UNCHANGED env

Flag(e) == IF "f" \in DOMAIN e THEN e.f ELSE ""
Fused(e) == Flag(e) = "fused"

\* an operation on a cursor that does not exist, because an earlier call found nothing, is skipped
NoCursor(e) ==
  CASE e.op \in {"ccopy", "ckey"} -> curs[e.a[1]] = 0
    [] e.op \in {"cnext", "cnextp", "cprev", "cprevp", "cval", "cexists", "cwalk"} -> curs[e.a[2]] = 0
    [] OTHER -> FALSE
Step(e) == IF NoCursor(e) THEN Keep /\ res' = <<>> /\ drops' = {}
           ELSE IF Fused(e) THEN IF e.op \in {"clone", "bulk"} THEN AbortedBuild(e.a[1])
                                 ELSE IF e.op = "ccopy" THEN AbortedCopy(e.a[1])
                                 ELSE Aborted(e.a[1], IF e.op = "insert" THEN e.a[3] ELSE 0)
           ELSE Apply(e)

-----------------------------------------------------------------------------
(* Does what was observed agree with what the action did?                  *)

\* the functions of a user's augmentation are given what a visitor sees on the same way down:
\* searches the separators of every level and the keys of the leaf, ranks the keys of the leaf
PathOK(e) ==
  CASE e.op = "foldrank" -> e.path = <<e.seen[Len(e.seen)]>>
    [] e.op = "find" -> e.r = <<>> \/ e.path = e.seen
    [] e.op \in {"findmut", "findtake"} -> e.a[2] % 2 = 0 \/ e.r = <<>> \/ e.path = e.seen
    [] OTHER -> TRUE

ResultOK(e) ==
  IF e.op = "ilen" /\ iters[e.a[1]].st = "union" THEN HintOK(e.a[1], e.r)
  ELSE IF e.op \in {"cnextp", "cprevp", "cfirstp"} THEN e.r = (IF res' = <<>> THEN <<>> ELSE <<res'[1]>>)
  ELSE IF e.op = "visit" THEN VisitOK(M(e.a[1]), env.aug, e, e.a[2])
  ELSE e.r = res' /\ PathOK(e)

IterOps == {"inext", "iback", "inth", "inthback", "idrop", "irest", "irestrev", "icount", "ilast", "imin", "imax",
            "itake", "ifind", "irfind", "ipos", "irpos", "iall", "ifold", "ieach", "irfold", "istep", "iskip", "iminby", "imaxby"}

\* keys are also held by cursors and as separators, values only by collections and owning iterators
OwnOK(e) ==
  IF "own" \notin DOMAIN e THEN TRUE
  ELSE /\ e.own[1] = 0
       /\ e.own[3] = LiveValues'
       /\ e.own[2] >= LiveEntries'
       /\ e.op = "end" => e.own = <<0, 0, 0, 0>>
       /\ e.op # "end" =>
            LET released == IF Fused(e) \/ e.op \notin {"sinsert", "sdel"} THEN drops' ELSE {}
                ofSet == e.op \in {"drop", "clear", "bulk", "fill", "wipe", "churn", "slide"} /\ (colls[e.a[1]].kind = "set" \/ colls'[e.a[1]].kind = "set")
                ofKeys == e.op \in IterOps
                          /\ iters[e.a[1]].st = "ownkeys"
                want == IF ofSet \/ ofKeys THEN {} ELSE released
            IN Range(e.dv) = want /\ Len(e.dv) = Cardinality(want)

\* nothing released twice, nothing in use released: what a call that panicked was working on may be leaked
SafeOK(e) == "own" \in DOMAIN e => e.own[1] = 0 /\ e.own[2] >= LiveEntries' /\ e.own[3] >= LiveValues'

Judge(e) ==
  /\ (e.op \in Judged \/ Fused(e)) => ResultOK(e)
  /\ JudgeOwn => OwnOK(e)
  /\ JudgeSafe => SafeOK(e)
  /\ JudgeAugs /\ e.op = "shape" => AugsOK(e, env.aug)
  /\ JudgeBalance /\ e.op = "shape" => ShapeOK(e, T.n, lin[e.a[1]])

Verdict(e) == IF Flag(e) \in {"panic", "crash", "hang"} THEN Flag(e)
              ELSE IF NoCursor(e) THEN IF Flag(e) = "lost" \/ e.op \notin Judged THEN "ok" ELSE "differs"
              ELSE IF Flag(e) = "lost" THEN IF e.op \in Judged THEN "lost" ELSE "ok"
              ELSE IF Judge(e) THEN "ok" ELSE "differs"

Lineage(e) ==
  LET h == e.a[1] IN
  CASE e.op = "new" -> [lin EXCEPT ![h] = "ins"]
    [] e.op = "bulk" -> [lin EXCEPT ![h] = "packed"]
    [] e.op = "clone" -> [lin EXCEPT ![h] = lin[e.a[2]]]
    [] e.op = "clear" -> [lin EXCEPT ![h] = "ins"]
    [] e.op \in {"insert", "sinsert", "del", "sdel", "attake", "gtake", "findtake", "fill", "wipe", "churn", "slide", "attakes"} ->
         [lin EXCEPT ![h] = IF @ = "packed" THEN "bulk" ELSE @]
    [] OTHER -> lin

Init ==
  /\ tr \in 1..Len(Traces)
  /\ i = 1 /\ stop = ""
  /\ lin = [h \in Handles |-> "ins"]
  /\ InitWith([u |-> T.u, grp |-> T.grp, aug |-> T.aug])

Report(e, v) ==
  PrintT("BAD " \o ToJson([id |-> T.id, at |-> i, verdict |-> v, op |-> e.op,
                           want |-> IF v = "differs" THEN res' ELSE <<>>,
                           got |-> IF "r" \in DOMAIN e THEN e.r ELSE <<>>]))

Next ==
  /\ stop = "" /\ i <= Len(Ev)
  /\ LET e == Ev[i] IN
     /\ IF Flag(e) \in {"panic", "crash", "hang"} THEN UNCHANGED vars ELSE Step(e)
     /\ lin' = IF Flag(e) = "" THEN Lineage(e) ELSE lin
     /\ LET v == Verdict(e) IN
        IF v = "ok" THEN stop' = "" ELSE stop' = v /\ Report(e, v)
  /\ i' = i + 1 /\ UNCHANGED tr

\* the execution and the position in it determine everything else
View == <<tr, i, stop>>
=============================================================================
