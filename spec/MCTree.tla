-------------------------------- MODULE MCTree --------------------------------
(***************************************************************************)
(* One tree, with the algorithm of BPTree, next to one tree of the         *)
(* contract SweepAPI.                                                      *)
(***************************************************************************)
EXTENDS BPTree, TLC

CONSTANTS U,        \* keys are 1..U
          Vals,     \* values
          Sizes,    \* bulk building starts from prefixes of 1..U of these sizes (0: empty tree)
          Cursors   \* names of cursors, with remembered leaf and offset

VARIABLES root, raug, cnt, hint, nid, lin, cur, op, res, gone, lab
vars == <<root, raug, cnt, hint, nid, lin, cur, op, res, gone, lab>>

Contents(x) == FoldLeft(LAMBDA m, e : [m EXCEPT ![e[1]] = e[2]], [k \in 1..U |-> 0], AllEntries(LeavesOf(x)))

\* the contract, whose only collection is what the leaves hold
API == INSTANCE SweepAPI WITH
         Handles <- {1}, CursorIds <- Cursors, IterIds <- {},
         env <- [u |-> U, grp |-> [k \in 1..U |-> 1], aug |-> "count"],
         colls <- <<[kind |-> "tree", m |-> Contents(root), n |-> cnt]>>,
         curs <- [c \in Cursors |-> cur[c].k],
         iters <- <<>>, res <- res, drops <- gone

NoCur == [k |-> 0, id |-> 0, off |-> 0]
AVal == CHOOSE v \in Vals : TRUE
Init ==
  \E n \in Sizes : \E d \in {2} :
    LET items == [i \in 1..n |-> <<(i * U) \div n, AVal>>] IN
    /\ root = BulkRoot(items)
    /\ cnt = n /\ nid = BulkLeaves(items) + 1
    /\ raug = AugFor(BulkRoot(items))
    /\ lin = IF n = 0 THEN "ins" ELSE "packed"
    /\ hint = 0 /\ op = <<"bulk", n>> /\ res = <<>> /\ gone = {} /\ lab = <<"bulk">>
    /\ cur = [c \in Cursors |-> NoCur]

Remember(h) == hint' = IF h = 0 THEN hint ELSE h
Opt(v) == IF v = 0 THEN <<>> ELSE <<v>>
Ls == LeavesOf(root)
Touched == lin' = IF lin = "packed" THEN "bulk" ELSE lin

Insert(k, v) ==
  \E r \in {InsertRec(root, k, v, nid)} :
    /\ root' = r.root /\ Remember(r.hint) /\ nid' = nid + 1
    /\ raug' = AugFor(r.root)
    /\ cnt' = IF r.isnew THEN cnt + 1 ELSE cnt
    /\ \E o \in {ValueIn(DescendTo(root, k), k)} : res' = Opt(o) /\ gone' = {o} \ {0}
    /\ op' = <<"insert", k, v>> /\ lab' = r.lab
    /\ Touched /\ UNCHANGED cur

Delete(k) ==
  IF HasSlot(DescendTo(root, k), k)
  THEN \E r \in {DeleteRec(root, k)} :
         /\ root' = r.root /\ Remember(r.hint)
         /\ raug' = AugFor(r.root) /\ cnt' = cnt - 1
         /\ \E o \in {ValueIn(DescendTo(root, k), k)} : res' = <<o>> /\ gone' = {o}
         /\ op' = <<"del", k>> /\ lab' = r.lab
         /\ Touched /\ UNCHANGED <<nid, cur>>
  ELSE /\ res' = <<>> /\ op' = <<"del", k>> /\ lab' = <<"miss">> /\ gone' = {}
       /\ Touched /\ UNCHANGED <<root, raug, cnt, hint, nid, cur>>

Get(k) ==
  \E l \in {LeafFor(root, Ls, hint, k)} :
    /\ hint' = l.id
    /\ res' = Opt(ValueIn(l, k)) /\ gone' = {}
    /\ op' = <<"get", k>> /\ lab' = <<IF HintHit(Ls, hint, k) THEN "hit" ELSE "descend">>
    /\ UNCHANGED <<root, raug, cnt, nid, lin, cur>>

GetMut(k, v) ==
  /\ ~ValueAugs
  /\ \E l \in {LeafFor(root, Ls, hint, k)} :
    /\ hint' = l.id
    /\ root' = IF HasSlot(l, k) THEN SetValue(root, l.id, LocateSlot(l, k), v) ELSE root
    /\ res' = Opt(ValueIn(l, k)) /\ gone' = {ValueIn(l, k)} \ {0}
    /\ op' = <<"getmut", k, v>> /\ lab' = <<IF HintHit(Ls, hint, k) THEN "hitmut" ELSE "descendmut">>
    /\ UNCHANGED <<raug, cnt, nid, lin, cur>>

Clear ==
  /\ root' = EmptyRoot /\ raug' = <<>> /\ cnt' = 0 /\ hint' = 0 /\ nid' = 2 /\ lin' = "ins"
  /\ gone' = {e[2] : e \in Range(AllEntries(Ls))}
  /\ op' = <<"clear">> /\ res' = <<>> /\ lab' = <<"clear">> /\ UNCHANGED cur

\* every cursor operation; the tree's own hint is only read
SetCur(c, x) == cur' = [cur EXCEPT ![c] = IF x.e = <<>> THEN NoCur ELSE [k |-> x.e[1], id |-> x.id, off |-> x.off]] /\ res' = x.e /\ gone' = {}
CursorGet(c, k) ==
  \E l \in {DescendTo(root, k)} :
    /\ cur' = [cur EXCEPT ![c] = [k |-> k, id |-> l.id, off |-> LocateSlot(l, k)]]
    /\ res' = Opt(ValueIn(l, k)) /\ gone' = {}
    /\ op' = <<"cget", c, k>> /\ lab' = <<"cget">> /\ UNCHANGED <<root, raug, cnt, hint, nid, lin>>
CursorStep(c) ==
  /\ cur[c].k # 0
  /\ \/ SetCur(c, CurNext(root, Ls, hint, cur[c].k, cur[c].id, cur[c].off)) /\ op' = <<"cnext", c>>
     \/ SetCur(c, CurPrev(root, Ls, hint, cur[c].k, cur[c].id, cur[c].off)) /\ op' = <<"cprev", c>>
  /\ lab' = <<"cur">> /\ UNCHANGED <<root, raug, cnt, hint, nid, lin>>

\* a comparison panicked in a lookup or modification of k: some leaf may be remembered, nothing else happened
Abort(k) ==
  /\ hint' \in {hint, DescendTo(root, k).id}
  /\ op' = <<"abort", k>> /\ res' = <<-1>> /\ gone' = {} /\ lab' = <<"abort">>
  /\ UNCHANGED <<root, raug, cnt, nid, lin, cur>>

Next ==
  \/ \E k \in 1..U : Delete(k) \/ Get(k) \/ \E v \in Vals : Insert(k, v) \/ GetMut(k, v)
  \/ Clear
  \/ \E k \in 1..U : Abort(k)
  \/ \E c \in Cursors : CursorStep(c) \/ \E k \in 1..U : CursorGet(c, k)

NextEmpty == Clear \/ \E k \in 1..U : Delete(k) \/ \E v \in Vals : Insert(k, v)
NextModify == \E k \in 1..U : Delete(k) \/ \E v \in Vals : Insert(k, v)

-----------------------------------------------------------------------------
\* C11
Balanced == NodeOK(root, 1, U + 1, lin, TRUE)
Packed == lin = "packed" => \A i \in 1..(Len(Ls) - 1) : Len(Ls[i].ks) = N
\* C02, C03
Chain == /\ ChainOK(Ls)
         /\ cnt > 0 => LET ls == Ls IN
              /\ Forward(ls, LeftmostLeaf(root), Len(ls)) = AllEntries(ls)
              /\ Backward(ls, RightmostLeaf(root), Len(ls)) = Reverse(AllEntries(ls))
\* C05 (and C06, C07, C18: what they compute is a function of this)
Augs == AugsOK(root) /\ raug = FoldLeft(LAMBDA a, l : a \o EntriesOf(l.ks, l.vs), <<>>, Ls)
\* C01
Length == cnt = Cardinality({k \in 1..U : Contents(root)[k] # 0})
\* C14, C01: whatever leaf is remembered (also one that is gone), lookups find the same
AnyHint == LET ls == Ls
               m == Contents(root) IN
  \A h \in {l.id : l \in {ls[i] : i \in 1..Len(ls)}} \cup {0} : \A k \in 1..U : ValueIn(LeafFor(root, ls, h, k), k) = m[k]
\* C17: an emptied tree is the fresh one, but for the name of its leaf
Emptied == cnt = 0 => IsLeaf(root) /\ root.ks = <<>> /\ root.pv = 0 /\ root.nx = 0 /\ raug = <<>>
\* C08: whatever a cursor remembers, it denotes its key and nothing else
Succ(m, k) == LET s == {j \in (k + 1)..U : m[j] # 0} IN IF s = {} THEN <<>> ELSE LET j == CHOOSE j \in s : \A i \in s : j <= i IN <<j, m[j]>>
Pred(m, k) == LET s == {j \in 1..(k - 1) : m[j] # 0} IN IF s = {} THEN <<>> ELSE LET j == CHOOSE j \in s : \A i \in s : i <= j IN <<j, m[j]>>
AnyCursor == LET ls == Ls
                 m == Contents(root) IN
  \A id \in {l.id : l \in {ls[i] : i \in 1..Len(ls)}} \cup {0}, k \in 1..U, off \in 1..(N + 1) :
     /\ CurNext(root, ls, 0, k, id, off).e = Succ(m, k)
     /\ CurPrev(root, ls, 0, k, id, off).e = Pred(m, k)
     /\ CurValue(root, ls, 0, k, id, off) = m[k]

\* every step of the algorithm is the step of the contract with the same name
StepOK ==
  CASE op'[1] = "insert" -> API!Insert(1, op'[2], op'[3])
    [] op'[1] = "del"    -> API!Delete(1, op'[2])
    [] op'[1] = "get"    -> API!Get(1, op'[2])
    [] op'[1] = "getmut" -> API!GetMut(1, op'[2], op'[3])
    [] op'[1] = "abort"  -> API!Aborted(1, 0)
    [] op'[1] = "clear"  -> API!Clear(1)
    [] op'[1] = "cget"   -> API!CursorGet(1, op'[2], op'[3])
    [] op'[1] = "cnext"  -> API!CursorNext(1, op'[2], op'[2])
    [] op'[1] = "cprev"  -> API!CursorPrev(1, op'[2], op'[2])
Implements == [][StepOK]_vars

\* states that differ only in the names of leaves, or in what is remembered, behave alike
RECURSIVE Bare(_)
Bare(x) == IF IsLeaf(x) THEN <<x.ks, x.vs>> ELSE <<x.ks, [i \in 1..Len(x.ch) |-> Bare(x.ch[i])]>>
RECURSIVE Stored(_)
Stored(x) == IF IsLeaf(x) THEN <<>> ELSE <<x.ag, [i \in 1..Len(x.ch) |-> Stored(x.ch[i])]>>
\* the chain, with leaves named by their position; -1 for a leaf that is not there
PosOf(ls, id) == IF id = 0 THEN 0 ELSE FoldLeft(LAMBDA a, i : IF ls[i].id = id THEN i ELSE a, -1, [i \in 1..Len(ls) |-> i])
Links == LET ls == Ls IN [i \in 1..Len(ls) |-> <<PosOf(ls, ls[i].pv), PosOf(ls, ls[i].nx)>>]
HintPos == LET ls == Ls IN SelectSeq([i \in 1..Len(ls) |-> i], LAMBDA i : ls[i].id = hint)
StructView == <<Bare(root), lin, cnt, raug, Links, Stored(root)>>
HintView == <<Bare(root), lin, HintPos, cnt, raug, Links, Stored(root)>>
CursorView == <<Bare(root), lin, HintPos, cnt, raug, Links, Stored(root), [c \in Cursors |-> <<cur[c].k, cur[c].off, SelectSeq([i \in 1..Len(Ls) |-> i], LAMBDA i : Ls[i].id = cur[c].id)>>]>>
=============================================================================
