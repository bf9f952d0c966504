------------------------------- MODULE GroupAug -------------------------------
(***************************************************************************)
(* GroupCount: what a node stores about the groups of the keys below it.   *)
(*   <<>>                       no key                                     *)
(*   [n |-> 1, ...]             one group (lo = hi, lc = hc)               *)
(*   [n |-> m, lo, lc, hi, hc]  m groups; lc keys in the first group lo,   *)
(*                              hc keys in the last group hi               *)
(* Operators follow from_leaf, merge_with (from_inner), locate_in_leaf,    *)
(* locate_in_inner, fold_inner, fold_leaf and ExtractGroupSize.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Zero == <<>>
GC(n, lo, lc, hi, hc) == [n |-> n, lo |-> lo, lc |-> lc, hi |-> hi, hc |-> hc]

\* state of the loop of from_leaf: groups so far, count of the first, current group and its count
GroupFromLeaf(gs) ==
  IF gs = <<>> THEN Zero
  ELSE LET s == FoldLeft(LAMBDA a, g : IF g # a.hi THEN [a EXCEPT !.n = @ + 1, !.hc = 1, !.hi = g]
                                        ELSE IF a.n = 1 THEN [a EXCEPT !.lc = @ + 1] ELSE [a EXCEPT !.hc = @ + 1],
                         GC(1, gs[1], 1, gs[1], 1), Tail(gs))
       IN IF s.n = 1 THEN GC(1, s.lo, s.lc, s.lo, s.lc) ELSE s

GroupMerge(l, r) ==
  IF l = Zero THEN r ELSE IF r = Zero THEN l
  ELSE IF l.n = 1 /\ r.n = 1
       THEN IF l.lo = r.lo THEN GC(1, l.lo, l.lc + r.lc, l.lo, l.lc + r.lc) ELSE GC(2, l.lo, l.lc, r.lo, r.lc)
  ELSE IF l.n = 1
       THEN IF l.lo = r.lo THEN GC(r.n, l.lo, l.lc + r.lc, r.hi, r.hc) ELSE GC(r.n + 1, l.lo, l.lc, r.hi, r.hc)
  ELSE IF r.n = 1
       THEN IF r.lo = l.hi THEN GC(l.n, l.lo, l.lc, l.hi, l.hc + r.lc) ELSE GC(l.n + 1, l.lo, l.lc, r.lo, r.lc)
  ELSE GC(l.n + r.n - (IF l.hi = r.lo THEN 1 ELSE 0), l.lo, l.lc, r.hi, r.hc)
GroupFromInner(as) == FoldLeft(GroupMerge, Zero, as)

\* <<slot>> or <<>>
GroupInLeaf(gs, g, o) == LET s == SelectSeq([i \in 1..Len(gs) |-> i], LAMBDA i : gs[i] = g) IN IF o < Len(s) THEN <<s[o + 1]>> ELSE <<>>
\* <<child, offset left>> or <<>>
RECURSIVE GroupInInner(_, _, _, _)
GroupInInner(as, i, g, o) ==
  IF i > Len(as) THEN <<>>
  ELSE IF as[i] = Zero THEN GroupInInner(as, i + 1, g, o)
  ELSE IF as[i].hi < g THEN GroupInInner(as, i + 1, g, o)
  ELSE IF as[i].hi = g THEN (IF as[i].hc > o THEN <<i, o>> ELSE GroupInInner(as, i + 1, g, o - as[i].hc))
  ELSE IF as[i].n = 1 THEN <<>> ELSE <<i, o>>

\* rank: <<>> or <<group, count>>
RECURSIVE TailRun(_, _, _)
TailRun(as, i, g) == IF i = 0 \/ as[i] = Zero THEN 0 ELSE IF as[i].hi = g THEN as[i].hc + TailRun(as, i - 1, g) ELSE 0
GroupFoldInner(rank, as) ==
  IF as = <<>> THEN rank
  ELSE LET a == as[Len(as)] IN
       IF a = Zero THEN <<>>
       ELSE LET c == TailRun(as, Len(as), a.hi)
            IN IF rank # <<>> /\ rank[1] = a.hi THEN <<a.hi, rank[2] + c>> ELSE <<a.hi, c>>
\* slot: number of keys before, in the leaf whose keys have groups gs
GroupFoldLeaf(rank, g, slot, gs) ==
  IF gs = <<>> THEN <<g, 0>>
  ELSE LET r == IF rank = <<>> THEN <<gs[1], 0>> ELSE rank
       IN IF r[1] = g THEN <<g, slot + r[2]>>
          ELSE <<g, Len(SelectSeq(SubSeq(gs, 1, slot), LAMBDA x : x = g))>>

\* ExtractGroupSize at an inner node: <<child, what is added>>
RECURSIVE GroupVisit(_, _, _, _, _)
GroupVisit(as, i, g, prev, add) ==
  IF as[i].hi < g THEN (IF i = Len(as) THEN <<i, add>> ELSE GroupVisit(as, i + 1, g, prev, add))
  ELSE IF as[i].hi = g THEN (IF i = Len(as) THEN <<i, add + prev>> ELSE GroupVisit(as, i + 1, g, as[i].hc, add + prev))
  ELSE <<i, add + prev>>
=============================================================================
