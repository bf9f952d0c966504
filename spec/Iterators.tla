------------------------------ MODULE Iterators ------------------------------
(***************************************************************************)
(* The two iterators over a chain of leaves.  The chain is given by the    *)
(* numbers of entries of its leaves; a single leaf may be empty.           *)
(* Iter (borrowed): a front position that is moved on as soon as an entry  *)
(* is taken, a back position that is moved back before one is taken, and   *)
(* the number of entries left, which alone decides when it is over.        *)
(* IntoIter (owning): positions are moved lazily, entries are taken out of *)
(* their slots, and dropping the iterator takes the rest.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS MaxLeaves, MaxSize, Owning

VARIABLES sizes,    \* of the leaves
          left,     \* the field len
          fl, fo,   \* front: leaf (0: past the end) and offset (0-based)
          bl, bo,   \* back: leaf (0: not started) and offset
          slots,    \* <<leaf, offset>> -> "in", "out" (handed to the caller), "freed"
          lo, hi,   \* the contract: what remains of 1..n
          got,      \* the entry of the last call, as a position in 1..n; 0: None
          done      \* the iterator was dropped
vars == <<sizes, left, fl, fo, bl, bo, slots, lo, hi, got, done>>

RECURSIVE Sum(_, _)
Sum(s, i) == IF i = 0 THEN 0 ELSE s[i] + Sum(s, i - 1)
Total(s) == Sum(s, Len(s))
Pos(l, o) == Sum(sizes, l - 1) + o + 1
Slots(s) == {x \in (1..Len(s)) \X (0..(MaxSize - 1)) : x[2] < s[x[1]]}

Init ==
  /\ sizes \in {<<0>>} \cup UNION {[1..n -> 1..MaxSize] : n \in 1..MaxLeaves}
  /\ left = Total(sizes) /\ fl = 1 /\ fo = 0
  /\ IF Owning THEN bl = Len(sizes) /\ bo = sizes[Len(sizes)] ELSE bl = 0 /\ bo = 0
  /\ slots = [x \in Slots(sizes) |-> "in"]
  /\ lo = 1 /\ hi = Total(sizes) /\ got = 0 /\ done = FALSE

\* taking an entry that is not there, or out of range, is undefined behaviour: there is no such step
Use(l, o, how) ==
  /\ Assert(<<l, o>> \in DOMAIN slots /\ slots[<<l, o>>] = "in", <<"bad slot", l, o>>)
  /\ got' = Pos(l, o)
  /\ slots' = IF Owning THEN [slots EXCEPT ![<<l, o>>] = how] ELSE slots

\* --- borrowed
BNext ==
  IF left = 0 \/ fl = 0 THEN got' = 0 /\ UNCHANGED <<left, fl, fo, slots>>
  ELSE /\ Use(fl, fo, "out") /\ left' = left - 1
       /\ IF fo + 1 < sizes[fl] THEN fo' = fo + 1 /\ fl' = fl
          ELSE fo' = 0 /\ fl' = IF fl < Len(sizes) THEN fl + 1 ELSE 0
BBack ==
  IF left = 0 THEN got' = 0 /\ UNCHANGED <<left, bl, bo, slots>>
  ELSE LET l == IF bl = 0 THEN Len(sizes) ELSE IF bo > 0 THEN bl ELSE bl - 1
           o == IF bl # 0 /\ bo > 0 THEN bo - 1 ELSE sizes[l] - 1
       IN Use(l, o, "out") /\ left' = left - 1 /\ bl' = l /\ bo' = o

\* --- owning; the loop steps over the ends of leaves
RECURSIVE FrontFrom(_, _)
FrontFrom(l, o) == IF o < sizes[l] THEN <<l, o>> ELSE FrontFrom(l + 1, 0)
RECURSIVE BackFrom(_, _)
BackFrom(l, o) == IF o > 0 THEN <<l, o - 1>> ELSE BackFrom(l - 1, sizes[l - 1])
ONext(how) ==
  IF left = 0 THEN got' = 0 /\ UNCHANGED <<left, fl, fo, slots>>
  ELSE LET p == FrontFrom(fl, fo) IN Use(p[1], p[2], how) /\ left' = left - 1 /\ fl' = p[1] /\ fo' = p[2] + 1
OBack ==
  IF left = 0 THEN got' = 0 /\ UNCHANGED <<left, bl, bo, slots>>
  ELSE LET p == BackFrom(bl, bo) IN Use(p[1], p[2], "out") /\ left' = left - 1 /\ bl' = p[1] /\ bo' = p[2]

NextCall == /\ ~done /\ UNCHANGED <<sizes, bl, bo, hi, done>>
            /\ IF Owning THEN ONext("out") ELSE BNext
            /\ lo' = IF lo <= hi THEN lo + 1 ELSE lo
BackCall == /\ ~done /\ UNCHANGED <<sizes, fl, fo, lo, done>>
            /\ IF Owning THEN OBack ELSE BBack
            /\ hi' = IF lo <= hi THEN hi - 1 ELSE hi
\* drop: next until nothing is left, then the nodes, which do not look at their slots
RECURSIVE FreeRest(_, _, _, _)
FreeRest(s, n, l, o) ==
  IF n = 0 THEN s
  ELSE LET p == FrontFrom(l, o) IN
       FreeRest([s EXCEPT ![p] = IF @ = "in" THEN "freed" ELSE "TWICE"], n - 1, p[1], p[2] + 1)
DropCall == /\ ~done /\ done' = TRUE /\ got' = 0
            /\ slots' = IF Owning THEN FreeRest(slots, left, fl, fo) ELSE slots
            /\ UNCHANGED <<sizes, left, fl, fo, bl, bo, lo, hi>>
Next == NextCall \/ BackCall \/ DropCall
Spec == Init /\ [][Next]_vars

Remaining == left = hi - lo + 1
Yields == [][ /\ (lo' = lo + 1 => got' = lo)
              /\ (hi' = hi - 1 => got' = hi)
              /\ (lo' = lo /\ hi' = hi => got' = 0) ]_vars
\* every slot is handed out or freed exactly once
Owned == Owning => /\ \A x \in DOMAIN slots : slots[x] # "TWICE"
                   /\ \A x \in DOMAIN slots : (slots[x] = "out") <=> ~(lo <= Pos(x[1], x[2]) /\ Pos(x[1], x[2]) <= hi)
                   /\ done => \A x \in DOMAIN slots : slots[x] # "in"
=============================================================================
