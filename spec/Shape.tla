-------------------------------- MODULE Shape --------------------------------
(***************************************************************************)
(* What a tree may look like to a descending visitor.                      *)
(*                                                                         *)
(* A shape is the list of nodes in preorder, each a record                 *)
(*   d     depth, the root has 0                                           *)
(*   leaf  1 or 0                                                          *)
(*   keys  separators of an inner node, entries of a leaf                  *)
(*   augs  one augmentation per child                                      *)
(*   lo,hi the run of entries below the node, as positions in ks and vs    *)
(*   ch    for each child its <<lo, hi>>                                   *)
(***************************************************************************)
EXTENDS SweepAPI

Ascending(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]

Leaves(nodes) == SelectSeq(nodes, LAMBDA x : x.leaf = 1)

\* every key of child i lies between the separators i-1 (inclusive) and i (exclusive)
Separated(x, ks) ==
  \A i \in 1..Len(x.ch) : \A j \in x.ch[i][1]..x.ch[i][2] :
     /\ i > 1 => x.keys[i - 1] <= ks[j]
     /\ i <= Len(x.keys) => ks[j] < x.keys[i]

\* lin: "ins" built by single insertions and removals, "packed" fresh from bulk building,
\*      "bulk" modified since
NodeOK(x, ks, n, lin) ==
  /\ Ascending(x.keys)
  /\ x.leaf = 1 =>
       /\ x.d > 0 => Len(x.keys) >= 1
       /\ x.d > 0 /\ lin = "ins" => Len(x.keys) >= n \div 4
       /\ Len(x.keys) <= n
  /\ x.leaf = 0 =>
       /\ Len(x.keys) >= 1 /\ Len(x.keys) <= n
       /\ Len(x.ch) = Len(x.keys) + 1
       /\ x.d > 0 /\ lin = "ins" => Len(x.keys) >= n \div 4
       /\ Separated(x, ks)

Balanced(nodes) == LET ls == Leaves(nodes) IN \A i \in 1..Len(ls) : ls[i].d = ls[1].d

Packed(nodes, n) == LET ls == Leaves(nodes) IN \A i \in 1..(Len(ls) - 1) : Len(ls[i].keys) = n

ShapeOK(e, n, lin) ==
  /\ Balanced(e.nodes)
  /\ \A i \in 1..Len(e.nodes) : NodeOK(e.nodes[i], e.ks, n, lin)
  /\ lin = "packed" => Packed(e.nodes, n)

\* every stored augmentation describes exactly the entries below its child
AugsOK(e, aug) ==
  \A i \in 1..Len(e.nodes) :
     LET x == e.nodes[i] IN
     x.leaf = 0 =>
       /\ Len(x.augs) = Len(x.ch)
       /\ \A j \in 1..Len(x.ch) : x.augs[j] = AugOf(aug, e.ks, e.vs, x.ch[j][1], x.ch[j][2])

-----------------------------------------------------------------------------
(* A descent: a list of steps [leaf, ks, vs, augs, i] where i is the child *)
(* taken (counted from 0), -1 cancel, -2 complete, -3 out of range.        *)

\* the keys in lo..hi-1
WindowSeq(m, lo, hi) == SelectSeq([i \in 1..Max2(0, hi - lo) |-> lo + i - 1], LAMBDA k : m[k] # 0)

RECURSIVE DescentOK(_, _, _, _, _, _)
DescentOK(m, aug, steps, j, lo, hi) ==
  IF j > Len(steps) THEN FALSE
  ELSE LET x == steps[j]
           Lo(c) == IF c = 0 THEN lo ELSE Max2(lo, x.ks[c])
           Hi(c) == IF c = Len(x.ks) THEN hi ELSE Min2(hi, x.ks[c + 1])
       IN IF x.leaf = 1
          THEN j = Len(steps) /\ With(WindowSeq(m, lo, hi), LAMBDA w : x.ks = w /\ x.vs = ValSeq(m, w))
          ELSE /\ Ascending(x.ks)
               /\ Len(x.ks) >= 1
               /\ Len(x.augs) = Len(x.ks) + 1
               /\ \A c \in 0..Len(x.ks) : x.augs[c + 1] = AugOfKeys(aug, m, WindowSeq(m, Lo(c), Hi(c)))
               /\ IF x.i < 0 THEN j = Len(steps)
                  ELSE /\ x.i <= Len(x.ks)
                       /\ DescentOK(m, aug, steps, j + 1, Lo(x.i), Hi(x.i))

\* what the visit returns: 555 + entries of the leaf, 777 + level, nothing, or a refusal (-1)
DescentResult(steps, end) ==
  LET x == steps[Len(steps)] IN
  IF x.leaf = 1 THEN (IF end = 4 THEN <<>> ELSE <<555 + Len(x.ks)>>)
  ELSE CASE x.i = -1 -> <<>>
         [] x.i = -2 -> <<777 + Len(steps) - 1>>
         [] x.i = -3 -> <<-1>>
         [] OTHER -> <<-5>>

VisitOK(m, aug, e, end) ==
  /\ Len(e.steps) >= 1
  /\ DescentOK(m, aug, e.steps, 1, 1, env.u + 1)
  /\ e.r = DescentResult(e.steps, end)
=============================================================================
