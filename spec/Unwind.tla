------------------------------- MODULE Unwind -------------------------------
(***************************************************************************)
(* Calls into the user's code (comparisons and clones) that panic in the   *)
(* middle of an insertion, a removal, or the making of an inner node.      *)
(*                                                                         *)
(* BPTree.tla takes each operation as one step.  Here an operation on a    *)
(* tree of one inner node and its leaves is the sequence of the small      *)
(* steps in which the code does it; each step of the user's may end the    *)
(* operation, and then what the operation held in its hands is released    *)
(* and the tree stays as it is at that moment.                             *)
(*                                                                         *)
(* Early says that separators are cloned before anything is changed and    *)
(* that an inner node is not released before it is complete.  With it no   *)
(* panic leaves a trace; without (the code before the repair), one does:   *)
(* a leaf follows that was never put into the store, an entry is lost or   *)
(* the length is off, or augmentations are released that were never        *)
(* written.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS N,      \* keys in a leaf
          U,      \* keys are 1..U
          Kids,   \* at most so many leaves
          Early

VARIABLES leaf,   \* the store: id -> [ks, nx], or Gone
          kids,   \* the leaves below the inner node, in order
          seps,   \* its separators
          len,
          job,    \* the steps still to do
          k, c,   \* the key of the operation, and which leaf it is in
          hand,   \* what the operation holds: [slot, kv, node, id]
          goal,   \* contents when the operation is through
          want,   \* contents now, as far as the caller knows
          node,   \* an inner node in the making: [size, keys, augs, total, owned]
          bad     \* something was released that was never written
vars == <<leaf, kids, seps, len, job, k, c, hand, goal, want, node, bad>>

Ids == 1..(Kids + 1)
Gone == [ks |-> <<>>, nx |-> -1]
H == N \div 2
Empty == [slot |-> 0, kv |-> 0, node |-> Gone, id |-> 0]
NoNode == [size |-> 0, keys |-> 0, augs |-> 0, total |-> 0, owned |-> FALSE]
User == {"compare", "clone", "clonekey", "cloneaug"}

Insert1(s, x) == SortSeq(Append(s, x), <)
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
Child(x) == Cardinality({i \in 1..Len(seps) : seps[i] <= x}) + 1
Free == CHOOSE i \in Ids : leaf[i] = Gone /\ \A j \in Ids : leaf[j] = Gone => i <= j
L(i) == leaf[kids[i]]
CanLend(i) == Len(L(i).ks) > H

\* trees to start from: leaves of the sizes ss, filled with the keys 1, 3, 5, ..
Start(ss) ==
  LET first(i) == FoldLeft(+, 0, SubSeq(ss, 1, i - 1)) IN
  /\ leaf = [i \in Ids |-> IF i <= Len(ss) THEN [ks |-> [j \in 1..ss[i] |-> 2 * (first(i) + j) - 1], nx |-> IF i < Len(ss) THEN i + 1 ELSE 0] ELSE Gone]
  /\ kids = [i \in 1..Len(ss) |-> i]
  /\ seps = [i \in 1..(Len(ss) - 1) |-> 2 * first(i + 1) + 1]
  /\ len = FoldLeft(+, 0, ss)
  /\ want = {2 * j - 1 : j \in 1..len}

Init ==
  /\ \E n \in 1..(Kids - 1) : \E ss \in [1..n -> H..N] : 2 * FoldLeft(+, 0, ss) <= U /\ Start(ss)
  /\ job = <<>> /\ k = 0 /\ c = 0 /\ hand = Empty /\ goal = want /\ node = NoNode /\ bad = FALSE

-----------------------------------------------------------------------------
(* Beginning an operation: which small steps it will take                  *)

Cloned(before, after) == IF Early THEN <<"clone">> \o before \o after ELSE before \o <<"clone">> \o after

BeginInsert(x) ==
  /\ job = <<>> /\ x \notin want
  /\ \E i \in {Child(x)} :
     /\ Len(L(i).ks) = N => Len(kids) < Kids
     /\ k' = x /\ c' = i /\ goal' = want \cup {x}
     /\ job' = <<"compare", "compare">> \o
               (IF Len(L(i).ks) < N THEN <<"put", "count+">>
                ELSE Cloned(<<"split">>, <<"assign", "link", "count+">>))
     /\ hand' = [Empty EXCEPT !.kv = x]
  /\ UNCHANGED <<leaf, kids, seps, len, want, node, bad>>

BeginRemove(x) ==
  /\ job = <<>> /\ x \in want
  /\ \E i \in {Child(x)} :
     /\ k' = x /\ c' = i /\ goal' = want \ {x}
     /\ job' = <<"compare", "compare">> \o
               (IF CanLend(i) \/ Len(kids) = 1 THEN <<"take", "count-">>
                ELSE IF i > 1 /\ CanLend(i - 1) /\ ~(i < Len(kids) /\ CanLend(i + 1) /\ Len(L(i - 1).ks) <= Len(L(i + 1).ks))
                     THEN Cloned(<<"lendlast">>, <<"acceptfirst", "setleft", "count-">>)
                ELSE IF i < Len(kids) /\ CanLend(i + 1) THEN Cloned(<<"lendfirst">>, <<"acceptlast", "setright", "count-">>)
                ELSE <<"takeright", "absorb", "unlink", "count-">>)
     /\ hand' = Empty
  /\ UNCHANGED <<leaf, kids, seps, len, want, node, bad>>

\* cloning an inner node, or making one for a bulk load
BeginNode(total) ==
  /\ job = <<>>
  /\ job' = [i \in 1..total |-> "clonekey"] \o [i \in 1..(total + 1) |-> "cloneaug"] \o <<"complete">>
  /\ node' = [NoNode EXCEPT !.total = total, !.owned = ~Early]
  /\ UNCHANGED <<leaf, kids, seps, len, k, c, hand, goal, want, bad>>

-----------------------------------------------------------------------------
(* The small steps                                                         *)

Set(i, l) == leaf' = [leaf EXCEPT ![kids[i]] = l]
\* which leaf the merge keeps
Keeps == IF c > 1 THEN c - 1 ELSE c

\* the separator that is cloned: as the tree will be, or as it is already
Slot ==
  CASE "split" \in Range(job) -> IF L(c).ks[H] < k /\ k < L(c).ks[H + 1] THEN k ELSE L(c).ks[H + 1]
    [] "assign" \in Range(job) -> hand.node.ks[1]
    [] "lendlast" \in Range(job) -> Last(L(c - 1).ks)
    [] "acceptfirst" \in Range(job) -> hand.kv
    [] "lendfirst" \in Range(job) -> L(c + 1).ks[2]
    [] "acceptlast" \in Range(job) -> L(c + 1).ks[1]

Do(s) ==
  CASE s = "compare" -> UNCHANGED <<leaf, kids, seps, len, hand, node>>
    [] s = "clone" -> hand' = [hand EXCEPT !.slot = Slot] /\ UNCHANGED <<leaf, kids, seps, len, node>>
    [] s = "put" -> Set(c, [L(c) EXCEPT !.ks = Insert1(@, k)]) /\ hand' = Empty /\ UNCHANGED <<kids, seps, len, node>>
    [] s = "split" ->
         \E id \in {Free} : \E left \in {k < L(c).ks[H]} :
         /\ Set(c, [ks |-> IF left THEN Insert1(SubSeq(L(c).ks, 1, H), k) ELSE SubSeq(L(c).ks, 1, H), nx |-> id])
         /\ hand' = [hand EXCEPT !.kv = 0, !.id = id,
                                 !.node = [ks |-> IF left THEN SubSeq(L(c).ks, H + 1, N) ELSE Insert1(SubSeq(L(c).ks, H + 1, N), k), nx |-> L(c).nx]]
         /\ UNCHANGED <<kids, seps, len, node>>
    [] s = "assign" -> leaf' = [leaf EXCEPT ![hand.id] = hand.node] /\ hand' = [hand EXCEPT !.node = Gone] /\ UNCHANGED <<kids, seps, len, node>>
    [] s = "link" -> /\ kids' = InsertAt(kids, c + 1, hand.id) /\ seps' = InsertAt(seps, c, hand.slot)
                     /\ hand' = Empty /\ UNCHANGED <<leaf, len, node>>
    [] s = "take" -> Set(c, [L(c) EXCEPT !.ks = Without(@, k)]) /\ UNCHANGED <<kids, seps, len, hand, node>>
    [] s = "lendlast" -> /\ hand' = [hand EXCEPT !.kv = Last(L(c - 1).ks)]
                         /\ Set(c - 1, [L(c - 1) EXCEPT !.ks = Front(@)]) /\ UNCHANGED <<kids, seps, len, node>>
    [] s = "acceptfirst" -> /\ Set(c, [L(c) EXCEPT !.ks = <<hand.kv>> \o Without(@, k)])
                            /\ hand' = [hand EXCEPT !.kv = 0] /\ UNCHANGED <<kids, seps, len, node>>
    [] s = "setleft" -> seps' = [seps EXCEPT ![c - 1] = hand.slot] /\ hand' = Empty /\ UNCHANGED <<leaf, kids, len, node>>
    [] s = "lendfirst" -> /\ hand' = [hand EXCEPT !.kv = Head(L(c + 1).ks)]
                          /\ Set(c + 1, [L(c + 1) EXCEPT !.ks = Tail(@)]) /\ UNCHANGED <<kids, seps, len, node>>
    [] s = "acceptlast" -> /\ Set(c, [L(c) EXCEPT !.ks = Append(Without(@, k), hand.kv)])
                           /\ hand' = [hand EXCEPT !.kv = 0] /\ UNCHANGED <<kids, seps, len, node>>
    [] s = "setright" -> seps' = [seps EXCEPT ![c] = hand.slot] /\ hand' = Empty /\ UNCHANGED <<leaf, kids, len, node>>
    [] s = "takeright" -> /\ hand' = [hand EXCEPT !.node = L(Keeps + 1)]
                          /\ leaf' = [leaf EXCEPT ![kids[Keeps + 1]] = Gone] /\ UNCHANGED <<kids, seps, len, node>>
    [] s = "absorb" -> /\ Set(Keeps, [ks |-> Without(L(Keeps).ks \o hand.node.ks, k), nx |-> hand.node.nx])
                       /\ hand' = Empty /\ UNCHANGED <<kids, seps, len, node>>
    [] s = "unlink" -> kids' = RemoveAt(kids, Keeps + 1) /\ seps' = RemoveAt(seps, Keeps) /\ UNCHANGED <<leaf, len, hand, node>>
    [] s = "count+" -> len' = len + 1 /\ UNCHANGED <<leaf, kids, seps, hand, node>>
    [] s = "count-" -> len' = len - 1 /\ UNCHANGED <<leaf, kids, seps, hand, node>>
    [] s = "clonekey" -> node' = [node EXCEPT !.keys = @ + 1] /\ UNCHANGED <<leaf, kids, seps, len, hand>>
    [] s = "cloneaug" -> node' = [node EXCEPT !.augs = @ + 1] /\ UNCHANGED <<leaf, kids, seps, len, hand>>
    [] s = "complete" -> node' = NoNode /\ UNCHANGED <<leaf, kids, seps, len, hand>>

Advance ==
  /\ job # <<>> /\ Do(Head(job)) /\ job' = Tail(job)
  /\ want' = IF job' = <<>> /\ Head(job) # "complete" THEN goal ELSE want
  /\ IF job' = <<>> THEN k' = 0 /\ c' = 0 ELSE UNCHANGED <<k, c>>
  /\ UNCHANGED <<goal, bad>>

Panic ==
  /\ job # <<>> /\ Head(job) \in User
  /\ job' = <<>> /\ hand' = Empty /\ goal' = want /\ node' = NoNode
  /\ bad' = (bad \/ (node.owned /\ (node.size > node.keys \/ node.size + 1 > node.augs)))
  /\ k' = 0 /\ c' = 0
  /\ UNCHANGED <<leaf, kids, seps, len, want>>

Next == (\E x \in 1..U : BeginInsert(x) \/ BeginRemove(x)) \/ (\E n \in 1..2 : BeginNode(n)) \/ Advance \/ Panic
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Idle == job = <<>>
All == FoldLeft(LAMBDA s, i : s \o leaf[i].ks, <<>>, kids)
Between(i) == \A j \in 1..Len(L(i).ks) : (i > 1 => seps[i - 1] <= L(i).ks[j]) /\ (i < Len(kids) => L(i).ks[j] < seps[i])
WellFormed ==
  Idle =>
  /\ Len(seps) = Len(kids) - 1
  /\ \A i \in 1..Len(kids) :
     /\ leaf[kids[i]] # Gone /\ Between(i)
     /\ L(i).nx = (IF i < Len(kids) THEN kids[i + 1] ELSE 0)
     /\ Len(L(i).ks) <= N /\ (Len(kids) > 1 => Len(L(i).ks) >= H)
  /\ \A i \in Ids : leaf[i] # Gone => i \in Range(kids)
  /\ \A i \in 1..(Len(All) - 1) : All[i] < All[i + 1]
\* a call that panicked was not made, one that returned was
Intact == Idle => Range(All) = want /\ len = Cardinality(want)
NeverWritten == ~bad
\* nothing stays in the hands of a call that is over
Released == Idle => hand = Empty
=============================================================================
