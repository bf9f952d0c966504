------------------------------- MODULE Readers -------------------------------
(***************************************************************************)
(* Lookups of several threads in a tree that nobody modifies.  The         *)
(* remembered leaf is the only thing they share and change: it is loaded   *)
(* and stored with relaxed atomic operations, so every interleaving of     *)
(* loads and stores is possible, and a load may return any value stored    *)
(* earlier (Stale).  Comparisons happen in between.                        *)
(***************************************************************************)
EXTENDS BPTree, TLC
CONSTANTS Threads, Lookups, U, SizeChoices, Stale

VARIABLES root, hint, hist, pc, key, leaf, left, ok
vars == <<root, hint, hist, pc, key, leaf, left, ok>>

Contents(x) == FoldLeft(LAMBDA m, e : [m EXCEPT ![e[1]] = e[2]], [k \in 1..U |-> 0], AllEntries(LeavesOf(x)))
Ls == LeavesOf(root)
Init ==
  \E n \in SizeChoices :
    /\ root = BulkRoot([i \in 1..n |-> <<(i * U) \div n, i>>])
    /\ hint \in {0} \cup 1..BulkLeaves([i \in 1..n |-> <<(i * U) \div n, i>>])
    /\ hist = {hint}
    /\ pc = [t \in Threads |-> "idle"] /\ key = [t \in Threads |-> 0]
    /\ leaf = [t \in Threads |-> 0] /\ left = [t \in Threads |-> Lookups] /\ ok = TRUE

Begin(t) == /\ pc[t] = "idle" /\ left[t] > 0
            /\ \E k \in 1..U : key' = [key EXCEPT ![t] = k]
            /\ pc' = [pc EXCEPT ![t] = "load"]
            /\ left' = [left EXCEPT ![t] = @ - 1]
            /\ UNCHANGED <<root, hint, hist, leaf, ok>>
Load(t) == /\ pc[t] = "load"
           /\ \E h \in (IF Stale THEN hist ELSE {hint}) : leaf' = [leaf EXCEPT ![t] = IF HintHit(Ls, h, key[t]) THEN h ELSE 0]
           /\ pc' = [pc EXCEPT ![t] = IF leaf'[t] # 0 THEN "read" ELSE "descend"]
           /\ UNCHANGED <<root, hint, hist, key, left, ok>>
Descend(t) == /\ pc[t] = "descend"
              /\ leaf' = [leaf EXCEPT ![t] = DescendTo(root, key[t]).id]
              /\ pc' = [pc EXCEPT ![t] = "store"]
              /\ UNCHANGED <<root, hint, hist, key, left, ok>>
Store(t) == /\ pc[t] = "store"
            /\ hint' = leaf[t] /\ hist' = (IF Stale THEN hist \cup {leaf[t]} ELSE {})
            /\ pc' = [pc EXCEPT ![t] = "read"]
            /\ UNCHANGED <<root, key, leaf, left, ok>>
Look(t) == /\ pc[t] = "read"
           /\ ok' = (ok /\ ValueIn(LeafById(Ls, leaf[t]), key[t]) = Contents(root)[key[t]])
           /\ pc' = [pc EXCEPT ![t] = "idle"] /\ key' = [key EXCEPT ![t] = 0] /\ leaf' = [leaf EXCEPT ![t] = 0]
           /\ UNCHANGED <<root, hint, hist, left>>
Next == \E t \in Threads : Begin(t) \/ Load(t) \/ Descend(t) \/ Store(t) \/ Look(t)
Spec == Init /\ [][Next]_vars
\* every lookup answers as if it ran alone
Linear == ok
\* what is remembered is always a leaf of the tree, or nothing
HintValid == hint = 0 \/ \E i \in 1..Len(Ls) : Ls[i].id = hint
Symm == Permutations(Threads)
=============================================================================
