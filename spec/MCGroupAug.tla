------------------------------ MODULE MCGroupAug ------------------------------
(* GroupCount is a homomorphism: whichever way a run of groups is cut into     *)
(* pieces, pieces of pieces included, merging gives what the whole run gives.  *)
EXTENDS GroupAug, TLC
CONSTANTS G, L     \* groups, longest run

VARIABLES run, cut, cut2
\* runs of ascending groups, grown one key at a time; cut: positions after which the run is cut
Init == run = <<>> /\ cut = <<>> /\ cut2 = <<>>
Next == /\ Len(run) < L
        /\ \E g \in (IF run = <<>> THEN 1 ELSE run[Len(run)])..G : run' = Append(run, g)
        /\ \E c \in BOOLEAN : cut' = Append(cut, c)                              \* a piece (leaf) ends here
        /\ \E c \in BOOLEAN : cut2' = Append(cut2, c /\ cut'[Len(run')])         \* an upper piece ends here too
Spec == Init /\ [][Next]_<<run, cut, cut2>>

Ends(c) == SelectSeq([i \in 1..Len(run) |-> i], LAMBDA i : c[i] \/ i = Len(run))
Pieces(c) == LET e == Ends(c) IN [j \in 1..Len(e) |-> SubSeq(run, IF j = 1 THEN 1 ELSE e[j - 1] + 1, e[j])]
Leafs == [j \in 1..Len(Pieces(cut)) |-> GroupFromLeaf(Pieces(cut)[j])]
\* upper pieces: sequences of lower pieces
Upper == LET e == Ends(cut)
             u == SelectSeq([j \in 1..Len(e) |-> j], LAMBDA j : cut2[e[j]] \/ j = Len(e))
         IN [j \in 1..Len(u) |-> SubSeq(Leafs, IF j = 1 THEN 1 ELSE u[j - 1] + 1, u[j])]

Whole == GroupFromLeaf(run)
Closed == run # <<>> =>
  LET cnt(g) == Len(SelectSeq(run, LAMBDA x : x = g))
      n == Len(SelectSeq([i \in 1..Len(run) |-> i], LAMBDA i : i = 1 \/ run[i] # run[i - 1]))
  IN Whole = GC(n, run[1], cnt(run[1]), run[Len(run)], cnt(run[Len(run)]))
Homomorphism == /\ GroupFromInner(Leafs) = Whole
                /\ GroupFromInner([j \in 1..Len(Upper) |-> GroupFromInner(Upper[j])]) = Whole
\* descending through pieces selects the o-th key of group g, as in the whole run
Locate == run # <<>> =>
  \A g \in 1..G, o \in 0..L :
    LET w == GroupInLeaf(run, g, o)
        r == GroupInInner(Leafs, 1, g, o)
        p == Pieces(cut)
        before(j) == IF j = 1 THEN 0 ELSE Ends(cut)[j - 1]
    IN IF r = <<>> THEN w = <<>>
       ELSE LET s == GroupInLeaf(p[r[1]], g, r[2]) IN IF s = <<>> THEN w = <<>> ELSE w = <<before(r[1]) + s[1]>>
\* the rank of position i (a key there, or one of group g just before it)
Rank == run # <<>> =>
  \A i \in 1..Len(run) :
    LET p == Pieces(cut)
        j == Len(SelectSeq(Ends(cut), LAMBDA e : e < i)) + 1
        slot == i - 1 - (IF j = 1 THEN 0 ELSE Ends(cut)[j - 1])
        want == Len(SelectSeq(SubSeq(run, 1, i - 1), LAMBDA x : x = run[i]))
    IN GroupFoldLeaf(GroupFoldInner(<<>>, SubSeq(Leafs, 1, j - 1)), run[i], slot, p[j]) = <<run[i], want>>
\* the same over two levels of pieces
RankUpper == run # <<>> =>
  \A i \in 1..Len(run) :
    LET p == Pieces(cut)
        e == Ends(cut)
        j == Len(SelectSeq(e, LAMBDA x : x < i)) + 1
        slot == i - 1 - (IF j = 1 THEN 0 ELSE e[j - 1])
        us == SelectSeq([m \in 1..Len(e) |-> m], LAMBDA m : cut2[e[m]] \/ m = Len(e))    \* pieces that end upper pieces
        u == Len(SelectSeq(us, LAMBDA m : m < j)) + 1
        first == IF u = 1 THEN 1 ELSE us[u - 1] + 1
        above == GroupFoldInner(<<>>, [m \in 1..(u - 1) |-> GroupFromInner(Upper[m])])
        want == Len(SelectSeq(SubSeq(run, 1, i - 1), LAMBDA x : x = run[i]))
    IN GroupFoldLeaf(GroupFoldInner(above, SubSeq(Leafs, first, j - 1)), run[i], slot, p[j]) = <<run[i], want>>
LocateUpper == run # <<>> =>
  \A g \in 1..G, o \in 0..L :
    LET w == GroupInLeaf(run, g, o)
        e == Ends(cut)
        us == SelectSeq([m \in 1..Len(e) |-> m], LAMBDA m : cut2[e[m]] \/ m = Len(e))
        r == GroupInInner([m \in 1..Len(Upper) |-> GroupFromInner(Upper[m])], 1, g, o)
    IN IF r = <<>> THEN w = <<>>
       ELSE LET q == GroupInInner(Upper[r[1]], 1, g, r[2])
                first == IF r[1] = 1 THEN 1 ELSE us[r[1] - 1] + 1
            IN IF q = <<>> THEN w = <<>>
               ELSE LET j == first + q[1] - 1
                        s == GroupInLeaf(Pieces(cut)[j], g, q[2])
                    IN IF s = <<>> THEN w = <<>> ELSE w = <<(IF j = 1 THEN 0 ELSE e[j - 1]) + s[1]>>
GroupSize == run # <<>> =>
  \A g \in 1..G :
    LET v == GroupVisit(Leafs, 1, g, 0, 0)
    IN v[2] + Len(SelectSeq(Pieces(cut)[v[1]], LAMBDA x : x = g)) = Len(SelectSeq(run, LAMBDA x : x = g))
=============================================================================
