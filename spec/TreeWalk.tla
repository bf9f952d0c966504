------------------------------- MODULE TreeWalk -------------------------------
(***************************************************************************)
(* Random walks of the tree algorithm, to be replayed against the code.    *)
(* A walk is printed when it did something no walk before it did; what     *)
(* counts is the structural label of the step, with the relation between   *)
(* the remembered leaf and the leaf the step works on, and where in the    *)
(* tree it happened.                                                       *)
(* Run with -simulate -workers 1: every step has a single successor.       *)
(***************************************************************************)
EXTENDS MCTree, Json

CONSTANTS Steps, Wanted

VARIABLES hist,   \* operations so far
          marks,  \* positions in hist of steps that were new
          mode,   \* share of insertions, in percent
          spot    \* keys are chosen around here

wvars == <<vars, hist, marks, mode, spot>>

Rel ==   \* the remembered leaf, seen from the leaf that holds k
  LET ls == Ls
      hp == SelectSeq([i \in 1..Len(ls) |-> i], LAMBDA i : ls[i].id = hint)
  IN [k \in 1..U |->
       IF hint = 0 THEN "none"
       ELSE IF Len(hp) = 0 THEN "gone"
       ELSE LET t == DescendTo(root, k) IN
            IF t.id = hint THEN "same" ELSE IF t.pv = hint THEN "prev" ELSE IF t.nx = hint THEN "next" ELSE "far"]

WalkInit ==
  /\ Init
  /\ hist = <<op>> /\ marks = <<>>
  /\ mode \in {75, 50, 35} /\ spot = 0
  /\ TLCGet("level") <= 1 => TLCSet(1, {}) /\ TLCSet(2, 0)

Pick(s) == RandomElement(s)
Clamp(k) == IF k < 1 THEN 1 ELSE IF k > U THEN U ELSE k
Around(k) == Clamp(k + Pick(-3..3))
\* a present key near k, if there is one
Present(k) == LET m == Contents(root)
                  s == {j \in 1..U : m[j] # 0 /\ j >= k - 4 /\ j <= k + 4}
              IN IF s = {} THEN k ELSE Pick(s)

Step ==
  \E d \in {Pick(1..100)}, e \in {Pick(1..100)} :
  \E k0 \in {IF spot = 0 \/ d <= 15 THEN Pick(1..U) ELSE Around(spot)} :
  \E k \in {IF e > mode /\ d > 8 THEN Present(k0) ELSE k0} :
    /\ IF Pick(1..100) <= 12 THEN (IF ValueAugs \/ d < 50 THEN Get(k) ELSE GetMut(k, Pick(Vals)))
       ELSE IF e <= mode THEN Insert(k, Pick(Vals)) ELSE Delete(k)
    /\ spot' = IF d % 10 = 0 THEN 0 ELSE k
    /\ \E rel \in {Rel[k]} :
         LET key == <<lab', rel, DepthOf(root)>> IN
         IF key \in TLCGet(1) THEN marks' = marks
         ELSE TLCSet(1, TLCGet(1) \cup {key}) /\ marks' = Append(marks, Len(hist) + 1)

WalkNext ==
  /\ Len(hist) < Steps
  /\ Step
  /\ hist' = Append(hist, op')
  /\ mode' = IF Pick(1..40) = 1 THEN Pick({85, 60, 45, 20, 10}) ELSE mode
  /\ IF Len(hist') = Steps /\ marks' # <<>>
     THEN PrintT("WALK " \o ToJson([ops |-> hist', marks |-> marks']))
     ELSE TRUE

Spec == WalkInit /\ [][WalkNext]_wvars
Enough == Cardinality(TLCGet(1)) < Wanted
PrintCoverage == IF TLCGet(2) # Cardinality(TLCGet(1)) /\ Len(hist) = Steps
                 THEN TLCSet(2, Cardinality(TLCGet(1))) ELSE TRUE
=============================================================================
