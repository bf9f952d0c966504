------------------------------ MODULE MCSweepAPI ------------------------------
(* A bounded instance of the contract: sanity of the contract itself.        *)
EXTENDS SweepAPI, TLC
CONSTANTS U, Vals, Augs
CurOrNone == 0..U
MCInit == \E a \in Augs : InitWith([u |-> U, grp |-> [k \in 1..U |-> (k + 1) \div 2], aug |-> a])

Sorted(ks) == \A i \in 1..(Len(ks) - 1) : ks[i] < ks[i + 1]
Kinds == {"tree", "set"}
Modify(h) == Live(h) /\ Free(h)

MCNext ==
  \/ \E h \in Handles, kind \in Kinds : Create(h, kind)
  \/ \E h \in Handles, items \in UNION {[1..n -> Keys \X Vals] : n \in 0..2} : Bulk(h, "tree", items)
  \/ \E h, g \in Handles : CloneOf(h, g)
  \/ \E h \in Handles : Modify(h) /\ (Discard(h) \/ Clear(h))
  \/ \E h \in Handles, k \in Keys : Modify(h) /\
        \/ colls[h].kind = "set" /\ (SetInsert(h, k) \/ SetDelete(h, k))
        \/ colls[h].kind = "tree" /\ (Delete(h, k) \/ \E v \in Vals : Insert(h, k, v) \/ GetMut(h, k, v))
  \/ \E h \in Handles, i \in 0..U : Modify(h) /\ colls[h].kind = "tree" /\
        (AtTake(h, i) \/ FindTake(h, i) \/ \E v \in Vals : AtMut(h, i, v))
  \/ \E h \in Handles, g \in 1..U, o \in 0..1 : Modify(h) /\ colls[h].kind = "tree" /\ GroupTake(h, g, o)
  \/ \E h \in Handles, c, d \in CursorIds : CursorFirst(h, c) \/ CursorLast(h, c) \/ CursorNext(h, c, d) \/ CursorPrev(h, c, d)
  \/ \E h \in Handles, c \in CursorIds, k \in Keys : CursorGet(h, c, k)
  \/ \E h \in Handles, i \in IterIds : IterNew(h, i) \/ (Free(h) /\ IntoIter(h, i))
  \/ \E h, g \in Handles, i \in IterIds : colls[h].kind = "set" /\ colls[g].kind = "set" /\ UnionNew(h, g, i)
  \/ \E i, j \in IterIds : ~Owning(iters[i]) /\ IterClone(i, j)
  \/ \E i \in IterIds, n \in 0..1 : IterNth(i, n) \/ IterNthBack(i, n)
  \/ \E i \in IterIds, k \in Keys : IterFind(i, k) \/ IterRFind(i, k) \/ IterPos(i, k) \/ IterRPos(i, k) \/ IterAll(i, k)
  \/ \E i \in IterIds, n \in 1..2 : IterTake(i, n) \/ IterStep(i, n) \/ IterSkip(i, n)
  \/ \E i \in IterIds : IterDrop(i) \/ IterRest(i) \/ IterRestRev(i) \/ IterCount(i) \/ IterLast(i)

MCView == <<env, colls, curs, iters>>

TypeOK ==
  /\ \A h \in Handles : Live(h) => /\ Len(M(h)) = U /\ \A k \in Keys : M(h)[k] \in Vals \cup {0, 1}
  /\ \A c \in CursorIds : curs[c] \in CurOrNone
LenIsSize == \A h \in Handles : Live(h) => colls[h].n = Size(M(h))
\* an index is the rank of the entry it selects, and conversely
RankSelect == \A h \in Handles : Live(h) =>
   /\ \A i \in 0..U : LET k == Nth(M(h), i) IN IF i < colls[h].n THEN k # 0 /\ Below(M(h), k) = i ELSE k = 0
   /\ \A k \in Keys : Has(M(h), k) => Nth(M(h), Below(M(h), k)) = k
\* each entry is selected by exactly one (group, offset); group sizes add up
GroupsPartition == \A h \in Handles : Live(h) =>
   /\ SumOver([g \in 1..U |-> Len(InGroup(M(h), g))], 1..U) = colls[h].n
   /\ \A k \in Keys : Has(M(h), k) =>
        Cardinality({<<g, o>> \in (1..U) \X (0..U) : NthIn(M(h), g, o) = k}) = 1
   /\ colls[h].n > 0 => GroupsRun(KeySeq(M(h)), 1, colls[h].n) = Cardinality({env.grp[k] : k \in {j \in Keys : Has(M(h), j)}})
\* iterators: sorted, in bounds, and unaffected by anything but themselves
IterOK == \A i \in IterIds : LET x == iters[i] IN
   Active(i) => Sorted(x.ks) /\ x.lo >= 1 /\ x.hi <= Len(x.ks) /\ x.hi >= x.lo - 1
IterSnapshot == \A i \in IterIds : LET x == iters[i] IN
   x.st \in {"ref", "keys"} => \A h \in x.src : x.ks = KeySeq(M(h))
\* every weight below the total is found, at the entry whose range covers it
Weights == \A h \in Handles : (Live(h) /\ env.aug \in {"ksum", "vsum"}) =>
   LET tot == RootAug(M(h))[1] IN
   \A w \in 0..(tot + 1) : (WeightAt(M(h), w) # 0) <=> w < tot
\* values are conserved: what is released is exactly what stops being stored
Stored == UNION {ValuesOf(M(h)) : h \in {g \in Handles : Live(g)}}
\* cursor moves are strictly monotone and mutually inverse between neighbours
CursorLaws == \A h \in Handles, k \in Keys : Live(h) =>
   LET n == Ceil(M(h), k + 1) p == Floor(M(h), k - 1) IN
   /\ n # 0 => n > k /\ Floor(M(h), n - 1) = (IF Has(M(h), k) THEN k ELSE p)
   /\ p # 0 => p < k /\ Ceil(M(h), p + 1) = (IF Has(M(h), k) THEN k ELSE n)
\* handles are independent
Frame == [][Cardinality({h \in Handles : colls'[h] # colls[h]}) <= 1]_vars
ReadsChangeNothing == [][colls' = colls \/ iters' = iters \/ \E h \in Handles : Live(h) /\ colls'[h].kind = "none"]_vars
=============================================================================
