------------------------------- MODULE SweepAPI -------------------------------
(***************************************************************************)
(* The contract of sweep-bptree, seen through its public API.              *)
(*                                                                         *)
(* State: the contents of every collection (map, set or tree), the cursors *)
(* (a cursor denotes a key and nothing else), the iterators (what is still *)
(* to come), and what each step hands back (res) and releases (drops).     *)
(* Every public operation is one action.  A call that only reads leaves    *)
(* colls, curs and iters unchanged.  No action describes a panic, except   *)
(* Aborted (the user's own comparison or clone panicked), AbortedBuild and *)
(* VisitOutOfRange.                                                        *)
(*                                                                         *)
(* Results are sequences of integers: None is <<>>, Some(x) is <<x>>, an   *)
(* entry is <<key, value>>, a list of entries is flattened, a boolean is   *)
(* <<0>> or <<1>>.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS Handles,      \* names of collections
          CursorIds,    \* names of cursors
          IterIds       \* names of iterators

VARIABLES env,    \* [u |-> keys are 1..u, grp |-> group of each key, aug |-> augmentation]
          colls,  \* Handles   -> collection
          curs,   \* CursorIds -> key, 0 when unused
          iters,  \* IterIds   -> iterator
          res,    \* result of the last operation
          drops   \* values released by the last operation (set of values)

vars == <<env, colls, curs, iters, res, drops>>

-----------------------------------------------------------------------------
(* Contents: a function from all keys to values, 0 meaning absent.         *)

Keys == 1..env.u

\* evaluates x once (TLC does not remember the value of a LET while it takes a step)
With(x, F(_)) == FoldLeft(LAMBDA a, y : F(y), 0, <<x>>)

EmptyMap == [k \in Keys |-> 0]
NoColl == [kind |-> "none", m |-> <<>>, n |-> 0]
Coll(kind, m, n) == [kind |-> kind, m |-> m, n |-> n]
Live(h) == colls[h].kind # "none"

M(h) == colls[h].m
Has(m, k) == m[k] # 0

KeySeq(m) == SelectSeq([i \in 1..env.u |-> i], LAMBDA k : m[k] # 0)
Size(m) == Len(KeySeq(m))

\* smallest key >= k, and largest key <= k; 0 if there is none
Ceil(m, k)  == FoldLeft(LAMBDA a, j : IF a = 0 /\ m[j] # 0 THEN j ELSE a, 0, [i \in 1..(env.u - k + 1) |-> k + i - 1])
Floor(m, k) == FoldLeft(LAMBDA a, j : IF a = 0 /\ m[j] # 0 THEN j ELSE a, 0, [i \in 1..k |-> k - i + 1])

None == <<>>
Opt(v) == IF v = 0 THEN <<>> ELSE <<v>>
Entry(m, k) == IF k = 0 THEN <<>> ELSE <<k, m[k]>>
Bool(b) == IF b THEN <<1>> ELSE <<0>>

\* number of entries with a key smaller than k
Below(m, k) == Len(SelectSeq([i \in 1..(k - 1) |-> i], LAMBDA j : m[j] # 0))

\* entries k1, v1, k2, v2, ... for the sequence of keys x
Flat(m, x) == With(x, LAMBDA s : [i \in 1..(2 * Len(s)) |-> IF i % 2 = 1 THEN s[(i + 1) \div 2] ELSE m[s[i \div 2]]])

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

ValuesOf(m) == {m[k] : k \in {j \in 1..env.u : m[j] # 0}}

-----------------------------------------------------------------------------
(* Augmentations as functions of a run ks[lo..hi], vs[lo..hi] of entries.      *)
(* hash/khash are order dependent, so they determine the run for practical     *)
(* purposes; ksum weighs keys, vsum weighs values, max is the largest value,   *)
(* group is (number of groups, last group, entries of the last group).         *)

HB == 257
HM == 8000009
HashSeed == 5
HashRun(ks, vs, lo, hi, acc, vw) ==
  FoldLeft(LAMBDA h, i : (h * HB + ks[i] * 31 + vs[i] * vw + 7) % HM, acc, [i \in 1..(hi - lo + 1) |-> lo + i - 1])

KWeight(k) == ((k * 7) % 5) + 1
SumRun(F(_), lo, hi) == FoldLeft(LAMBDA x, i : x + F(i), 0, [i \in 1..(hi - lo + 1) |-> lo + i - 1])
MaxRun(vs, lo, hi) == FoldLeft(LAMBDA x, i : IF vs[i] > x THEN vs[i] ELSE x, 0, [i \in 1..(hi - lo + 1) |-> lo + i - 1])

\* groups are ordered like keys, so each group is a contiguous run
GroupsRun(ks, lo, hi) == 1 + SumRun(LAMBDA i : IF env.grp[ks[i]] # env.grp[ks[i + 1]] THEN 1 ELSE 0, lo, hi - 1)
RECURSIVE TailGroup(_, _, _)
TailGroup(ks, lo, hi) ==
  IF hi <= lo THEN 1
  ELSE IF env.grp[ks[hi]] = env.grp[ks[hi - 1]] THEN 1 + TailGroup(ks, lo, hi - 1) ELSE 1

AugOf(aug, ks, vs, lo, hi) ==
  CASE aug = "unit"  -> <<>>
    [] aug = "count" -> <<hi - lo + 1>>
    [] aug = "hash"  -> <<hi - lo + 1, HashRun(ks, vs, lo, hi, 0, 17)>>
    [] aug = "khash" -> <<hi - lo + 1, HashRun(ks, vs, lo, hi, 0, 0)>>
    [] aug = "ksum"  -> <<SumRun(LAMBDA i : KWeight(ks[i]), lo, hi)>>
    [] aug = "vsum"  -> <<SumRun(LAMBDA i : vs[i], lo, hi)>>
    [] aug = "max"   -> <<MaxRun(vs, lo, hi)>>
    [] aug = "group" -> IF lo > hi THEN <<0>>
                        ELSE <<GroupsRun(ks, lo, hi), env.grp[ks[hi]], TailGroup(ks, lo, hi)>>

ValSeq(m, x) == With(x, LAMBDA s : [i \in 1..Len(s) |-> m[s[i]]])
AugOfKeys(aug, m, x) == With(x, LAMBDA s : With(ValSeq(m, s), LAMBDA v : AugOf(aug, s, v, 1, Len(s))))
RootAug(m) == AugOfKeys(env.aug, m, KeySeq(m))

-----------------------------------------------------------------------------
(* Steps that change one collection, or nothing *)

Keep == UNCHANGED <<env, colls, curs, iters>>
Read(r) == Keep /\ res' = r /\ drops' = {}

Store(h, m, n) == colls' = [colls EXCEPT ![h] = Coll(@.kind, m, n)]

Create(h, kind) ==
  /\ ~Live(h)
  /\ colls' = [colls EXCEPT ![h] = Coll(kind, EmptyMap, 0)]
  /\ res' = None /\ drops' = {}
  /\ UNCHANGED <<env, curs, iters>>

\* later items replace earlier ones with the same key
BulkMap(items) == FoldLeft(LAMBDA m, x : [m EXCEPT ![x[1]] = x[2]], EmptyMap, items)

Bulk(h, kind, items) ==
  /\ ~Live(h)
  /\ \E m \in {BulkMap(items)} :
     /\ colls' = [colls EXCEPT ![h] = Coll(kind, m, Size(m))]
     /\ drops' = {x[2] : x \in {y \in Range(items) : m[y[1]] # y[2]}}
  /\ res' = None
  /\ UNCHANGED <<env, curs, iters>>

CloneOf(h, src) ==
  /\ ~Live(h) /\ Live(src)
  /\ colls' = [colls EXCEPT ![h] = colls[src]]
  /\ res' = None /\ drops' = {}
  /\ UNCHANGED <<env, curs, iters>>

Discard(h) ==
  /\ Live(h)
  /\ colls' = [colls EXCEPT ![h] = NoColl]
  /\ res' = None /\ drops' = ValuesOf(M(h))
  /\ UNCHANGED <<env, curs, iters>>

Clear(h) ==
  /\ Live(h)
  /\ Store(h, EmptyMap, 0)
  /\ res' = None /\ drops' = ValuesOf(M(h))
  /\ UNCHANGED <<env, curs, iters>>

Put(h, k, v, r) ==
  /\ Live(h)
  /\ Store(h, [M(h) EXCEPT ![k] = v], IF Has(M(h), k) THEN colls[h].n ELSE colls[h].n + 1)
  /\ res' = r
  /\ drops' = IF Has(M(h), k) THEN {M(h)[k]} ELSE {}    \* the caller gets it and lets it go
  /\ UNCHANGED <<env, curs, iters>>

Insert(h, k, v) == Put(h, k, v, Opt(M(h)[k]))
SetInsert(h, k) == Put(h, k, 1, Bool(~Has(M(h), k)))

Take(h, k, r) ==     \* remove k if it is a key, k = 0 stands for "nothing found"
  IF k = 0 \/ (k > 0 /\ ~Has(M(h), k)) THEN Live(h) /\ Read(r)
  ELSE /\ Live(h)
       /\ Store(h, [M(h) EXCEPT ![k] = 0], colls[h].n - 1)
       /\ res' = r /\ drops' = {M(h)[k]}
       /\ UNCHANGED <<env, curs, iters>>

Delete(h, k)    == Take(h, k, Opt(M(h)[k]))
SetDelete(h, k) == Take(h, k, Bool(Has(M(h), k)))

Write(h, k, v, r) ==   \* overwrite the value of k in place
  IF k = 0 \/ (k > 0 /\ ~Has(M(h), k)) THEN Live(h) /\ Read(r)
  ELSE /\ Live(h)
       /\ Store(h, [M(h) EXCEPT ![k] = v], colls[h].n)
       /\ res' = r /\ drops' = {M(h)[k]}
       /\ UNCHANGED <<env, curs, iters>>

GetMut(h, k, v) == Write(h, k, v, Opt(M(h)[k]))

Get(h, k)      == Live(h) /\ Read(Opt(M(h)[k]))
Member(h, k) == Live(h) /\ Read(Bool(Has(M(h), k)))
Least(h)       == Live(h) /\ \E k \in {Ceil(M(h), 1)} : Read(Entry(M(h), k))
Greatest(h)    == Live(h) /\ \E k \in {Floor(M(h), env.u)} : Read(Entry(M(h), k))
SetLeast(h)    == Live(h) /\ \E k \in {Ceil(M(h), 1)} : Read(Opt(k))
SetGreatest(h) == Live(h) /\ \E k \in {Floor(M(h), env.u)} : Read(Opt(k))
LenOf(h)       == Live(h) /\ Read(<<colls[h].n>>)
IsEmpty(h)     == Live(h) /\ Read(Bool(colls[h].n = 0))
Collect(h)     == Live(h) /\ Read(Flat(M(h), KeySeq(M(h))))
CollectRev(h)  == Live(h) /\ Read(Flat(M(h), Reverse(KeySeq(M(h)))))
Augmented(h)   == Live(h) /\ Read(RootAug(M(h)))

\* the user's comparison or clone panicked and the caller caught it: nothing happened,
\* except that a key and value passed to insert are gone
Aborted(h, v) == Live(h) /\ Keep /\ res' = <<-1>> /\ drops' = (IF v = 0 THEN {} ELSE {v})

\* the same while a collection was being built or copied: there is none
AbortedBuild(h) == ~Live(h) /\ Keep /\ res' = <<-1>> /\ drops' = {}
AbortedCopy(c)  == curs[c] # 0 /\ Keep /\ res' = <<-1>> /\ drops' = {}

-----------------------------------------------------------------------------
(* Order statistics (Count)                                                *)

Nth(m, i) == With(KeySeq(m), LAMBDA s : IF i < Len(s) THEN s[i + 1] ELSE 0)

At(h, i)       == Live(h) /\ \E k \in {Nth(M(h), i)} : Read(Entry(M(h), k))
AtMut(h, i, v) == \E k \in {Nth(M(h), i)} : Write(h, k, v, IF k = 0 THEN None ELSE <<M(h)[k]>>)
AtTake(h, i)   == \E k \in {Nth(M(h), i)} : Take(h, k, Entry(M(h), k))
Rank(h, k)     == Live(h) /\ Read(<<IF Has(M(h), k) THEN 1 ELSE 0, Below(M(h), k)>>)

-----------------------------------------------------------------------------
(* Groups (GroupCount)                                                     *)

InGroup(m, g) == SelectSeq([i \in 1..env.u |-> i], LAMBDA k : m[k] # 0 /\ env.grp[k] = g)
NthIn(m, g, o) == With(InGroup(m, g), LAMBDA s : IF o < Len(s) THEN s[o + 1] ELSE 0)

GroupAt(h, g, o)       == Live(h) /\ \E k \in {NthIn(M(h), g, o)} : Read(Entry(M(h), k))
GroupMut(h, g, o, v)   == \E k \in {NthIn(M(h), g, o)} : Write(h, k, v, IF k = 0 THEN None ELSE <<M(h)[k]>>)
GroupTake(h, g, o)     == \E k \in {NthIn(M(h), g, o)} : Take(h, k, Entry(M(h), k))
GroupSize(h, g)        == Live(h) /\ Read(<<Len(InGroup(M(h), g))>>)
GroupRank(h, k) ==
  Live(h) /\ LET s == InGroup(M(h), env.grp[k])
             IN Read(<<IF Has(M(h), k) THEN 1 ELSE 0, env.grp[k],
                       Len(SelectSeq(s, LAMBDA j : j < k))>>)

-----------------------------------------------------------------------------
(* User-defined augmentations                                              *)

\* first key at which the weights add up to more than w: <<key, what is left of w>>
FindWeight(F(_), s, w) ==
  FoldLeft(LAMBDA a, k : IF a[1] # 0 THEN a ELSE IF a[2] < F(k) THEN <<k, a[2]>> ELSE <<0, a[2] - F(k)>>, <<0, w>>, s)[1]

WeightAt(m, w) == With(KeySeq(m), LAMBDA s :
                    IF env.aug = "ksum" THEN FindWeight(KWeight, s, w)
                                        ELSE FindWeight(LAMBDA k : m[k], s, w))
AboveAt(m, q) == FoldLeft(LAMBDA a, k : IF a # 0 \/ m[k] < q THEN a ELSE k, 0, KeySeq(m))

Selected(m, q) == IF env.aug = "max" THEN AboveAt(m, q)
                  ELSE IF env.aug \in {"ksum", "vsum"} THEN WeightAt(m, q)
                  ELSE Nth(m, q)

Find(h, q)       == Live(h) /\ \E k \in {Selected(M(h), q)} : Read(Entry(M(h), k))
FindMut(h, q, v) == \E k \in {Selected(M(h), q)} : Write(h, k, v, IF k = 0 THEN None ELSE <<M(h)[k]>>)
FindTake(h, q)   == \E k \in {Selected(M(h), q)} : Take(h, k, Entry(M(h), k))

\* a search function of the user that answers an index outside the node, at some level: refused (-1), and nothing
\* happened.  A query that selects nothing may end before that.
FindBad(h, level, q, r) ==
  Live(h) /\ Read(IF level = 0 \/ Selected(M(h), q) # 0 \/ r # <<>> THEN <<-1>> ELSE <<>>)

\* ksum: total weight before k.  khash: the seed, then everything before k.
PrefixRank(m, k) ==
  With(SelectSeq(KeySeq(m), LAMBDA j : j < k),
       LAMBDA s : IF env.aug = "khash" THEN HashRun(s, s, 1, Len(s), HashSeed, 0)
                  ELSE SumRun(LAMBDA i : KWeight(s[i]), 1, Len(s)))
FoldRank(h, k) == Live(h) /\ Read(<<IF Has(M(h), k) THEN 1 ELSE 0, PrefixRank(M(h), k)>>)

-----------------------------------------------------------------------------
(* Cursors                                                                 *)

SetCursor(c, k, r) == curs' = [curs EXCEPT ![c] = k] /\ res' = r /\ drops' = {} /\ UNCHANGED <<env, colls, iters>>

CursorFirst(h, c)   == Live(h) /\ \E k \in {Ceil(M(h), 1)} : SetCursor(c, k, Entry(M(h), k))
CursorLast(h, c)    == Live(h) /\ \E k \in {Floor(M(h), env.u)} : SetCursor(c, k, Entry(M(h), k))
CursorGet(h, c, k)  == Live(h) /\ SetCursor(c, k, Opt(M(h)[k]))
CursorNext(h, c, d) == Live(h) /\ curs[c] # 0
                       /\ \E k \in {Ceil(M(h), curs[c] + 1)} : SetCursor(d, k, Entry(M(h), k))
CursorPrev(h, c, d) == Live(h) /\ curs[c] # 0
                       /\ \E k \in {Floor(M(h), curs[c] - 1)} : SetCursor(d, k, Entry(M(h), k))
CursorCopy(c, d)    == curs[c] # 0 /\ SetCursor(d, curs[c], <<curs[c]>>)
CursorKey(c)        == curs[c] # 0 /\ Read(<<curs[c]>>)
CursorValue(h, c)   == Live(h) /\ curs[c] # 0 /\ Read(Opt(M(h)[curs[c]]))
CursorExists(h, c)  == Live(h) /\ curs[c] # 0 /\ Read(Bool(Has(M(h), curs[c])))

-----------------------------------------------------------------------------
(* Iterators: ks/vs is the snapshot taken at creation, lo..hi what remains *)

NoIter == [st |-> "none", ks |-> <<>>, vs |-> <<>>, lo |-> 1, hi |-> 0, src |-> {}]
Fresh(st, m, x, src) == With(x, LAMBDA s : [st |-> st, ks |-> s, vs |-> ValSeq(m, s), lo |-> 1, hi |-> Len(s), src |-> src])
Left(it) == iters[it].hi - iters[it].lo + 1
Active(it) == iters[it].st # "none"
Item(x, i) == IF x.st = "ref" \/ x.st = "own" THEN <<x.ks[i], x.vs[i]>> ELSE <<x.ks[i]>>

OpenIter(it, x, r) == iters' = [iters EXCEPT ![it] = x] /\ res' = r /\ drops' = {} /\ UNCHANGED <<env, curs>>

IterNew(h, it) == Live(h) /\ ~Active(it) /\ UNCHANGED colls
                  /\ OpenIter(it, Fresh(IF colls[h].kind = "set" THEN "keys" ELSE "ref", M(h), KeySeq(M(h)), {h}), None)
IntoIter(h, it) == /\ Live(h) /\ ~Active(it)
                   /\ colls' = [colls EXCEPT ![h] = NoColl]
                   /\ OpenIter(it, Fresh(IF colls[h].kind = "set" THEN "ownkeys" ELSE "own", M(h), KeySeq(M(h)), {}), None)
UnionNew(h, g, it) ==
  /\ Live(h) /\ Live(g) /\ ~Active(it) /\ UNCHANGED colls
  /\ \E m \in {[k \in Keys |-> IF Has(M(h), k) \/ Has(M(g), k) THEN 1 ELSE 0]} :
        OpenIter(it, Fresh("union", m, KeySeq(m), {h, g}), None)
IterClone(it, jt) == Active(it) /\ ~Active(jt) /\ UNCHANGED colls /\ OpenIter(jt, iters[it], None)

Owning(x) == x.st \in {"own", "ownkeys"}
Rest(x, lo, hi) == IF Owning(x) THEN {x.vs[i] : i \in lo..hi} ELSE {}

\* the iterator moves to lo..hi; whatever it passes over is released
MoveTo(it, lo, hi, r) ==
  LET x == iters[it] IN
  /\ iters' = [iters EXCEPT ![it] = [@ EXCEPT !.lo = lo, !.hi = hi]]
  /\ res' = r
  /\ drops' = Rest(x, x.lo, lo - 1) \cup Rest(x, hi + 1, x.hi)
  /\ UNCHANGED <<env, colls, curs>>

\* nth(n) skips n items and yields the next one; next is nth(0)
IterNth(it, n) ==
  Active(it) /\ LET x == iters[it] IN
     IF n < Left(it) THEN MoveTo(it, x.lo + n + 1, x.hi, Item(x, x.lo + n))
     ELSE MoveTo(it, x.hi + 1, x.hi, None)
IterNthBack(it, n) ==
  Active(it) /\ LET x == iters[it] IN
     IF n < Left(it) THEN MoveTo(it, x.lo, x.hi - n - 1, Item(x, x.hi - n))
     ELSE MoveTo(it, x.lo, x.lo - 1, None)
IterNext(it) == IterNth(it, 0)
IterBack(it) == IterNthBack(it, 0)
IterLen(it)  == Active(it) /\ iters[it].st # "union" /\ Read(<<Left(it), Left(it), Left(it)>>)   \* len and both size hints

\* the union only promises bounds
HintOK(it, r) == Len(r) = 2 /\ r[1] <= Left(it) /\ r[2] >= Left(it)

CloseIter(it, r) ==
  LET x == iters[it] IN
  /\ Active(it)
  /\ iters' = [iters EXCEPT ![it] = NoIter]
  /\ res' = r /\ drops' = Rest(x, x.lo, x.hi)
  /\ UNCHANGED <<env, colls, curs>>
RECURSIVE Items(_, _, _)
Items(x, lo, hi) == FoldLeft(LAMBDA a, i : a \o Item(x, i), <<>>, [j \in 1..(hi - lo + 1) |-> lo + j - 1])
IterDrop(it)    == CloseIter(it, None)
IterRest(it)    == CloseIter(it, Items(iters[it], iters[it].lo, iters[it].hi))
IterRestRev(it) == LET x == iters[it] IN
                   CloseIter(it, FoldLeft(LAMBDA a, i : a \o Item(x, i), <<>>,
                                          [j \in 1..Left(it) |-> x.hi - j + 1]))
IterCount(it)   == CloseIter(it, <<Left(it)>>)
IterLast(it)    == CloseIter(it, IF Left(it) = 0 THEN None ELSE Item(iters[it], iters[it].hi))
IterMin(it)     == CloseIter(it, IF Left(it) = 0 THEN None ELSE Item(iters[it], iters[it].lo))
IterMax(it)     == IterLast(it)

(* What the standard library derives from these, and an iterator may provide itself *)
IterTake(it, n) ==
  Active(it) /\ LET x == iters[it]
                    m == IF n < Left(it) THEN n ELSE Left(it)
                IN MoveTo(it, x.lo + m, x.hi, Items(x, x.lo, x.lo + m - 1))
\* the first of the remaining entries from key k on, from the front (the last up to key k, from the back)
Fewer(x, k) == Cardinality({i \in x.lo..x.hi : x.ks[i] < k})
More(x, k) == Cardinality({i \in x.lo..x.hi : x.ks[i] > k})
IterFind(it, k) == Active(it) /\ IterNth(it, Fewer(iters[it], k))
IterRFind(it, k) == Active(it) /\ IterNthBack(it, More(iters[it], k))
IterPos(it, k) ==
  Active(it) /\ LET x == iters[it]  b == Fewer(x, k) IN
     IF b < Left(it) THEN MoveTo(it, x.lo + b + 1, x.hi, <<b>>) ELSE MoveTo(it, x.hi + 1, x.hi, None)
IterRPos(it, k) ==
  Active(it) /\ LET x == iters[it]  b == More(x, k) IN
     IF b < Left(it) THEN MoveTo(it, x.lo, x.hi - b - 1, <<Left(it) - b - 1>>) ELSE MoveTo(it, x.lo, x.lo - 1, None)
\* are all remaining keys smaller than k?  Stops after the first that is not
IterAll(it, k) ==
  Active(it) /\ LET x == iters[it]  b == Fewer(x, k) IN
     IF b < Left(it) THEN MoveTo(it, x.lo + b + 1, x.hi, Bool(FALSE)) ELSE MoveTo(it, x.hi + 1, x.hi, Bool(TRUE))
IterStep(it, s) == LET x == iters[it] IN
  CloseIter(it, FoldLeft(LAMBDA a, i : a \o Item(x, i), <<>>, [j \in 1..((Left(it) + s - 1) \div s) |-> x.lo + (j - 1) * s]))
IterSkip(it, n) == LET x == iters[it] IN
  CloseIter(it, IF n < Left(it) THEN Items(x, x.lo + n, x.hi) ELSE None)

-----------------------------------------------------------------------------
(* Many calls in one step, for trees too deep to be grown call by call.    *)
(* A progression is lo, lo + step, .., n terms, all of them keys; what the *)
(* calls hand back is folded into one number.                              *)

MP == 1000003
Mix(acc, x) == (acc * 31 + x) % MP
Term(lo, step, j) == lo + (j - 1) * step
Terms(lo, n, step) == [j \in 1..n |-> lo + (j - 1) * step]
\* position of k in the progression, 0 if it is not a term
PosIn(k, lo, n, step) ==
  LET a == IF step > 0 THEN step ELSE -step
      first == IF step > 0 THEN lo ELSE lo + (n - 1) * step
      d == k - first
      p == d \div a
  IN IF d < 0 \/ d % a # 0 \/ p >= n THEN 0 ELSE IF step > 0 THEN p + 1 ELSE n - p

\* <<how many are keys, sum of their values>>
Tally(m, x) == FoldLeft(LAMBDA a, k : IF m[k] = 0 THEN a ELSE <<a[1] + 1, (a[2] + m[k]) % MP>>, <<0, 0>>, x)

\* the values held by terms. What steps over more than 200000 terms release is not followed: TLC takes minutes
\* to build such sets (no execution that is judged for releases has that many keys)
ValuesAt(m, lo, n, step) ==
  IF n > 200000 THEN {} ELSE {m[k] : k \in {j \in Range(Terms(lo, n, step)) : Has(m, j)}}

\* insert every term, the j-th with value v + j - 1
Fill(h, lo, n, step, v) ==
  /\ Live(h)
  /\ \E t \in {Tally(M(h), Terms(lo, n, step))} :
     /\ Store(h, [k \in Keys |-> With(PosIn(k, lo, n, step), LAMBDA j :
                               IF j = 0 THEN M(h)[k] ELSE IF colls[h].kind = "set" THEN 1 ELSE v + j - 1)],
              colls[h].n + n - t[1])
     /\ res' = <<n - t[1], t[2]>>
  /\ drops' = ValuesAt(M(h), lo, n, step)
  /\ UNCHANGED <<env, curs, iters>>

Without(h, x) ==
  /\ Live(h)
  /\ \E t \in {Tally(M(h), x)} :
     /\ \E gone \in {Range(x)} : Store(h, [k \in Keys |-> IF k \in gone THEN 0 ELSE M(h)[k]], colls[h].n - t[1])
     /\ res' = t
  /\ drops' = {M(h)[k] : k \in {j \in Range(x) : Has(M(h), j)}}
  /\ UNCHANGED <<env, curs, iters>>

\* remove every term
Wipe(h, lo, n, step) ==
  /\ Live(h)
  /\ \E t \in {Tally(M(h), Terms(lo, n, step))} :
     /\ Store(h, [k \in Keys |-> IF PosIn(k, lo, n, step) = 0 THEN M(h)[k] ELSE 0], colls[h].n - t[1])
     /\ res' = t
  /\ drops' = ValuesAt(M(h), lo, n, step)
  /\ UNCHANGED <<env, curs, iters>>

\* times over, insert every term and remove every term
Churn(h, lo, n, step, v, times) ==
  /\ Live(h)
  /\ \E t \in {Tally(M(h), Terms(lo, n, step))} :
     /\ Store(h, [k \in Keys |-> IF PosIn(k, lo, n, step) = 0 THEN M(h)[k] ELSE 0], colls[h].n - t[1])
     /\ \E once \in {FoldLeft(LAMBDA a, j : (a + (IF colls[h].kind = "set" THEN 1 ELSE v + j - 1)) % MP, 0, [j \in 1..n |-> j])} :
          res' = <<n * times, FoldLeft(LAMBDA a, j : (a + once) % MP, t[2], [j \in 1..times |-> j])>>
  /\ drops' = ValuesAt(M(h), lo, n, step) \cup {v + j - 1 : j \in 1..n}
  /\ UNCHANGED <<env, curs, iters>>

\* a window of w terms slides over the progression: every term is inserted, and removed w terms later
Slide(h, lo, n, step, v, w) ==
  /\ Live(h)
  /\ \E t \in {Tally(M(h), Terms(lo, n, step))} :
     /\ Store(h, [k \in Keys |-> With(PosIn(k, lo, n, step), LAMBDA j :
                               IF j = 0 THEN M(h)[k] ELSE IF j + w <= n THEN 0 ELSE IF colls[h].kind = "set" THEN 1 ELSE v + j - 1)],
              colls[h].n - t[1] + Min2(n, w))
     /\ res' = <<n - t[1], FoldLeft(LAMBDA a, j : (a + (IF colls[h].kind = "set" THEN 1 ELSE v + j - 1)) % MP, t[2], [j \in 1..Max2(0, n - w) |-> j])>>
  /\ drops' = ValuesAt(M(h), lo, n, step) \cup {v + j - 1 : j \in 1..Max2(0, n - w)}
  /\ UNCHANGED <<env, curs, iters>>

\* n times remove the entry at index i
AtTakes(h, i, n) == \E s \in {KeySeq(M(h))} : Without(h, SubSeq(s, i + 1, Min2(i + n, Len(s))))

\* look every term up
Probe(h, lo, n, step) ==
  Live(h) /\ Read(FoldLeft(LAMBDA a, k : <<IF M(h)[k] = 0 THEN a[1] ELSE a[1] + 1, Mix(a[2], M(h)[k])>>, <<0, 0>>, Terms(lo, n, step)))

\* the entries at the indexes i, i + step, ..
Ats(h, i, n, step) ==
  /\ Live(h)
  /\ \E s \in {KeySeq(M(h))} :
       Read(FoldLeft(LAMBDA a, j : IF j < Len(s) THEN <<a[1] + 1, Mix(a[2], s[j + 1] * 7 + M(h)[s[j + 1]])>> ELSE <<a[1], Mix(a[2], 0)>>,
                     <<0, 0>>, Terms(i, n, step)))

\* the rank of every term, step > 0
Ranks(h, lo, n, step) ==
  /\ Live(h)
  /\ \E t \in {FoldLeft(LAMBDA a, k : LET found == IF M(h)[k] = 0 THEN 0 ELSE 1 IN
                                    IF PosIn(k, lo, n, step) = 0 THEN <<a[1] + found, a[2], a[3]>>
                                    ELSE <<a[1] + found, a[2] + found, Mix(a[3], a[1])>>,
                       <<0, 0, 0>>, [k \in 1..env.u |-> k])} :
       Read(<<t[2], t[3]>>)

\* a cursor moves up to n times forward (dir = 1) or backward (dir = 0), and stays at the last entry it reached
CursorWalk(h, c, n, dir) ==
  /\ Live(h) /\ curs[c] # 0
  /\ \E s \in {SelectSeq(KeySeq(M(h)), LAMBDA k : IF dir = 1 THEN k > curs[c] ELSE k < curs[c])} :
     \E w \in {IF dir = 1 THEN SubSeq(s, 1, Min2(n, Len(s))) ELSE SubSeq(Reverse(s), 1, Min2(n, Len(s)))} :
       SetCursor(c, IF w = <<>> THEN curs[c] ELSE w[Len(w)],
                 <<Len(w), FoldLeft(LAMBDA a, k : Mix(a, k * 7 + M(h)[k]), 0, w)>>)

-----------------------------------------------------------------------------
\* values that are alive in some collection or owning iterator
HeldValues(h) == IF colls[h].kind = "set" THEN 0 ELSE colls[h].n
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(f, S \ {x})
IterHeld(i) == IF Owning(iters[i]) THEN Max2(0, Left(i)) ELSE 0
LiveValues ==
  SumOver([h \in Handles |-> HeldValues(h)], Handles)
    + SumOver([i \in IterIds |-> IF iters[i].st = "own" THEN IterHeld(i) ELSE 0], IterIds)
LiveEntries == SumOver([h \in Handles |-> colls[h].n], Handles) + SumOver([i \in IterIds |-> IterHeld(i)], IterIds)

InitWith(e) ==
  /\ env = e
  /\ colls = [h \in Handles |-> NoColl]
  /\ curs = [c \in CursorIds |-> 0]
  /\ iters = [i \in IterIds |-> NoIter]
  /\ res = <<>> /\ drops = {}

\* collections borrowed by an iterator are not modified (the borrow checker sees to that)
Free(h) == \A i \in IterIds : h \notin iters[i].src
=============================================================================
