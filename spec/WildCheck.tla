------------------------------ MODULE WildCheck ------------------------------
(***************************************************************************)
(* Checks recorded executions in which the ordering of the keys breaks its *)
(* promises (WildAPI).                                                     *)
(*                                                                         *)
(* Where a new entry went is unknown until the collection is iterated, so  *)
(* a collection is `known`, the sequence seen last less what has been      *)
(* removed, and `fresh`, what came in since (key 0: not known which).      *)
(* What a call released (`dv`, payloads of the values dropped) tells which *)
(* entries it took out or replaced; the results must agree with that.      *)
(* Values are distinct within an execution (but for clones).               *)
(***************************************************************************)
EXTENDS Shape, FiniteSetsExt, TLC, TLCExt, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, i, stop,
          cs,     \* handle -> [live, known, fresh]
          its     \* iterator -> [st: "none" | "ref" | "own", h: handle iterated, left: entries left]
tvars == <<vars, tr, i, stop, cs, its>>

T == Traces[tr]
Ev == T.ev

Nothing == [live |-> FALSE, known |-> <<>>, fresh |-> {}]
Empty == [live |-> TRUE, known |-> <<>>, fresh |-> {}]
NoIt == [st |-> "none", left |-> <<>>]
V2(s) == {s[j][2] : j \in DOMAIN s}
Vals(c) == V2(c.known) \cup {x[2] : x \in c.fresh}
Number(c) == Len(c.known) + Cardinality(c.fresh)
Settled(c) == c.live /\ c.fresh = {}
Pairs(r) == [j \in 1..(Len(r) \div 2) |-> <<r[2 * j - 1], r[2 * j]>>]

\* all entries, seen in this order
SeenOK(c, ps) ==
  LET old == V2(c.known)
      kept == SelectSeq(ps, LAMBDA p : p[2] \in old)
      new == SelectSeq(ps, LAMBDA p : p[2] \notin old)
  IN /\ Len(ps) = Number(c)
     /\ kept = c.known
     /\ V2(new) = {x[2] : x \in c.fresh}
     /\ \A j \in DOMAIN new : \E x \in c.fresh : x[2] = new[j][2] /\ x[1] \in {0, new[j][1]}
Seen(c, ps) == [c EXCEPT !.known = ps, !.fresh = {}]

Less(c, vs) == [c EXCEPT !.known = SelectSeq(@, LAMBDA p : p[2] \notin vs), !.fresh = {x \in @ : x[2] \notin vs}]
With1(c, k, v) == [c EXCEPT !.fresh = @ \cup {<<k, v>>}]
\* the entry with value w now has value v
Renamed(c, w, v) == [c EXCEPT !.known = [j \in DOMAIN @ |-> IF @[j][2] = w THEN <<@[j][1], v>> ELSE @[j]],
                              !.fresh = {IF x[2] = w THEN <<x[1], v>> ELSE x : x \in @}]
ItemVals(e) == [j \in 1..e.a[3] |-> e.a[5] + j - 1]

Flag(e) == IF "f" \in DOMAIN e THEN e.f ELSE ""
Fatal(e) == Flag(e) \in {"panic", "crash", "hang"}
Dv(e) == Range(e.dv)
DvOnce(e) == Len(e.dv) = Cardinality(Range(e.dv))

FrontOps == {"inext", "inth", "itake"}

\* [cs, its] afterwards, and whether the event is as it has to be
Res(c, t, ok) == [cs |-> c, its |-> t, ok |-> ok]
Same(ok) == Res(cs, its, ok /\ TRUE)
C(h) == cs[h]
Upd(h, c, ok) == Res([cs EXCEPT ![h] = c], its, ok)
Quiet(e) == e.dv = <<>>

Modify(e) ==
  LET h == e.a[1]
      c == cs[h]
  IN
  CASE e.op = "insert" ->
         IF Flag(e) = "fused" THEN Upd(h, c, e.dv = <<e.a[3]>>)
         ELSE IF e.r = <<>> THEN Upd(h, With1(c, e.a[2], e.a[3]), Quiet(e))
         ELSE Upd(h, Renamed(c, e.r[1], e.a[3]), e.r[1] \in Vals(c) /\ e.dv = e.r)
    [] e.op = "getmut" ->
         IF e.r = <<>> THEN Upd(h, c, Quiet(e))
         ELSE Upd(h, Renamed(c, e.r[1], e.a[3]), e.r[1] \in Vals(c) /\ e.dv = e.r)
    [] e.op = "atmut" ->   \* result: key and old value of the entry
         IF e.r = <<>> THEN Upd(h, c, Quiet(e) /\ e.a[2] >= Number(c))
         ELSE Upd(h, Renamed(c, e.r[Len(e.r)], e.a[3]), e.r[Len(e.r)] \in Vals(c) /\ e.dv = <<e.r[Len(e.r)]>> /\ e.a[2] < Number(c))
    [] e.op = "del" ->
         IF Flag(e) = "fused" THEN Upd(h, c, Quiet(e))
         ELSE IF e.r = <<>> THEN Upd(h, c, Quiet(e))
         ELSE Upd(h, Less(c, {e.r[1]}), e.r[1] \in Vals(c) /\ e.dv = e.r)
    [] e.op = "attake" ->  \* positions do not depend on comparisons, taking out does
         IF e.r = <<>> THEN Upd(h, c, Quiet(e))
         ELSE Upd(h, Less(c, {e.r[2]}), e.r[2] \in Vals(c) /\ e.dv = <<e.r[2]>> /\ e.a[2] < Number(c))
    [] e.op = "fill" ->
         LET new == Range(ItemVals(e))
             gone == Dv(e)
             known == [j \in 1..e.a[3] |-> <<e.a[2] + (j - 1) * e.a[4], e.a[5] + j - 1>>]
             k == IF gone = {} THEN Range(known) ELSE {<<0, v>> : v \in new \ gone}
             c1 == Less(c, gone)
         IN Upd(h, [c1 EXCEPT !.fresh = @ \cup k],
                DvOnce(e) /\ gone \subseteq (Vals(c) \cup new) /\ e.r[1] = e.a[3] - Cardinality(gone))
    [] e.op = "wipe" -> Upd(h, Less(c, Dv(e)), DvOnce(e) /\ Dv(e) \subseteq Vals(c) /\ e.r[1] = Cardinality(Dv(e)))

Step(e) ==
  LET h == e.a[1] IN
  CASE Flag(e) = "lost" -> Same(TRUE)
    [] e.op = "new" -> Upd(h, Empty, ~C(h).live /\ Quiet(e))
    [] e.op = "bulk" ->
         LET items == Range(e.items)
             vs == {x[2] : x \in items}
         IN Upd(h, [live |-> TRUE, known |-> <<>>, fresh |-> {<<0, v>> : v \in vs \ Dv(e)}], DvOnce(e) /\ Dv(e) \subseteq vs)
    [] e.op = "clone" -> Upd(h, [C(e.a[2]) EXCEPT !.fresh = {}], Settled(C(e.a[2])) /\ Quiet(e))
    [] e.op = "drop" -> Upd(h, Nothing, DvOnce(e) /\ Dv(e) = Vals(C(h)))
    [] e.op = "clear" -> Upd(h, Empty, DvOnce(e) /\ Dv(e) = Vals(C(h)))
    [] e.op \in {"insert", "getmut", "atmut", "del", "attake", "fill", "wipe"} -> Modify(e)
    [] e.op \in {"get", "cval"} -> Same(Quiet(e) /\ (e.r = <<>> \/ (Len(e.r) = 1 /\ e.r[1] \in Vals(C(h)))))
    [] e.op \in {"member", "cexists"} -> Same(Quiet(e) /\ Len(e.r) = 1)
    [] e.op = "cget" -> Same(Quiet(e) /\ (e.r = <<>> \/ (Len(e.r) = 1 /\ e.r[1] \in Vals(C(h)))))
    [] e.op \in {"cfirst", "clast", "least", "greatest"} ->
         Same(/\ Quiet(e)
              /\ IF Number(C(h)) = 0 THEN e.r = <<>>
                 ELSE /\ Len(e.r) = 2 /\ e.r[2] \in Vals(C(h))
                      /\ Settled(C(h)) => e.r = C(h).known[IF e.op \in {"cfirst", "least"} THEN 1 ELSE Number(C(h))])
    [] e.op \in {"cnext", "cprev"} -> Same(Quiet(e) /\ (e.r = <<>> \/ (Len(e.r) = 2 /\ e.r[2] \in Vals(C(h)))))
    [] e.op = "ccopy" -> Same(Quiet(e))
    [] e.op = "len" -> Same(Quiet(e) /\ e.r = <<Number(C(h))>>)
    [] e.op = "isempty" -> Same(Quiet(e) /\ e.r = <<IF Number(C(h)) = 0 THEN 1 ELSE 0>>)
    [] e.op = "root" -> Same(Quiet(e) /\ (T.aug = "count" => e.r = <<Number(C(h))>>))
    [] e.op = "rank" -> Same(Quiet(e) /\ e.r[2] >= 0 /\ e.r[2] <= Number(C(h)))
    [] e.op = "at" ->
         Same(/\ Quiet(e)
              /\ IF e.a[2] >= Number(C(h)) THEN e.r = <<>>
                 ELSE Len(e.r) = 2 /\ e.r[2] \in Vals(C(h)) /\ (Settled(C(h)) => e.r = C(h).known[e.a[2] + 1]))
    [] e.op = "collect" -> LET ps == Pairs(e.r) IN Upd(h, Seen(C(h), ps), Quiet(e) /\ SeenOK(C(h), ps))
    [] e.op = "collectrev" -> LET ps == Reverse(Pairs(e.r)) IN Upd(h, Seen(C(h), ps), Quiet(e) /\ SeenOK(C(h), ps))
    [] e.op = "shape" ->
         LET ps == [j \in DOMAIN e.ks |-> <<e.ks[j], e.vs[j]>>]
             OK(x) == /\ Len(x.keys) <= T.n /\ (x.d > 0 => Len(x.keys) >= 1)
                      /\ x.leaf = 0 => Len(x.ch) = Len(x.keys) + 1
         IN Upd(h, Seen(C(h), ps), /\ Quiet(e) /\ SeenOK(C(h), ps) /\ Balanced(e.nodes)
                                   /\ \A j \in DOMAIN e.nodes : OK(e.nodes[j])
                                   /\ AugsOK(e, IF T.aug = "count" THEN "count" ELSE "unit"))
    [] e.op \in {"iter", "into"} ->
         Res(IF e.op = "into" THEN [cs EXCEPT ![h] = Nothing] ELSE cs,
             [its EXCEPT ![e.a[2]] = [st |-> IF e.op = "into" THEN "own" ELSE "ref", left |-> C(h).known]], Settled(C(h)) /\ Quiet(e))
    [] e.op \in {"inext", "iback"} ->
         LET l == its[h].left
             own == its[h].st = "own"
         IN IF l = <<>> THEN Same(e.r = <<>> /\ Quiet(e))
            ELSE LET x == IF e.op = "inext" THEN l[1] ELSE l[Len(l)] IN
                 Res(cs, [its EXCEPT ![h].left = IF e.op = "inext" THEN Tail(l) ELSE Front(l)],
                     e.r = x /\ e.dv = IF own THEN <<x[2]>> ELSE <<>>)
    [] e.op = "ilen" -> Same(Quiet(e) /\ e.r[1] = Len(its[h].left))
    [] e.op \in {"irest", "irestrev", "idrop"} ->
         LET l == its[h].left IN
         Res(cs, [its EXCEPT ![h] = NoIt],
             /\ e.op = "irest" => Pairs(e.r) = l
             /\ e.op = "irestrev" => Pairs(e.r) = Reverse(l)
             /\ IF its[h].st = "own" THEN DvOnce(e) /\ Dv(e) = V2(l) ELSE Quiet(e))
    [] e.op = "end" -> Res([j \in Handles |-> Nothing], [j \in IterIds |-> NoIt], TRUE)

LiveOf(s) == FoldSet(LAMBDA h, a : a + Number(s.cs[h]), 0, Handles)
             + FoldSet(LAMBDA j, a : a + (IF s.its[j].st = "own" THEN Len(s.its[j].left) ELSE 0), 0, IterIds)
OwnOK(e, s) == /\ e.own[1] = 0
               /\ e.own[3] = LiveOf(s) /\ e.own[2] >= LiveOf(s)
               /\ e.op = "end" => e.own = <<0, 0, 0, 0>>

\* a call may panic; nothing is asked of the collection afterwards but that it can be dropped
Verdict(e, s) == IF Flag(e) \in {"crash", "hang"} THEN Flag(e)
                 ELSE IF Flag(e) = "panic" THEN IF e.own[1] = 0 THEN "ok" ELSE "torn"
                 ELSE IF s.ok /\ OwnOK(e, s) THEN "ok" ELSE "differs"

Init ==
  /\ tr \in 1..Len(Traces)
  /\ i = 1 /\ stop = ""
  /\ cs = [h \in Handles |-> Nothing] /\ its = [j \in IterIds |-> NoIt]
  /\ InitWith([u |-> T.u, grp |-> T.grp, aug |-> T.aug])

Report(e, v) ==
  PrintT("BAD " \o ToJson([id |-> T.id, at |-> i, verdict |-> v, op |-> e.op,
                           want |-> IF e.op \in {"collect", "collectrev"} THEN <<cs[e.a[1]].known, cs[e.a[1]].fresh>> ELSE <<>>,
                           got |-> IF "r" \in DOMAIN e THEN e.r ELSE <<>>]))

Next ==
  /\ stop = "" /\ i <= Len(Ev)
  /\ UNCHANGED vars
  /\ LET e == Ev[i] IN
     \E s \in {IF Fatal(e) THEN Same(FALSE) ELSE Step(e)} :
     /\ cs' = s.cs /\ its' = s.its
     /\ LET v == Verdict(e, s) IN
        IF v = "ok" THEN stop' = "" ELSE stop' = v /\ Report(e, v)
  /\ i' = i + 1 /\ UNCHANGED tr

View == <<tr, i, stop>>
=============================================================================
