-------------------------------- MODULE AOB --------------------------------
(***************************************************************************)
(* The asset-agnostic orderbook as a state machine over accounts.          *)
(*                                                                         *)
(* An instruction is one atomic action: it either succeeds and has exactly *)
(* the effect given by Exec, or it fails and has none (the runtime rolls   *)
(* a failed transaction back).                                             *)
(*                                                                         *)
(* order   [p, l, b, c]: id = (price p, low half l), base left b, callback *)
(*         info c = <<owner, nonce>>                                       *)
(* event   [k, s, p, l, b, q, m, t]: k = "F": fill, s the taker's side,    *)
(*         (p, l) the maker's id, base b, quote q, maker and taker callback*)
(*         m and t;  k = "O": out, s the side, b the base left, m callback *)
(* book    [B, A]: per side the resting orders in ascending order of id    *)
(* account [own, lam, t, ...], own "P" (program) or "F" (foreign), t:      *)
(*         "U" uninitialised [want, n, need], "M" market [q, b, a, min, tick]*)
(*         "E" event queue [n, ev], "B"/"A" bids/asks [n, os],             *)
(*         "D" disabled, "X" unreadable                                    *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, FiniteSets

NoCb == <<0, 0>>
Opp(s) == IF s = "B" THEN "A" ELSE "B"
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Range(s) == {s[i] : i \in 1..Len(s)}

(***************************************************************************)
(* Order ids and priority                                                  *)
(***************************************************************************)
SameId(x, y) == x.p = y.p /\ x.l = y.l
IdLt(x, y) == NLt(x.p, y.p) \/ (x.p = y.p /\ NLt(x.l, y.l))
Sorted(os) == \A i \in 1..(Len(os) - 1) : IdLt(os[i], os[i + 1])
\* best first: lowest ask, highest bid.  Bids number down in the low half of
\* the id, so ascending ids put the younger bid first and Rev the older one.
Prio(s, os) == IF s = "A" THEN os ELSE Rev(os)
Unprio(s, os) == Prio(s, os)
Crosses(s, limit, p) == IF s = "B" THEN NLeq(p, limit) ELSE NLeq(limit, p)
\* price p1 is strictly worse than p2 for an order resting on side s
Worse(s, p1, p2) == IF s = "B" THEN NLt(p1, p2) ELSE NLt(p2, p1)
\* position of the id in a sequence of orders, 0 if absent
Pos(os, id) == LET at == {i \in 1..Len(os) : SameId(os[i], id)}
               IN IF at = {} THEN 0 ELSE CHOOSE i \in at : \A j \in at : i <= j
DropAt(os, i) == SubSeq(os, 1, i - 1) \o SubSeq(os, i + 1, Len(os))
Insert(os, o) == LET i == 1 + Cardinality({j \in 1..Len(os) : ~IdLt(o, os[j])})
                 IN SubSeq(os, 1, i - 1) \o <<o>> \o SubSeq(os, i, Len(os))

(***************************************************************************)
(* Amounts                                                                 *)
(***************************************************************************)
\* largest base an order with rb base and rq quote left can take from m
TradeBase(m, rb, rq) == CapDiv(NMin(m.b, rb), rq, m.p)
Value(s, b, p) == IF s = "B" THEN MulCeil(b, p) ELSE MulFloor(b, p)
TradeQuote(s, b, p, rq) == NMin(Value(s, b, p), rq)
PostQty(rb, rq, limit) == CapDiv(rb, rq, limit)
IsSelf(full, c1, c2) == IF full THEN c1 = c2 ELSE c1[1] = c2[1]

(***************************************************************************)
(* A new order x = [s, p, mb, mq, ml, c, po, pa, stb] against a book.      *)
(* Match is the matching loop; st = [opp, rb, rq, ml, room, evs, cr, why]: *)
(* opp the other side best first, room the free event slots, cr whether    *)
(* what is left would cross, why the reason matching stopped.              *)
(***************************************************************************)
Fill(x, m, b, q) == [k |-> "F", s |-> x.s, p |-> m.p, l |-> m.l, b |-> b, q |-> q,
                     m |-> m.c, t |-> x.c]
Out(s, o) == [k |-> "O", s |-> s, p |-> o.p, l |-> o.l, b |-> o.b, q |-> NZero,
              m |-> o.c, t |-> NoCb]

Stop(st, why, cr) == [st EXCEPT !.why = why, !.cr = cr]

RECURSIVE Match(_, _, _, _)
Match(x, st, full, min) ==
  IF st.ml = 0 THEN Stop(st, "limit", TRUE)
  ELSE IF st.opp = <<>> THEN Stop(st, "empty", FALSE)
  ELSE
  LET m == Head(st.opp) IN
  IF ~Crosses(x.s, x.p, m.p) THEN Stop(st, "nocross", FALSE)
  ELSE IF x.po THEN Stop(st, "postonly", TRUE)
  ELSE
  LET b == TradeBase(m, st.rb, st.rq)
      q == TradeQuote(x.s, b, m.p, st.rq)
  IN
  IF b = NZero \/ q = NZero THEN Stop(st, "zero", TRUE)
  ELSE IF x.stb # "D" /\ IsSelf(full, x.c, m.c) THEN
    IF x.stb = "A" THEN Stop(st, "WouldSelfTrade", TRUE)
    ELSE IF st.room = 0 THEN Stop(st, "EventQueueFull", TRUE)
    ELSE Match(x, [st EXCEPT !.opp = Tail(@), !.ml = @ - 1, !.room = @ - 1,
                             !.evs = Append(@, Out(Opp(x.s), m))], full, min)
  ELSE
  LET m2   == [m EXCEPT !.b = NSub(@, b)]
      dust == NLt(m2.b, min)
      need == IF dust THEN 2 ELSE 1
      es   == IF dust THEN <<Fill(x, m, b, q), Out(Opp(x.s), m2)>> ELSE <<Fill(x, m, b, q)>>
  IN
  IF st.room < need THEN Stop(st, "EventQueueFull", TRUE)
  ELSE Match(x, [st EXCEPT !.opp = IF dust THEN Tail(@) ELSE <<m2>> \o Tail(@),
                           !.rb = NSub(@, b), !.rq = NSub(@, q),
                           !.ml = @ - 1, !.room = @ - need, !.evs = @ \o es], full, min)

Failed == {"WouldSelfTrade", "EventQueueFull"}

(* The whole order.  lo is the low half of the id it gets if it rests.     *)
(* Result [ok, err, evs, why, bk, posted, p, l, tb, tq, tp]                *)
NewOrder(bk, caps, x, full, min, room, lo) ==
  LET st == Match(x, [opp |-> Prio(Opp(x.s), bk[Opp(x.s)]), rb |-> x.mb, rq |-> x.mq, ml |-> x.ml,
                      room |-> room, evs |-> <<>>, cr |-> TRUE, why |-> ""], full, min)
      own  == bk[x.s]
      opp2 == Unprio(Opp(x.s), st.opp)
      qty  == PostQty(st.rb, st.rq, x.p)
      want == ~st.cr /\ x.pa /\ NLeq(min, qty)
      isFull == Len(own) >= caps[x.s]
      wi   == IF x.s = "B" THEN 1 ELSE Len(own)      \* the worst own order
      evict == isFull /\ Len(own) > 0 /\ Worse(x.s, own[wi].p, x.p)
      rest == want /\ (~isFull \/ evict)
      own1 == IF rest /\ evict THEN DropAt(own, wi) ELSE own
      evs2 == IF rest /\ evict THEN Append(st.evs, Out(x.s, own[wi])) ELSE st.evs
      own2 == IF rest THEN Insert(own1, [p |-> x.p, l |-> lo, b |-> qty, c |-> x.c]) ELSE own1
      rb2  == IF rest THEN NSub(st.rb, qty) ELSE st.rb
      rq2  == IF rest THEN NSub(st.rq, Value(x.s, qty, x.p)) ELSE st.rq
      bk2  == IF x.s = "B" THEN [B |-> own2, A |-> opp2] ELSE [B |-> opp2, A |-> own2]
  IN IF st.why \in Failed THEN [ok |-> FALSE, err |-> st.why]
     ELSE IF rest /\ evict /\ st.room = 0 THEN [ok |-> FALSE, err |-> "EventQueueFull"]
     ELSE [ok |-> TRUE, err |-> "", evs |-> evs2, why |-> st.why, bk |-> bk2,
           posted |-> rest, p |-> x.p, l |-> lo,
           tb |-> NSub(x.mb, rb2), tq |-> NSub(x.mq, rq2),
           tp |-> IF rest THEN qty ELSE NZero]

(***************************************************************************)
(* Cancelling a sequence of ids from a book                                *)
(***************************************************************************)
SideOf(id) == IF LoIsBid(id.l) THEN "B" ELSE "A"
RECURSIVE CancelAll(_, _, _, _)
CancelAll(bk, ids, tb, tq) ==
  IF ids = <<>> THEN [ok |-> TRUE, err |-> "", bk |-> bk, tb |-> tb, tq |-> tq]
  ELSE LET s == SideOf(Head(ids))
           i == Pos(bk[s], Head(ids))
       IN IF i = 0 THEN [ok |-> FALSE, err |-> "OrderNotFound"]
          ELSE LET o == bk[s][i]
                   b == NAdd(tb, o.b)
                   q == NAdd(tq, MulFloor(o.b, o.p))
               IN IF ~NFits64(b) \/ ~NFits64(q) THEN [ok |-> FALSE, err |-> "Overflow"]
                  ELSE CancelAll([bk EXCEPT ![s] = DropAt(@, i)], Tail(ids), b, q)

(***************************************************************************)
(* Accounts.  w is the sequence of all accounts, ac the indices passed.    *)
(***************************************************************************)
IsProg(w, i) == w[i].own = "P"
\* the market, queue, bids and asks passed are a live market and its accounts
Bound(w, ac) ==
  /\ IsProg(w, ac[1]) /\ w[ac[1]].t = "M"
  /\ w[ac[1]].q = ac[2] /\ IsProg(w, ac[2])
  /\ Len(ac) >= 4 => /\ w[ac[1]].b = ac[3] /\ w[ac[1]].a = ac[4]
                     /\ IsProg(w, ac[3]) /\ IsProg(w, ac[4])
\* ... and they are readable as such (always so for a correct program)
Readable(w, ac) ==
  /\ w[ac[2]].t = "E"
  /\ Len(ac) >= 4 => w[ac[3]].t = "B" /\ w[ac[4]].t = "A"
BookOf(w, ac) == [B |-> w[ac[3]].os, A |-> w[ac[4]].os]
CapsOf(w, ac) == [B |-> w[ac[3]].n, A |-> w[ac[4]].n]
Room(w, ac) == w[ac[2]].n - Len(w[ac[2]].ev)

Distinct(ac) == \A i, j \in 1..Len(ac) : i # j => ac[i] # ac[j]
MinQueue == 5

CanCreate(w, op) ==
  LET ac == op.ac IN
  /\ Distinct(ac)
  /\ \A i \in 1..4 : IsProg(w, ac[i]) /\ w[ac[i]].t = "U" /\ w[ac[i]].need <= w[ac[i]].lam
  /\ w[ac[1]].want = "m"
  /\ w[ac[2]].want = "q" /\ w[ac[2]].n >= MinQueue
  /\ w[ac[3]].want = "s" /\ w[ac[3]].n >= 1
  /\ w[ac[4]].want = "s" /\ w[ac[4]].n >= 1
  /\ op.min # NZero /\ op.tick # NZero

CanClose(w, op) ==
  LET ac == op.ac IN
  /\ Bound(w, ac) /\ Readable(w, ac) /\ Distinct(ac)
  /\ w[ac[3]].os = <<>> /\ w[ac[4]].os = <<>> /\ w[ac[2]].ev = <<>>

Disabled(a) == [own |-> a.own, lam |-> 0, t |-> "D"]

NoRes == [ok |-> FALSE, err |-> "Accounts"]
Done(w) == [ok |-> TRUE, err |-> "", w |-> w]

TickErr(w, op) ==
  LET m == w[op.ac[1]] IN ~Divides(m.tick, op.p) \/ (op.pa /\ NLt(op.p, m.tick))

(* The effect of an instruction: [ok, err] or [ok, err, w, ...].           *)
Exec(w, op, full, lo) ==
  LET ac == op.ac IN
  CASE op.op = "create" ->
         IF ~CanCreate(w, op) THEN [ok |-> FALSE, err |-> "Create"]
         ELSE Done([w EXCEPT
           ![ac[1]] = [own |-> "P", lam |-> @.lam, t |-> "M", q |-> ac[2], b |-> ac[3], a |-> ac[4],
                       min |-> op.min, tick |-> op.tick],
           ![ac[2]] = [own |-> "P", lam |-> @.lam, t |-> "E", n |-> @.n, ev |-> <<>>],
           ![ac[3]] = [own |-> "P", lam |-> @.lam, t |-> "B", n |-> @.n, os |-> <<>>],
           ![ac[4]] = [own |-> "P", lam |-> @.lam, t |-> "A", n |-> @.n, os |-> <<>>]])
    [] op.op = "close" ->
         IF ~Bound(w, ac) \/ ~Distinct(ac) THEN NoRes
         ELSE IF ~CanClose(w, op) THEN [ok |-> FALSE, err |-> "MarketStillActive"]
         ELSE LET sum == w[ac[1]].lam + w[ac[2]].lam + w[ac[3]].lam + w[ac[4]].lam
              IN Done([i \in 1..Len(w) |->
                        IF \E j \in 1..4 : i = ac[j] THEN Disabled(w[i])
                        ELSE IF i = ac[5] THEN [w[i] EXCEPT !.lam = @ + sum] ELSE w[i]])
    [] op.op = "consume" ->
         IF ~Bound(w, ac) \/ ~Readable(w, ac) THEN NoRes
         ELSE LET ev == w[ac[2]].ev
              IN Done([w EXCEPT ![ac[2]].ev =
                    IF op.n >= Len(ev) THEN <<>> ELSE SubSeq(ev, op.n + 1, Len(ev))])
    [] op.op \in {"cancel", "mass"} ->
         IF ~Bound(w, ac) \/ ~Readable(w, ac) THEN NoRes
         ELSE LET res == CancelAll(BookOf(w, ac), op.ids, NZero, NZero)
              IN IF ~res.ok THEN res
                 ELSE [ok |-> TRUE, err |-> "", posted |-> FALSE, p |-> NZero, l |-> NZero,
                       tb |-> res.tb, tq |-> res.tq, tp |-> NZero,
                       w |-> [w EXCEPT ![ac[3]].os = res.bk.B, ![ac[4]].os = res.bk.A]]
    [] op.op = "new" ->
         IF ~Bound(w, ac) \/ ~Readable(w, ac) THEN NoRes
         ELSE IF TickErr(w, op) THEN [ok |-> FALSE, err |-> "InvalidLimitPrice"]
         ELSE LET res == NewOrder(BookOf(w, ac), CapsOf(w, ac), op, full, w[ac[1]].min, Room(w, ac), lo)
              IN IF ~res.ok THEN res
                 ELSE [ok |-> TRUE, err |-> "", posted |-> res.posted, p |-> res.p, l |-> res.l,
                       tb |-> res.tb, tq |-> res.tq, tp |-> res.tp, why |-> res.why,
                       w |-> [w EXCEPT ![ac[3]].os = res.bk.B, ![ac[4]].os = res.bk.A,
                                       ![ac[2]].ev = @ \o res.evs]]
    [] OTHER -> NoRes
=============================================================================
