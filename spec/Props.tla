------------------------------- MODULE Props -------------------------------
(***************************************************************************)
(* The properties, as clauses over one instruction: the accounts before    *)
(* it, the request, its outcome and the accounts after it.  A clause that  *)
(* does not hold yields <<property, what is wrong>>; an outcome is allowed *)
(* iff no clause yields anything.  The clauses do not use the transition   *)
(* function (Exec): the model configurations check exhaustively that every *)
(* transition of the specification satisfies them, the trace configuration *)
(* evaluates them on what the program really did.                          *)
(*                                                                         *)
(* An outcome r is [k, code, posted, p, l, tb, tq, tp]: k = "ok", "err"    *)
(* with error code, "panic", "hang" or "runtime" (the runtime refused the  *)
(* effect); the rest is the order summary.                                 *)
(***************************************************************************)
EXTENDS AOB

Bad(c, ps, msg) == IF c THEN {<<p, msg>> : p \in ps} ELSE {}

(***************************************************************************)
(* New order: walk along the events it produced, keeping what is left of   *)
(* the other side and of the order's caps.  Each event must be the one the *)
(* properties require at that point; a deviating event is reported and     *)
(* followed, so that later ones are judged on their own.                   *)
(* st = [opp (best first), rb, rq, n (orders consumed), outs, bad]         *)
(***************************************************************************)
RECURSIVE Walk(_, _, _, _, _, _, _)
Walk(x, evs, i, st, own, full, min) ==
  IF i > Len(evs) THEN st
  ELSE
  LET e == evs[i]
      k == Pos(st.opp, e)
  IN
  IF e.k = "F" THEN
    IF k = 0 THEN Walk(x, evs, i + 1, [st EXCEPT !.bad = @ \cup
         Bad(TRUE, {"P02", "P06", "P08"}, "fill names an order which does not rest on the other side")],
         own, full, min)
    ELSE
    LET m  == st.opp[k]
        ob == NSub(m.b, e.b)
        dust == NLt(ob, min)
        next == IF i < Len(evs) THEN evs[i + 1] ELSE e
        outNext == next.k = "O" /\ SameId(next, m)
        bad ==
          Bad(k # 1, {"P02"}, "fill passes over a better or older order")
          \cup Bad(e.s # x.s, {"P06"}, "fill names the wrong taker side")
          \cup Bad(e.m # m.c, {"P06", "P07"}, "fill carries a wrong maker callback info")
          \cup Bad(e.t # x.c, {"P06", "P07"}, "fill carries a wrong taker callback info")
          \cup Bad(st.n >= x.ml, {"P11"}, "matched more orders than the match limit")
          \cup Bad(x.po, {"P10"}, "post-only order traded")
          \cup Bad(~Crosses(x.s, x.p, m.p), {"P03"}, "fill at a price worse than the limit")
          \cup Bad(e.b = NZero \/ e.q = NZero, {"P01"}, "fill of a zero amount")
          \cup Bad(NLt(m.b, e.b), {"P01"}, "fill exceeds what was left of the resting order")
          \cup Bad(NLt(st.rb, e.b), {"P01"}, "fills exceed the base cap")
          \cup Bad(NLt(st.rq, e.q), {"P01"}, "fills exceed the quote cap")
          \cup Bad(e.b # TradeBase(m, st.rb, st.rq), {"P02"}, "fill is not for the largest amount possible")
          \cup Bad(e.q # TradeQuote(x.s, e.b, m.p, st.rq), {"P03"},
                   "fill quote is not base times the resting price rounded against the taker")
          \cup Bad(x.stb # "D" /\ IsSelf(full, x.c, m.c), {"P09"}, "traded with its own order")
          \cup Bad(dust /\ ~outNext, {"P06"}, "order left below the minimum size without out event")
          \cup Bad(dust /\ outNext /\ (next.b # ob \/ next.m # m.c \/ next.s # Opp(x.s)), {"P06", "P07"},
                   "out event of an order left below the minimum size is not exact")
        st2 == [st EXCEPT !.opp = IF dust THEN DropAt(@, k) ELSE [@ EXCEPT ![k].b = ob],
                          !.rb = NSub(@, e.b), !.rq = NSub(@, e.q), !.n = @ + 1, !.bad = @ \cup bad]
    IN Walk(x, evs, IF dust /\ outNext THEN i + 2 ELSE i + 1, st2, own, full, min)
  ELSE IF k = 0 THEN       \* an out event of the order's own side
    Walk(x, evs, i + 1, [st EXCEPT !.outs = Append(@, e), !.bad = @ \cup
         Bad(e.s # x.s, {"P06"}, "out event names an order which does not rest")
         \cup Bad(i # Len(evs), {"P06", "P12"}, "out event of the own side is not the last event")],
         own, full, min)
  ELSE                     \* an out event of the other side, not after a fill: self-trade
    LET m == st.opp[k]
        b == TradeBase(m, st.rb, st.rq)
        bad ==
          Bad(e.s # Opp(x.s), {"P06"}, "out event names the wrong side")
          \cup Bad(x.stb # "C" \/ ~IsSelf(full, x.c, m.c), {"P06", "P09"}, "resting order removed without cause")
          \cup Bad(e.b # m.b, {"P06", "P09"}, "out event does not carry all that was left")
          \cup Bad(e.m # m.c, {"P06", "P07"}, "out event carries a wrong callback info")
          \cup Bad(k # 1, {"P02", "P09"}, "self-trade cancel passes over a better or older order")
          \cup Bad(st.n >= x.ml, {"P11"}, "matched more orders than the match limit")
          \cup Bad(x.po, {"P10"}, "post-only order cancelled a resting order")
          \cup Bad(~Crosses(x.s, x.p, m.p), {"P09"}, "self-trade cancel of an order that was not met")
          \cup Bad(Crosses(x.s, x.p, m.p) /\ (b = NZero \/ TradeQuote(x.s, b, m.p, st.rq) = NZero),
                   {"P02", "P09"}, "self-trade cancel although nothing could be traded")
    IN Walk(x, evs, i + 1, [st EXCEPT !.opp = DropAt(@, k), !.n = @ + 1, !.bad = @ \cup bad], own, full, min)

CanGoOn(x, st) ==
  /\ st.n < x.ml /\ st.opp # <<>> /\ ~x.po
  /\ LET m == Head(st.opp)
         b == TradeBase(m, st.rb, st.rq)
     IN Crosses(x.s, x.p, m.p) /\ b # NZero /\ TradeQuote(x.s, b, m.p, st.rq) # NZero

Ids(os) == [i \in 1..Len(os) |-> [p |-> os[i].p, l |-> os[i].l]]

\* the stored orders of a side against what they should be
BookClause(exp, got, ps, msg) ==
  IF exp = got THEN {}
  ELSE Bad(Ids(exp) = Ids(got) /\ \E i \in 1..Len(exp) : exp[i].b # got[i].b, {"P01", "P06", "P08"} \cup ps,
           msg \o ": a remaining size is wrong")
       \cup Bad(Ids(exp) = Ids(got) /\ \E i \in 1..Len(exp) : exp[i].c # got[i].c, {"P08"} \cup ps,
           msg \o ": a callback info is wrong")
       \cup Bad(Ids(exp) # Ids(got), {"P06", "P08"} \cup ps, msg \o ": an order is missing, added or out of order")

CrossedBook(bk) ==
  Len(bk.B) > 0 /\ Len(bk.A) > 0 /\ NLeq(bk.A[1].p, bk.B[Len(bk.B)].p)

(* A new order that succeeded.  bk, bk2 the book before and after, evs the *)
(* events it appended, sq the least unused sequence number per side.       *)
NewOrderClauses(bk, caps, x, full, min, sq, evs, r, bk2) ==
  LET o   == Opp(x.s)
      own == bk[x.s]
      st  == Walk(x, evs, 1, [opp |-> Prio(o, bk[o]), rb |-> x.mb, rq |-> x.mq, n |-> 0,
                              outs |-> <<>>, bad |-> {}], own, full, min)
      meets == st.opp # <<>> /\ Crosses(x.s, x.p, Head(st.opp).p)
      spent == st.n >= x.ml
      qty  == PostQty(st.rb, st.rq, x.p)
      isFull == Len(own) >= caps[x.s]
      wi   == IF x.s = "B" THEN 1 ELSE Len(own)
      evict == isFull /\ Len(own) > 0 /\ Worse(x.s, own[wi].p, x.p)
      want == x.pa /\ ~spent /\ ~meets /\ NLeq(min, qty)
      rest == want /\ (~isFull \/ evict)
      out  == r.posted /\ isFull /\ evict
      new  == [p |-> r.p, l |-> r.l, b |-> qty, c |-> x.c]
      own1 == IF out THEN DropAt(own, wi) ELSE own
      own2 == IF r.posted THEN Insert(own1, new) ELSE own1
      at   == Pos(bk2[x.s], new)
      tp   == IF r.posted THEN qty ELSE NZero
      tb   == NAdd(NSub(x.mb, st.rb), tp)
      tq   == NAdd(NSub(x.mq, st.rq), IF r.posted THEN Value(x.s, qty, x.p) ELSE NZero)
  IN st.bad
     \cup Bad(CanGoOn(x, st), {"P02", "P11"}, "stopped although the next order could still be matched")
     \cup Bad(CanGoOn(x, st) /\ IsSelf(full, x.c, Head(st.opp).c), {"P09"}, "stopped at its own order")
     \cup Bad(r.posted /\ meets, {"P04", "P10"}, "posted although it crosses the other side")
     \cup Bad(r.posted /\ spent, {"P11"}, "posted although its match limit was spent")
     \cup Bad(r.posted /\ ~x.pa, {"P10"}, "posted although posting was not allowed")
     \cup Bad(r.posted /\ NLt(qty, min), {"P10"}, "posted below the minimum size")
     \cup Bad(r.posted /\ isFull /\ ~evict, {"P12"}, "posted on a full side without being better than its worst order")
     \cup Bad(~r.posted /\ rest, {"P10", "P12"}, "not posted although it should rest")
     \cup Bad(out /\ st.outs # <<Out(x.s, own[wi])>>, {"P06", "P12"}, "eviction is not announced by exactly its out event")
     \cup Bad(~out /\ st.outs # <<>>, {"P06", "P12"}, "out event without eviction")
     \cup Bad(r.posted /\ r.tp # qty, {"P01", "P10"}, "posted amount is not the largest the caps allow")
     \cup Bad(~r.posted /\ r.tp # NZero, {"P01"}, "posted amount reported for an order that did not rest")
     \cup Bad(r.tb # tb, {"P01"}, "summary base is not the sum of fills and posted amount")
     \cup Bad(r.tq # tq, {"P01"}, "summary quote is not the sum of fills and posted value")
     \cup Bad(NLt(x.mb, r.tb) \/ NLt(x.mq, r.tq), {"P01"}, "summary exceeds the caps")
     \cup Bad(r.posted /\ r.p # x.p, {"P05"}, "id does not encode the limit price")
     \cup Bad(r.posted /\ LoIsBid(r.l) # (x.s = "B"), {"P05"}, "id does not encode the side")
     \cup Bad(r.posted /\ NLt(SeqNo(x.s, r.l), sq[x.s]), {"P05"}, "id is not newer than all ids of this side")
     \cup BookClause(Unprio(o, st.opp), bk2[o], {}, "other side after the order")
     \cup BookClause(own2, bk2[x.s],
            (IF isFull THEN {"P12"} ELSE {}) \cup
            (IF r.posted /\ (at = 0 \/ bk2[x.s][at] # new) THEN {"P10"} ELSE {}), "own side after the order")
     \cup Bad(CrossedBook(bk2) /\ ~CrossedBook(bk), {"P04"}, "the book is crossed")

(***************************************************************************)
(* Whole instructions                                                      *)
(***************************************************************************)
MayChange(op) ==
  CASE op.op \in {"new", "cancel", "mass"} -> {op.ac[2], op.ac[3], op.ac[4]}
    [] op.op = "consume" -> {op.ac[2]}
    [] op.op = "create" -> {op.ac[1], op.ac[2], op.ac[3], op.ac[4]}
    [] op.op = "close" -> {op.ac[i] : i \in 1..5}
    [] OTHER -> {}

\* the property about the operation itself
Own(op) == CASE op.op = "new" -> "P02" [] op.op = "cancel" -> "P13" [] op.op = "mass" -> "P14"
             [] op.op = "consume" -> "P07" [] OTHER -> "P16"

\* every account that is a slab is sorted and readable
ShapeClauses(w2, is) ==
  UNION {IF w2[i].t \in {"A", "B"}
         THEN Bad(~Sorted(w2[i].os), {"P08", "P05"}, "orders are not stored in strict priority order")
              \cup Bad(\E k \in 1..Len(w2[i].os) : w2[i].os[k].c[1] < 0, {"P08", "P06"},
                       "a resting order's callback info is not one that was submitted")
         ELSE {} : i \in is}

Prefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s

(* Clauses for an instruction that succeeded                               *)
OkClauses(w, op, full, sq, r, w2) ==
  LET ac == op.ac
      others == {i \in 1..Len(w) : i \notin MayChange(op)}
      frame == Bad(\E i \in others : w2[i] # w[i], {"P15"} \cup (IF op.op = "consume" THEN {"P07"} ELSE {}),
                   "an account the instruction has no business with changed")
      lamp  == Bad(op.op # "close" /\ \E i \in 1..Len(w) : w2[i].lam # w[i].lam, {"P15", "P16"}, "lamports moved")
  IN
  IF op.op \in {"new", "cancel", "mass", "consume", "close"} /\ ~Bound(w, ac)
  THEN Bad(TRUE, {"P15"} \cup (IF op.op = "close" THEN {"P16"} ELSE {}),
           "succeeded on accounts that are not a live market's own")
  ELSE IF op.op # "create" /\ ~Readable(w, ac) THEN {}
  ELSE IF op.op \in {"new", "cancel", "mass"} /\
          (w2[ac[2]].t # "E" \/ w2[ac[3]].t # "B" \/ w2[ac[4]].t # "A")
  THEN Bad(TRUE, {"P08", "P18", Own(op)}, "an account of the market is not readable any more")
  ELSE
  CASE op.op = "new" ->
         LET ev == w[ac[2]].ev
             ev2 == w2[ac[2]].ev
             pre == Prefix(ev, ev2)
             new == IF pre THEN SubSeq(ev2, Len(ev) + 1, Len(ev2)) ELSE <<>>
         IN frame \cup lamp \cup ShapeClauses(w2, {ac[3], ac[4]})
            \cup Bad(~pre, {"P07", "P19"}, "queued events changed")
            \cup Bad(Len(ev2) > w[ac[2]].n, {"P19"}, "queue holds more than its capacity")
            \cup Bad(TickErr(w, op), {"P10"}, "accepted a price that is not on a tick")
            \cup (IF pre /\ ~TickErr(w, op)
                  THEN NewOrderClauses(BookOf(w, ac), CapsOf(w, ac), op, full, w[ac[1]].min, sq, new, r, BookOf(w2, ac))
                  ELSE {})
    [] op.op \in {"cancel", "mass"} ->
         LET res == CancelAll(BookOf(w, ac), op.ids, NZero, NZero)
             me == {Own(op)}
         IN frame \cup lamp \cup ShapeClauses(w2, {ac[3], ac[4]})
            \cup Bad(w2[ac[2]].ev # w[ac[2]].ev, me \cup {"P07", "P06"}, "cancelling touched the event queue")
            \cup (IF ~res.ok /\ res.err = "Overflow" THEN Bad(TRUE, me, "reported sums that do not fit 64 bits")
                  ELSE IF ~res.ok THEN Bad(TRUE, me \cup {"P08"}, "cancelled an order that does not rest")
                  ELSE BookClause(res.bk.B, w2[ac[3]].os, me, "bids after cancelling")
                       \cup BookClause(res.bk.A, w2[ac[4]].os, me, "asks after cancelling")
                       \cup Bad(r.tb # res.tb, me, "reported base is not what was left")
                       \cup Bad(r.tq # res.tq, me, "reported quote is not the value of what was left")
                       \cup Bad(r.posted \/ r.tp # NZero, me, "cancelling reports a posted order"))
    [] op.op = "consume" ->
         frame \cup lamp
         \cup (IF w2[ac[2]].t # "E" THEN Bad(TRUE, {"P07"}, "the queue is not readable any more")
               ELSE LET ev == w[ac[2]].ev IN
                 Bad(w2[ac[2]].ev # (IF op.n >= Len(ev) THEN <<>> ELSE SubSeq(ev, op.n + 1, Len(ev))),
                     {"P07"}, "consuming did not remove exactly the oldest events"))
    [] op.op = "create" ->
         LET good == CanCreate(w, op)
             e == Exec(w, op, full, NZero)
         IN Bad(~good, {"P16"}, "created a market on unfit accounts or parameters")
            \cup (IF ~good THEN {} ELSE
                  frame \cup lamp
                  \cup Bad(\E i \in MayChange(op) : w2[i] # e.w[i], {"P16"}, "the created market is not empty and as requested"))
    [] op.op = "close" ->
         LET sum == w[ac[1]].lam + w[ac[2]].lam + w[ac[3]].lam + w[ac[4]].lam
         IN Bad(\E i \in others : w2[i] # w[i], {"P15", "P16"}, "an account the instruction has no business with changed")
            \cup Bad(~CanClose(w, op), {"P16"}, "closed a market that still has orders or events")
            \cup Bad(\E i \in 1..4 : w2[ac[i]] # Disabled(w[ac[i]]), {"P16"}, "a closed market's account is not disabled and empty")
            \cup (IF ac[5] \in {ac[i] : i \in 1..4} THEN {}
                  ELSE Bad(w2[ac[5]] # [w[ac[5]] EXCEPT !.lam = @ + sum], {"P16"},
                           "the target did not get exactly the accounts' lamports"))
    [] OTHER -> {}

(* Clauses for an instruction that was refused; x is what the              *)
(* specification's transition function says about the request.             *)
\* accounts whose owner the program itself must check; the runtime refuses to let it write to the other ones
OwnChecks(op) == CASE op.op = "create" -> {op.ac[2], op.ac[3], op.ac[4]}
                   [] op.op = "close" -> {op.ac[1]}
                   [] OTHER -> {op.ac[i] : i \in 1..Len(op.ac)}
RefusedClauses(w, op, x, r) ==
  LET dirty == r.k # "err" IN
  IF x.ok THEN
    LET me == CASE op.op # "new" -> {Own(op), "P18"}
                [] r.code = "EventQueueFull" -> {"P19", "P18"}
                [] r.code = "WouldSelfTrade" -> {"P09", "P18"}
                [] r.code = "InvalidLimitPrice" -> {"P10", "P18"}
                [] r.code = "SlabOutOfSpace" -> {"P12", "P18"}
                [] OTHER -> {"P18", "P08"} \cup (IF x.posted THEN {"P12"} ELSE {})
    IN Bad(TRUE, me \cup (IF op.op \in {"cancel", "mass"} THEN {"P08"} ELSE {}), "refused a valid request")
  ELSE CASE x.err \in {"Accounts", "Create"} ->
              Bad(r.k = "hang", {"P18"}, "hangs")
              \cup Bad(r.k = "runtime" /\ \E i \in OwnChecks(op) : ~IsProg(w, i),
                       IF op.op = "create" THEN {"P16"} ELSE IF op.op = "close" THEN {"P15", "P16"} ELSE {"P15"},
                       "the program accepted a foreign account, only the runtime stopped it")
         [] x.err = "Overflow" ->
              Bad(dirty, {"P14", "P18"}, "crashes instead of refusing sums that do not fit 64 bits")
         [] x.err = "MarketStillActive" ->
              Bad(dirty, {"P16", "P18"}, "crashes instead of refusing to close")
         [] x.err = "OrderNotFound" ->
              Bad(dirty, {Own(op), "P18", "P08"}, "crashes instead of reporting that the order is not found")
              \cup Bad(~dirty /\ r.code # "OrderNotFound", {Own(op)}, "refused with another error than order-not-found")
         [] x.err = "WouldSelfTrade" ->
              Bad(dirty, {"P09", "P18"}, "crashes instead of refusing a self trade")
              \cup Bad(~dirty /\ r.code # "WouldSelfTrade", {"P09"} \cup (IF r.code = "EventQueueFull" THEN {"P19"} ELSE {}),
                       "refused with another error than self-trade")
         [] x.err = "EventQueueFull" ->
              Bad(dirty, {"P19", "P18"}, "crashes instead of refusing for lack of room in the event queue")
              \cup Bad(~dirty /\ r.code # "EventQueueFull", {"P19"} \cup (IF r.code = "WouldSelfTrade" THEN {"P09"} ELSE {}),
                       "refused with another error than event-queue-full")
         [] x.err = "InvalidLimitPrice" ->
              Bad(dirty, {"P10", "P18"}, "crashes instead of refusing an off-tick price")
         [] OTHER -> {}

(* an outcome that should have been a refusal, by reason                   *)
ShouldRefuse(op, x) ==
  CASE x.err = "WouldSelfTrade" -> {"P09"}
    [] x.err = "EventQueueFull" -> {"P19", "P07"}
    [] x.err = "InvalidLimitPrice" -> {"P10"}
    [] OTHER -> {}     \* reported by OkClauses

Clauses(w, op, full, sq, r, w2) ==
  LET lo == IF r.k = "ok" THEN r.l ELSE NZero
      x  == Exec(w, op, full, lo)
  IN IF r.k = "ok"
     THEN OkClauses(w, op, full, sq, r, w2)
          \cup (IF x.ok THEN {} ELSE Bad(TRUE, ShouldRefuse(op, x), "accepted a request that must be refused"))
     ELSE RefusedClauses(w, op, x, r)

\* does the outcome coincide with the transition function?
Agrees(w, op, full, r, w2) ==
  LET x == Exec(w, op, full, IF r.k = "ok" THEN r.l ELSE NZero)
  IN IF r.k # "ok" THEN ~x.ok
     ELSE /\ x.ok /\ x.w = w2
          /\ op.op \in {"new", "cancel", "mass"} =>
               /\ x.posted = r.posted /\ x.tb = r.tb /\ x.tq = r.tq /\ x.tp = r.tp
               /\ x.posted => x.p = r.p /\ x.l = r.l

(***************************************************************************)
(* Read-only helpers: what they return against the stored content          *)
(***************************************************************************)
BestPrice(s, os) == IF os = <<>> THEN <<>> ELSE <<Prio(s, os)[1].p>>
ReadClauses(w, op) ==
  LET bk == BookOf(w, op.ac)
      ev == w[op.ac[2]].ev
      o2(os) == [i \in 1..Len(os) |-> [p |-> os[i].p, l |-> os[i].l, b |-> os[i].b]]
      all(os) == {[p |-> os[i].p, l |-> os[i].l] : i \in 1..Len(os)}
  IN UNION {
       Bad(op.sb # BestPrice("B", bk.B) \/ op.sa # BestPrice("A", bk.A), {"P21", "P08"}, "spread"),
       Bad(op.bb # BestPrice("B", bk.B) \/ op.ba # BestPrice("A", bk.A), {"P21", "P08"}, "best orders of the slabs"),
       Bad(op.wb # BestPrice("A", bk.B) \/ op.wa # BestPrice("B", bk.A), {"P21", "P08"}, "worst orders of the slabs"),
       Bad(op.asc # o2(bk.B) \/ op.asc2 # o2(bk.A), {"P21", "P08"}, "ascending iteration"),
       Bad(op.desc # Rev(o2(bk.B)) \/ op.desc2 # Rev(o2(bk.A)), {"P21", "P08"}, "descending iteration"),
       Bad(op.peek # ev \/ op.over # 0, {"P21", "P07"}, "peeking at the event queue"),
       Bad(op.len # Len(ev) \/ op.empty # (ev = <<>>), {"P21", "P07"}, "length of the event queue"),
       Bad(\E i \in 1..Len(op.look) :
             LET q == op.look[i]
                 os == bk[q.s]
                 k == Pos(os, q)
             IN q.found # (k # 0) \/ (k # 0 /\ (q.b # os[k].b \/ q.c # os[k].c)), {"P21", "P08"}, "lookup by id"),
       Bad(\E i \in 1..Len(op.sides) : op.sides[i].s # op.sides[i].t, {"P21", "P05"}, "side read from an id")}

RoundClauses(op) ==
  LET f == FloorTo(op.tick, op.p)
      c == CeilTo(op.tick, op.p)
  IN IF op.s = "B" THEN Bad(~op.ok \/ op.out # f, {"P21"}, "price rounded down to the tick")
     ELSE Bad(NFits64(c) /\ (~op.ok \/ op.out # c), {"P21"}, "price rounded up to the tick")
=============================================================================
