------------------------------- MODULE Client -------------------------------
(***************************************************************************)
(* What the TypeScript client says about a market, judged by the accounts  *)
(* of the market: w is the specification's state, e.ac the market, queue,  *)
(* bids and asks account, e the answers.                                   *)
(***************************************************************************)
EXTENDS Wasm

Ill(c, msg) == IF c THEN {<<"P22", msg>>} ELSE {}

Plain(os) == [i \in 1..Len(os) |-> [p |-> os[i].p, l |-> os[i].l, b |-> os[i].b]]
Whole(os) == [i \in 1..Len(os) |-> [p |-> os[i].p, l |-> os[i].l, b |-> os[i].b, c |-> os[i].c]]
Fills(ev) == SelectSeq(ev, LAMBDA x : x.k = "F")

SlabClauses(a, s, tag) ==
  LET os == a.os
      up == LevelsOf(os, <<>>)
      down == LevelsOf(Rev(os), <<>>)
  IN UNION {
       Ill(s.tag # tag, "the kind of a slab account"),
       Ill(s.count # Len(os), "the number of orders of a slab"),
       Ill(s.cap # a.n, "the capacity of a slab"),
       Ill(s.asc # Whole(os) \/ s.dflt # Plain(os), "iterating over a slab in ascending order"),
       Ill(s.desc # Rev(Whole(os)), "iterating over a slab in descending order"),
       Ill(s.again # s.asc, "reading a slab twice"),
       Ill(s.price # [i \in 1..Len(os) |-> os[i].p] \/ s.key # s.price, "the price of an order"),
       Ill(\E i \in 1..Len(s.top) :
             LET q == s.top[i]
             IN q.out # FirstN(IF q.max THEN Rev(Whole(os)) ELSE Whole(os), q.n), "the best orders"),
       Ill(\E i \in 1..Len(s.l2) :
             LET q == s.l2[i]
             IN q.out # FirstN(IF q.inc THEN up ELSE down, q.n), "the aggregated depth"),
       Ill(\E i \in 1..Len(s.look) :
             LET q == s.look[i]
                 k == Pos(os, q)
             IN q.out # (IF k = 0 THEN <<>> ELSE <<Plain(os)[k]>>), "looking an order up by its id")}

ClientClauses(w, e) ==
  IF ~e.ok THEN Ill(TRUE, "the client fails on an account of the program: " \o e.err)
  ELSE
  LET m == w[e.ac[1]]
      q == w[e.ac[2]]
  IN UNION {
       Ill(e.m.tag # "Market" \/ e.qtag # "EventQueue", "the kind of an account"),
       Ill(e.m.min # m.min \/ e.m.tick # m.tick, "the parameters of the market"),
       Ill(e.m.q # 1 \/ e.m.b # 2 \/ e.m.a # 3, "the accounts of the market"),
       Ill(e.qh # e.qhx, "the header of the event queue"),
       Ill(e.qcount # Len(q.ev), "the number of queued events"),
       Ill(e.ev # q.ev, "the queued events, from the oldest on"),
       Ill(e.nolimit # Fills(q.ev), "the queued fills"),
       Ill(\E i \in 1..Len(e.fill) : e.fill[i].out # Fills(FirstN(q.ev, e.fill[i].n)), "the first queued fills"),
       Ill(e.sz # e.szx, "the sizes to allocate"),
       SlabClauses(w[e.ac[3]], e.bids, "Bids"),
       SlabClauses(w[e.ac[4]], e.asks, "Asks")}
=============================================================================
