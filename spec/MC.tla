--------------------------------- MODULE MC ---------------------------------
(***************************************************************************)
(* Exhaustive exploration of one market with small numbers.                *)
(*                                                                         *)
(* States are the accounts of the market, up to renaming of the sequence   *)
(* numbers inside the order ids (Norm); in every reachable state every     *)
(* request of Ops is tried.  For each of these transitions TLC checks that *)
(* the transition function satisfies the clauses of Props (StepOk), that   *)
(* the reached state is a proper one (StateOk), and that the market can be *)
(* drained and closed from it (Drainable).                                 *)
(*                                                                         *)
(* With Dump = TRUE the complete transition table is printed, one line per *)
(* state: the driver replays all of it on the real program (Direction A),  *)
(* and uses it as the oracle for long runs.                                *)
(***************************************************************************)
EXTENDS Props, TLC, Json, IOUtils, SequencesExt

CONSTANTS Prices, Bases, Quotes, Limits, Owners, Flags, Stbs,   \* of new orders
          CapB, CapA, QCap, MinB, Tick,                         \* of the market
          Lists,       \* longest list of a mass cancel, 0: none
          Consume,     \* counts to consume, {}: the queue is emptied after each instruction
          Forget,      \* keep only the number of queued events
       Dump

FlagsAll == {<<FALSE, TRUE>>, <<FALSE, FALSE>>, <<TRUE, TRUE>>}

VARIABLE w

Big == 1000000
Ac4 == <<1, 2, 3, 4>>
Sides == {"B", "A"}

(***************************************************************************)
(* Requests.  An order to cancel is named by its side and its position in  *)
(* the side; a position beyond the end stands for any id that is not there.*)
(***************************************************************************)
NewOps == {[op |-> "new", ac |-> Ac4, s |-> s, p |-> p, mb |-> mb, mq |-> mq, ml |-> ml,
            c |-> <<o, 0>>, po |-> f[1], pa |-> f[2], stb |-> stb] :
           s \in Sides, p \in Prices, mb \in Bases, mq \in Quotes, ml \in Limits, o \in Owners,
           f \in Flags, stb \in Stbs}
Refs == {[s |-> "B", i |-> i] : i \in 1..(CapB + 1)} \cup {[s |-> "A", i |-> i] : i \in 1..(CapA + 1)}
CancelOps == {[op |-> "cancel", ac |-> Ac4, refs |-> <<x>>] : x \in Refs}
MassOps == {[op |-> "mass", ac |-> Ac4, refs |-> x] : x \in UNION {[1..n -> Refs] : n \in 0..Lists}}
ConsumeOps == {[op |-> "consume", ac |-> <<1, 2>>, n |-> n] : n \in Consume}
CloseOp == {[op |-> "close", ac |-> <<1, 2, 3, 4, 5>>]}
Ops == SetToSeq(NewOps) \o SetToSeq(CancelOps) \o (IF Lists = 0 THEN <<>> ELSE SetToSeq(MassOps))
       \o (IF Consume = {} THEN <<>> ELSE SetToSeq(ConsumeOps)) \o SetToSeq(CloseOp)

IdOf(v, x) == LET os == IF x.s = "B" THEN v[3].os ELSE v[4].os
              IN IF x.i <= Len(os) THEN [p |-> os[x.i].p, l |-> os[x.i].l]
                 ELSE [p |-> 1, l |-> LoOf(x.s, 300)]
Concrete(v, o) ==
  IF o.op \in {"cancel", "mass"} THEN [op |-> o.op, ac |-> o.ac, ids |-> [i \in 1..Len(o.refs) |-> IdOf(v, o.refs[i])]]
  ELSE o

(***************************************************************************)
(* States up to renaming                                                   *)
(***************************************************************************)
Renum(s, os) == [i \in 1..Len(os) |-> [os[i] EXCEPT !.l = LoOf(s, IF s = "A" THEN i - 1 ELSE Len(os) - i)]]
Anon(ev) == [i \in 1..Len(ev) |-> [ev[i] EXCEPT !.l = 0]]
Dummy(ev) == [i \in 1..Len(ev) |-> [k |-> "O", s |-> "B", p |-> 1, l |-> 0, b |-> 1, q |-> 0, m |-> NoCb, t |-> NoCb]]
Norm(v) == IF v[1].t = "D" THEN v
           ELSE [v EXCEPT ![3].os = Renum("B", @), ![4].os = Renum("A", @),
                          ![2].ev = IF Consume = {} THEN <<>> ELSE IF Forget THEN Dummy(@) ELSE Anon(@)]

Start == <<[own |-> "P", lam |-> 1, t |-> "M", q |-> 2, b |-> 3, a |-> 4, min |-> MinB, tick |-> Tick],
           [own |-> "P", lam |-> 1, t |-> "E", n |-> QCap, ev |-> <<>>],
           [own |-> "P", lam |-> 1, t |-> "B", n |-> CapB, os |-> <<>>],
           [own |-> "P", lam |-> 1, t |-> "A", n |-> CapA, os |-> <<>>],
           [own |-> "F", lam |-> 0, t |-> "U", want |-> "w", n |-> 0, need |-> 0]>>

Fresh(o, v) == LoOf(o.s, Len(IF o.s = "B" THEN v[3].os ELSE v[4].os))
Run(v, o) == Exec(v, Concrete(v, o), TRUE, IF o.op = "new" THEN Fresh(o, v) ELSE 0)

Init == w = Start
Next == \E i \in 1..Len(Ops) :
          /\ w[1].t = "M"
          /\ LET x == Run(w, Ops[i]) IN x.ok /\ w' = Norm(x.w)
Spec == Init /\ [][Next]_w

(***************************************************************************)
(* What is checked                                                         *)
(***************************************************************************)
SqOf(v) == [B |-> Len(v[3].os), A |-> Len(v[4].os)]
Outcome(x) ==
  IF ~x.ok THEN [k |-> "err", code |-> x.err, posted |-> FALSE, p |-> 0, l |-> 0, tb |-> 0, tq |-> 0, tp |-> 0]
  ELSE IF "posted" \in DOMAIN x
  THEN [k |-> "ok", code |-> "", posted |-> x.posted, p |-> x.p, l |-> x.l, tb |-> x.tb, tq |-> x.tq, tp |-> x.tp]
  ELSE [k |-> "ok", code |-> "", posted |-> FALSE, p |-> 0, l |-> 0, tb |-> 0, tq |-> 0, tp |-> 0]

GoodSide(s, v, n) ==
  /\ Sorted(v.os) /\ Len(v.os) <= n
  /\ \A i \in 1..Len(v.os) : /\ NLeq(MinB, v.os[i].b)
                             /\ Divides(Tick, v.os[i].p) /\ NLeq(Tick, v.os[i].p)
                             /\ LoIsBid(v.os[i].l) = (s = "B")
StateOk == w[1].t = "M" =>
  /\ GoodSide("B", w[3], CapB) /\ GoodSide("A", w[4], CapA)
  /\ ~CrossedBook(BookOf(w, Ac4))
  /\ Len(w[2].ev) <= QCap

AllRefs(v) == [i \in 1..Len(v[3].os) |-> v[3].os[i]] \o [i \in 1..Len(v[4].os) |-> v[4].os[i]]
Drainable == w[1].t = "M" =>
  LET a == Exec(w, [op |-> "mass", ac |-> Ac4, ids |-> AllRefs(w)], TRUE, 0)
      b == Exec(a.w, [op |-> "consume", ac |-> <<1, 2>>, n |-> Big], TRUE, 0)
      c == Exec(b.w, [op |-> "close", ac |-> <<1, 2, 3, 4, 5>>], TRUE, 0)
  IN a.ok /\ b.ok /\ c.ok /\ c.w[5].lam = w[1].lam + w[2].lam + w[3].lam + w[4].lam + w[5].lam

(***************************************************************************)
(* Conservation: over any instruction, per side, base at rest afterwards = *)
(* base at rest before - filled - announced out - cancelled + posted       *)
(***************************************************************************)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
AtRest(os) == Sum([i \in 1..Len(os) |-> os[i].b])
Evs(v, x) == SubSeq(x.w[2].ev, Len(v[2].ev) + 1, Len(x.w[2].ev))
Left(evs, s) == Sum([i \in 1..Len(evs) |-> IF (evs[i].k = "F" /\ evs[i].s = Opp(s)) \/ (evs[i].k = "O" /\ evs[i].s = s)
                                           THEN evs[i].b ELSE 0])
Conserved(v, o, x) ==
  x.ok /\ o.op \in {"new", "cancel", "mass"} =>
    LET evs == Evs(v, x)
        gone == AtRest(v[3].os) + AtRest(v[4].os) - AtRest(x.w[3].os) - AtRest(x.w[4].os)
    IN IF o.op = "new"
       THEN /\ AtRest(v[3].os) - Left(evs, "B") + (IF o.s = "B" THEN x.tp ELSE 0) = AtRest(x.w[3].os)
            /\ AtRest(v[4].os) - Left(evs, "A") + (IF o.s = "A" THEN x.tp ELSE 0) = AtRest(x.w[4].os)
       ELSE gone = x.tb /\ evs = <<>>

(***************************************************************************)
(* The transition table                                                    *)
(***************************************************************************)
SideKey(os) == [i \in 1..Len(os) |-> <<os[i].p, os[i].b, os[i].c[1]>>]
EvKey(ev) == [i \in 1..Len(ev) |-> <<ev[i].k, ev[i].s, ev[i].p, ev[i].b, ev[i].q, ev[i].m[1], ev[i].t[1]>>]
Key(v) == IF v[1].t = "D" THEN <<"D">> ELSE <<SideKey(v[3].os), SideKey(v[4].os), IF Forget THEN Len(v[2].ev) ELSE EvKey(v[2].ev)>>
\* a new event, its order named by its position
NewEv(v, e) == <<e.k, e.s, Pos(IF (e.k = "F") = (e.s = "A") THEN v[3].os ELSE v[4].os, e), e.b, e.q, e.m[1], e.t[1]>>
Res(v, o, x, d) ==
  IF ~x.ok THEN <<x.err>>
  ELSE LET evs == IF o.op = "new" THEN Evs(v, x) ELSE <<>>
       IN <<"ok", IF d.posted THEN 1 ELSE 0, d.tb, d.tq, d.tp, [i \in 1..Len(evs) |-> NewEv(v, evs[i])], Key(Norm(x.w))>>

Judge(v, i) ==
  LET o == Concrete(v, Ops[i])
      x == TLCEval(Run(v, Ops[i]))
      d == Outcome(x)
      bad == Clauses(v, o, TRUE, SqOf(v), d, IF x.ok THEN x.w ELSE v)
      good == bad = {} /\ Conserved(v, o, x)
  IN IF good THEN IF Dump THEN Res(v, o, x, d) ELSE <<>>
     ELSE IF PrintT(<<"BAD", v, o, x, bad>>) THEN <<"BAD">> ELSE <<>>

Head1 == PrintT(ToJson([head |-> [ops |-> Ops, capb |-> CapB, capa |-> CapA, qcap |-> QCap, min |-> MinB,
                                  tick |-> Tick, fp |-> FP, drain |-> (Consume = {}), forget |-> Forget]]))
Table(rs) ==
  LET dist == TLCEval(SetToSeq({rs[i] : i \in 1..Len(Ops)}))
      ix(r) == CHOOSE k \in 1..Len(dist) : dist[k] = r
  IN PrintT(ToJson([key |-> Key(w), dist |-> dist, res |-> [i \in 1..Len(Ops) |-> ix(rs[i]) - 1]]))

\* every request in the state w, by the clauses; and the table line of w
StepsOk == w[1].t = "M" =>
  LET rs == TLCEval([i \in 1..Len(Ops) |-> Judge(w, i)])
  IN /\ \A i \in 1..Len(Ops) : rs[i] # <<"BAD">>
     /\ Dump => (w = Start => Head1) /\ Table(rs)
=============================================================================
