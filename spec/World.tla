------------------------------- MODULE World --------------------------------
(***************************************************************************)
(* Several markets over one set of accounts, exhaustively: which accounts  *)
(* may become a market, which combinations of accounts an instruction may  *)
(* succeed on, and what it may touch.                                      *)
(*                                                                         *)
(* Accounts: 1, 2 markets; 3, 4 event queues; 5..8 slabs; 9, 10, 11 copies *)
(* of 1, 3, 5 with the same bytes that belong to another program; 12 a     *)
(* slab which is not rent exempt; 13 a queue too small; 14 a wallet.       *)
(* Closed accounts are swept by the runtime and may be funded again        *)
(* (Recycle).  Every slab has room for one order, prices and sizes are the *)
(* least that give orders on either side and events.                       *)
(*                                                                         *)
(* In every reachable state the instructions of Ops are tried on every     *)
(* tuple of accounts of their universe; the accepted tuples are printed    *)
(* with the state they lead to, for the driver to compare with the program.*)
(***************************************************************************)
EXTENDS Props, TLC, Json, SequencesExt, FiniteSetsExt

CONSTANTS Contents,     \* at most that many markets have orders or events
          Creations,    \* at most that many markets are ever created
          Dump

VARIABLES w, made

NAcc == 14
Quad == 1..11
Cand == 1..13
Twin == <<1, 2, 3, 4, 5, 6, 7, 8, 1, 3, 5>>
Lam == 10
WantOf(i) == IF i \in {1, 2} THEN "m" ELSE IF i \in {3, 4, 13} THEN "q" ELSE IF i = 14 THEN "w" ELSE "s"
SizeOf(i) == CASE WantOf(i) = "s" -> 1 [] i = 13 -> MinQueue - 1 [] WantOf(i) = "q" -> MinQueue [] OTHER -> 0
Raw(i) == [own |-> IF i \in {9, 10, 11, 14} THEN "F" ELSE "P", lam |-> IF i = 12 THEN Lam - 1 ELSE Lam, t |-> "U",
           want |-> IF i \in 9..11 THEN WantOf(Twin[i]) ELSE WantOf(i), n |-> IF i \in 9..11 THEN SizeOf(Twin[i]) ELSE SizeOf(i), need |-> Lam]

\* the copies follow their originals
Sync(v) == [i \in 1..NAcc |-> IF i \in 9..11 THEN [v[Twin[i]] EXCEPT !.own = "F", !.lam = v[i].lam] ELSE v[i]]

New(s, p, pa) == [op |-> "new", s |-> s, p |-> p, mb |-> 1, mq |-> 99, ml |-> 1, c |-> <<1, 0>>, po |-> FALSE, pa |-> pa, stb |-> "D"]
\* the instructions, without their accounts
Ops == <<New("B", 1, TRUE), New("A", 2, TRUE), New("A", 1, FALSE),
         [op |-> "cancel"], [op |-> "mass"],
         [op |-> "consume", n |-> 1], [op |-> "consume", n |-> 99],
         [op |-> "create", min |-> 1, tick |-> 1], [op |-> "create", min |-> 0, tick |-> 1], [op |-> "create", min |-> 1, tick |-> 0],
         [op |-> "close"]>>

Bogus == <<[p |-> 1, l |-> LoOf("B", 300)]>>
IdsOf(os) == [i \in 1..Len(os) |-> [p |-> os[i].p, l |-> os[i].l]]
\* cancels name orders of the market that is passed
Concrete(v, o, ac) ==
  LET at == v[ac[1]]
      f == [ac |-> ac] @@ o
  IN CASE o.op = "cancel" ->
            [ids |-> IF at.t # "M" THEN Bogus ELSE IF v[at.b].os # <<>> THEN IdsOf(v[at.b].os) ELSE Bogus] @@ f
       [] o.op = "mass" ->
            [ids |-> IF at.t # "M" THEN <<>> ELSE IdsOf(v[at.b].os) \o IdsOf(v[at.a].os)] @@ f
       [] OTHER -> f

Norm(v) == Sync([i \in 1..NAcc |->
  CASE v[i].t = "E" -> [v[i] EXCEPT !.ev = [k \in 1..Len(@) |-> [k |-> "O", s |-> "B", p |-> 1, l |-> 0, b |-> 1, q |-> 0, m |-> NoCb, t |-> NoCb]]]
    [] OTHER -> v[i]])
Run(v, o, ac) ==
  LET c == Concrete(v, o, ac)
  IN Exec(v, c, TRUE, IF o.op = "new" THEN LoOf(o.s, 0) ELSE 0)

\* the tuples worth a try (Closed: no other one is accepted)
Are(v, S, t) == {i \in S : v[i].t = t}
Tuples(v, o) ==
  LET m == Are(v, Quad, "M")  q == Are(v, Quad, "E")  b == Are(v, Quad, "B")  a == Are(v, Quad, "A")
      u(x) == {i \in Cand : v[i].t = "U" /\ v[i].want = x}
  IN CASE o.op = "consume" -> m \X q
       [] o.op = "create" -> u("m") \X u("q") \X u("s") \X u("s")
       [] o.op = "close" -> m \X q \X b \X a \X (1..NAcc)
       [] OTHER -> m \X q \X b \X a
Accepted(v, o) == {ac \in Tuples(v, o) : Run(v, o, ac).ok}

Busy(v) == Cardinality({m \in {1, 2} : v[m].t = "M" /\ (v[v[m].q].ev # <<>> \/ v[v[m].b].os # <<>> \/ v[v[m].a].os # <<>>)})

Init == w = Sync([i \in 1..NAcc |-> Raw(i)]) /\ made = 0
\* of the accounts not used yet, the program cannot tell one from the other: only the first ones become a market
Least(S, n) == {x \in S : Cardinality({y \in S : y < x}) < n}
Canon(v, o, ac) ==
  IF o.op # "create" THEN TRUE
  ELSE {ac[3], ac[4]} = Least({i \in 5..8 : v[i].t = "U"}, 2) /\ (ac[3] < ac[4] \/ ac[1] = 1)
Do == \E i \in 1..Len(Ops) : \E ac \in Accepted(w, Ops[i]) :
        LET o == Ops[i]
            v == Norm(Run(w, o, ac).w)
        IN /\ Canon(w, o, ac) /\ (IF o.op = "close" THEN ac[5] = 14 ELSE TRUE)
           /\ Busy(v) <= Contents
           /\ o.op = "create" => made < Creations
           /\ made' = IF o.op = "create" THEN made + 1 ELSE made
           /\ w' = v
\* the runtime forgets an account without lamports; someone funds and allocates it again
Recycle == \E i \in 1..8 :
        /\ w[i].t = "D" /\ w[i].lam = 0 /\ made < Creations
        /\ w' = Sync([w EXCEPT ![i] = Raw(i)])
        /\ UNCHANGED made
Spec == Init /\ [][Do \/ Recycle]_<<w, made>>
\* lamports of the wallet do not matter
View == <<[i \in 1..8 |-> w[i]], made>>

(***************************************************************************)
(* What is checked                                                         *)
(***************************************************************************)
Live == {m \in {1, 2} : w[m].t = "M"}
Parts(m) == {m, w[m].q, w[m].b, w[m].a}
\* live markets share nothing, and what they are bound to is theirs, in its role
Exclusive ==
  /\ \A m, n \in Live : m # n => Parts(m) \cap Parts(n) = {}
  /\ \A m \in Live : /\ Cardinality(Parts(m)) = 4
                     /\ w[w[m].q].t = "E" /\ w[w[m].b].t = "B" /\ w[w[m].a].t = "A"
                     /\ \A i \in Parts(m) : w[i].own = "P"
  \* a queue or slab in use belongs to a live market
  /\ \A i \in 1..8 : w[i].t \in {"E", "B", "A"} => \E m \in Live : i \in Parts(m)
\* a copy, the poor slab and the small queue never become part of a market
Misfits == \A i \in 12..14 : w[i].t = "U"
RECURSIVE LamSum(_, _)
LamSum(v, i) == IF i = 0 THEN 0 ELSE v[i].lam + LamSum(v, i - 1)

Outcome(x) ==
  IF "posted" \in DOMAIN x
  THEN [k |-> "ok", code |-> "", posted |-> x.posted, p |-> x.p, l |-> x.l, tb |-> x.tb, tq |-> x.tq, tp |-> x.tp]
  ELSE [k |-> "ok", code |-> "", posted |-> FALSE, p |-> 0, l |-> 0, tb |-> 0, tq |-> 0, tp |-> 0]
\* an accepted instruction satisfies the clauses, touches no other market, and keeps the lamports
Good(v, o, ac) ==
  LET x == Run(v, o, ac)
      bad == Clauses(v, Concrete(v, o, ac), TRUE, [B |-> 0, A |-> 0], Outcome(x), x.w)
      mine == IF v[ac[1]].t = "M" THEN {ac[i] : i \in 1..Len(ac)} ELSE {ac[i] : i \in 1..4}
  IN /\ bad = {} \/ PrintT(<<"BAD", v, o, ac, bad>>) = FALSE
     /\ \A i \in 1..NAcc : x.w[i] # v[i] => i \in mine
     /\ LamSum(x.w, NAcc) = LamSum(v, NAcc)

AccKey(a) == CASE a.t = "M" -> <<"M", a.q, a.b, a.a>>
               [] a.t = "E" -> <<"E", Len(a.ev)>>
               [] a.t \in {"A", "B"} -> <<a.t, Len(a.os)>>
               [] a.t = "D" -> IF a.lam = 0 THEN <<"D">> ELSE <<"D", "+">>
               [] OTHER -> <<a.t>>
Key(v) == [i \in 1..8 |-> AccKey(v[i])]
Line(v) == [key |-> Key(v), acc |->
  [i \in 1..Len(Ops) |-> SetToSeq({<<ac, Key(Norm(Run(v, Ops[i], ac).w))>> : ac \in Accepted(v, Ops[i])})]]

StepsOk == /\ \A i \in 1..Len(Ops) : \A ac \in Accepted(w, Ops[i]) : Good(w, Ops[i], ac)
           /\ Dump => PrintT(ToJson(Line(w)))
\* on every tuple the program may be given (not only those with a likely first account) the specification says no
Closed == made = 1 => \A i \in {1, 7, 8, 11} :
            \A ac \in Cand \X {1, 3, 4, 10, 13} \X {5, 6, 7, 11} \X {5, 6, 8, 11, 12} \X {5, 14} :
              LET t == SubSeq(ac, 1, CASE Ops[i].op = "close" -> 5 [] Ops[i].op = "consume" -> 2 [] OTHER -> 4)
              IN Run(w, Ops[i], t).ok => t \in Accepted(w, Ops[i])
=============================================================================
