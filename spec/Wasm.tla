-------------------------------- MODULE Wasm --------------------------------
(***************************************************************************)
(* Recorded answers of the wasm readers: a record has the orders of the    *)
(* serialized book in ascending order of id, each with the handle h of its *)
(* slot, and what the readers said.                                        *)
(***************************************************************************)
EXTENDS AOB

Say(c, msg) == IF c THEN {<<"P20", msg>>} ELSE {}

\* price levels of a sequence of orders: <<sum, price>> in its order
RECURSIVE LevelsOf(_, _)
LevelsOf(os, acc) ==
  IF os = <<>> THEN acc
  ELSE LET o == Head(os)
           n == Len(acc)
       IN LevelsOf(Tail(os), IF n > 0 /\ acc[n][2] = o.p
                             THEN [acc EXCEPT ![n] = <<NAdd(@[1], o.b), o.p>>]
                             ELSE Append(acc, <<o.b, o.p>>))
Flat(ls) == [i \in 1..(2 * Len(ls)) |-> ls[(i + 1) \div 2][IF i % 2 = 1 THEN 1 ELSE 2]]
FirstN(ls, d) == IF d < Len(ls) THEN SubSeq(ls, 1, d) ELSE ls

WasmClauses(e) ==
  LET n == Len(e.os)
      up == LevelsOf(e.os, <<>>)
      down == LevelsOf(Rev(e.os), <<>>)
  IN IF ~e.ok THEN Say(TRUE, "a reader crashes or does not return")
     ELSE Say(~e.same, "a reader modified the data")
          \cup Say(e.min # (IF n = 0 THEN <<>> ELSE <<e.os[1].h>>), "the lowest order is wrong")
          \cup Say(e.max # (IF n = 0 THEN <<>> ELSE <<e.os[n].h>>), "the highest order is wrong")
          \cup Say(\E i \in 1..Len(e.l2) :
                     LET q == e.l2[i]
                     IN q.out # Flat(FirstN(IF q.inc THEN up ELSE down, q.d)), "the depth is wrong")
=============================================================================
