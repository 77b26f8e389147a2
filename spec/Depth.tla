-------------------------------- MODULE Depth --------------------------------
(***************************************************************************)
(* The readers of a serialized book (js/wasm): the walk over the crit-bit  *)
(* tree that collects the first d price levels, step by step, against what *)
(* it must return.                                                         *)
(*                                                                         *)
(* A key is <<p, l>> with p and l below 2^Bits: price and age class.  A    *)
(* node of the tree is identified with the set of keys below it; a set of  *)
(* more than one key splits at the first bit in which two of them differ.  *)
(* Every set of keys, every depth and both directions are initial states.  *)
(* For each set the table line gives the results for all depths; the       *)
(* driver lays every such tree out in bytes and asks the real readers.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Ps, Ls, Bits, MaxD, Dump

Keys == Ps \X Ls
Code(k) == k[1] * (2 ^ Bits) + k[2]
Less(a, b) == Code(a) < Code(b)
\* quantities which tell the keys apart in any sum
Q(k) == 2 ^ (Cardinality({x \in Keys : Less(x, k)}))
Bit(k, i) == (Code(k) \div (2 ^ (2 * Bits - i))) % 2        \* i = 1: the highest
CritBit(n) == CHOOSE i \in 1..(2 * Bits) :
                /\ \E a, b \in n : Bit(a, i) # Bit(b, i)
                /\ \A j \in 1..(i - 1) : \A a, b \in n : Bit(a, j) = Bit(b, j)
Child(n, c) == {k \in n : Bit(k, CritBit(n)) = c}

(***************************************************************************)
(* What the readers must return                                            *)
(***************************************************************************)
Asc(s) == SetToSortSeq(s, Less)
Lowest(s) == Asc(s)[1]
Highest(s) == Asc(s)[Cardinality(s)]
RECURSIVE Total(_)
Total(s) == IF s = {} THEN 0 ELSE LET k == CHOOSE x \in s : TRUE IN Q(k) + Total(s \ {k})
PricesOf(s, inc) == LET ps == SetToSortSeq({k[1] : k \in s}, <) IN IF inc THEN ps ELSE Reverse(ps)
Levels(s, d, inc) ==
  LET ps == PricesOf(s, inc)
      n  == IF d < Len(ps) THEN d ELSE Len(ps)
  IN [i \in 1..n |-> <<Total({k \in s : k[1] = ps[i]}), ps[i]>>]

(***************************************************************************)
(* The walk                                                                *)
(***************************************************************************)
VARIABLES s, d, inc, stack, res, fin
vars == <<s, d, inc, stack, res, fin>>

Init == /\ s \in SUBSET Keys /\ d \in 0..MaxD /\ inc \in BOOLEAN
        /\ stack = IF s = {} THEN <<>> ELSE <<s>>
        /\ res = <<>> /\ fin = (s = {})

First == IF inc THEN 0 ELSE 1
Next ==
  /\ ~fin
  /\ UNCHANGED <<s, d, inc>>
  /\ LET top == stack[Len(stack)]
         pop == SubSeq(stack, 1, Len(stack) - 1)
     IN IF Cardinality(top) > 1
        THEN /\ stack' = pop \o <<Child(top, 1 - First), Child(top, First)>>
             /\ UNCHANGED <<res, fin>>
        ELSE LET k == CHOOSE x \in top : TRUE
                 n == Len(res)
             IN IF n > 0 /\ res[n][2] = k[1]
                THEN /\ res' = [res EXCEPT ![n][1] = @ + Q(k)]
                     /\ stack' = pop /\ fin' = (pop = <<>>)
                ELSE IF n = d THEN fin' = TRUE /\ UNCHANGED <<stack, res>>
                ELSE /\ res' = Append(res, <<Q(k), k[1]>>)
                     /\ stack' = pop /\ fin' = (pop = <<>>)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(***************************************************************************)
(* What is checked                                                         *)
(***************************************************************************)
Right == fin => res = Levels(s, d, inc)
\* the part of the book still on the stack comes after everything taken
Frontier == LET rest == UNION {stack[i] : i \in 1..Len(stack)}
            IN \A i \in 1..Len(res) : \A k \in rest : IF inc THEN res[i][2] <= k[1] ELSE res[i][2] >= k[1]
Bounded == Len(stack) <= 2 * Bits + 1
Ends == <>fin
RECURSIVE Walk(_, _)
Walk(n, c) == IF Cardinality(n) = 1 THEN CHOOSE k \in n : TRUE ELSE Walk(Child(n, c), c)
Extremes == s # {} => Walk(s, 0) = Lowest(s) /\ Walk(s, 1) = Highest(s)

Table ==
  (Dump /\ d = 0 /\ inc /\ Len(stack) <= 1 /\ res = <<>> /\ (s = {} \/ stack = <<s>>)) =>
    LET ks == Asc(s)
        ds == SetToSeq((0..MaxD) \X BOOLEAN)
    IN PrintT(ToJson([keys |-> [i \in 1..Len(ks) |-> <<ks[i][1], ks[i][2], Q(ks[i])>>],
                      rows |-> [i \in 1..Len(ds) |-> <<ds[i][1], ds[i][2], Levels(s, ds[i][1], ds[i][2])>>]]))
=============================================================================
