-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Arithmetic over machine words, small-integer instance.                  *)
(*                                                                         *)
(* The specification modules only use the operators below, so the same     *)
(* text is (a) model checked exhaustively with TLC's native integers and a *)
(* small fixed-point unit FP (this file), and (b) evaluated on recorded    *)
(* executions of the real program with unbounded naturals and the real     *)
(* fixed-point unit 2^32 (../big/Num.tla).                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANT FP         \* one unit of price, as a fixed point number
LoMax == 999        \* stands for 2^64-1 in the low half of an order id

NZero == 0
NOne  == 1
NInt(n) == n                      \* small literal -> number
NLt(a, b)  == a < b
NLeq(a, b) == a <= b
NMin(a, b) == IF a <= b THEN a ELSE b
NAdd(a, b) == a + b
NSub(a, b) == IF b <= a THEN a - b ELSE 0   \* only used when b <= a
\* price * quantity, rounded down / up to whole units of quote
MulFloor(b, p) == (b * p) \div FP
MulCeil(b, p)  == (b * p + FP - 1) \div FP
\* min(m, floor(q / p)), "no bound" when p = 0
CapDiv(m, q, p) == IF p = 0 \/ m * p <= q * FP THEN m ELSE (q * FP) \div p
Divides(t, x) == x % t = 0
\* largest multiple of t not above x / the multiple count
NMulSmall(a, b) == a * b
NFits64(a) == TRUE
\* the low half of an order id: bids count down, asks count up
LoOf(side, seq) == IF side = "B" THEN LoMax - seq ELSE seq
LoIsBid(lo) == lo > LoMax \div 2
SeqNo(side, lo) == IF side = "B" THEN LoMax - lo ELSE lo
SeqOk(seq) == seq <= LoMax \div 2
\* largest multiple of t not above x, smallest not below x (t > 0)
FloorTo(t, x) == x - (x % t)
CeilTo(t, x)  == IF x % t = 0 THEN x ELSE x - (x % t) + t
=============================================================================
