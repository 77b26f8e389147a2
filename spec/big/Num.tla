-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Arithmetic over machine words, unbounded instance.                      *)
(*                                                                         *)
(* TLC's integers have 32 bits; the program's words have 64 and its        *)
(* products 128.  A natural number is a little-endian sequence of limbs in *)
(* 0..2^14-1 without leading zero limbs (zero is <<>>), so column sums of  *)
(* products of five-limb numbers stay below 2^31.  Same interface as       *)
(* ../int/Num.tla; FP is 2^32.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences

B == 16384

NZero == <<>>
NOne  == <<1>>

RECURSIVE NInt(_)
NInt(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o NInt(n \div B)

RECURSIVE Trim(_)
Trim(s) == IF s = <<>> THEN s
           ELSE IF s[Len(s)] = 0 THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s

RECURSIVE LtFrom(_, _, _)
LtFrom(a, b, i) == IF i = 0 THEN FALSE
                   ELSE IF a[i] # b[i] THEN a[i] < b[i]
                   ELSE LtFrom(a, b, i - 1)
NLt(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LtFrom(a, b, Len(a))
NLeq(a, b) == ~NLt(b, a)
NMin(a, b) == IF NLeq(a, b) THEN a ELSE b

Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, c) ==
  IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET t == Limb(a, i) + Limb(b, i) + c
       IN <<t % B>> \o AddFrom(a, b, i + 1, t \div B)
NAdd(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE AddFrom(a, b, 1, 0)

RECURSIVE SubFrom(_, _, _, _)
SubFrom(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET t == a[i] - Limb(b, i) - c
       IN IF t < 0 THEN <<t + B>> \o SubFrom(a, b, i + 1, 1)
                   ELSE <<t>> \o SubFrom(a, b, i + 1, 0)
\* truncated subtraction
NSub(a, b) == IF NLt(a, b) THEN <<>> ELSE Trim(SubFrom(a, b, 1, 0))

RECURSIVE ColSum(_, _, _, _)
ColSum(a, b, k, i) ==      \* sum over i of a[i] * b[k - i + 1]
  IF i > Len(a) \/ i > k THEN 0
  ELSE (IF k - i + 1 <= Len(b) THEN a[i] * b[k - i + 1] ELSE 0) + ColSum(a, b, k, i + 1)
RECURSIVE MulFrom(_, _, _, _)
MulFrom(a, b, k, c) ==
  IF k >= Len(a) + Len(b) THEN NInt(c)
  ELSE LET t == ColSum(a, b, k, 1) + c
       IN <<t % B>> \o MulFrom(a, b, k + 1, t \div B)
NMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE MulFrom(a, b, 1, 0)

\* floor(x / 2^32): drop two limbs (2^28) and four more bits
Shr32(x) ==
  IF Len(x) <= 2 THEN <<>>
  ELSE Trim([i \in 1..(Len(x) - 2) |->
               (x[i + 2] \div 16) + (Limb(x, i + 3) % 16) * 1024])
\* x * 2^32
Shl32(x) ==
  IF x = <<>> THEN <<>>
  ELSE Trim(<<0, 0>> \o [i \in 1..(Len(x) + 1) |->
        (Limb(x, i) % 1024) * 16 + (IF i = 1 THEN 0 ELSE x[i - 1] \div 1024)])
LowBits32Zero(x) == /\ Limb(x, 1) = 0 /\ Limb(x, 2) = 0 /\ Limb(x, 3) % 16 = 0

MulFloor(b, p) == Shr32(NMul(b, p))
MulCeil(b, p)  == LET x == NMul(b, p)
                  IN IF LowBits32Zero(x) THEN Shr32(x) ELSE NAdd(Shr32(x), <<1>>)

\* largest d in lo..hi with d * p <= r
RECURSIVE Digit(_, _, _, _)
Digit(r, p, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN IF NLeq(NMul(NInt(mid), p), r) THEN Digit(r, p, mid, hi)
                                         ELSE Digit(r, p, lo, mid - 1)
\* the same from the leading limbs: with n = Len(p) and rh the limbs n and n+1
\* of r, rh \div (p[n] + 1) <= d <= rh \div p[n]
QDigit(r, p) ==
  LET n  == Len(p)
      rh == Limb(r, n + 1) * B + Limb(r, n)
      hi == rh \div p[n]
  IN Digit(r, p, rh \div (p[n] + 1), IF hi > B - 1 THEN B - 1 ELSE hi)
RECURSIVE DivFrom(_, _, _, _, _)
DivFrom(x, p, i, r, q) ==      \* schoolbook division, limb i downwards
  IF i = 0 THEN [q |-> Trim(q), r |-> r]
  ELSE LET r1 == Trim(<<x[i]>> \o r)
           d  == IF NLt(r1, p) THEN 0 ELSE QDigit(r1, p)
       IN DivFrom(x, p, i - 1, IF d = 0 THEN r1 ELSE NSub(r1, NMul(NInt(d), p)), <<d>> \o q)
\* the power of two that makes the leading limb of p at least B/2
RECURSIVE Lift(_, _)
Lift(d, k) == IF d >= B \div 2 THEN k ELSE Lift(2 * d, 2 * k)
\* quotient of x by p # 0, and whether it is exact
DivQ(x, p) ==
  LET k == NInt(Lift(p[Len(p)], 1))
      y == NMul(x, k)
      d == DivFrom(y, NMul(p, k), Len(y), <<>>, <<>>)
  IN [q |-> d.q, exact |-> d.r = <<>>]

CapDiv(m, q, p) ==
  IF p = <<>> THEN m
  ELSE LET x == Shl32(q)
       IN IF NLeq(NMul(m, p), x) THEN m ELSE DivQ(x, p).q
Divides(t, x) == IF t = <<1>> THEN TRUE ELSE DivQ(x, t).exact

\* 2^64 = 2^(4*14 + 8): at most five limbs, the fifth below 256
NFits64(a) == Len(a) < 5 \/ (Len(a) = 5 /\ a[5] < 256)
\* bit 63 of a 64-bit word: limb five holds bits 56..69
LoIsBid(lo) == Len(lo) = 5 /\ (lo[5] \div 128) % 2 = 1
\* 2^64 - 1
Max64 == <<16383, 16383, 16383, 16383, 255>>
LoOf(side, seq) == IF side = "B" THEN NSub(Max64, seq) ELSE seq
SeqNo(side, lo) == IF side = "B" THEN NSub(Max64, lo) ELSE lo
SeqOk(seq) == NFits64(seq) /\ ~LoIsBid(seq)
FloorTo(t, x) == NMul(DivQ(x, t).q, t)
CeilTo(t, x)  == LET f == FloorTo(t, x) IN IF f = x THEN x ELSE NAdd(f, t)
=============================================================================
