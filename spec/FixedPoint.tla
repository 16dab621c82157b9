------------------------------ MODULE FixedPoint ------------------------------
(***************************************************************************)
(* Fixed-point arithmetic on TLC's 32-bit integers.                         *)
(*   quantity  : integer, 1 unit = 10^-4 (kW, kWh, EUR, ...)   |x| < 2.1e5  *)
(*   coefficient: integer, 1 unit = 10^-3                                   *)
(*   duration  : integer minutes                                            *)
(* MulDiv(x,n,d) = round(x*n/d) without forming the full product.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

NONE == -2000000000            \* "not given" in the JSON descriptions
Given(x) == x # NONE

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

MulDiv(x, n, d) == (x \div d) * n + (((x % d) * n) + (d \div 2)) \div d
(* MulDivW: the same for |x|, |n|, |d| up to 4*10^6 of any sign (n digit by digit, base 256) *)
DivStep(a, r, dig, d) == <<a[1] * 256 + ((a[2] * 256 + r * dig) \div d), (a[2] * 256 + r * dig) % d>>
MulDivNat(x, n, d) ==     \* x >= 0, n >= 0, d > 0; floor((x*n + d/2) / d)
  LET r == x % d
      a == DivStep(DivStep(DivStep(<<0, 0>>, r, n \div 65536, d), r, (n \div 256) % 256, d), r, n % 256, d)
  IN (x \div d) * n + a[1] + (IF 2 * a[2] >= d THEN 1 ELSE 0)
Sgn(x) == IF x < 0 THEN -1 ELSE 1
MulDivW(x, n, d) == Sgn(x) * Sgn(n) * Sgn(d) * MulDivNat(Abs(x), Abs(n), Abs(d))

MulC(x, c) == MulDiv(x, c, 1000)        \* quantity times coefficient
PerHour(x, dt) == MulDiv(x, dt, 60)     \* rate (per hour) times duration
DivC(x, c) == MulDiv(x, 1000, c)        \* quantity divided by coefficient

SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
SumOver(S, f(_)) == FoldSet(LAMBDA i, acc : acc + f(i), 0, S)
=============================================================================
