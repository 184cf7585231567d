------------------------------- MODULE Values -------------------------------
(* Feature values. A value is named by an integer code 8*q + e: the number     *)
(* q/4 moved by e units in the last place (e in -3..3). Codes are ordered like *)
(* the numbers they name. For q = 0, e stands for 0, +-1e-36, +-5e-36 and       *)
(* +-2e-35. A few large q name special numbers, NaN is a code of its own.      *)
EXTENDS Integers

NaN    == 1000000000
QInf   == 20000000          \* infinity
Q1e300 == 19999999          \* the largest finite number less 3 ulps
Q2p40  == 19999998          \* 2^40
Q2p32  == 19999997          \* 2^32 + 5 (2^32 + 512 in float32 models)
Q2p31  == 19999996          \* 2^31
Q2p31m == 19999995          \* 2^31 - 1 (2^31 - 128 in float32 models)
Q2p24  == 19999994          \* 2^24 + 1 (2^24 + 2 in float32 models)

QOf(c) == (c + 3) \div 8    \* \div rounds down
EOf(c) == c - 8 * QOf(c)
Code(q, e) == 8 * q + e

IsNaN(c) == c = NaN
IsInf(c) == c # NaN /\ QOf(c) \in {QInf, -QInf}
\* within 1e-35 of zero
ZeroLike(c) == c # NaN /\ QOf(c) = 0 /\ EOf(c) \in -2..2

Beyond == 2000000000        \* an integer part outside the int32 range

\* integer part, truncated towards zero
RECURSIVE Trunc(_)
Trunc(c) ==
  IF c < 0 /\ QOf(c) # 0 THEN IF Trunc(-c) = Beyond THEN -Beyond ELSE -Trunc(-c)
  ELSE LET q == QOf(c) e == EOf(c)
       IN CASE q = 0 -> 0
            [] q >= Q2p31 /\ ~(q = Q2p31 /\ e < 0) -> Beyond
            [] q = Q2p31m /\ e < 0 -> 2147483646
            [] q >= Q2p31m -> 2147483647
            [] q = Q2p24 -> IF e < 0 THEN 16777216 ELSE 16777217
            [] OTHER -> IF q % 4 = 0 /\ e < 0 THEN (q \div 4) - 1 ELSE q \div 4

\* a finite whole number of quarters (used where values are multiplied)
Quarters(c) == QOf(c)
IsQuarter(c) == c # NaN /\ EOf(c) = 0 /\ QOf(c) < Q2p24 /\ QOf(c) > -Q2p24
=============================================================================
