---- MODULE Fixed ----
(***************************************************************************)
(* Integer arithmetic used by the specification.  TLC integers have 32     *)
(* bits, so every quantity is an integer multiple of a stated unit:        *)
(*   - angles are multiples of 1/240 turn,                                 *)
(*   - cosines and sines are multiples of 1/16384,                         *)
(*   - complex numbers are pairs <<re, im>>.                               *)
(* The alternative is exact rational arithmetic, used by Profiles.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Tables

TURN == 240
SC   == 16384

Abs(a)    == IF a < 0 THEN -a ELSE a
Max2(a,b) == IF a < b THEN b ELSE a
Min2(a,b) == IF a < b THEN a ELSE b

CosT(k) == COS240[(k % TURN) + 1]
SinT(k) == COS240[((k - 60) % TURN) + 1]

\* a / b rounded to the nearest integer (b > 0)
RDiv(a, b) == (a + (b \div 2)) \div b

\* a / b rounded, sign symmetric, b # 0
SDiv(a, b) == IF b < 0 THEN RDiv(-a, -b) ELSE RDiv(a, b)

Close(a, b, tol) == Abs(a - b) <= tol

\* floor of the square root (n >= 0)
RECURSIVE SqrtIter(_, _)
SqrtIter(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE SqrtIter(n, y)
ISqrt(n) == IF n = 0 THEN 0 ELSE SqrtIter(n, IF n < 65536 THEN 256 ELSE 46340)

\* 10^6 exp(-k/8)
Exp8(k) == IF k > 160 THEN 0 ELSE EXP8[k + 1]

SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
MaxSeq(s) == FoldLeft(LAMBDA a, b : Max2(a, b), s[1], s)

RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN Abs(a) ELSE GCD(b, a % Abs(b))
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)
RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN 1 ELSE n * Fact(n - 1)

\* --- complex numbers <<re, im>> -------------------------------------------
CAdd(u, v)  == << u[1] + v[1], u[2] + v[2] >>
CSub(u, v)  == << u[1] - v[1], u[2] - v[2] >>
CMul(u, v)  == << u[1]*v[1] - u[2]*v[2], u[1]*v[2] + u[2]*v[1] >>
CConj(u)    == << u[1], -u[2] >>
CScale(k,u) == << k * u[1], k * u[2] >>
CNorm2(u)   == u[1]*u[1] + u[2]*u[2]
CRDiv(u, n) == << RDiv(u[1], n), RDiv(u[2], n) >>
CClose(u, v, tol) == Close(u[1], v[1], tol) /\ Close(u[2], v[2], tol)
CZero == <<0, 0>>
\* exp(i 2 pi k / 240), scaled by SC
CExp(k) == << CosT(k), SinT(k) >>
CSum(s) == FoldLeft(LAMBDA a, b : << a[1] + b[1], a[2] + b[2] >>, CZero, s)
====
