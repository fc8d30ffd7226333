---- MODULE Rational ----
(***************************************************************************)
(* Exact Gaussian rationals with a running bound on the floating point     *)
(* error an implementation may accumulate.                                 *)
(*   v = << re, im, den, e >>   stands for (re + i im)/den;                 *)
(*   e bounds the absolute error of a straightforward evaluation, in units  *)
(*   of the machine epsilon.                                                *)
(* A value that grows too large, is ill conditioned or does not exist       *)
(* (division by zero) is U; nothing is claimed about it.                    *)
(***************************************************************************)
EXTENDS Fixed
U == << >>
RB == 500       \* bound on numerators and denominators
EB == 2000      \* bound on accumulated error

Ceil(a, b) == -((-a) \div b)
\* upper bound of |v|
VMag(v) == Ceil(Abs(v[1]) + Abs(v[2]), v[3])

VNorm(re, im, den, e) ==
  LET g  == GCD(GCD(re, im), den)
      sg == IF den < 0 THEN -1 ELSE 1
      a  == (sg * re) \div g
      b  == (sg * im) \div g
      d  == (sg * den) \div g
  IN IF Abs(a) > RB \/ Abs(b) > RB \/ d > RB \/ e > EB THEN U
     ELSE << a, b, d, e >>

VInt(k)       == << k, 0, 1, 0 >>
VRat(n, d)    == VNorm(n, 0, d, Ceil(Abs(n), Abs(d)))
VGauss(re,im) == << re, im, 1, 0 >>

VAdd(a, b) == IF a = U \/ b = U THEN U ELSE
   VNorm(a[1]*b[3] + b[1]*a[3], a[2]*b[3] + b[2]*a[3], a[3]*b[3],
         a[4] + b[4] + VMag(a) + VMag(b))
VNeg(a)    == IF a = U THEN U ELSE << -a[1], -a[2], a[3], a[4] >>
VSub(a, b) == VAdd(a, VNeg(b))
VMul(a, b) == IF a = U \/ b = U THEN U ELSE
   VNorm(a[1]*b[1] - a[2]*b[2], a[1]*b[2] + a[2]*b[1], a[3]*b[3],
         VMag(a)*b[4] + VMag(b)*a[4] + 2 * VMag(a) * VMag(b) + 1)
\* division is only claimed for divisors of size at least 1/4
VDiv(a, b) == IF a = U \/ b = U THEN U
   ELSE IF 16 * (b[1]*b[1] + b[2]*b[2]) < b[3]*b[3] THEN U
   ELSE LET n2 == b[1]*b[1] + b[2]*b[2]
            q  == VNorm((a[1]*b[1] + a[2]*b[2]) * b[3], (a[2]*b[1] - a[1]*b[2]) * b[3], a[3] * n2, 0)
        IN IF q = U THEN U ELSE
           VNorm(q[1], q[2], q[3], 4 * (a[4] + VMag(q) * b[4]) + 4 * VMag(q) + 1)
VIsReal(a) == a # U /\ a[2] = 0
VIsInt(a)  == a # U /\ a[2] = 0 /\ a[3] = 1
VIsZero(a) == a # U /\ a[1] = 0 /\ a[2] = 0
RECURSIVE VPow(_, _)
VPow(a, n) == IF a = U THEN U
              ELSE IF n = 0 THEN VInt(1)
              ELSE IF n < 0 THEN VDiv(VInt(1), VPow(a, -n))
              ELSE VMul(a, VPow(a, n - 1))
\* three-valued comparison of two real values: "lt", "gt" or "near"
VCmp(a, b) == LET d == VSub(a, b) IN
   IF d = U THEN "near"
   ELSE IF Abs(d[1]) * 4000 <= d[3] THEN "near"
   ELSE IF d[1] < 0 THEN "lt" ELSE "gt"

\* num/den as << integer part, fraction in 10^-8 >> (den > 0)
Decimal(num, den) ==
  LET k  == RDiv(num, den)
      r0 == num - k * den
      d1 == (r0 * 10000) \div den
      r1 == r0 * 10000 - d1 * den
      d2 == RDiv(r1 * 10000, den)
  IN << k, d1 * 10000 + d2 >>
\* an observed decimal << k, fraction in 10^-8 >> agrees within tol * 10^-8
DecClose(o, num, den, tol) ==
  LET w == Decimal(num, den) IN
  /\ Abs(o[1] - w[1]) <= 1
  /\ Abs((o[1] - w[1]) * 100000000 + (o[2] - w[2])) <= tol
\* an observed complex << re, im >> of decimals agrees with v
ObsClose(o, v, tol) == DecClose(o[1], v[1], v[3], tol) /\ DecClose(o[2], v[2], v[3], tol)
====
