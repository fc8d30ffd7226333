---- MODULE Builtins ----
(***************************************************************************)
(* The documented formulas of the built-in profiles and windows (C05), with *)
(* live parameters (C04).  Coordinates and centres are integers (in units   *)
(* chosen by the recording), widths are given by their squares, and a value  *)
(* is << re, im, den, hi, lo >>: the Gaussian rational (re + i im)/den times  *)
(* the transcendental factor hi 10^-6 + lo 10^-12.                           *)
(***************************************************************************)
EXTENDS Fixed
VARIABLE leaves

U == << >>
ONE == << 1000000, 0 >>
EX(k) == IF k > 160 THEN << 0, 0 >> ELSE EXP8X[k + 1]
SQ(k) == SQRTX[k]
\* is k = 2^j with 4 <= j <= 20
RECURSIVE Log2(_)
Log2(k) == IF k = 1 THEN 0 ELSE IF k % 2 # 0 THEN 100 ELSE 1 + Log2(k \div 2)
\* the product of integers is small enough to be represented
Fits(a, b) == b = 0 \/ Abs(a) <= 1000000 \div Abs(b)
Mk(re, im, den, t) == << re, im, den, t[1], t[2] >>
Zero == Mk(0, 0, 1, ONE)

\* physicists' Hermite polynomial at h/2 (integer h)
RECURSIVE Herm(_, _)
Herm(n, h) == IF n = 0 THEN 1 ELSE IF n = 1 THEN h
              ELSE h * Herm(n-1, h) - 2 * (n-1) * Herm(n-2, h)

\* the sum of the sizes of the terms of the recurrence
RECURSIVE HermA(_, _)
HermA(n, h) == IF n = 0 THEN 1 ELSE IF n = 1 THEN Abs(h)
               ELSE Min2(1000000, Abs(h) * HermA(n-1, h) + 2 * (n-1) * HermA(n-2, h))

RECURSIVE GPow(_, _)
GPow(u, n) == IF n = 0 THEN <<1, 0>> ELSE CMul(u, GPow(u, n-1))
Choose(n, k) == IF k < 0 \/ k > n THEN 0 ELSE Fact(n) \div (Fact(k) * Fact(n-k))

\* p! times the generalised Laguerre polynomial L_p^l at the integer t
FLag(p, l, t) ==
  SumSeq([k \in 1..(p+1) |-> LET i == k - 1 IN
     (IF i % 2 = 0 THEN 1 ELSE -1) * Choose(p+l, p-i) * (Fact(p) \div Fact(i)) * Pow(t, i)])

(*-------------------------------- formulas --------------------------------*)
\* w2 is the square of the width: 2, 8 or 32
HG(q, x, y) ==
  LET dx == x - q.x0  dy == y - q.y0  r2 == dx*dx + dy*dy
      hx == CASE q.w2 = 2 -> 2*dx [] q.w2 = 8 -> dx [] OTHER -> dx \div 2   \* twice sqrt(2) dx / w
      hy == CASE q.w2 = 2 -> 2*dy [] q.w2 = 8 -> dy [] OTHER -> dy \div 2
  IN IF (8 * r2) % q.w2 # 0 \/ (q.w2 = 32 /\ (dx % 2 # 0 \/ dy % 2 # 0)) THEN U
     \* beyond the range of the integers
     ELSE IF (q.n > 6 /\ Abs(hx) > 6) \/ (q.m > 6 /\ Abs(hy) > 6) \/ Abs(hx) > 24 \/ Abs(hy) > 24 THEN U
     ELSE LET u == Herm(q.n, hx) v == Herm(q.m, hy) IN
          IF ~Fits(u, v) \/ ~Fits(q.a, u * v) THEN U
          ELSE Mk(q.a * u * v, 0, 1, EX((8 * r2) \div q.w2))

LG(q, x, y) ==
  LET dx == x - q.x0  dy == y - q.y0  r2 == dx*dx + dy*dy  al == Abs(q.l)
      \* (sqrt(2) r / w)^|l| exp(-i l phi)
      ph == GPow(<< dx, IF q.l > 0 THEN -dy ELSE dy >>, al)
  IN IF (q.p > 3 /\ r2 > 20) \/ (al > 5 /\ r2 > 16) THEN U ELSE IF q.w2 = 2 THEN LET A == q.a * FLag(q.p, al, r2) IN
                      IF ~Fits(A, Abs(ph[1]) + Abs(ph[2])) THEN U ELSE
                      Mk(A * ph[1], A * ph[2], Fact(q.p), EX(4 * r2))
     ELSE IF q.w2 = 8 /\ r2 % 4 = 0 THEN
                      LET A == q.a * FLag(q.p, al, r2 \div 4) IN
                      IF ~Fits(A, Abs(ph[1]) + Abs(ph[2])) THEN U ELSE
                      Mk(A * ph[1], A * ph[2], Fact(q.p) * Pow(2, al), EX(r2))
     ELSE U

\* p2 is twice the power
SG(q, x, y) ==
  LET dx == x - q.x0  dy == y - q.y0  r2 == dx*dx + dy*dy
      rr == ISqrt(r2)  w == ISqrt(q.w2)
      n == IF q.p2 % 2 = 0 THEN Pow(r2, q.p2 \div 2) ELSE Pow(rr, q.p2)
      d == IF q.p2 % 2 = 0 THEN Pow(q.w2, q.p2 \div 2) ELSE Pow(w, q.p2)
  IN IF (r2 > 200 /\ q.p2 > 4) \/ (q.p2 > 6 /\ (r2 > 8 \/ q.w2 > 8)) THEN U ELSE IF q.p2 % 2 = 1 /\ (rr * rr # r2 \/ w * w # q.w2) THEN U
     \* far inside the flat top: exp(-2^-j)
     ELSE IF n > 0 /\ d % n = 0 /\ Log2(d \div n) \in 4..20 THEN Mk(q.a, 0, 1, EXPH[Log2(d \div n) - 3])
     ELSE IF (8 * n) % d # 0 THEN U
     ELSE Mk(q.a, 0, 1, EX((8 * n) \div d))

ZernValid(n, m) == n >= 0 /\ Abs(m) <= n /\ (n - Abs(m)) % 2 = 0
ZernNorm2(n, m) == IF m = 0 THEN n + 1 ELSE 2 * n + 2
\* numerator over r^n of the polynomial of degree n at (x, y)/r
ZernNum(n, m, x, y, r) ==
  LET am == Abs(m)  r2 == x*x + y*y  s == (n - am) \div 2
      g == GPow(<< x, y >>, am)
      \* sum_k c_k rho^(n-2k), times r^n, without the factor (x^2+y^2)^(|m|/2)
      rad == SumSeq([i \in 1..(s+1) |-> LET k == i - 1 IN
               (IF k % 2 = 0 THEN 1 ELSE -1) *
               (Fact(n-k) \div (Fact(k) * Fact((n+am) \div 2 - k) * Fact(s - k)))
               * Pow(r2, s - k) * Pow(r, 2*k)])
  IN rad * (IF m >= 0 THEN g[1] ELSE g[2])
ZN(q, x, y) ==
  LET r2 == x*x + y*y IN
  IF ~q.ext /\ r2 > q.r * q.r THEN Zero
  ELSE IF q.n > 6 /\ (r2 > 9 \/ q.r > 3 \/ r2 > 4 * q.r * q.r) THEN U      \* beyond the range of the integers
  ELSE IF ~q.ext /\ r2 = q.r * q.r /\ ~q.sharp THEN U
  ELSE Mk(q.a * ZernNum(q.n, q.m, x, y, q.r), 0, Pow(q.r, q.n),
          IF q.norm THEN SQ(ZernNorm2(q.n, q.m)) ELSE ONE)

\* wx, wy full widths; sharp: coordinates are exact, so the edge itself is decided
RW(q, x, y) ==
  LET ex == 2 * Abs(x - q.x0)  ey == 2 * Abs(y - q.y0) IN
  IF q.wx = 0 \/ q.wy = 0 THEN Zero        \* nothing is inside
  ELSE IF (ex = q.wx \/ ey = q.wy) /\ ~q.sharp THEN U
  ELSE Mk(IF ex < q.wx /\ ey < q.wy THEN 1 ELSE 0, 0, 1, ONE)
CW(q, x, y) ==
  LET dx == x - q.x0  dy == y - q.y0  r2 == dx*dx + dy*dy IN
  IF r2 = q.r * q.r /\ ~q.sharp THEN U
  ELSE Mk(IF r2 <= q.r * q.r THEN 1 ELSE 0, 0, 1, ONE)

Scale(v, k) == IF v = U THEN U ELSE IF ~Fits(k, Abs(v[1]) + Abs(v[2])) THEN U ELSE << k * v[1], k * v[2], v[3], v[4], v[5] >>

RECURSIVE Val(_, _, _, _)
Val(ls, i, x, y) ==
  LET q == ls[i] IN
  CASE q.op = "hg" -> HG(q, x, y)
    [] q.op = "lg" -> LG(q, x, y)
    [] q.op = "sg" -> SG(q, x, y)
    [] q.op = "zn" -> ZN(q, x, y)
    [] q.op = "rw" -> RW(q, x, y)
    [] q.op = "cw" -> CW(q, x, y)
    [] q.op = "co" -> Mk(q.re, q.im, q.den, ONE)
    [] q.op = "shift" -> Val(ls, q.i, x - q.dx, y - q.dy)
    [] q.op = "times" -> Scale(Val(ls, q.i, x, y), q.k)
    \* an expression used in the opposite order of construction of its parts
    [] q.op = "plus0" -> LET u == Val(ls, q.i, x, y) v == Val(ls, q.j, x, y) IN
                         IF u = U \/ v = U THEN U
                         ELSE IF v[1] = 0 /\ v[2] = 0 THEN u
                         ELSE IF u[1] = 0 /\ u[2] = 0 THEN v ELSE U

RECURSIVE IsC(_, _)
IsC(ls, i) == LET q == ls[i] IN
  CASE q.op = "lg" -> TRUE
    [] q.op = "co" -> q.cx
    [] q.op \in {"shift", "times"} -> IsC(ls, q.i)
    [] q.op = "plus0" -> IsC(ls, q.i) \/ IsC(ls, q.j)
    [] OTHER -> FALSE

Settable(q) == CASE q.op = "hg" -> {"x0", "y0", "a", "w2"}
                 [] q.op = "sg" -> {"x0", "y0", "a", "w2", "p2"}
                 [] q.op = "zn" -> {"a"}
                 [] q.op = "rw" -> {"x0", "y0", "wx", "wy"}
                 [] q.op = "cw" -> {"x0", "y0", "r"}
                 [] q.op = "co" -> {"re"}
                 [] OTHER -> {}

BInit       == leaves = << >>
BMake(q)    == leaves' = Append(leaves, q)
BSet(i,p,v) == i \in 1..Len(leaves) /\ p \in Settable(leaves[i]) /\ leaves' = [leaves EXCEPT ![i] = [leaves[i] EXCEPT ![p] = v]]
BLook(i)    == i \in 1..Len(leaves) /\ UNCHANGED leaves

(*------------------------- comparison with a recording ---------------------*)
\* P/Q * (hi 10^-6 + lo 10^-12) as << integer part, fraction in 10^-8 >>
DecOf(P, Q, hi, lo) ==
  LET A  == P * hi
      a1 == A \div Q
      b  == (((A % Q) * 10000) \div Q) \div 100 + (P * (lo \div 1000)) \div (10 * Q) + (P * (lo % 1000)) \div (10000 * Q)
  IN << a1 \div 1000000, (a1 % 1000000) * 100 + b >>
Representable(P, Q, hi) == Abs(P) <= 1000000 /\ Q <= 200000 /\ Abs(P) <= 2000000000 \div Max2(hi, 1)
\* size of the terms that cancel in a value, for the 32-bit tolerance
RECURSIVE Mag(_, _, _, _)
Mag(ls, i, x, y) == LET q == ls[i] IN
  CASE q.op = "zn" -> LET h == (q.n + 1) \div 2 IN
                      IF q.n > 6 /\ x*x + y*y > 9 THEN 1 ELSE
                      Min2(50000, Abs(q.a) * 10 * (1 + Min2(100000, Pow(x*x + y*y, h) \div Pow(q.r, 2*h))))
    [] q.op = "hg" -> LET hx == (IF q.w2 = 2 THEN 2 ELSE 1) * (x - q.x0)  hy == (IF q.w2 = 2 THEN 2 ELSE 1) * (y - q.y0)
                          hm(n, h) == Min2(2000, HermA(n, Min2(Abs(h) + 1, 30)) \div 50) IN
                      IF q.n < 5 /\ q.m < 5 THEN 1 ELSE Min2(50000, hm(q.n, hx) * Max2(1, HermA(q.m, Min2(Abs(hy) + 1, 30)) \div 10) + hm(q.m, hy) * Max2(1, HermA(q.n, Min2(Abs(hx) + 1, 30)) \div 10))
    [] q.op = "shift" -> Mag(ls, q.i, x - q.dx, y - q.dy)
    [] q.op = "times" -> Min2(50000, Abs(q.k) * Mag(ls, q.i, x, y))
    [] q.op = "plus0" -> Min2(50000, Mag(ls, q.i, x, y) + Mag(ls, q.j, x, y))
    [] OTHER -> 1
\* large values in 64-bit mode: one part in a thousand
LargeClose(o, P, hi) ==
  LET p == Abs(P)  A == ((p \div 1000) * hi) \div 1000 + ((p % 1000) * hi) \div 1000000
  IN Abs(o[1] - (IF P < 0 THEN -A ELSE A)) <= 4 + A \div 1000
RealClose(o, P, Q, hi, lo, mag, prec) ==
  IF prec = 64 /\ Q = 1 /\ hi <= 1000000 /\ Abs(P) <= 1000000 /\ ~Representable(P, Q, hi) THEN LargeClose(o, P, hi) ELSE
  ~Representable(P, Q, hi) \/
  LET w == DecOf(P, Q, hi, lo)
      \* tolerance in 10^-8
      \* (beyond the table of exponentials only the size of the value is known)
      tol == IF prec = 64 THEN 6 + Abs(P) \div ((IF hi = 0 /\ lo = 0 THEN 4 ELSE 2000) * Q)
             ELSE 100000 + 10000 * Min2(Max2(mag, Abs(P) \div Q + 1), 50000)
      dk == o[1] - w[1]
  IN /\ Abs(dk) <= 10
     /\ Abs(dk * 100000000 + (o[2] - w[2])) <= tol
ValClose(o, v, mag, prec) ==
  v = U \/ LET m == Max2(mag, (Abs(v[1]) + Abs(v[2])) \div v[3] + 1) IN     \* the angle of a complex value is rounded, too
            (RealClose(o[1], v[1], v[3], v[4], v[5], m, prec) /\ RealClose(o[2], v[2], v[3], v[4], v[5], m, prec))
====
