---- MODULE Analysis ----
(***************************************************************************)
(* Zernike analysis of a phase map (C18).  A map has ny rows and nx columns of  *)
(* integers; pixel (r, c) (from 0) lies at (2c-(nx-1), (ny-1)-2r) half pixels    *)
(* and R2 is the radius in half pixels.                                       *)
(***************************************************************************)
EXTENDS Precise

RECURSIVE GPow(_, _)
GPow(u, n) == IF n = 0 THEN <<1, 0>> ELSE CMul(u, GPow(u, n-1))
\* unnormalised Zernike polynomial times R^n (exact)
ZNum(n, m, x, y, R) ==
  LET am == Abs(m)  r2 == x*x + y*y  s == (n - am) \div 2
      g == GPow(<< x, y >>, am)
      rad == SumSeq([i \in 1..(s+1) |-> LET k == i - 1 IN
               (IF k % 2 = 0 THEN 1 ELSE -1) * (Fact(n-k) \div (Fact(k) * Fact((n+am) \div 2 - k) * Fact(s - k)))
               * Pow(r2, s - k) * Pow(R, 2*k)])
  IN rad * (IF m >= 0 THEN g[1] ELSE g[2])
ZNorm2(n, m) == IF m = 0 THEN n + 1 ELSE 2 * n + 2

\* ANSI index
AnsiN(j) == CHOOSE n \in 0..(j + 1) : n * (n + 1) <= 2 * j /\ 2 * j < (n + 1) * (n + 2)
AnsiM(j) == 2 * j - AnsiN(j) * (AnsiN(j) + 2)
AnsiOk(j, n, m) == n * (n + 2) + m = 2 * j /\ Abs(m) <= n /\ (n - m) % 2 = 0

PX(nx, c) == 2 * c - (nx - 1)
PY(ny, r) == (ny - 1) - 2 * r
D2(ny, nx, r, c) == PX(nx, c) * PX(nx, c) + PY(ny, r) * PY(ny, r)
In(ny, nx, R2, r, c) == D2(ny, nx, r, c) < R2 * R2
Edge(ny, nx, R2, r, c) == D2(ny, nx, r, c) = R2 * R2
Pix(ny, nx, R2) == { << r, c >> \in (0..(ny-1)) \X (0..(nx-1)) : In(ny, nx, R2, r, c) }
SumOver(S, F(_)) == FoldLeft(LAMBDA a, p : a + F(p), 0, SetToSeq(S))

\* floor(2^b s / d), d < 2^30
RECURSIVE Bits(_, _, _, _)
Bits(q, rem, d, b) == IF b = 0 THEN q ELSE Bits(2 * q + ((2 * rem) \div d), (2 * rem) % d, d, b - 1)
BDiv(s, d, b) == Bits(s \div d, s % d, d, b)

\* sum over the aperture of map times polynomial, over R^n
Moment(p, ap, n, m, ny, nx, R2) == SumOver(ap, LAMBDA z : p[z[1]+1][z[2]+1] * ZNum(n, m, PX(nx, z[2]), PY(ny, z[1]), R2))
\* coefficient without its normalisation factor, in 2^-20
CoefB(p, ap, n, m, ny, nx, R2) == BDiv(Moment(p, ap, n, m, ny, nx, R2), Cardinality(ap) * Pow(R2, n), 20)
\* 2^26 sqrt(k), and the coefficient in 2^-18
S26(k) == LET t == SQRTX[k] IN t[1] * 67 + (((t[1] \div 1000) * 108864) \div 1000) + ((t[2] * 67) \div 1000000)
Coef18(cb, n, m) == MulB(cb, S26(ZNorm2(n, m)))

\* reconstruction from the first k terms at pixel (r, c), in 2^-12
ReconAt(cbs, k, ny, nx, R2, r, c) == SumSeq([j \in 1..k |-> LET n == AnsiN(j-1)  m == AnsiM(j-1)
      z == BDiv(ZNorm2(n, m) * ZNum(n, m, PX(nx, c), PY(ny, r), R2), Pow(R2, n), 20) IN IF z < 0 THEN -MulB(cbs[j], -z) ELSE MulB(cbs[j], z)])
\* where the terms stay small enough for that
Tame(k, ny, nx, R2, r, c) == \A j \in 1..k : LET n == AnsiN(j-1)  m == AnsiM(j-1) IN Abs(ZNorm2(n, m) * ZNum(n, m, PX(nx, c), PY(ny, r), R2)) < 100 * Pow(R2, n)

\* successive removal; values in 1/VU(R2)
Step18(v, ap, n, m, ny, nx, R2) ==
  LET a == RDiv(SumOver(ap, LAMBDA z : v[z[1]+1][z[2]+1] * ZNum(n, m, PX(nx, z[2]), PY(ny, z[1]), R2)), Cardinality(ap))
      b == RDiv(a * ZNorm2(n, m), Pow(R2, n))
  IN BMat(ny, nx, LAMBDA r, c : IF In(ny, nx, R2, r, c) THEN v[r+1][c+1] - RDiv(b * ZNum(n, m, PX(nx, c), PY(ny, r), R2), Pow(R2, n)) ELSE v[r+1][c+1])
Trivial(defocus) == << <<0, 0>>, <<1, -1>>, <<1, 1>> >> \o (IF defocus THEN << <<2, 0>> >> ELSE << >>)
RECURSIVE Strip(_, _, _, _, _, _)
Strip(v, ts, ap, ny, nx, R2) == IF ts = << >> THEN v ELSE Strip(TLCEval(Step18(v, ap, ts[1][1], ts[1][2], ny, nx, R2)), Tail(ts), ap, ny, nx, R2)
VU(R2) == IF R2 <= 12 THEN 4096 ELSE 256
PMap(q, ny, nx) == BMat(ny, nx, LAMBDA r, c : IF q.imp THEN (IF r = q.a % ny /\ c = q.b % nx THEN 1 ELSE 0)
   ELSE MapV(q, r, c) - q.off + (IF q.d # 0 THEN ((r * c) % q.d) ELSE 0) + (IF q.t # 0 THEN (r * r * q.t) % 5 ELSE 0))
\* the largest number of terms this arithmetic covers
KMax(q, R2) == IF q.imp THEN (IF R2 <= 3 THEN 66 ELSE IF R2 <= 5 THEN 45 ELSE IF R2 <= 9 THEN 28 ELSE 10)
               ELSE IF R2 <= 6 THEN 28 ELSE IF R2 <= 9 THEN 21 ELSE IF R2 <= 14 THEN 15 ELSE 10
====
