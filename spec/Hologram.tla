---- MODULE Hologram ----
(***************************************************************************)
(* LCOS holograms (C13).  A state is a matrix u of unit phasors (units of     *)
(* 1/UU).  Inputs E are small Gaussian integers, target amplitudes integers    *)
(* in sixteenths, windows in quarters, the mixing factor in fifths.           *)
(***************************************************************************)
EXTENDS Precise

UU == 1048576
Norm15(u) == \* the unit phasor of u in units of 2^-15, for |u| below 2^23
  LET m == Max2(Abs(u[1]), Abs(u[2])) IN
  IF m = 0 THEN << 32768, 0 >>
  ELSE LET k == IF m >= 32768 THEN 0 ELSE 32767 \div m
           v == IF m >= 32768 THEN << RDiv(u[1], (m \div 32768) + 1), RDiv(u[2], (m \div 32768) + 1) >> ELSE CScale(k, u)
           n == ISqrt(CNorm2(v))
       IN << RDiv(v[1] * 32768, n), RDiv(v[2] * 32768, n) >>
Mag(u) == LET m == Max2(Abs(u[1]), Abs(u[2]))  k == (m \div 16384) + 1 IN k * ISqrt(CNorm2(<< u[1] \div k, u[2] \div k >>))

\* the image field (inverse DFT of the light leaving the device)
ImageOf(u, E, ny, nx) == DFTB(BMat(ny, nx, LAMBDA r, c : CMul(E[r+1][c+1], u[r+1][c+1])), ny, nx, 1)
\* corrected image field (units 1/UU)
CorrectGS(P, A, ny, nx) == BMat(ny, nx, LAMBDA r, c : CScale(2 * A[r+1][c+1], Norm15(P[r+1][c+1])))
CorrectMRAF(P, A, w, m5, ny, nx) == BMat(ny, nx, LAMBDA r, c :
   LET t == Norm15(P[r+1][c+1])  k == 2 * A[r+1][c+1] * m5 * w[r+1][c+1]  p == P[r+1][c+1]  j == (5 - m5) * (4 - w[r+1][c+1]) IN
   << RDiv(k * t[1] + j * p[1], 20), RDiv(k * t[2] + j * p[2], 20) >>)
Correct13(e, P, A, w, ny, nx) == IF e.method = "gs" THEN CorrectGS(P, A, ny, nx) ELSE CorrectMRAF(P, A, w, e.m5, ny, nx)
\* what the state becomes: the phase of Back relative to the input (eighths of 1/UU)
Back(C, E, ny, nx) == LET F == DFTB(C, ny, nx, -1) IN
  BMat(ny, nx, LAMBDA r, c : CMul(CConj(E[r+1][c+1]), CRDiv(F[r+1][c+1], 8)))
\* uncertainty of Back per unit of input: phases of small image fields are not known better than EPSP
EPSP == 24
Uncertain(P, A, ny, nx) ==
  LET one(r, c) == LET a == 65536 * A[r][c]  n == Mag(P[r][c]) + 1 IN (a \div 16384) + Min2(2 * a, ((a \div 64) * EPSP) \div ((n \div 64) + 1))
  IN 400 + (SumSeq([k \in 1..(ny * nx) |-> one(1 + ((k-1) \div nx), 1 + ((k-1) % nx))]) \div 8)
\* is v (unit phasor, 1/UU) the direction of g, up to tol
Dir(v, g, tol) ==
  LET x == MulB(g[1], 256 * v[1]) + MulB(g[2], 256 * v[2])
      y == MulB(g[2], 256 * v[1]) - MulB(g[1], 256 * v[2])
  IN Abs(y) <= tol /\ x >= -tol
UnitPhasor(v) == LET n == CNorm2(CRDiv(v, 64)) IN Close(n, 268435456, 60000)
\* the gs error, sum of (|P| - A)^2, amplitudes in 1/4096
ErrGS(P, A, ny, nx) == SumSeq([k \in 1..(ny * nx) |-> LET r == 1 + ((k-1) \div nx)  c == 1 + ((k-1) % nx)
                          d == RDiv(Mag(P[r][c]), 256) - 256 * A[r][c] IN RDiv(d * d, 64)])

EOf(q, ny, nx) == BMat(ny, nx, LAMBDA r, c : IF q.hole # 0 /\ (r + 2*c + q.hs) % q.hole = 0 THEN CZero
                      ELSE << MapV(q.re, r, c) - q.off, MapV(q.im, r, c) - q.off >>)
AOf(q, ny, nx) == BMat(ny, nx, LAMBDA r, c : MapV(q, r, c))
WOf(q, ny, nx) == BMat(ny, nx, LAMBDA r, c : IF q.k = "box" THEN (IF r >= q.r0 /\ r <= q.r1 /\ c >= q.c0 /\ c <= q.c1 THEN q.v ELSE 0)
                      ELSE (MapV(q.map, r, c) % 5))
====
