---- MODULE Optics ----
(***************************************************************************)
(* Propagation between the Fourier plane and the image plane (C11).        *)
(* A field is a sequence of rows of Gaussian integers.  The image-plane     *)
(* field of an output field o on a padded plane with NY rows and NX columns *)
(* is, in units of pitch^2/(wavelength*focal length),                        *)
(*   E[r,c] = sum o[a,b] exp(2 pi i ((a-H)(r-H)/NY + (b-W)(c-W)/NX)),        *)
(* H = NY div 2, W = NX div 2.                                             *)
(***************************************************************************)
EXTENDS Geometry, TLC

Divides(n) == n > 0 /\ TURN % n = 0
MaxMag(o) == FoldLeft(LAMBDA m, row : FoldLeft(LAMBDA k, u : Max2(k, Max2(Abs(u[1]), Abs(u[2]))), m, row), 0, o)

CSumF(f, n) == << SumSeq([k \in 1..n |-> f[k][1]]), SumSeq([k \in 1..n |-> f[k][2]]) >>

\* sum over rows then over columns; sg = 1 towards the image plane, -1 back.
\* the result is rounded to integers; the error is a few units
DFT2(o, NY, NX, sg) ==
  LET H == NY \div 2  W == NX \div 2  uy == TURN \div NY  ux == TURN \div NX
      A == TLCEval([r \in 1..NY |-> TLCEval([b \in 1..NX |->
              CRDiv(CSumF(TLCEval([a \in 1..NY |-> CMul(o[a][b], CExp(sg * uy * (a-1-H) * (r-1-H)))]), NY), SC)])])
  IN TLCEval([r \in 1..NY |-> TLCEval([c \in 1..NX |->
              CRDiv(CSumF(TLCEval([b \in 1..NX |-> CMul(A[r][b], CExp(sg * ux * (b-1-W) * (c-1-W)))]), NX), SC)])])
\* the arithmetic stays within 32 bits for fields of this size
DFTFits(o, NY, NX) == Divides(NY) /\ Divides(NX) /\ MaxMag(o) * NY * NX <= 90000

Pad(o, ny, nx, py, px) ==
  TLCEval([r \in 1..(ny + 2*py) |-> TLCEval([c \in 1..(nx + 2*px) |->
     IF r > py /\ r <= ny + py /\ c > px /\ c <= nx + px THEN o[r - py][c - px] ELSE CZero])])

Map2(o, ny, nx, f(_)) == TLCEval([r \in 1..ny |-> TLCEval([c \in 1..nx |-> f(o[r][c])])])
Power(o) == FoldLeft(LAMBDA m, row : m + FoldLeft(LAMBDA k, u : k + CNorm2(u), 0, row), 0, o)

\* cos and sin of num/den turns by interpolation in the table (den < 8000)
CosFrac(num, den) ==
  LET n == num % den  k == (n * TURN) \div den  f == n * TURN - k * den IN
  RDiv(CosT(k) * (den - f) + CosT(k + 1) * f, den)
SinFrac(num, den) ==
  LET n == num % den  k == (n * TURN) \div den  f == n * TURN - k * den IN
  RDiv(SinT(k) * (den - f) + SinT(k + 1) * f, den)

\* image field at row R, column C (from 0) of a sparse output field, a sequence of
\* [r, c, re, im] on the padded plane, scaled by SC
SparseField(px, NY, NX, R, C) ==
  LET H == NY \div 2  W == NX \div 2
      term(q) == LET py == ((q.r - H) * (R - H)) % NY
                     pxx == ((q.c - W) * (C - W)) % NX
                     u == CRDiv(CMul(<< CosFrac(py, NY), SinFrac(py, NY) >>, << CosFrac(pxx, NX), SinFrac(pxx, NX) >>), SC)
                 IN CMul(<< q.re, q.im >>, u)
  IN CSum([k \in 1..Len(px) |-> term(px[k])])
====
