---- MODULE MC_Calculation ----
(***************************************************************************)
(* The consequence stated in C09: the part of the propagated gray-scale     *)
(* state that follows the phase of the target is eta/4 times the target,     *)
(* centred on the first-order origin (its mirror image for a negative order  *)
(* device), for any input beam.                                             *)
(***************************************************************************)
EXTENDS Calculation
VARIABLES g, E, t
Q(a, b, c, m) == [a |-> a, b |-> b, c |-> c, m |-> m]
Init ==
  /\ g \in { [Nx |-> nx, Ny |-> ny, ga |-> v[1], gb |-> v[2], M |-> m, neg |-> n] :
             nx \in {2, 4}, ny \in {4, 6}, v \in {<<1, 0>>, <<0, 1>>, <<1, -1>>}, m \in {2, 4}, n \in {TRUE, FALSE} }
  /\ OnGrid(g)
  /\ E \in { [k |-> "map", re |-> Q(x, y, 1, 5), im |-> Q(0, 1, y, 5), off |-> 0, hole |-> 0] : x \in {1, 3}, y \in {0, 3} }
  /\ t \in { [k |-> "map", re |-> Q(x, 1, y, 3), im |-> Q(1, 2, 1, 4), off |-> 1, hole |-> h] : x \in {0, 2}, y \in {1, 2}, h \in {0, 2} }
Next == UNCHANGED <<g, E, t>>
ny == g.Ny
nx == g.Nx
EM == FieldMat(E, ny, nx)
Bright == \A r \in 1..ny, c \in 1..nx : EM[r][c] # CZero
TM == FieldMat(t, ny, nx)
Rot(m, k) == CMat(ny, nx, LAMBDA r, c : CRDiv(CMul(CScale(128, m[r+1][c+1]), CExp(k)), SC))
First ==
  LET \* one scale for all three targets
      K == Min2(4000, Scale(TM, ny, nx) \div 182)
      spec(k) == SpectrumK(Rot(TM, k), << >>, ny, nx, K)
      T0 == spec(0)  M == MaxRho(RhoMat(T0, EM, ny, nx))
      st(T) == CMat(ny, nx, LAMBDA r, c : LET v == GrayVal(g, T[r+1][c+1], EM[r+1][c+1], M, r, c) IN
                      CRDiv(CScale(v, EM[r+1][c+1]), 32))
      img(k) == TLCEval(DFT2(st(spec(k)), ny, nx, 1))
      I == << img(0), img(80), img(160) >>
      \* demodulation: (1/3) sum exp(-i k) image_k
      F == CMat(ny, nx, LAMBDA r, c : CRDiv(CSum([j \in 1..3 |-> CRDiv(CMul(CScale(1, I[j][r+1][c+1]), CExp(-80 * (j - 1))), 64)]), 3 * (SC \div 64)))
      sg == IF g.neg THEN -1 ELSE 1
      \* state in 512ths; eta/4 t = nx ny/(4 M) t with M = K*16*|t| units
      want(r, c) == LET u == TM[((r - sg * OrigR(g)) % ny) + 1][((c - sg * OrigC(g)) % nx) + 1] IN
                    << SDiv(u[1] * nx * ny * 128 * 128 * K, M), SDiv(u[2] * nx * ny * 128 * 128 * K, M) >>
  IN (Bright /\ M > 200) => \A r \in 0..(ny-1), c \in 0..(nx-1) : CClose(F[r+1][c+1], want(r, c), 40)
\* gray values lie between 0 and 1 and the brightest mirror reaches 1 - the amplitude is normalised
Valid ==
  LET T == Spectrum(Rot(TM, 0), << >>, ny, nx)  P == RhoMat(T, EM, ny, nx)  M == MaxRho(P) IN
  M > 200 => /\ \A r \in 1..ny, c \in 1..nx : LET v == GrayVal(g, T[r][c], EM[r][c], M, r-1, c-1) IN v >= -40 /\ v <= SC + 40
             /\ \E r \in 1..ny, c \in 1..nx : P[r][c] = M
====
