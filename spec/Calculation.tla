---- MODULE Calculation ----
(***************************************************************************)
(* calculate_dmd_state (C09).  e: [g, E, t, w, method] where g is a device   *)
(* (see Gratings), E, t, w describe Gaussian-integer matrices              *)
(*   [k |-> "map", re, im, off, hole] entries by formula, zero on the hole   *)
(*   [k |-> "none"]                       (no window)                          *)
(*   [k |-> "sparse", px]                                                    *)
(* With T the centred Fourier transform of the target times the window,      *)
(*   amp = (|T|/|E|)/max, state = amp (1 + cos(g - (arg T - arg E)))/2         *)
(*       = (|T|/|E| + Re(exp(ig) conj(T/E)))/(2 max)   (no arc tangent).      *)
(***************************************************************************)
EXTENDS Optics, Gratings
\* (a map with a field boost is that many times brighter off every third diagonal)

CMat(ny, nx, F(_, _)) == TLCEval([r \in 1..ny |-> TLCEval([c \in 1..nx |-> F(r - 1, c - 1)])])
FieldMat(q, ny, nx) ==
  IF q.k = "sparse"
  THEN CMat(ny, nx, LAMBDA r, c : LET S == SelectSeq(q.px, LAMBDA p : p.r = r /\ p.c = c) IN
              IF S = << >> THEN CZero ELSE << S[1].re, S[1].im >>)
  ELSE CMat(ny, nx, LAMBDA r, c : IF q.hole # 0 /\ (r + 2 * c) % q.hole = 0 THEN CZero
              ELSE LET k == IF "boost" \in DOMAIN q /\ (r + c) % 3 # 0 THEN q.boost ELSE 1 IN
                   << k * (MapV(q.re, r, c) - q.off), k * (MapV(q.im, r, c) - q.off) >>)

\* scale that keeps the transform inside 32 bits
Scale(t, ny, nx) == 20000 \div (Max2(1, MaxMag(t)) * ny * nx)
\* K times the windowed spectrum; K is chosen after the window so that products stay small
SpectrumK(t, w, ny, nx, K) ==
  LET T == DFT2(Map2(t, ny, nx, LAMBDA u : CScale(K, u)), ny, nx, -1)
  IN IF w = << >> THEN T ELSE TLCEval([r \in 1..ny |-> TLCEval([c \in 1..nx |-> CMul(T[r][c], w[r][c])])])

\* |T|/|E| as an integer; |T| below 46340
Rho(T, E) == IF E = CZero THEN 0 ELSE ISqrt(CNorm2(T) \div CNorm2(E))
RhoMat(T, E, ny, nx) == TLCEval([r \in 1..ny |-> TLCEval([c \in 1..nx |-> Rho(T[r][c], E[r][c])])])
MaxRho(P) == FoldLeft(LAMBDA m, row : Max2(m, MaxSeq(row)), 0, P)

\* conj(T/E), for a negative order device its conjugate
Ratio(g, T, E) == LET z == CRDiv(CMul(CConj(T), E), CNorm2(E)) IN IF g.neg THEN CConj(z) ELSE z
\* Re(exp(i angle) ratio): SC*|ratio|*cos(hologram angle)
CosPart(g, T, E, r, c) == IF E = CZero THEN 0 ELSE LET z == Ratio(g, T, E)  h == GAngle(g, r, c) IN z[1] * CosT(h) - z[2] * SinT(h)

\* gray value in 1/16384 (M > 0)
GrayVal(g, T, E, M, r, c) == RDiv(Rho(T, E) * SC + CosPart(g, T, E, r, c), 2 * M)
\* threshold methods: 1, 0, or 2 (within the margin tol/16384 of the threshold)
CalcSimple(v, tol) == IF Abs(v - SC \div 2) <= tol THEN 2 ELSE IF v > SC \div 2 THEN 1 ELSE 0
\* steep random: on iff arccos(cos h) < arcsin(amp), that is cos h > 0 and cos^2 h + amp^2 > 1
CalcSteep(g, T, E, M, r, c) ==
  LET p == Rho(T, E) IN
  IF E = CZero \/ T = CZero THEN 0 ELSE
  IF p = 0 THEN 2 ELSE
  LET co == RDiv(CosPart(g, T, E, r, c), p)          \* cos h in 1/SC
      am == RDiv(p * SC, M)
      k == (co \div 4) * (co \div 4) + (am \div 4) * (am \div 4) - 4096 * 4096
      \* accuracy of cos h: a few units of the spectrum over p
      tol == 400000 + (60000 \div p) * 4096
  IN IF co < 0 - 200 - (60000 \div p) THEN 0 ELSE IF Abs(k) <= tol \/ Abs(co) <= 200 + (60000 \div p) THEN 2 ELSE IF k > 0 THEN 1 ELSE 0

Spectrum(t, w, ny, nx) == SpectrumK(t, w, ny, nx, Min2(4000, Scale(t, ny, nx)))

\* 1000 M/K
MulDiv1000(M, K) == (M \div K) * 1000 + ((M % K) * 1000) \div K

\* the first-order origin in pixels of an unpadded image plane (needs M | N*g)
OrigC(g) == (g.Nx * g.ga) \div g.M
OrigR(g) == -((g.Ny * g.gb) \div g.M)
OnGrid(g) == (g.Nx * g.ga) % g.M = 0 /\ (g.Ny * g.gb) % g.M = 0
====
