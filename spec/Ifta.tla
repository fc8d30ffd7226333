---- MODULE Ifta ----
(***************************************************************************)
(* The iterative Fourier transform algorithm (C10).  Gray values are in      *)
(* units of 1/GU.  e: [g, amp (sixteenths), pin, pout (1/240 turn): maps,     *)
(*   E: matrix of small Gaussian integers, win: map in quarters, N, s4: s in   *)
(*   quarters].                                                              *)
(***************************************************************************)
EXTENDS Precise

GU == 1048576
\* starting gray value, s times ideal
IdealB(g, am, pin, pout, s4, r, c) ==
  LET h == HAngle(g, r, c, pin, pout) IN RDiv(am * s4 * (GU + (Cos28(h) \div 256)), 128)
\* (division by 128: 16 for the amplitude, 4 for s, 2 for the mean)

Binarize(v, lo, hi) == IF v > hi THEN GU ELSE IF v < lo THEN 0 ELSE v
\* (not the algorithm: negative values escape the lower threshold)
KeepNeg(v, lo, hi) == IF v > hi THEN GU ELSE IF Abs(v) < lo THEN 0 ELSE v
\* thresholds of step i (1..N)
Lo(i, N) == (GU * i) \div (2 * N)
Hi(i, N) == GU - (GU * i) \div (2 * N)
Modulated(G, E, ny, nx) == BMat(ny, nx, LAMBDA r, c : CScale(G[r+1][c+1], E[r+1][c+1]))
\* inside the window (weight w quarters) the field of the starting grating replaces the current one
Correct(P, P0, w, ny, nx) == BMat(ny, nx, LAMBDA r, c :
   LET p == P[r+1][c+1]  q == P0[r+1][c+1]  k == w[r+1][c+1] IN << p[1] + RDiv((q[1] - p[1]) * k, 4), p[2] + RDiv((q[2] - p[2]) * k, 4) >>)
DivideOut(F, E, ny, nx) == BMat(ny, nx, LAMBDA r, c :
   LET u == E[r+1][c+1] f == F[r+1][c+1] IN IF u = CZero THEN 0 ELSE RDiv(f[1] * u[1] + f[2] * u[2], CNorm2(u)))

Near(v, t, eps) == Abs(v - t) <= eps
\* one step: [G: iterate, ok: no mirror was near a threshold]
IftaStep(st, P0, E, w, N, i, ny, nx, eps, neg) ==
  LET lo == Lo(i, N) hi == Hi(i, N)
      ok == \A r \in 1..ny, c \in 1..nx : E[r][c] = CZero \/ (~Near(st.G[r][c], lo, eps) /\ ~Near(st.G[r][c], hi, eps))
      B == BMat(ny, nx, LAMBDA r, c : IF neg THEN KeepNeg(st.G[r+1][c+1], lo, hi) ELSE Binarize(st.G[r+1][c+1], lo, hi))
      P == DFTB(Modulated(B, E, ny, nx), ny, nx, 1)
  IN [G |-> DivideOut(DFTB(Correct(P, P0, w, ny, nx), ny, nx, -1), E, ny, nx), ok |-> st.ok /\ ok]
\* (sh shifts the schedule of thresholds, 100 keeps negative values; the algorithm has sh = 0)
RECURSIVE IftaRun(_, _, _, _, _, _, _, _, _, _)
IftaRun(st, P0, E, w, N, i, ny, nx, eps, sh) ==
  IF i > N \/ ~st.ok THEN st ELSE IftaRun(TLCEval(IftaStep(st, P0, E, w, N, IF sh = 100 THEN i ELSE i + sh, ny, nx, eps, sh = 100)), P0, E, w, N, i + 1, ny, nx, eps, sh)
\* [G, ok] after N steps from the starting grating G0
IftaS(G0, E, w, N, ny, nx, eps, sh) ==
  LET P0 == DFTB(Modulated(G0, E, ny, nx), ny, nx, 1)
      st == IftaRun([G |-> G0, ok |-> TRUE], P0, E, w, N, 1, ny, nx, eps, sh)
      fin == \A r \in 1..ny, c \in 1..nx : ~Near(st.G[r][c], GU \div 2, eps)
  IN [G |-> st.G, ok |-> st.ok /\ fin]
Ifta(G0, E, w, N, ny, nx, eps) == IftaS(G0, E, w, N, ny, nx, eps, 0)
Final(v) == v > GU \div 2
\* threshold margin (parts of 2^20): rounding of this arithmetic and of single precision
Eps(N) == 40 + 20 * N

\* --- the three ways in ------------------------------------------------------
EMat(q, ny, nx) == BMat(ny, nx, LAMBDA r, c : IF q.hole # 0 /\ (r + 2*c + q.hs) % q.hole = 0 THEN CZero
                      ELSE << MapV(q.re, r, c) - q.off, MapV(q.im, r, c) - q.off >>)
WMat(q, ny, nx) == BMat(ny, nx, LAMBDA r, c : IF q.k = "box" THEN (IF r >= q.r0 /\ r <= q.r1 /\ c >= q.c0 /\ c <= q.c1 THEN q.v ELSE 0) ELSE MapV(q.map, r, c))
StartGrating(e) == BMat(e.g.Ny, e.g.Nx, LAMBDA r, c :
   IdealB(e.g, MapV(e.amp, r, c), MapV(e.pin, r, c), MapV(e.pout, r, c), e.s4, r, c))
\* calculate_dmd_state: input of modulus q.mod (a map with values among 0 and positive integers, index into 1, 2, 3, 6)
\* and phase in quarter turns, target a single pixel (R, C), so |T| is the same everywhere
Mods == << 0, 1, 2, 3 >>
CalcE(e) == BMat(e.g.Ny, e.g.Nx, LAMBDA r, c : LET m == Mods[(MapV(e.mod, r, c) % 4) + 1]  k == MapV(e.qt, r, c) % 4 IN
   CASE k = 0 -> << m, 0 >> [] k = 1 -> << 0, m >> [] k = 2 -> << -m, 0 >> [] OTHER -> << 0, -m >>)
MinMod(E, ny, nx) == LET S == { Abs(E[r][c][1]) + Abs(E[r][c][2]) : r \in 1..ny, c \in 1..nx } \ {0} IN CHOOSE x \in S : \A y \in S : x <= y
CalcStart(e) ==
  LET ny == e.g.Ny nx == e.g.Nx  E == CalcE(e)  m0 == MinMod(E, ny, nx) IN
  BMat(ny, nx, LAMBDA r, c : LET u == E[r+1][c+1]  m == Abs(u[1]) + Abs(u[2])
      pout == -((TURN \div ny) * (r - (ny \div 2)) * (e.R - (ny \div 2)) + (TURN \div nx) * (c - (nx \div 2)) * (e.C - (nx \div 2)))
      h == HAngle(e.g, r, c, 60 * (MapV(e.qt, r, c) % 4), pout)
    IN IF m = 0 THEN 0 ELSE RDiv(m0 * e.s4 * (GU + (Cos28(h) \div 256)), 8 * m))

\* mirrors without light in a case "dim"
Dark(e, r, c) == e.hole # 0 /\ (r + 2*c) % e.hole = 0
InputOf(e) == IF e.via = "calc" THEN CalcE(e) ELSE EMat(e.E, e.g.Ny, e.g.Nx)
StartOf(e) == IF e.via = "calc" THEN CalcStart(e) ELSE StartGrating(e)
ResultOf(e) == Ifta(StartOf(e), InputOf(e), WMat(e.win, e.g.Ny, e.g.Nx), e.N, e.g.Ny, e.g.Nx, Eps(e.N))
\* with an empty window a step only thresholds, however dim the light is (law Open of MC_Ifta): "on", "off" or "any"
OpenResult(e, r, c) == LET v == IdealB(e.g, MapV(e.amp, r, c), MapV(e.pin, r, c), MapV(e.pout, r, c), e.s4, r, c) IN
  IF Dark(e, r, c) THEN "off" ELSE IF Abs(v - GU \div 2) < GU \div 10 THEN "any" ELSE IF v > GU \div 2 THEN "on" ELSE "off"
\* the same calculation with another number of steps and a shifted schedule
Variant(e, N, sh) == IftaS(StartOf(e), InputOf(e), WMat(e.win, e.g.Ny, e.g.Nx), N, e.g.Ny, e.g.Nx, 0, sh)
====
