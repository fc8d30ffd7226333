---- MODULE Trace_Calculation ----
(* Recorded DMD calculations against Calculation (C09). *)
EXTENDS Calculation, TraceBase
VARIABLES s, l
TInit == s \in 1..Len(Trace) /\ l = 0
Ev == Trace[s].events[l + 1]
ShapeIs(m, ny, nx) == Len(m) = ny /\ \A r \in 1..ny : Len(m[r]) = nx
Eta(e, M, K) == LET want == MulDiv1000(M, K) IN Close(e.m, want, 3 + (5000 \div K) + want \div 3000 + want \div Max2(1, M \div 3))

CalcFails(e) ==
  LET g == e.g  ny == g.Ny  nx == g.Nx
      t == FieldMat(e.t, ny, nx)  E == FieldMat(e.E, ny, nx)
      w == IF e.w.k = "none" THEN << >> ELSE FieldMat(e.w, ny, nx)
      K == Min2(4000, Scale(t, ny, nx))
      T == SpectrumK(t, w, ny, nx, K)
      M == MaxRho(RhoMat(T, E, ny, nx))
      \* accuracy of gray values: the spectrum is known to a few units out of M
      tol == 4 + (6 * SC) \div M
      \* values where rounding in the spectrum matters (T = 0 up to rounding) are excluded by the weight |T| itself
      ok(r, c) ==
        LET o == e.st[r][c]  v == GrayVal(g, T[r][c], E[r][c], M, r - 1, c - 1) IN
        IF E[r][c] = CZero THEN o = 0 ELSE
        CASE e.method = "ideal"  -> Close(o, v, tol)
          [] e.method = "simple" -> LET q == CalcSimple(v, tol) IN IF q = 2 THEN o \in {0, SC} ELSE o = q * SC
          [] OTHER -> LET q == CalcSteep(g, T[r][c], E[r][c], M, r - 1, c - 1) IN IF q = 2 THEN o \in {0, SC} ELSE o = q * SC
  IN (IF e.binary = (e.method # "ideal") THEN {} ELSE {"binary state of " \o e.method})
     \cup (IF ~ShapeIs(e.st, ny, nx) THEN {"shape of the state"}
           ELSE IF \A r \in 1..ny, c \in 1..nx : ok(r, c) THEN {} ELSE {"mirror values of " \o e.method})
     \cup (IF Eta(e, M, K) THEN {} ELSE {"eta of calculate_dmd_state"})
     \cup (IF e.dirty THEN {"argument modified"} ELSE {})

\* e.img[j]: image for the target turned by j/3, times 4/eta and 1024; e.etas: eta relative to the first
\* e.org: first_order_origin in image pixels times 1000
BeamFails(e) ==
  LET g == e.g  ny == g.Ny + 2 * e.ps[1] * g.Ny  nx == g.Nx + 2 * e.ps[2] * g.Nx
      t == FieldMat(e.t, g.Ny, g.Nx)
      ky == 1 + 2 * e.ps[1]  kx == 1 + 2 * e.ps[2]
      sg == IF g.neg THEN -1 ELSE 1
      F(r, c) == \* demodulated image at image-plane offset (r, c) from the first order
         LET R == ((ny \div 2) + ky * (r + sg * OrigR(g))) % ny  C == ((nx \div 2) + kx * (c + sg * OrigC(g))) % nx IN
         CRDiv(CSum([j \in 1..3 |-> CRDiv(CMul(e.img[j][R+1][C+1], CExp(-80 * (j - 1))), 16)]), 3 * (SC \div 16))
      want(r, c) == CScale(1024, t[r + (g.Ny \div 2) + 1][c + (g.Nx \div 2) + 1])
      tol == 6 + MaxSeq([j \in 1..3 |-> MaxMag(e.img[j])]) \div 200
  IN (IF \A j \in 1..3 : ShapeIs(e.img[j], ny, nx) THEN {} ELSE {"shape of the image"})
     \cup (IF Close(e.org[1], 1000 * OrigC(g), 3) /\ Close(e.org[2], -1000 * OrigR(g), 3) THEN {} ELSE {"first_order_origin"})
     \cup (IF \A j \in 1..3 : Close(e.etas[j], 100000, 20) THEN {} ELSE {"eta depends on the phase of the target"})
     \cup (IF (\A j \in 1..3 : ShapeIs(e.img[j], ny, nx)) /\
              \E r \in (-(g.Ny \div 2))..(g.Ny \div 2 - 1), c \in (-(g.Nx \div 2))..(g.Nx \div 2 - 1) : ~CClose(F(r, c), want(r, c), tol)
           THEN {"first-order beam is not eta/4 times the target"} ELSE {})

Fails(e) == IF e.exc # "" THEN {e.op \o " raised " \o e.exc} ELSE IF e.op = "calc" THEN CalcFails(e) ELSE BeamFails(e)
TNext ==
  /\ l < Len(Trace[s].events)
  /\ Report(s, l + 1, Fails(Ev))
  /\ l' = l + 1 /\ UNCHANGED s
TSpec == TInit /\ [][TNext]_<<s, l>>
====
