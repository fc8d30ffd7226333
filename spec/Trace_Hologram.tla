---- MODULE Trace_Hologram ----
(* Recorded LCOS hologram calculations against Hologram (C13). *)
EXTENDS Hologram, TraceBase
VARIABLES s, l
TInit == s \in 1..Len(Trace) /\ l = 0
Evs == Trace[s].events
Ev == Evs[l + 1]
Ny == Evs[1].Ny
Nx == Evs[1].Nx
StepFails(e) ==
  LET E == EOf(e.E, Ny, Nx)  A == AOf(e.A, Ny, Nx)  P == ImageOf(e.u0, E, Ny, Nx)
      C == TLCEval(Correct13(e, P, A, WOf(e.win, Ny, Nx), Ny, Nx))  G == Back(C, E, Ny, Nx)
      tol == Uncertain(P, A, Ny, Nx)
  IN IF \A r \in 1..Ny, c \in 1..Nx : E[r][c] = CZero \/ Dir(e.u1[r][c], G[r][c], tol * (Abs(E[r][c][1]) + Abs(E[r][c][2])))
     THEN {} ELSE {"step of " \o e.method}
SetFails(e) == \* common to every calculation
  (IF e.dirty THEN {"argument modified"} ELSE {})
\* amplitudes observed in the simulated image plane, 1/4096 (as an inverse DFT)
DescendFails(e) ==
  LET A == AOf(e.A, Ny, Nx)
      err(m) == SumSeq([k \in 1..(Ny * Nx) |-> LET d == m[1 + ((k-1) \div Nx)][1 + ((k-1) % Nx)] - 256 * A[1 + ((k-1) \div Nx)][1 + ((k-1) % Nx)] IN RDiv(d * d, 64)])
      errs == [i \in 1..Len(e.amps) |-> err(e.amps[i])]
  IN IF \A i \in 1..(Len(errs) - 1) : errs[i+1] <= errs[i] + 40 + Ny * Nx + (errs[i] \div 2000) THEN {} ELSE {"the error of gs grew"}
SpotFails(e) ==
  LET tot == SumSeq([k \in 1..(Ny * Nx) |-> MapV(e.mod, (k-1) \div Nx, (k-1) % Nx)]) IN
  IF Close(e.amp, 256 * tot, 2 + (256 * tot) \div 1500) THEN {} ELSE {"target not shown in its place"}
RandFails(e) ==
  LET n == e.n  bins == e.bins  IN
  (IF \A b \in 1..8 : (8 * bins[b] - n) * (8 * bins[b] - n) <= 36 * 7 * n + 64 THEN {} ELSE {"starting phase not uniform over the turn"})
  \cup (IF e.range THEN {} ELSE {"starting phase out of range"})
  \cup (IF e.joint * 64 <= n * 8 + 64 * 6 * ISqrt(n) THEN {} ELSE {"starting phases correlated"})
  \cup (IF e.fresh THEN {} ELSE {"starting phase repeated"})
Fails(e) ==
  IF e.op = "new" THEN {}
  ELSE IF e.exc # "" THEN {e.op \o " raised " \o e.exc}
  ELSE (IF e.shape = <<Ny, Nx>> THEN {} ELSE {"shape of the state"}) \cup (IF e.real THEN {} ELSE {"state is not a phase"}) \cup
  CASE e.op = "step" -> SetFails(e) \cup (IF e.repro THEN StepFails(e) ELSE {})
    [] e.op = "descend" -> IF e.repro THEN DescendFails(e) ELSE {}
    [] e.op = "spot" -> SetFails(e) \cup SpotFails(e)
    [] e.op = "reset" -> IF e.mirror THEN {} ELSE {"a reset device is no plain mirror"}
    [] e.op = "rand" -> RandFails(e)
    [] e.op = "default" -> IF ~e.repro \/ e.same THEN {} ELSE {"default of " \o e.which}
    [] OTHER -> (IF e.raised THEN {} ELSE {e.op \o " was accepted"}) \cup (IF e.kept THEN {} ELSE {"rejected command changed the state"})
TNext ==
  /\ l < Len(Evs)
  /\ Report(s, l + 1, Fails(Ev))
  /\ l' = l + 1 /\ UNCHANGED s
TSpec == TInit /\ [][TNext]_<<s, l>>
====
