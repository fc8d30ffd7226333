---- MODULE Trace_Analysis ----
(* Recorded Zernike analyses against Analysis (C18). *)
EXTENDS Analysis, TraceBase
VARIABLES s, l
TInit == s \in 1..Len(Trace) /\ l = 0
Evs == Trace[s].events
Ev == Evs[l + 1]
Ny == Evs[1].ny
Nx == Evs[1].nx
R2 == Evs[1].R2

AnsiFails(e) == IF \A k \in 1..Len(e.tab) : AnsiOk(e.tab[k][1], e.tab[k][2], e.tab[k][3]) THEN {} ELSE {"ANSI index"}
\* k coefficients c (2^-18) and a reconstruction (2^-12)
DecompFails(e) ==
  LET p == PMap(e.map, Ny, Nx)  ap == TLCEval(Pix(Ny, Nx, R2))
      cbs == TLCEval([j \in 1..e.k |-> CoefB(p, ap, AnsiN(j-1), AnsiM(j-1), Ny, Nx, R2)])
  IN (IF Len(e.c) = e.k THEN {} ELSE {"number of coefficients"})
  \cup (IF \A j \in 1..Min2(e.k, Len(e.c)) : LET v == Coef18(cbs[j], AnsiN(j-1), AnsiM(j-1)) IN Close(e.c[j], v, 20 + Abs(v) \div 50000)
        THEN {} ELSE {"coefficient"})
  \cup (IF ~e.rec THEN {} ELSE
        (IF e.recshape = << Ny, Nx >> THEN {} ELSE {"shape of the reconstruction"})
        \cup (IF e.recshape # << Ny, Nx >> THEN {} ELSE
              (IF \A z \in ap : Tame(e.k, Ny, Nx, R2, z[1], z[2]) => LET v == ReconAt(cbs, e.k, Ny, Nx, R2, z[1], z[2]) IN
                     Close(e.r[z[1]+1][z[2]+1], v, 4 + e.k + Abs(v) \div 20000) THEN {} ELSE {"reconstruction"})
              \cup (IF \A r \in 0..(Ny-1), c \in 0..(Nx-1) : D2(Ny, Nx, r, c) > R2 * R2 =>
                     (IF ~e.ext THEN e.r[r+1][c+1] = 0
                      ELSE D2(Ny, Nx, r, c) <= 4 * R2 * R2 /\ e.k <= 28 /\ Tame(e.k, Ny, Nx, R2, r, c) =>
                        LET v == ReconAt(cbs, e.k, Ny, Nx, R2, r, c) IN Close(e.r[r+1][c+1], v, 4 + 8 * e.k + Abs(v) \div 20000))
                    THEN {} ELSE {"reconstruction beyond the radius"})))
StripFails(e) ==
  LET p == PMap(e.map, Ny, Nx)  ap == TLCEval(Pix(Ny, Nx, R2))  u == VU(R2)
      v == Strip(BMat(Ny, Nx, LAMBDA r, c : u * p[r+1][c+1]), Trivial(e.defocus), ap, Ny, Nx, R2)
  IN (IF e.shape = << Ny, Nx >> THEN {} ELSE {"shape of the result"})
  \cup (IF e.shape # << Ny, Nx >> \/ \A z \in ap : Close((e.out[z[1]+1][z[2]+1] + 8) \div 16, v[z[1]+1][z[2]+1], 4) THEN {} ELSE {"removal"})
  \cup (IF e.outer_same THEN {} ELSE {"value beyond the radius changed"})
Fails(e) ==
  IF e.op = "new" THEN {}
  ELSE IF e.exc # "" THEN {e.op \o " raised " \o e.exc}
  ELSE IF e.op = "ansi" THEN AnsiFails(e)
  ELSE (IF e.dirty THEN {"argument modified"} ELSE {}) \cup IF e.op = "decomp" THEN DecompFails(e) ELSE StripFails(e)
TNext ==
  /\ l < Len(Evs)
  /\ Report(s, l + 1, Fails(Ev))
  /\ l' = l + 1 /\ UNCHANGED s
TSpec == TInit /\ [][TNext]_<<s, l>>
====
