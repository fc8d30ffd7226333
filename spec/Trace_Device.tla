---- MODULE Trace_Device ----
(* Recorded histories of devices and simulations against Device (C06, C07, C12). *)
EXTENDS Device, TraceBase
VARIABLES s, l
tvars == <<devs, sims, s, l>>
TInit == DInit /\ s \in 1..Len(Trace) /\ l = 0
Ev == Trace[s].events[l + 1]

ShapeIs(m, ny, nx) == Len(m) = ny /\ \A r \in 1..ny : Len(m[r]) = nx
PhaseClose(a, b) == LET d == (a - b) % TURN IN d <= 1 \/ d >= TURN - 1
ValOK(g, want, obs) == IF g.kind = "lcos" THEN PhaseClose(want, obs) ELSE Allowed(want, obs)
MatOK(g, want, obs) == ShapeIs(obs, g.Ny, g.Nx) /\ \A r \in 1..g.Ny, c \in 1..g.Nx : ValOK(g, want[r][c], obs[r][c])

\* every event carries the states of all devices: e.states[d], e.bins[d]
StateFails(e) ==
  UNION { IF "d" \in DOMAIN e /\ d = e.d /\ e.op \in StateOps
          THEN (IF MatOK(devs[d], WantMat(devs[d], e), e.states[d]) THEN {} ELSE {"state after " \o e.op})
               \cup (IF devs[d].kind = "lcos" \/ e.bins[d] = WantBin(devs[d], e) THEN {} ELSE {"binary flag after " \o e.op})
          ELSE (IF MatOK(devs[d], devs[d].st, e.states[d]) THEN {} ELSE {"state of a device not addressed by " \o e.op})
               \cup (IF devs[d].kind = "lcos" \/ e.bins[d] = devs[d].bin THEN {} ELSE {"binary flag not addressed by " \o e.op})
        : d \in 1..Len(devs) }

\* after a newdev event the new device itself is the last one recorded
NewFails(e) == LET n == Len(devs) + 1 IN
  (IF Len(e.states) = n /\ ShapeIs(e.states[n], e.q.Ny, e.q.Nx)
      /\ \A r \in 1..e.q.Ny, c \in 1..e.q.Nx : e.states[n][r][c] = 0
   THEN {} ELSE {"initial state"})
  \cup (IF e.q.kind = "lcos" \/ (e.bins[n] /\ Close(e.origin[1], 1000 * e.q.ga, 3) /\ Close(e.origin[2], 1000 * e.q.gb, 3))
        THEN {} ELSE {"initial state or first order origin"})

CalcFails(e) == IF e.op # "calc" THEN {} ELSE
   \* eta = pitch^2/(wavelength*focal length)*Nx*Ny / max(|T|/|E|); recorded relative to that with |T| = |E| = 1
   IF Close(e.eta, 100000, 40) THEN {} ELSE {"eta of calculate_dmd_state"}

PackFails(e) == IF e.op # "pack" THEN {} ELSE
   IF devs[e.d].bin THEN (IF e.packed = Packed(devs[e.d]) /\ e.perr = "" THEN {} ELSE {"packed bytes"})
   ELSE IF e.perr = "TypeError" THEN {} ELSE {"packing a gray-scale state must raise TypeError"}

RejectFails(e) == IF e.op # "reject" THEN {} ELSE IF e.rejected # "" THEN {} ELSE {"accepted " \o e.what}
BadSimFails(e) == IF e.op # "badsim" THEN {} ELSE
   IF e.rejected = "TypeError" THEN {} ELSE {"construction with a wrong parameter must raise TypeError"}
BlockFails(e) == IF e.op # "block" THEN {} ELSE
   IF CanBlock(e.k) THEN (IF e.rejected = "" THEN {} ELSE {"block_zeroth_order refused with a propagation present"})
   ELSE IF e.rejected # "" THEN {} ELSE {"block_zeroth_order accepted without a propagation"}

\* --- what a simulation reports -------------------------------------------
FieldOK(want, obs, ny, nx, tol) == ShapeIs(obs, ny, nx) /\ \A r \in 1..ny, c \in 1..nx : CClose(obs[r][c], want[r][c], tol)
\* amplitudes recorded next to a field: |field| = sqrt(intensity), compared after scaling down to avoid overflow
AmpOK(f, a, ny, nx) == ShapeIs(a, ny, nx) /\ \A r \in 1..ny, c \in 1..nx :
   LET u == << f[r][c][1] \div 4, f[r][c][2] \div 4 >>  v == a[r][c] \div 4
       k == Max2(Max2(Abs(u[1]), Abs(u[2])), Abs(v))
   IN Abs(v) <= 30000 /\ k <= 30000 /\ a[r][c] >= 0 /\ Abs(CNorm2(u) - v * v) <= 6 * k + 8
ReadFails(e) ==
  LET k == sims[e.k] g == devs[k.dev] ny == SNY(k) nx == SNX(k) IN
  IF k.snap = << >> THEN (IF e.none = 6 /\ e.powers = << >> THEN {} ELSE {"results reported without a propagation"})
  ELSE IF e.none # 0 \/ Len(e.powers) # 3 THEN {"results missing after a propagation"}
  ELSE LET sn == k.snap[1]
           inp == Pad(Map2(sn.inp, g.Ny, g.Nx, LAMBDA u : CScale(OutUnit, u)), g.Ny, g.Nx, k.py, k.px)
           out == Pad(sn.out, g.Ny, g.Nx, k.py, k.px)
           img == DFT2(out, ny, nx, 1)
           pos == TLCEval([r \in 1..ny |-> TLCEval([c \in 1..nx |-> TLCEval({CutPos(k, sn.cuts[i], r-1, c-1) : i \in 1..Len(sn.cuts)})])])
           imgOK == ShapeIs(e.img, ny, nx) /\ \A r \in 1..ny, c \in 1..nx :
               IF "in" \in pos[r][c] THEN e.img[r][c] = CZero
               ELSE \/ CClose(e.img[r][c], img[r][c], 24)
                    \/ ("on" \in pos[r][c] /\ e.img[r][c] = CZero)
           edge == \E r \in 1..ny, c \in 1..nx : "on" \in pos[r][c] /\ "in" \notin pos[r][c]
           cutp == SumSeq([r \in 1..ny |-> SumSeq([c \in 1..nx |->
                     IF "in" \in pos[r][c] THEN CNorm2(CRDiv(img[r][c], 32)) ELSE 0])])
           pin == Power(sn.inp)
           \* output power in units of 1/256
           pout == SumSeq([r \in 1..g.Ny |-> SumSeq([c \in 1..g.Nx |-> RDiv(CNorm2(sn.out[r][c]), 64)])])
       IN (IF FieldOK(inp, e.inp, ny, nx, 2) THEN {} ELSE {"input field"})
          \cup (IF FieldOK(out, e.out, ny, nx, 3) THEN {} ELSE {"output field"})
          \cup (IF imgOK THEN {} ELSE {"image plane field"})
          \cup (IF AmpOK(e.inp, e.ainp, ny, nx) /\ AmpOK(e.out, e.aout, ny, nx) /\ AmpOK(e.img, e.aimg, ny, nx) THEN {} ELSE {"intensity"})
          \cup (IF Close(e.powers[1], 256 * pin, 2 + pin \div 20) /\ Close(e.powers[2], pout, 64 + pout \div 100) THEN {} ELSE {"power"})
          \cup (IF edge \/ Close(e.powers[3], pout - (16 * cutp) \div (ny * nx), 256 + pout \div 50) THEN {} ELSE {"image plane power"})

Fails(e) ==
  IF e.exc # "" THEN {e.op \o " raised " \o e.exc}
  ELSE (IF Len(e.states) # Len(devs) + (IF e.op = "newdev" THEN 1 ELSE 0) THEN {"number of devices"} ELSE StateFails(e))
       \cup (IF e.op = "newdev" THEN NewFails(e) ELSE {})
       \cup CalcFails(e) \cup PackFails(e) \cup RejectFails(e) \cup BlockFails(e) \cup BadSimFails(e)
       \cup (IF e.op = "read" THEN ReadFails(e) ELSE {})
       \cup (IF e.dirty THEN {"argument modified by " \o e.op} ELSE {})

Merge(g, want, obs) == TLCEval([r \in 1..g.Ny |-> TLCEval([c \in 1..g.Nx |->
    IF g.kind = "lcos" THEN want[r][c] ELSE Resolve(want[r][c], IF ShapeIs(obs, g.Ny, g.Nx) THEN obs[r][c] ELSE 0)])])
TNext ==
  /\ l < Len(Trace[s].events)
  /\ Report(s, l + 1, Fails(Ev))
  /\ l' = l + 1 /\ UNCHANGED s
  /\ CASE Ev.op = "newdev" -> NewDev(Ev.q)
       [] Ev.op = "newsim" -> NewSim(Ev.d, Ev.px, Ev.py, Ev.cls)
       [] Ev.op \in StateOps ->
            LET g == devs[Ev.d] IN
            /\ Put(Ev.d, WantBin(g, Ev), Merge(g, WantMat(g, Ev), IF Ev.exc = "" THEN Ev.states[Ev.d] ELSE << >>))
            /\ UNCHANGED sims
       [] Ev.op = "prop"  -> Propagate(Ev.k, Ev)
       [] Ev.op = "clear" -> Clear(Ev.k)
       [] Ev.op = "block" -> Block(Ev.k, Append(Ev.cut, Ev.sharp))
       [] OTHER -> UNCHANGED <<devs, sims>>
TSpec == TInit /\ [][TNext]_tvars
====
