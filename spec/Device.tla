---- MODULE Device ----
(***************************************************************************)
(* Devices and simulations as a state machine (C06, C07, C11, C12).        *)
(*  devs: [kind "dmd"/"lcos", Nx, Ny, ga, gb, M, neg, bin, st]              *)
(*     st[r][c]: mirror value in 1/16384 (dmd) or phase in 1/240 turn (lcos) *)
(*     bin: the state is binary (dmd)                                        *)
(*  sims: [dev, px, py, cls, snap]                                            *)
(*     snap: << >> or the last propagation [inp, out, cuts], out in 1/128;    *)
(*     cuts: sequence of squared radii << n, d >> blocked so far               *)
(***************************************************************************)
EXTENDS Optics, Gratings

VARIABLES devs, sims

Mat(ny, nx, F(_, _)) == TLCEval([r \in 1..ny |-> TLCEval([c \in 1..nx |-> F(r - 1, c - 1)])])
DInit == devs = << >> /\ sims = << >>

(*------------------------------ commands ----------------------------------*)
NewDev(q) == /\ devs' = Append(devs, q @@ [bin |-> TRUE, st |-> Mat(q.Ny, q.Nx, LAMBDA r, c : 0)])
             /\ UNCHANGED sims
NewSim(d, px, py, cls) ==
  /\ devs' = devs
  /\ sims' = Append(sims, [dev |-> d, px |-> px, py |-> py, cls |-> cls, snap |-> << >>])

\* the state a command leaves: where a value is not determined (2 in Want) the observation decides
Put(d, bin, M) == devs' = [devs EXCEPT ![d].st = M, ![d].bin = bin]

\* wanted values of a grating command: gray value, or 0/1, or -1 when either is allowed
GratingVal(g, e, r, c) ==
  LET pin == MapV(e.pin, r, c)  pout == MapV(e.pout, r, c)  h == HAngle(g, r, c, pin, pout)
      t == CASE e.method = "ideal"  -> IdealV(MapV(e.amp, r, c), h)
             [] e.method = "simple" -> SimpleV(MapV(e.amp, r, c), h)
             [] e.method = "steep"  -> SteepV(MapV(e.amp, r, c), h)
  IN IF e.method = "ideal" THEN t ELSE IF t = 2 THEN -1 ELSE t * SC

\* target: a single pixel (R, C) of the image plane; input: unit amplitude with phase map pin.
\* the transform of the target is a plane wave, so the amplitude is 1 everywhere
CalcVal(g, e, r, c) ==
  LET H == g.Ny \div 2  W == g.Nx \div 2
      pout == -((TURN \div g.Ny) * (r - H) * (e.R - H) + (TURN \div g.Nx) * (c - W) * (e.C - W))
      h == HAngle(g, r, c, MapV(e.pin, r, c), pout)
      t == CASE e.method = "ideal"  -> IdealV(16, h)
             [] e.method = "simple" -> SimpleV(16, h)
             [] e.method = "steep"  -> SteepV(60, h)
  IN IF e.method = "ideal" THEN t ELSE IF t = 2 THEN -1 ELSE t * SC

Allowed(want, obs) == IF want = -1 THEN obs \in {0, SC} ELSE Abs(obs - want) <= 4
Resolve(want, obs) == IF want = -1 THEN (IF obs \in {0, SC} THEN obs ELSE 0) ELSE want

\* matrix of wanted values of device g after command e
WantMat(g, e) ==
  CASE e.op = "on"   -> Mat(g.Ny, g.Nx, LAMBDA r, c : SC)
    [] e.op = "off"  -> Mat(g.Ny, g.Nx, LAMBDA r, c : 0)
    [] e.op = "grating" -> Mat(g.Ny, g.Nx, LAMBDA r, c : GratingVal(g, e, r, c))
    [] e.op = "calc"    -> Mat(g.Ny, g.Nx, LAMBDA r, c : CalcVal(g, e, r, c))
    [] e.op = "patch"   -> Mat(g.Ny, g.Nx, LAMBDA r, c :
          IF InPatch(e.i2, e.j2, e.d2, r, c) THEN GratingVal(g, e, r, c) ELSE g.st[r+1][c+1])
    \* direct assignment by the user: 0/1 maps, gray maps in sixteenths, integers 0, 2, 4, phases
    [] e.op = "assign"  -> Mat(g.Ny, g.Nx, LAMBDA r, c :
          CASE e.form = "bool" -> (MapV(e.map, r, c) % 2) * SC
            [] e.form = "gray" -> MapV(e.map, r, c) * 1024
            [] e.form = "int"  -> 2 * (MapV(e.map, r, c) % 3) * SC
            [] OTHER           -> MapV(e.map, r, c))
    [] e.op = "poke"    -> [g.st EXCEPT ![e.r + 1] = [g.st[e.r + 1] EXCEPT ![e.c + 1] = IF g.kind = "lcos" THEN e.v ELSE e.v * SC]]
    [] e.op = "reset"   -> Mat(g.Ny, g.Nx, LAMBDA r, c : 0)
    [] OTHER -> g.st
\* whether the state is binary afterwards (a gray patch promotes)
WantBin(g, e) ==
  CASE e.op \in {"on", "off", "reset"} -> TRUE
    [] e.op \in {"grating", "calc"} -> e.method # "ideal"
    [] e.op = "patch"  -> g.bin /\ e.method # "ideal"
    [] e.op = "assign" -> e.form = "bool"
    [] OTHER -> g.bin

StateOps == {"on", "off", "grating", "calc", "patch", "assign", "poke", "reset"}

(*------------------------------ simulations --------------------------------*)
Resp(g, r, c) == IF g.kind = "lcos" THEN CExp(g.st[r+1][c+1]) ELSE << g.st[r+1][c+1], 0 >>
\* input fields of a history: Gaussian integers by formula
InF(e, r, c) == << MapV(e.re, r, c) - e.off, MapV(e.im, r, c) - e.off >>
OutUnit == 128
Propagate(k, e) ==
  LET s == sims[k]  g == devs[s.dev]
      inp == Mat(g.Ny, g.Nx, LAMBDA r, c : InF(e, r, c))
      out == Mat(g.Ny, g.Nx, LAMBDA r, c : CRDiv(CMul(InF(e, r, c), Resp(g, r, c)), 128))
  IN /\ sims' = [sims EXCEPT ![k].snap = << [inp |-> inp, out |-> out, cuts |-> << >>] >>]
     /\ UNCHANGED devs
Clear(k) == sims' = [sims EXCEPT ![k].snap = << >>] /\ UNCHANGED devs
DefaultCut(g) == << g.ga * g.ga + g.gb * g.gb, 4 * g.M * g.M >>
\* squared radius in units of (wavelength*focal length/pitch)^2; refused without a propagation
CanBlock(k) == sims[k].cls = "dmd" /\ sims[k].snap # << >>
Block(k, cut) ==
  IF CanBlock(k) THEN /\ sims' = [sims EXCEPT ![k].snap[1].cuts = Append(@, cut)] /\ UNCHANGED devs
  ELSE UNCHANGED <<devs, sims>>

SNY(s) == devs[s.dev].Ny + 2 * s.py
SNX(s) == devs[s.dev].Nx + 2 * s.px
\* position of an image point relative to a cut: "in" blocked, "out" kept, "on" the edge.
\* A cut << n, d, TRUE >> is exact in binary arithmetic; its edge is kept
CutPos(s, cut, R, C) ==
  LET ny == SNY(s)  nx == SNX(s)
      X == (C - (nx \div 2)) * ny  Y == ((ny \div 2) - R) * nx
      lhs == (X * X + Y * Y) * cut[2]
      rhs == cut[1] * nx * nx * ny * ny
  IN IF lhs = rhs THEN (IF cut[1] = 0 \/ (Len(cut) > 2 /\ cut[3]) THEN "out" ELSE "on") ELSE IF lhs < rhs THEN "in" ELSE "out"

(*------------------------------- invariants --------------------------------*)
BinaryIsBinary == \A d \in 1..Len(devs) : (devs[d].kind = "dmd" /\ devs[d].bin) =>
   \A r \in 1..devs[d].Ny, c \in 1..devs[d].Nx : devs[d].st[r][c] \in {0, SC}
\* unless gray values above one were assigned, no mirror creates light
Passive == \A k \in 1..Len(sims) : sims[k].snap # << >> =>
   LET g == devs[sims[k].dev] IN
   \A r \in 1..g.Ny, c \in 1..g.Nx :
      CNorm2(sims[k].snap[1].out[r][c]) <= (OutUnit * OutUnit + 400) * CNorm2(sims[k].snap[1].inp[r][c]) + 400
\* the packed bytes of a binary device
PackByte(g, k) == \* k-th byte, 0-based
  SumSeq([b \in 1..8 |-> LET n == 8 * k + b - 1 IN
    IF n < g.Nx * g.Ny /\ g.st[(n \div g.Nx) + 1][(n % g.Nx) + 1] # 0 THEN Pow(2, 8 - b) ELSE 0])
PackLen(g) == (g.Nx * g.Ny + 7) \div 8
Packed(g) == [k \in 1..PackLen(g) |-> PackByte(g, k - 1)]
\* unpacking gives back the state
Bit(bytes, n) == (bytes[(n \div 8) + 1] \div Pow(2, 7 - (n % 8))) % 2
PackInverse == \A d \in 1..Len(devs) : (devs[d].kind = "dmd" /\ devs[d].bin) =>
   LET g == devs[d] B == Packed(g) IN
   \A n \in 0..(8 * PackLen(g) - 1) :
      Bit(B, n) = (IF n < g.Nx * g.Ny /\ g.st[(n \div g.Nx) + 1][(n % g.Nx) + 1] = SC THEN 1 ELSE 0)
====
