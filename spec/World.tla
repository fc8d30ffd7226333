---- MODULE World ----
(***************************************************************************)
(* Several live devices and simulations whose grids are read (C01).        *)
(* The grids are functions of the object's own parameters and of nothing   *)
(* else: reading, overwriting a returned array and creating further objects *)
(* are all stuttering steps as far as any grid is concerned.                *)
(***************************************************************************)
EXTENDS Geometry

VARIABLES objs      \* sequence of planes, in order of creation

WInit == objs = << >>

NewDevice(nx, ny) == objs' = Append(objs, [Nx |-> nx, Ny |-> ny, px |-> 0, py |-> 0, sim |-> FALSE])
NewSimulation(d, px, py) ==
  /\ d \in 1..Len(objs)
  /\ ~objs[d].sim
  /\ objs' = Append(objs, [objs[d] EXCEPT !.px = px, !.py = py, !.sim = TRUE])
Read(o)     == o \in 1..Len(objs) /\ UNCHANGED objs
Scribble(o) == o \in 1..Len(objs) /\ UNCHANGED objs
====
