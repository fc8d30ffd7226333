---- MODULE Gen_World ----
(* Random histories of World for replay on the real code. *)
EXTENDS World, TLC, Json, IOUtils
VARIABLE hist
DEPTH == atoi(IOEnv.DEPTH)
Init == WInit /\ hist = << >>
Emit(e) == hist' = Append(hist, e)
Sizes == {1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 16, 17, 20}
\* pitch and wavelength*focal length are chosen by index into tables of the driver
Next ==
  /\ Len(hist) < DEPTH
  /\ \/ \E nx \in {RandomElement(Sizes)}, ny \in {RandomElement(Sizes)} :
        /\ Len(objs) < 6
        /\ NewDevice(nx, ny)
        /\ Emit([op |-> "device", model |-> "generic", Nx |-> nx, Ny |-> ny, k |-> RandomElement(0..5)])
     \/ \E d \in {e \in 1..Len(objs) : ~objs[e].sim} :
        \* a second device with the resolution of an existing one, but another pitch and optics
        /\ Len(objs) < 6
        /\ NewDevice(objs[d].Nx, objs[d].Ny)
        /\ Emit([op |-> "device", model |-> "generic", Nx |-> objs[d].Nx, Ny |-> objs[d].Ny, k |-> RandomElement(0..5)])
     \/ \E d \in 1..Len(objs) :
        \E px \in {RandomElement(0..9)}, py \in {RandomElement(0..9)} :
        /\ Len(objs) < 10
        /\ NewSimulation(d, px, py)
        /\ Emit([op |-> "sim", of |-> d, px |-> px, py |-> py])
     \/ \E o \in 1..Len(objs) : Read(o) /\ Emit([op |-> "read", obj |-> o, scribble |-> FALSE])
     \/ \E o \in 1..Len(objs) : Scribble(o) /\ Emit([op |-> "read", obj |-> o, scribble |-> TRUE])
Out == Len(hist) < DEPTH \/ PrintT("HIST " \o ToJson(hist))
====
