---- MODULE Trace_World ----
(* Recorded histories of grid reads against World / Geometry (C01). *)
EXTENDS World, TraceBase
VARIABLES s, l
tvars == <<objs, s, l>>

TInit == WInit /\ s \in 1..Len(Trace) /\ l = 0

Ev == Trace[s].events[l + 1]

\* one sampled point <<row, col, x, y>> of a grid; unit is the scale of the recording
PtF(p, sc, pt) == /\ Close(pt[3], (sc * FX2(p, pt[2])) \div 2, 3)
                  /\ Close(pt[4], (sc * FY2(p, pt[1])) \div 2, 3)
PtI(p, sc, pt) == /\ Close(pt[3], sc * IX(p, pt[2]), 3)
                  /\ Close(pt[4], sc * IY(p, pt[1]), 3)

GridFails(p, g) ==
  (IF g.shx = <<Rows(p), Cols(p)>> /\ g.shy = g.shx THEN {} ELSE {"shape of " \o g.which})
  \cup
  (IF \A i \in 1..Len(g.pts) :
        IF g.plane = "fourier" THEN PtF(p, g.sc, g.pts[i]) ELSE PtI(p, g.sc, g.pts[i])
   THEN {} ELSE {"coordinates of " \o g.which})

ReadFails(o, e) ==
  UNION {GridFails(o, e.grids[i]) : i \in 1..Len(e.grids)}
  \cup (IF \A i \in 1..Len(e.ones) : Close(e.ones[i], 1000000, 3) THEN {} ELSE {"pixel areas or scaling factor"})
  \cup (IF e.size = <<Rows(o), Cols(o)>> THEN {} ELSE {"reported size"})

Fails(e) ==
  IF e.exc # "" THEN {"raised " \o e.exc} ELSE
  CASE e.op = "read"   -> ReadFails(objs[e.obj], e)
    [] e.op = "device" /\ e.model # "generic" ->
         LET m == Catalogue[e.model] IN
         IF e.Nx = m.Nx /\ e.Ny = m.Ny /\ e.pitch = m.pitch THEN {} ELSE {"catalogue entry of " \o e.model}
    [] OTHER -> {}

TNext ==
  /\ l < Len(Trace[s].events)
  /\ Report(s, l + 1, Fails(Ev))
  /\ l' = l + 1
  /\ UNCHANGED s
  /\ CASE Ev.op = "device" -> IF Ev.model = "generic" THEN NewDevice(Ev.Nx, Ev.Ny)
                              ELSE NewDevice(Catalogue[Ev.model].Nx, Catalogue[Ev.model].Ny)
       [] Ev.op = "sim"    -> NewSimulation(Ev.of, Ev.px, Ev.py)
       [] Ev.op = "read"   -> IF Ev.scribble THEN Scribble(Ev.obj) ELSE Read(Ev.obj)

TSpec == TInit /\ [][TNext]_tvars
====
