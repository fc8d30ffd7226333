---- MODULE Trace_Ifta ----
(* Recorded IFTA calculations against Ifta (C10). *)
EXTENDS Ifta, TraceBase
VARIABLES s, l
TInit == s \in 1..Len(Trace) /\ l = 0
Ev == Trace[s].events[l + 1]
ShapeIs(m, ny, nx) == Len(m) = ny /\ \A r \in 1..ny : Len(m[r]) = nx
Outside(e, r, c) == e.via = "patch" /\ ~InPatch(e.i2, e.j2, e.d2, r, c)
IftaFails(e) ==
  LET X == ResultOf(e) IN
  (IF e.binary THEN {} ELSE {"binary state of ifta"})
  \cup (IF ~ShapeIs(e.st, e.g.Ny, e.g.Nx) THEN {"shape of the state"}
        ELSE IF \A r \in 1..e.g.Ny, c \in 1..e.g.Nx :
               IF Outside(e, r-1, c-1) THEN e.st[r][c] = (e.bg = "on") ELSE (~X.ok \/ e.st[r][c] = Final(X.G[r][c]))
        THEN {} ELSE {"mirrors of ifta"})
  \cup (IF e.dirty THEN {"argument modified"} ELSE {})
DimFails(e) ==
  (IF e.binary THEN {} ELSE {"binary state of ifta"})
  \cup (IF ~ShapeIs(e.st, e.g.Ny, e.g.Nx) THEN {"shape of the state"}
        ELSE IF \A r \in 1..e.g.Ny, c \in 1..e.g.Nx :
               IF Outside(e, r-1, c-1) THEN e.st[r][c] = (e.bg = "on") ELSE LET v == OpenResult(e, r-1, c-1) IN v = "any" \/ e.st[r][c] = (v = "on")
        THEN {} ELSE {"mirrors of ifta in dim light"})
Fails(e) == IF e.exc # "" THEN {e.op \o " raised " \o e.exc} ELSE IF e.op = "ifta" THEN IftaFails(e) ELSE IF e.op = "dim" THEN DimFails(e) ELSE
   (IF e.same THEN {} ELSE {"default of " \o e.which})
TNext ==
  /\ l < Len(Trace[s].events)
  /\ Report(s, l + 1, Fails(Ev))
  /\ l' = l + 1 /\ UNCHANGED s
TSpec == TInit /\ [][TNext]_<<s, l>>
====
