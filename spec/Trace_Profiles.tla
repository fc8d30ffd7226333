---- MODULE Trace_Profiles ----
(* Recorded histories over profile objects against Profiles (C03, C04). *)
EXTENDS Profiles, TraceBase
VARIABLES s, l
tvars == <<nodes, s, l>>
TInit == PInit /\ s \in 1..Len(Trace) /\ l = 0
Ev == Trace[s].events[l + 1]

Half(k) == VRat(k, 2)
\* one observed point agrees with the value of node i; prec is 32 or 64
Tol(e) == IF e.prec = 64 THEN 4 ELSE 260000
PointOK(e, k) ==
  LET x == Half(e.pts[k][1]) y == Half(e.pts[k][2]) nd == nodes[e.i] IN
  IF nd.op = "cis240" THEN
     LET v == Value(nodes, nd.i, x, y) IN
     IF ~VIsInt(v) THEN TRUE
     ELSE \* compare cosines and sines in units of 1/16384
          /\ Abs(e.obs[k][1][1]) <= 1 /\ Abs(e.obs[k][2][1]) <= 1
          /\ Close(RDiv(e.obs[k][1][1] * 16384 + ((e.obs[k][1][2] \div 100) * 64) \div 3906, 1), CosT(v[1]), 40)
          /\ Close(RDiv(e.obs[k][2][1] * 16384 + ((e.obs[k][2][2] \div 100) * 64) \div 3906, 1), SinT(v[1]), 40)
  ELSE LET v == Value(nodes, e.i, x, y) IN v = U \/ ObsClose(e.obs[k], v, Tol(e))

EvalFails(e) ==
  (IF Len(e.obs) = Len(e.pts) THEN
     (IF \A k \in 1..Len(e.pts) : PointOK(e, k) THEN {} ELSE {"value of " \o nodes[e.i].op \o " expression"})
   ELSE {"number of values"})
  \cup (IF e.kind = (IF Cplx(nodes, e.i) THEN "complex" ELSE "float") \o
               (IF (e.prec = 64) = Cplx(nodes, e.i) THEN (IF e.prec = 64 THEN "128" ELSE "32") ELSE "64")
        THEN {} ELSE {"type of the values of " \o nodes[e.i].op \o " expression"})

GetFails(e) ==
  UNION {IF ObsClose(e.vals[p], nodes[e.i][p], 200) THEN {} ELSE {"parameter " \o p \o " of " \o nodes[e.i].op}
         : p \in DOMAIN e.vals}
  \cup (IF DOMAIN e.vals = Params(nodes[e.i]) THEN {} ELSE {"parameters of " \o nodes[e.i].op})

Fails(e) == IF e.exc # "" THEN {e.act \o " raised " \o e.exc}
            ELSE CASE e.act = "eval" -> EvalFails(e)
                   [] e.act = "get"  -> GetFails(e)
                   [] OTHER -> {}
TNext ==
  /\ l < Len(Trace[s].events)
  /\ Report(s, l + 1, Fails(Ev))
  /\ l' = l + 1 /\ UNCHANGED s
  /\ CASE Ev.act = "make" -> Make(Ev.nd)
       [] Ev.act = "set"  -> Set(Ev.i, Ev.p, Ev.v)
       [] Ev.act = "eval" -> Evaluate(Ev.i)
       [] Ev.act = "get"  -> Get(Ev.i)
TSpec == TInit /\ [][TNext]_tvars
====
