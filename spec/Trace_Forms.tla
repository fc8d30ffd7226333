---- MODULE Trace_Forms ----
(* Recorded conversions and uses of fields against Forms (C02). *)
EXTENDS Forms, TraceBase
VARIABLES s, l
TInit == s \in 1..Len(Trace) /\ l = 0
Evs == Trace[s].events
Ev == Evs[l + 1]
D == Evs[1]
\* values are recorded in 1/1024 at the listed pixels << r, c, re, im >>
Tol(v) == 2 + (Abs(v[1]) + Abs(v[2])) \div 64
ConvertFails(e) ==
  (IF e.shape = << D.ny, D.nx >> THEN {} ELSE {"shape"})
  \cup (IF e.dt = Kind2(e.cx, D.prec) THEN {} ELSE {"type"})
  \cup (IF \A k \in 1..Len(e.pts) : LET o == e.pts[k]  v == At(e.p.q, D, e.fo, o[1], o[2]) IN
             CClose(<< o[3], o[4] >>, CScale(1024, v), Tol(v)) THEN {} ELSE {"values of a " \o e.p.q.k \o " field as " \o e.p.f})
  \cup (IF e.shape = << D.ny, D.nx >> /\ \E k \in 1..Len(e.pts) : e.pts[k][5] # Fine(e.p, D.prec) THEN {"fine part"} ELSE {})
SimFails(e) ==
  (IF \A k \in 1..Len(e.pts) : LET o == e.pts[k]  v == At(e.p.q, D, TRUE, o[1], o[2]) IN
             CClose(<< o[3], o[4] >>, CScale(1024, v), Tol(v)) THEN {} ELSE {"input field"})
  \cup (IF e.frame THEN {} ELSE {"padding of the input"})
\* same result as with plain arrays: matrices in 1/4096, eta relative 10^-6
SameFails(e) ==
  IF ~e.repro THEN {} ELSE
  (IF Len(e.obs) = Len(e.ref) /\ \A k \in 1..Len(e.ref) : Close(e.obs[k], e.ref[k], IF e.op = "sim" THEN 8 + Abs(e.ref[k]) \div 4096 ELSE 8) THEN {} ELSE {"result depends on the form"})
  \cup (IF Close(e.eta, 1000000, 100) THEN {} ELSE {"eta depends on the form"})
Fails(e) ==
  IF e.op = "new" THEN {}
  ELSE IF e.exc # "" THEN {e.op \o " raised " \o e.exc}
  ELSE (IF e.dirty THEN {"argument modified"} ELSE {})
       \cup CASE e.op = "convert" -> ConvertFails(e) [] e.op = "sim" -> SimFails(e) \cup SameFails(e) [] OTHER -> SameFails(e)
TNext ==
  /\ l < Len(Evs)
  /\ Report(s, l + 1, Fails(Ev))
  /\ l' = l + 1 /\ UNCHANGED s
TSpec == TInit /\ [][TNext]_<<s, l>>
====
