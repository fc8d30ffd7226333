---- MODULE Trace_Builtins ----
(* Recorded histories over built-in profiles against Builtins (C05, C04). *)
EXTENDS Builtins, TraceBase
VARIABLES s, l
tvars == <<leaves, s, l>>
TInit == BInit /\ s \in 1..Len(Trace) /\ l = 0
Ev == Trace[s].events[l + 1]

KindOf(c, prec) == IF c THEN (IF prec = 64 THEN "complex128" ELSE "complex64")
                   ELSE (IF prec = 64 THEN "float64" ELSE "float32")
EvalFails(e) ==
  (IF Len(e.obs) = Len(e.pts) /\ (\A k \in 1..Len(e.pts) : ValClose(e.obs[k], Val(leaves, e.i, e.pts[k][1], e.pts[k][2]),
                                                              Mag(leaves, e.i, e.pts[k][1], e.pts[k][2]), e.prec))
   THEN {} ELSE {"formula of " \o leaves[e.i].op})
  \cup (IF e.kind = KindOf(IsC(leaves, e.i), e.prec) THEN {} ELSE {"type of " \o leaves[e.i].op})

\* what a read of the parameters must return; lengths are recorded in units, widths squared
GetFails(e) == LET q == leaves[e.i] IN
  UNION {IF ValClose(<<e.vals[p], <<0, 0>>>>, Mk(IF p = "p2" THEN q[p] ELSE q[p], 0, IF p = "re" THEN q.den ELSE 1, ONE), 1, 32)
         THEN {} ELSE {"parameter " \o p \o " of " \o q.op} : p \in DOMAIN e.vals}
  \cup (IF q.op \in {"hg", "zn"} /\ e.nm # <<q.n, q.m>> THEN {"indices of " \o q.op} ELSE {})
  \cup (IF q.op = "zn" /\ e.norm # q.norm THEN {"normalisation flag"} ELSE {})
  \cup (IF Settable(q) \subseteq DOMAIN e.vals THEN {} ELSE {"parameters of " \o q.op})

IndexFails(e) == IF e.rejected = (IF ZernValid(e.n, e.m) THEN "" ELSE "ValueError") THEN {} ELSE {"Zernike index"}

Fails(e) == IF e.exc # "" THEN {e.act \o " raised " \o e.exc}
            ELSE CASE e.act = "eval" -> EvalFails(e)
                   [] e.act = "get"  -> GetFails(e)
                   [] e.act = "index" -> IndexFails(e)
                   [] OTHER -> {}
TNext ==
  /\ l < Len(Trace[s].events)
  /\ Report(s, l + 1, Fails(Ev))
  /\ l' = l + 1 /\ UNCHANGED s
  /\ CASE Ev.act = "make" -> BMake(Ev.q)
       [] Ev.act = "set"  -> BSet(Ev.i, Ev.p, Ev.v)
       [] OTHER -> UNCHANGED leaves
TSpec == TInit /\ [][TNext]_tvars
====
