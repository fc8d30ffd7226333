---- MODULE Trace_Grating ----
(* Recorded grating commands against Gratings (C08). *)
EXTENDS Gratings, TraceBase
VARIABLES s, l
tvars == <<s, l>>
TInit == s \in 1..Len(Trace) /\ l = 0
Ev == Trace[s].events[l + 1]

\* tolerance of a gray value; large devices in 32 bits accumulate a phase error
GTol(e) == IF e.prec = 64 THEN 2 ELSE IF e.g.model = "generic" THEN 4 ELSE 40
TTol(e) == IF e.prec = 64 THEN 40 ELSE IF e.g.model = "generic" THEN 60 ELSE 1000

SampleOK(e, p) ==
  LET r == p[1] c == p[2] o == p[3] IN
  CASE e.method \in {"ideal", "simple", "steep"} ->
     LET h == HAngle(e.g, r, c, MapV(e.pin, r, c), MapV(e.pout, r, c))
         am == MapV(e.amp, r, c)
         ex == am * (SC + CosT(h)) - 16 * SC
     IN CASE e.method = "ideal"  -> Close(o, IdealV(am, h), GTol(e))
          [] e.method = "simple" -> IF Abs(ex) <= TTol(e) THEN o \in {0, SC} ELSE o = (IF ex > 0 THEN SC ELSE 0)
          [] OTHER -> LET t == SteepV(am, h) IN IF t = 2 THEN o \in {0, SC} ELSE o = t * SC

SampleFails(e) ==
  (IF e.shape = <<e.g.Ny, e.g.Nx>> THEN {} ELSE {"shape of the state"})
  \cup (IF e.binary = (e.method # "ideal") THEN {} ELSE {"binary state of " \o e.method})
  \cup (IF \A k \in 1..Len(e.pts) : SampleOK(e, e.pts[k]) THEN {} ELSE {"mirror values of " \o e.method})

(*---------------- statistics of the random method ----------------*)
\* line k (column or row, from 0) has hologram angle LineH; on[k], pairs along and across lines
LineH(e, k) == IF e.axis = "col" THEN HAngle(e.g, 0, k, e.pin, e.pout) ELSE HAngle(e.g, k, 0, e.pin, e.pout)
NLines(e) == IF e.axis = "col" THEN e.g.Nx ELSE e.g.Ny
LineLen(e) == IF e.axis = "col" THEN e.g.Ny ELSE e.g.Nx
Sel(e, h) == SelectSeq([k \in 1..NLines(e) |-> k], LAMBDA k : LineH(e, k - 1) = h)
\* n trials with probability p (10^-6): count within 6 sigma plus the accuracy of the table
\* (w = 3 for overlapping pairs, whose counts are correlated)
CountOK(k, n, p, w) ==
  LET mean == ((n \div 10) * (p \div 100)) \div 1000
      var  == ((n \div 10) * (((p \div 1000) * ((1000000 - p) \div 1000)) \div 1000)) \div 100
  IN Abs(k - mean) <= 6 * ISqrt(Max2(w * var, 0)) + n \div 1000 + 8
Sq(p) == ((p \div 100) * (p \div 100)) \div 100
ClassFails(e, h) ==
  LET ks == Sel(e, h)  n == Len(ks) * LineLen(e)  p == RandP(e.v, h, e.r10)
      on == SumSeq([i \in 1..Len(ks) |-> e.on[ks[i]]])
      al == SumSeq([i \in 1..Len(ks) |-> e.along[ks[i]]])
      ac == SumSeq([i \in 1..Len(ks) |-> e.across[ks[i]]])
      ag == SumSeq([i \in 1..Len(ks) |-> e.again[ks[i]]])
      \* lines with a partner M lines further on
      na == Len(SelectSeq(ks, LAMBDA k : k + e.g.M <= NLines(e))) * LineLen(e)
  IN (IF CountOK(on, n, p, 1) THEN {} ELSE {"switch-on probability of random"})
     \cup (IF CountOK(ag, n, Sq(p), 1) THEN {} ELSE {"random draws are repeated by the next command"})
     \cup (IF CountOK(al, Len(ks) * (LineLen(e) - 1), Sq(p), 3) /\ CountOK(ac, na, Sq(p), 3) THEN {} ELSE {"mirrors of random are not independent"})
\* pairs of mirrors at a lag (the one that looked most suspicious to the recording): the partner of line k is line
\* lag + k or lag - k, cyclically, and the distance along the line is arbitrary
PairOK(e, pr) ==
  LET P == TLCEval([h \in 1..e.g.M |-> RandP(e.v, LineH(e, h - 1), e.r10)])
      line(k) == P[(k % e.g.M) + 1]
      mate(k) == line((IF pr.flip THEN pr.lag - k ELSE pr.lag + k) % NLines(e))
      pp(k) == ((line(k) \div 100) * (mate(k) \div 100)) \div 100
      mean == SumSeq([k \in 1..NLines(e) |-> (LineLen(e) * (pp(k-1) \div 100)) \div 10000])
      var  == SumSeq([k \in 1..NLines(e) |-> (LineLen(e) * (((pp(k-1) \div 1000) * ((1000000 - pp(k-1)) \div 1000)) \div 1000)) \div 1000])
  IN Abs(pr.on - mean) <= 6 * ISqrt(3 * var) + (NLines(e) * LineLen(e)) \div 1000 + 2 * NLines(e) + 2 * LineLen(e)
StatFails(e) ==
  (IF e.binary THEN {} ELSE {"binary state of random"})
  \cup (IF \A k \in 1..Len(e.pairs) : PairOK(e, e.pairs[k]) THEN {} ELSE {"mirrors of random are not independent"})
  \cup UNION { ClassFails(e, h) : h \in {LineH(e, k) : k \in 0..(e.g.M - 1)} }

Fails(e) == IF e.exc # "" THEN {e.op \o " raised " \o e.exc} ELSE
  CASE e.op = "samples" -> SampleFails(e) [] e.op = "stat" -> StatFails(e)
TNext ==
  /\ l < Len(Trace[s].events)
  /\ Report(s, l + 1, Fails(Ev))
  /\ l' = l + 1 /\ UNCHANGED s
TSpec == TInit /\ [][TNext]_tvars
====
