---- MODULE Trace_Backend ----
(* Recorded backend histories against Backend (C14). *)
EXTENDS Backend, TraceBase
VARIABLES s, l
tvars == << prec, used, eng, s, l >>
TInit == BInit /\ s \in 1..Len(Trace) /\ l = 0
Ev == Trace[s].events[l + 1]
ReadName(w) == CASE w = "dtype" -> Kind(FALSE) [] w = "complex" -> Kind(TRUE) [] OTHER -> IntKind
CalcFails(e) ==
  IF e.exc # "" THEN {"calculation " \o e.kind \o " raised " \o e.exc}
  ELSE
  (IF Untyped(e) \/ \A k \in 1..Len(e.dt) : e.dt[k] = Kind(IsCx(e)) THEN {} ELSE {"type of " \o e.kind})
  \cup (IF e.fft = -1 \/ (e.fft > 0) = (eng = 1) THEN {} ELSE {"FFT engine not switched"})
  \cup (IF e.kind = "fix" THEN (IF ~e.repro \/ (IF prec = 64 THEN e.err40 <= 4096 /\ e.wide ELSE e.err12 <= 41) THEN {} ELSE {"accuracy of a hologram"})
        ELSE LET r == Result(e) IN
          IF Len(e.obs) # Len(r) THEN {"size of " \o e.kind}
          ELSE IF \A k \in 1..Len(r) : ObsClose(e.obs[k], r[k]) THEN {} ELSE {"accuracy of " \o e.kind})
Fails(e) ==
  CASE e.op = "set" -> IF e.exc \in SetAnswers(e.v) THEN {} ELSE {"attempt to set the precision answered " \o (IF e.exc = "" THEN "yes" ELSE e.exc)}
    [] e.op = "read" -> IF e.exc = "" /\ e.val = ReadName(e.what) THEN {} ELSE {"precision read"}
    [] e.op = "readeng" -> IF e.exc = "" /\ e.val = eng THEN {} ELSE {"FFT engine read"}
    [] e.op = "calc" -> CalcFails(e)
    [] OTHER -> IF e.exc = "" THEN {} ELSE {e.op \o " raised " \o e.exc}
TNext ==
  /\ l < Len(Trace[s].events)
  /\ Report(s, l + 1, Fails(Ev))
  /\ l' = l + 1 /\ UNCHANGED s
  /\ CASE Ev.op = "set" -> SetPrec(Ev.v, IF Ev.exc \in SetAnswers(Ev.v) THEN Ev.exc ELSE IF used = "no" THEN "" ELSE "AssertionError")
       [] Ev.op \in {"read", "calc"} -> Use
       [] Ev.op = "make" -> May
       [] Ev.op = "eng" -> SetEng(Ev.v)
       [] OTHER -> Idle
TSpec == TInit /\ [][TNext]_tvars
====
