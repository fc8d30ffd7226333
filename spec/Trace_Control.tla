---- MODULE Trace_Control ----
(***************************************************************************)
(* Recorded controller histories against the device models (C15, C16, C17).    *)
(* st[c]: [kind, inv, d: device, life: "closed"/"open"/"unknown", exp: what a   *)
(* successful load promised, oldok].                                         *)
(***************************************************************************)
EXTENDS TraceBase, FiniteSets
L == INSTANCE Luxbeam
A == INSTANCE Alp
VARIABLES s, l, st
Evs == Trace[s].events
Ev == Evs[l + 1]
NoExp == [kind |-> "none", F |-> << >>]
Blank == [kind |-> "lux", inv |-> FALSE, d |-> << >>, life |-> "closed", exp |-> NoExp]
TInit == s \in 1..Len(Trace) /\ l = 0 /\ st = [c \in 1..2 |-> Blank]

Dev(x, d, c) == IF x.kind = "lux" THEN L!LuxCall(d, c) ELSE A!AlpCall(d, c)
RECURSIVE After(_, _, _)
After(x, d, cs) == IF cs = << >> THEN d ELSE After(x, TLCEval(Dev(x, d, cs[1])), Tail(cs))
RECURSIVE Hazards(_, _, _)
Hazards(x, d, cs) == IF cs = << >> THEN FALSE
   ELSE (cs[1].eff /\ IF x.kind = "lux" THEN L!LuxHazard(d, cs[1]) ELSE A!AlpHazard(d, cs[1])) \/ Hazards(x, TLCEval(Dev(x, d, cs[1])), Tail(cs))
Sent(e) == { k \in 1..Len(e.calls) : e.calls[k].fn # "env" }
\* rising edges of the environment during the operation
Rises(e) == Cardinality({ k \in 1..Len(e.calls) : e.calls[k].fn = "env" /\ e.calls[k].level = 1 })
Inv(F, inv) == [i \in 1..Len(F) |-> IF inv THEN -F[i] ELSE F[i]]
Shows(x, d, exp) == exp.kind # "none" /\ IF x.kind = "lux" THEN L!LuxShows(d, Inv(exp.F, x.inv)) ELSE A!AlpShows(d, exp.kind, Inv(exp.F, x.inv))
Running(x, d) == IF x.kind = "lux" THEN L!Active(d) ELSE d.run
Guarded == {"single", "multi", "fire", "nx", "ny", "number"}
Wanted(e) == [kind |-> e.op, F |-> e.F]
Need(cond, f) == IF cond THEN {} ELSE {f}

NewState(x, e, d) ==
  CASE e.op = "new" -> [kind |-> e.kind, inv |-> e.inv, d |-> IF e.kind = "lux" THEN L!LuxInit(e.hwinv) ELSE A!AlpInit, life |-> "closed", exp |-> NoExp]
    [] e.op = "init" -> [x EXCEPT !.d = d, !.exp = NoExp, !.life = IF ~e.faulted THEN "open" ELSE IF @ = "closed" THEN "closed" ELSE "unknown"]
    [] e.op = "close" -> [x EXCEPT !.d = d, !.exp = NoExp, !.life = IF e.faulted THEN "unknown" ELSE "closed"]
    [] e.op \in {"single", "multi"} -> IF x.life = "closed" \/ (e.exc # "" /\ ~e.faulted) THEN [x EXCEPT !.d = d]
                                       ELSE IF ~e.faulted THEN [x EXCEPT !.d = d, !.exp = IF Shows(x, d, Wanted(e)) THEN Wanted(e) ELSE NoExp]
                                       ELSE [x EXCEPT !.d = d, !.exp = IF Shows(x, d, Wanted(e)) THEN Wanted(e) ELSE IF Shows(x, d, x.exp) THEN x.exp ELSE NoExp]
    [] e.op = "number" -> [x EXCEPT !.d = d, !.exp = IF Shows(x, d, x.exp) THEN x.exp ELSE NoExp]
    [] OTHER -> [x EXCEPT !.d = d]

LoadFails(x, e, d) ==
  IF e.faulted THEN Need(~Running(x, d) \/ Shows(x, d, x.exp) \/ Shows(x, d, Wanted(e)), "mixed frames left running after a failed load")
  ELSE Need(Shows(x, d, Wanted(e)), "the device does not show the loaded frames")
       \cup (IF x.kind = "alp" THEN Need(Cardinality(A!Allocated(d)) <= 1, "sequences left allocated") ELSE {})
Fails(x, e, d) ==
  IF e.op = "new" THEN Need(e.ctor, "connection parameters") \cup Need(~e.isinit, "initialized before opening")
  ELSE IF e.op = "ext" THEN Need(x.exp.kind = "none" \/ Shows(x, d, x.exp), "a trigger does not show the next frame")
  ELSE IF e.op \in Guarded /\ x.life = "closed" THEN
       Need(e.exc # "", e.op \o " accepted while not open") \cup Need(Sent(e) = {}, e.op \o " sent while not open") \cup Need(~e.isinit, "controller claims to be open")
  ELSE IF e.op \in Guarded /\ x.life = "unknown" THEN {}
  ELSE Need(~Hazards(x, x.d, e.calls), "memory changed while the device displays")
       \cup Need(~e.dirty, "frames modified")
       \cup (IF e.faulted THEN Need(e.exc # "", "a device error was swallowed")
             ELSE IF e.op = "fire" /\ x.kind = "alp" THEN {}
             ELSE IF e.op = "close" /\ x.life # "open" THEN {}
             ELSE Need(e.exc = "", e.op \o " raised " \o e.exc))
       \cup (IF x.life = "unknown" THEN {} ELSE
             CASE e.op = "init" -> IF e.faulted THEN Need(x.life = "open" \/ ~e.isinit, "initialized after a failed opening") ELSE Need(e.isinit, "not initialized after opening")
               [] e.op = "close" -> IF e.faulted THEN {} ELSE Need(~e.isinit, "still initialized after closing")
               [] OTHER -> Need(e.isinit, "no longer initialized"))
       \cup (IF e.exc # "" /\ ~e.faulted THEN {} ELSE
             CASE e.op \in {"single", "multi"} -> LoadFails(x, e, d)
               [] e.op = "init" -> IF x.kind = "alp" /\ ~e.faulted THEN Need(d.inv = x.inv, "inversion") ELSE {}
               [] e.op = "close" -> IF x.kind = "alp" /\ ~e.faulted THEN Need(~d.run /\ ~d.open /\ A!Allocated(d) = {}, "device not released") ELSE {}
               [] e.op = "fire" -> IF x.kind = "alp" \/ e.faulted THEN {} ELSE
                    Need(L!LuxReady(d), "software trigger line left high") \cup Need(x.exp.kind = "none" \/ Shows(x, d, x.exp), "a trigger does not show the next frame")
                    \cup Need(~Running(x, x.d) \/ ~L!LuxReady(x.d) \/ d.given = x.d.given + 1 + Rises(e), "software trigger is not one pulse")
               [] e.op \in {"nx", "ny"} -> IF e.faulted THEN {} ELSE Need(e.val = (IF e.op = "nx" THEN e.cols ELSE e.rows), "device dimensions")
               [] e.op = "number" -> IF e.faulted THEN {} ELSE Need(e.shape = <<e.rows, e.cols>> /\ e.bool, "size of the test image") \cup Need(e.rows < 16 \/ (e.lit > 0 /\ e.lit < e.rows * e.cols), "blank test image")
               [] OTHER -> {})
TNext ==
  /\ l < Len(Evs)
  /\ \E x \in {st[Ev.cid]} : \E d \in {IF Ev.op = "new" THEN << >> ELSE TLCEval(After(x, x.d, Ev.calls))} :
       /\ Report(s, l + 1, Fails(x, Ev, d))
       /\ st' = [st EXCEPT ![Ev.cid] = NewState(x, Ev, d)]
  /\ l' = l + 1 /\ UNCHANGED s
TSpec == TInit /\ [][TNext]_<<s, l, st>>
====
