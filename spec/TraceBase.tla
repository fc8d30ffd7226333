---- MODULE TraceBase ----
(***************************************************************************)
(* Trace reading shared by all Trace_* modules.  A trace file has one      *)
(* scenario per line: [id |-> ..., events |-> << ... >>].  Scenarios are    *)
(* independent, so TLC explores them in parallel from separate initial      *)
(* states.  Verdicts are total: every clause an event violates is printed   *)
(* with the scenario and event number; Post prints what was consumed.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)

Report(s, l, fails) == \A f \in fails : PrintT(<<"VERDICT", s, l, f>>)
====
