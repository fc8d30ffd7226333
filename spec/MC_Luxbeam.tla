---- MODULE MC_Luxbeam ----
(***************************************************************************)
(* The Luxbeam controller call by call, with triggers from outside between     *)
(* any two calls and a failure (before or after taking effect) at any call.    *)
(*  NoHazard: frames are written only while the sequencer is stopped.          *)
(*  Shows:    after a successful load the device shows exactly those frames.    *)
(*  NoMix:    whenever it runs, it shows the old or the new set, never a mix.   *)
(*  Guarded:  nothing is sent unless the controller is initialized.            *)
(***************************************************************************)
EXTENDS Luxbeam, IOUtils, TLC
VARIABLES d, q, op, init, old, new, last
vars == << d, q, op, init, old, new, last >>
FULL == "FULL" \in DOMAIN IOEnv
Sets == { <<1>>, <<2, 3>> } \cup (IF FULL THEN { <<4, 5, 6>>, <<7, 7>> } ELSE { <<4, 5, 6>> })
Init == /\ d \in { LuxInit(i) : i \in {TRUE, FALSE} } /\ q = << >> /\ op = "idle" /\ init = FALSE /\ old = << >> /\ new = << >> /\ last = "none"
Start(o, calls, F) == /\ op = "idle" /\ op' = o /\ q' = calls /\ new' = F /\ UNCHANGED << d, init, old, last >>
Open == ~init /\ Start("init", LuxOpen, << >>)
Load == init /\ \E F \in Sets : Start("load", LuxLoad(F), F)
Fire == init /\ Start("fire", LuxFire, << >>)
Close == op = "idle" /\ init /\ init' = FALSE /\ last' = "closed" /\ UNCHANGED << d, q, op, old, new >>
Call == /\ q # << >> /\ d' = LuxCall(d, Head(q)) /\ q' = Tail(q)
        /\ IF Tail(q) # << >> THEN UNCHANGED << op, init, old, new, last >>
           ELSE /\ op' = "idle" /\ init' = TRUE
                /\ last' = IF op = "load" THEN "loaded" ELSE last
                /\ old' = IF op = "load" THEN new ELSE IF op = "init" THEN << >> ELSE old
                /\ new' = << >>
\* a call fails, without or after its effect: the operation is abandoned
Fault == /\ q # << >> /\ \E eff \in {TRUE, FALSE} : d' = LuxCall(d, [Head(q) EXCEPT !.eff = eff])
         /\ q' = << >> /\ op' = "idle"
         /\ last' = IF op = "load" THEN "failed" ELSE last
         /\ old' = IF op = "load" /\ LuxShows(d', Inv(new, d.inv)) THEN new ELSE old
         /\ new' = << >> /\ UNCHANGED init
Trig == \E src \in {"electrical", "optical"} : d' = Pulse(d, src) /\ UNCHANGED << q, op, init, old, new, last >>
Next == Open \/ Load \/ Fire \/ Close \/ Call \/ Fault \/ Trig
Bound == d.given <= (IF FULL THEN 9 ELSE 5)
NoHazard == q # << >> => ~LuxHazard(d, Head(q))
Shows == (op = "idle" /\ last = "loaded" /\ init) => old # << >> /\ LuxShows(d, Inv(old, d.inv))
NoMix == Active(d) => ((old # << >> /\ LuxShows(d, Inv(old, d.inv))) \/ (new # << >> /\ LuxShows(d, Inv(new, d.inv))))
Guarded == q # << >> => (init \/ op = "init")
Finite == ~d.runaway
====
