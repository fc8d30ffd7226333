---- MODULE MC_Alp ----
(***************************************************************************)
(* The ALP controller call by call, with trigger pulses from outside between   *)
(* any two calls and a failure at any call.                                  *)
(*  NoHazard: memory is changed only while the device is halted.               *)
(*  Shows:    after a successful load the device shows exactly those frames in   *)
(*            the mode of that load.                                        *)
(*  NoMix:    whenever it runs, it shows the old or the new set.               *)
(*  Memory:   at most one sequence is allocated; none after closing.           *)
(***************************************************************************)
EXTENDS Alp, IOUtils, TLC
VARIABLES d, q, op, life, inv, old, new, held, nid
FULL == "FULL" \in DOMAIN IOEnv
None == [kind |-> "none", F |-> << >>]
Loads == { [kind |-> "single", F |-> <<1>>], [kind |-> "multi", F |-> <<2, 3>>], [kind |-> "multi", F |-> <<4>>] }
         \cup (IF FULL THEN { [kind |-> "single", F |-> <<5>>], [kind |-> "multi", F |-> <<6, 7, 6>>] } ELSE {})
MaxId == IF FULL THEN 5 ELSE 4
Init == /\ d = AlpInit /\ q = << >> /\ op = "idle" /\ life = "closed" /\ inv \in {TRUE, FALSE} /\ old = None /\ new = None /\ held = 0 /\ nid = 1
Start(o, calls, N) == /\ op = "idle" /\ op' = o /\ q' = calls /\ new' = N /\ UNCHANGED << d, life, inv, old, held, nid >>
Open == life = "closed" /\ ~d.open /\ Start("init", AlpOpen(inv), None)
Load == life = "open" /\ nid < MaxId /\ \E N \in Loads : Start("load", IF N.kind = "single" THEN AlpSingle(held, nid, N.F) ELSE AlpMultiple(held, nid, N.F), N)
Close == life = "open" /\ Start("close", AlpClose(held), None)
\* what the controller remembers of the sequence it holds
Held(c) == IF c.fn = "alloc" THEN c.id ELSE IF c.fn \in {"freeseq", "free", "init"} THEN 0 ELSE held
Call == /\ q # << >> /\ d' = AlpCall(d, Head(q)) /\ q' = Tail(q) /\ held' = Held(Head(q))
        /\ nid' = IF Head(q).fn = "alloc" THEN nid + 1 ELSE nid
        /\ IF Tail(q) # << >> THEN UNCHANGED << op, life, old, new >>
           ELSE /\ op' = "idle" /\ life' = (IF op = "close" THEN "closed" ELSE "open")
                /\ old' = (IF op = "load" THEN new ELSE None) /\ new' = None
        /\ UNCHANGED inv
Fault == /\ q # << >> /\ q' = << >> /\ op' = "idle"
         /\ old' = (IF d.run THEN old ELSE None) /\ new' = None
         /\ UNCHANGED << d, life, inv, held, nid >>
Trig == d' = AlpEdge(AlpEdge(d, 1), 0) /\ UNCHANGED << q, op, life, inv, old, new, held, nid >>
Next == Open \/ Load \/ Close \/ Call \/ Fault \/ Trig
Bound == d.given <= (IF FULL THEN 7 ELSE 4)
Want(N) == [i \in 1..Len(N.F) |-> IF inv THEN -N.F[i] ELSE N.F[i]]
NoHazard == q # << >> => ~AlpHazard(d, Head(q))
Shows == (op = "idle" /\ old.kind # "none") => AlpShows(d, old.kind, Want(old))
NoMix == d.run => ((old.kind # "none" /\ AlpShows(d, old.kind, Want(old))) \/ (new.kind # "none" /\ AlpShows(d, new.kind, Want(new))) \/ op = "close")
Memory == /\ Cardinality(Allocated(d)) <= 1 /\ (held # 0 => Allocated(d) = {held}) /\ (life = "closed" /\ op = "idle" /\ ~d.open => Allocated(d) = {})
====
