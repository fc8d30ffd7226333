---- MODULE Gen_Control ----
(* Random histories of two controllers of one kind: lifecycle, loads, triggers, triggers between calls, faults. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLE hist
DEPTH == atoi(IOEnv.DEPTH)
KIND == IOEnv.KIND
FAULTS == IOEnv.FAULTS = "1"
R(S) == RandomElement(S)
Init == hist = << >>
New(c) == [op |-> "new", cid |-> c, kind |-> KIND, inv |-> R({TRUE, FALSE}), size |-> R({"small", "small", "odd", "big"})]
Env(z) == IF R(1..3) > 1 THEN << >> ELSE [i \in 1..R(1..3) |-> [at |-> R(0..8), src |-> IF KIND = "alp" THEN "electrical" ELSE R({"electrical", "optical"})]]
Frames(n) == [i \in 1..n |-> R(1..12)]
Base(c, op) == [op |-> op, cid |-> c, env |-> Env(1), fk |-> IF FAULTS /\ R(1..4) = 1 THEN R(0..12) ELSE -1,
                fv |-> IF KIND = "alp" THEN "lost" ELSE R({"lost", "late"})]
Ev(c, i) ==
  IF i <= 2 THEN Base(c, "init") ELSE IF i <= 5 THEN Base(c, "single") @@ [F |-> Frames(1)]
  ELSE IF i <= 9 THEN Base(c, "multi") @@ [F |-> Frames(IF R(1..5) = 1 THEN R({13, 17, 24, 33, 40}) ELSE R({1, 2, 2, 3, 4, 5, 8}))]
  ELSE IF i <= 11 THEN Base(c, "fire") ELSE IF i <= 15 THEN [op |-> "ext", cid |-> c, env |-> [j \in 1..R(1..5) |-> [at |-> 0, src |-> IF KIND = "alp" THEN "electrical" ELSE R({"electrical", "optical"})]]]
  ELSE IF i <= 16 THEN Base(c, "close") ELSE IF i <= 17 THEN Base(c, R({"nx", "ny"})) ELSE Base(c, "number") @@ [n |-> R({0, 7, 12, 345})]
Opened(c) == \E k \in 1..Len(hist) : hist[k].cid = c /\ hist[k].op = "init"
Pick(z) == IF Len(hist) < 2 THEN New(Len(hist) + 1)
           ELSE LET c == R(1..2) IN IF ~Opened(c) /\ R(1..3) > 1 THEN Ev(c, 1) ELSE Ev(c, R(3..18) - (IF R(1..9) = 1 THEN 2 ELSE 0))
Next == Len(hist) < DEPTH /\ \E e \in {Pick(1)} : hist' = Append(hist, e)
Out == Len(hist) < DEPTH \/ PrintT("HIST " \o ToJson(hist))
====
