---- MODULE Gen_Grating ----
(* Random grating commands for devices of every size (C08). *)
EXTENDS Gratings, TLC, Json, IOUtils
VARIABLE hist
DEPTH == atoi(IOEnv.DEPTH)
R(S) == RandomElement(S)
Init == hist = << >>
Vecs == { <<1,0>>, <<0,1>>, <<1,1>>, <<-1,0>>, <<0,-1>>, <<1,-1>>, <<2,1>>, <<-1,2>>, <<3,1>>, <<-2,-1>>, <<-3,2>> }
Ms   == {3, 4, 5, 6, 8, 10, 12, 15, 20, 24, 30, 40}
Small == {1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 16, 17}
Const(S, m) == [a |-> R(S), b |-> 0, c |-> 0, m |-> m]
Map(m) == [a |-> R(0..(m-1)), b |-> R(0..(m-1)), c |-> R(0..(m-1)), m |-> m]
PMap(z) == IF R(1..3) = 1 THEN Map(240) ELSE Const({0, 0, 60, 120, 37, 200, 231}, 240)
AMap(m) == IF R(1..2) = 1 THEN Map(m) ELSE Const({0, m-1, m-1, m \div 2, m \div 3, (3*m) \div 4}, m)
Dev(z) == LET v == R(Vecs)  model == IF R(1..12) = 1 THEN R({"DLP9500", "DLP7000", "DLP9000"}) ELSE "generic" IN
  [model |-> model, Nx |-> IF model = "generic" THEN R(Small) ELSE Catalogue[model].Nx,
   Ny |-> IF model = "generic" THEN R(Small) ELSE Catalogue[model].Ny,
   ga |-> v[1], gb |-> v[2], M |-> R(Ms), neg |-> R({TRUE, FALSE})]
Cmd(z) == LET m == R({"ideal", "simple", "steep"}) IN
  [op |-> "samples", g |-> IF hist # << >> /\ R(1..2) = 1 /\ hist[Len(hist)].op = "samples" THEN hist[Len(hist)].g ELSE Dev(z), method |-> m, amp |-> AMap(IF m = "steep" THEN 61 ELSE 17), pin |-> PMap(z), pout |-> PMap(z)]
\* statistics of the default "random" method: the amplitude is sin of an angle close to arccos(cos(h)) of some lines
Stat(z) == LET col == R({TRUE, FALSE}) M == R({6, 8, 10, 12}) IN
  [op |-> "stat", axis |-> IF col THEN "col" ELSE "row",
   g |-> [model |-> "generic", Nx |-> IF col THEN 600 ELSE 480, Ny |-> IF col THEN 480 ELSE 600,
          ga |-> IF col THEN R({1, -1}) ELSE 0, gb |-> IF col THEN 0 ELSE R({1, -1}), M |-> M, neg |-> R({TRUE, FALSE})],
   via |-> R({"grating", "patch", "calc"}), v |-> R({60, 50, 40, 30, 20, 10, 3, 57}), pin |-> R(0..239), pout |-> R(0..239),
   r10 |-> R({100, 100, 100, 30, 250, 7, 0}), dflt |-> R({TRUE, FALSE})]
Fix(e) == [e EXCEPT !.r10 = IF e.dflt THEN 100 ELSE @, !.v = IF e.via = "calc" THEN 60 ELSE @]
Next == Len(hist) < DEPTH /\ \E d \in {R(1..8)} : \E e \in {IF d = 1 THEN Fix(Stat(d)) ELSE Cmd(d)} : hist' = Append(hist, e)
Out == Len(hist) < DEPTH \/ PrintT("HIST " \o ToJson(hist))
====
