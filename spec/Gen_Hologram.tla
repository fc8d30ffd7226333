---- MODULE Gen_Hologram ----
(* Random histories of LCOS hologram calculations (C13). *)
EXTENDS Hologram, Json, IOUtils
VARIABLE hist
DEPTH == atoi(IOEnv.DEPTH)
R(S) == RandomElement(S)
Map(m) == [a |-> R(0..(m-1)), b |-> R(0..(m-1)), c |-> R(0..(m-1)), m |-> m]
Small == { <<y, x>> \in {1, 2, 3, 4, 5, 6, 8, 10, 12} \X {1, 2, 3, 4, 5, 6, 8, 10, 12} : y * x <= 48 /\ y * x >= 3 }
Dims(z) == R(Small)
Init == hist = << >>
New(d, dm) == [op |-> "new", kind |-> d, Ny |-> IF d = "small" THEN dm[1] ELSE R(9..40), Nx |-> IF d = "small" THEN dm[2] ELSE R(9..40)]
Dv == hist[1]
Win(z) == IF R(1..3) = 1 THEN [k |-> "map", map |-> Map(R({2, 3, 5}))]
          ELSE LET r0 == R(0..(Dv.Ny - 1)) c0 == R(0..(Dv.Nx - 1)) IN
               [k |-> "box", r0 |-> r0, r1 |-> R(r0..(Dv.Ny - 1)), c0 |-> c0, c1 |-> R(c0..(Dv.Nx - 1)), v |-> R({4, 4, 4, 2})]
WithMeth(m, b) == IF m = "gs" THEN b @@ [method |-> "gs", m5 |-> 5, dflt |-> R({TRUE, FALSE}), win |-> [k |-> "box", r0 |-> 0, r1 |-> 100, c0 |-> 0, c1 |-> 100, v |-> 4]]
                  ELSE b @@ [method |-> "mraf", m5 |-> R({2, 2, 0, 1, 3, 4, 5}), dflt |-> R({TRUE, FALSE}), win |-> Win(1)]
EM(z) == [re |-> Map(R({3, 4, 5})), im |-> Map(R({1, 2, 3, 4})), off |-> R({0, 1, 2}), hole |-> R({0, 0, 3, 4}), hs |-> R(0..3)]
Step(z) == WithMeth(R({"gs", "mraf", "mraf"}), [op |-> "step", E |-> EM(1), A |-> Map(R({5, 13, 31})), k |-> R({0, 0, 1, 2, 3, 5, 8}), dirty |-> FALSE])
Descend(z) == [op |-> "descend", E |-> EM(1), A |-> Map(R({5, 13, 31})), Ns |-> <<0, 1, 2, 4, 7, 12>>]
Spot(z) == [op |-> "spot", mod |-> Map(R({2, 3, 4})), ph |-> Map(240), R |-> R(0..(Dv.Ny - 1)), C |-> R(0..(Dv.Nx - 1)), N |-> R({1, 2, 5}),
            method |-> R({"gs", "mraf", "tight"}), m5 |-> R(1..5), form |-> R({"array", "profile"}), dirty |-> FALSE]
Other(z) == [op |-> R({"reset", "bad", "nowin", "rand", "default"}), which |-> R({"N", "m", "both", "method"}), method |-> R({"gs", "mraf"})]
Pick(z) == IF hist = << >> THEN New(R({"small", "small", "small", "big"}), Dims(1)) ELSE IF Dv.kind = "small" THEN LET i == R(1..12) IN IF i <= 6 THEN Step(1) ELSE IF i <= 8 THEN Descend(1) ELSE IF i <= 10 THEN Spot(1) ELSE Other(1)
           ELSE IF R(1..2) = 1 THEN Spot(1) ELSE Other(1)
Next == Len(hist) < DEPTH /\ \E e \in {Pick(1)} : hist' = Append(hist, e)
Out == Len(hist) < DEPTH \/ PrintT("HIST " \o ToJson(hist))
====
