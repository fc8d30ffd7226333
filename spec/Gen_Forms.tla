---- MODULE Gen_Forms ----
(* Random devices, fields and forms, converted and used in every place that takes a field. *)
EXTENDS Forms, Json, IOUtils
VARIABLE hist
DEPTH == atoi(IOEnv.DEPTH)
R(S) == RandomElement(S)
Init == hist = << >>
Emit(e) == hist' = Append(hist, e)
New(z) == IF R(1..14) = 1 THEN [op |-> "new", model |-> R({"DLP7000", "PLUTO_2"}), nx |-> 0, ny |-> 0, opt |-> 0, ga |-> 0, neg |-> FALSE]
  ELSE [op |-> "new", model |-> "generic", nx |-> R({1, 2, 3, 4, 5, 6, 7, 8, 10}), ny |-> R({1, 2, 3, 4, 5, 6, 8, 9}), opt |-> R(0..2), ga |-> R(0..3), neg |-> R({TRUE, FALSE})]
MapQ(m) == [a |-> R(0..(m-1)), b |-> R(0..(m-1)), c |-> R(0..(m-1)), m |-> m]
\* sort: "any", "lit" (positive), "amp" (0..16), "bin" (0/1)
Field(z, sort, cx) == LET k == R(1..10)  x == cx /\ R({TRUE, FALSE})
                          a == CASE sort = "bin" -> 1 [] sort = "amp" -> R(0..16) [] sort = "lit" -> R(1..9) [] OTHER -> R(-9..9) IN
  CASE k <= 3 -> [k |-> "map", re |-> MapQ(CASE sort = "bin" -> 2 [] sort = "amp" -> 17 [] OTHER -> R({2, 5, 11})), im |-> MapQ(4), off |-> IF sort = "lit" THEN -1 ELSE IF sort = "any" THEN R({0, 0, 2, 5}) ELSE 0, cx |-> x /\ sort \in {"any", "lit"}]
    [] k <= 5 -> [k |-> "const", a |-> a, b |-> R(-5..5), cx |-> x /\ sort \in {"any", "lit"}]
    [] k <= 7 /\ sort \in {"any", "lit"} -> [k |-> "affine", a |-> IF sort = "lit" THEN 70 ELSE R(-5..5), b |-> R(-2..2), c |-> R(-2..2), cx |-> x]
    [] k <= 9 \/ sort = "lit" -> [k |-> IF sort = "lit" THEN "const" ELSE "rect", x0 |-> R(-3..3), y0 |-> R(-3..3), wx |-> R({1, 3, 5, 7, 9}), wy |-> R({1, 3, 5, 7, 9}), a |-> a, b |-> 0, cx |-> FALSE]
    [] OTHER -> [k |-> "circ", x0 |-> R(-2..2), y0 |-> R(-2..2), r2 |-> R({1, 3, 9, 17, 25, 51}), a |-> a, cx |-> FALSE]
Put(z, q, cx) == LET g == IF Profiled(q) /\ R(1..2) = 1 THEN << "prof", "" >> ELSE R(FormsOf(q, cx)) IN
  [q |-> q, f |-> g[1], t |-> g[2], lay |-> R(0..4), live |-> R(1..2) = 1, fine |-> R({0, 1, 3, -2})]
Lit(z) == Put(z, Field(z, "lit", TRUE), TRUE)
\* circles only where both axes have one unit; tilted profiles only where rounding does not matter
Calm(p, image) == (p.q.k = "circ" /\ image) \/ (p.q.k = "affine" /\ p.f = "prof")
Op(z) == LET d == R(1..10) IN
  CASE d <= 4 -> LET cx == R({TRUE, FALSE})  fo == R({TRUE, FALSE}) IN [op |-> "convert", cx |-> cx, fo |-> fo, p |-> Put(z, Field(z, "any", cx), cx)]
    [] d = 5  -> [op |-> "sim", dev |-> R({"dmd", "lcos"}), px |-> R(0..2), py |-> R(0..3), p |-> Put(z, Field(z, "any", TRUE), TRUE)]
    [] d = 6  -> [op |-> "grate", via |-> R({"set", "patch"}), p |-> Put(z, Field(z, "amp", FALSE), FALSE), pin |-> Put(z, Field(z, "any", FALSE), FALSE), pout |-> Put(z, Field(z, "any", FALSE), FALSE)]
    [] d <= 8 -> [op |-> "calc", method |-> R({"ideal", "ideal", "ifta"}), E |-> Lit(z), T |-> Put(z, Field(z, "any", TRUE), TRUE), W |-> Put(z, Field(z, "amp", TRUE), TRUE), usew |-> R({TRUE, FALSE}), S |-> Put(z, Field(z, "bin", TRUE), TRUE)]
    [] d = 9  -> [op |-> "ifta", via |-> R({"set", "patch"}), E |-> Lit(z), S |-> Put(z, Field(z, "bin", TRUE), TRUE), p |-> Put(z, Field(z, "amp", FALSE), FALSE)]
    [] OTHER  -> [op |-> "holo", method |-> R({"gs", "mraf"}), E |-> Lit(z), T |-> Put(z, Field(z, "amp", FALSE), FALSE), S |-> Put(z, Field(z, "bin", TRUE), TRUE)]
Ok(e) ==
  CASE e.op = "convert" -> ~(e.p.q.k = "circ" /\ ~e.fo)
    [] e.op = "calc" -> ~(e.T.q.k = "circ") /\ ~Calm(e.S, TRUE) /\ (e.method = "ifta" => ~Calm(e.E, FALSE) /\ ~Calm(e.T, TRUE))
    [] e.op = "ifta" -> ~Calm(e.S, TRUE) /\ ~Calm(e.E, FALSE)
    [] e.op = "holo" -> ~Calm(e.S, TRUE) /\ ~Calm(e.E, FALSE) /\ ~Calm(e.T, TRUE)
    [] OTHER -> TRUE
Next == Len(hist) < DEPTH /\ IF hist = << >> THEN \E e \in {New(1)} : Emit(e)
        ELSE \E e \in {Op(hist)} : IF Ok(e) /\ (hist[1].model # "generic" => e.op \in {"convert", "sim"}) THEN Emit(e) ELSE UNCHANGED hist
Done == Len(hist) < DEPTH \/ PrintT("HIST " \o ToJson(hist))
====
