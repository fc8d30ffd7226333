---- MODULE Gen_Ifta ----
(* Random IFTA calculations whose iterates stay away from the thresholds (C10). *)
EXTENDS Ifta, Json, IOUtils
VARIABLE hist
DEPTH == atoi(IOEnv.DEPTH)
R(S) == RandomElement(S)
Init == hist = << >>
Vecs == { <<1,0>>, <<0,1>>, <<1,1>>, <<-1,0>>, <<0,-1>>, <<1,-1>>, <<2,1>>, <<-1,2>> }
Map(m) == [a |-> R(0..(m-1)), b |-> R(0..(m-1)), c |-> R(0..(m-1)), m |-> m]
Dims == { <<y, x>> \in {1, 2, 3, 4, 5, 6, 8} \X {1, 2, 3, 4, 5, 6, 8} : y * x <= 40 /\ y * x >= 3 }
Dev(dm) == LET v == R(Vecs) IN [Nx |-> dm[2], Ny |-> dm[1], ga |-> v[1], gb |-> v[2], M |-> R({3, 4, 5, 6, 8, 10, 12}), neg |-> R({TRUE, FALSE})]
Win(g) == IF R(1..4) = 1 THEN [k |-> "map", map |-> Map(R({2, 3, 5}))]
          ELSE LET r0 == R(0..(g.Ny - 1)) c0 == R(0..(g.Nx - 1)) IN
               [k |-> "box", r0 |-> r0, r1 |-> R(r0..(g.Ny - 1)), c0 |-> c0, c1 |-> R(c0..(g.Nx - 1)), v |-> R({4, 4, 4, 2})]
Base(g, N) ==
  [op |-> "ifta", g |-> g, N |-> N, s4 |-> R({4, 4, 4, 2, 3, 6}), win |-> Win(g)]
Full(z) ==
  LET N == R({0, 1, 1, 2, 2, 3, 4, 6, 9})
      g == TLCEval(IF hist # << >> /\ hist[Len(hist)].op = "ifta" /\ R(1..2) = 1 THEN hist[Len(hist)].g ELSE Dev(R(Dims)))
      via == R({"grating", "patch", "calc", "calc"})
      b == Base(g, N) @@ [via |-> via]
  IN IF via = "calc" THEN b @@ [mod |-> Map(4), qt |-> Map(4), R |-> R(0..(g.Ny - 1)), C |-> R(0..(g.Nx - 1)), dirty |-> FALSE]
     ELSE b @@ [amp |-> (IF R(1..2) = 1 THEN Map(17) ELSE [a |-> 16, b |-> 0, c |-> 0, m |-> 17]), pin |-> Map(240), pout |-> Map(240),
                E |-> [re |-> Map(R({3, 5})), im |-> Map(R({1, 2, 4})), off |-> R({0, 1, 2}), hole |-> R({0, 0, 3, 4}), hs |-> R(0..3)],
                i2 |-> R(0..(2 * g.Ny)), j2 |-> R(0..(2 * g.Nx)), d2 |-> R({3, 5, 8, 40}), bg |-> R({"on", "off"})]
\* larger devices, to compare the defaults with their documented values (N = 200, s = 1)
Dflt(z) == LET v == R(Vecs) IN
  [op |-> "default", g |-> [Nx |-> R(12..24), Ny |-> R(12..24), ga |-> v[1], gb |-> v[2], M |-> R({4, 5, 6, 8}), neg |-> R({TRUE, FALSE})],
   which |-> R({"N", "s", "both"}), via |-> R({"grating", "patch", "calc"})]
\* no window, and light that fades over several decades: 8^-k, quarter turns qt
Dim(z) == LET b == R({"grating", "patch"}) g == Dev(R(Dims \cup {<<17, 12>>, <<9, 31>>})) IN
  [op |-> "dim", g |-> g, via |-> b, N |-> R({1, 2, 5, 20, 60}), s4 |-> R({4, 4, 2, 6}), fade |-> Map(5), qt |-> Map(4), hole |-> R({0, 0, 3, 4}),
   amp |-> (IF R(1..2) = 1 THEN Map(17) ELSE [a |-> 16, b |-> 0, c |-> 0, m |-> 17]), pin |-> Map(240), pout |-> Map(240),
   i2 |-> R(0..(2 * g.Ny)), j2 |-> R(0..(2 * g.Nx)), d2 |-> R({3, 5, 8, 40}), bg |-> R({"on", "off"})]
Lit(e) == LET E == InputOf(e) IN \E r \in 1..e.g.Ny, c \in 1..e.g.Nx : E[r][c] # CZero
Good(e) == Lit(e) /\ LET S == StartOf(e) E == InputOf(e) X == ResultOf(e) IN
  /\ X.ok
  /\ e.N = 0 \/ R(1..6) = 1 \/ \E r \in 1..e.g.Ny, c \in 1..e.g.Nx : E[r][c] # CZero /\ Final(X.G[r][c]) # Final(S[r][c])
\* cases that tell the algorithm from its neighbours: the schedule of thresholds, the number of steps
Differs(X, Y, e) == \E r \in 1..e.g.Ny, c \in 1..e.g.Nx : Final(X.G[r][c]) # Final(Y.G[r][c])
Sharp(e) == LET X == ResultOf(e) IN
  e.N < 2 \/ R(1..2) = 1 \/ Differs(X, Variant(e, e.N, -1), e) \/ Differs(X, Variant(e, e.N, 1), e) \/ Differs(X, Variant(e, e.N, 100), e)
Next == Len(hist) < DEPTH /\ \E d \in {R(1..8)} : \E e \in {IF d = 1 /\ Len(hist) < 2 THEN Dflt(d) ELSE IF d = 2 /\ Len(hist) < 3 THEN Dim(d) ELSE Full(d)} : hist' = IF e.op \in {"default", "dim"} THEN Append(hist, e) ELSE IF Good(e) /\ Sharp(e) THEN Append(hist, e) ELSE hist
Out == Len(hist) < DEPTH \/ PrintT("HIST " \o ToJson(hist))
====
