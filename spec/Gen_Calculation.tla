---- MODULE Gen_Calculation ----
(* Random DMD calculations (C09). *)
EXTENDS Calculation, Json, IOUtils
VARIABLE hist
DEPTH == atoi(IOEnv.DEPTH)
R(S) == RandomElement(S)
Init == hist = << >>
Vecs == { <<1,0>>, <<0,1>>, <<1,1>>, <<-1,0>>, <<0,-1>>, <<1,-1>>, <<2,1>>, <<-1,2>>, <<-2,-1>> }
Ms   == {2, 3, 4, 5, 6, 8, 10, 12}
Map(m) == [a |-> R(0..(m-1)), b |-> R(0..(m-1)), c |-> R(0..(m-1)), m |-> m]
In(z) == [k |-> "map", re |-> Map(R({1, 2, 5})), im |-> Map(R({1, 3, 5})), off |-> R({0, 1, 2}), hole |-> R({0, 0, 3, 5}), boost |-> R({1, 1, 1, 30, 2000})]
Pix(ny, nx) == LET v == R({ <<2,0>>, <<0,1>>, <<-1,1>>, <<1,2>>, <<-2,0>>, <<1,0>>, <<0,-2>> }) IN
  [r |-> R({0, ny - 1, ny \div 2, R(0..(ny - 1))}), c |-> R({0, nx - 1, nx \div 2, R(0..(nx - 1))}), re |-> v[1], im |-> v[2]]
RECURSIVE Pixels(_, _, _, _)
Pixels(k, ny, nx, acc) == IF k = 0 THEN acc ELSE LET p == TLCEval(Pix(ny, nx)) IN
  Pixels(k - 1, ny, nx, IF \E i \in 1..Len(acc) : acc[i].r = p.r /\ acc[i].c = p.c THEN acc ELSE Append(acc, p))
Target(ny, nx) == IF R(1..3) = 1 THEN [k |-> "map", re |-> Map(R({2, 4})), im |-> Map(R({1, 3})), off |-> 1, hole |-> R({0, 2, 3})]
                  ELSE [k |-> "sparse", px |-> Pixels(R({1, 2, 4, 7}), ny, nx, << >>)]
Window(z) == IF R(1..2) = 1 THEN [k |-> "none"]
             ELSE [k |-> "map", re |-> Map(R({1, 2})), im |-> Map(R({1, 2})), off |-> R({0, 1}), hole |-> R({0, 2, 3})]
Lit(q, ny, nx) == \E r \in 1..ny, c \in 1..nx : FieldMat(q, ny, nx)[r][c] # CZero
Dev(even) == LET v == R(Vecs) IN
  [Nx |-> IF even THEN R({2, 4, 6, 8, 10, 12}) ELSE R({1, 2, 3, 4, 5, 6, 8, 10, 12, 15}),
   Ny |-> IF even THEN R({2, 4, 6, 8, 10, 12}) ELSE R({1, 2, 3, 4, 5, 6, 8, 10, 12, 15}),
   ga |-> v[1], gb |-> v[2], M |-> R(Ms), neg |-> R({TRUE, FALSE})]
\* half of the time the device of the previous event, used again
Used(even) == LET old == hist # << >> /\ R(1..2) = 1 /\ (even => hist[Len(hist)].g.Nx % 2 = 0 /\ hist[Len(hist)].g.Ny % 2 = 0) IN
  IF old THEN hist[Len(hist)].g ELSE Dev(even)
Calc(z) == LET g == TLCEval(Used(FALSE)) IN
  [op |-> "calc", g |-> g, E |-> In(z), t |-> Target(g.Ny, g.Nx), w |-> Window(z),
   method |-> R({"ideal", "ideal", "simple", "steep"}), se |-> R({1, 1, 2, 3, 4}), st |-> R({1, 1, 2, 3, 4})]
Beam(z) == LET g == TLCEval(Used(TRUE)) IN
  [op |-> "beam", g |-> g, E |-> [In(z) EXCEPT !.hole = 0, !.boost = 1], t |-> Target(g.Ny, g.Nx), w |-> [k |-> "none"],
   method |-> "ideal", se |-> R({1, 2, 3}), st |-> R({1, 2, 4}), ps |-> R({<<0, 0>>, <<0, 0>>, <<1, 1>>, <<1, 2>>})]
\* a statement about nothing is not generated: some light on some mirror the window lets through, and a target
GoodE(e) == LET ny == e.g.Ny nx == e.g.Nx  E == FieldMat(e.E, ny, nx)  t == FieldMat(e.t, ny, nx)
                w == IF e.w.k = "none" THEN << >> ELSE FieldMat(e.w, ny, nx)
                T == Spectrum(t, w, ny, nx) IN
  /\ MaxRho(RhoMat(T, E, ny, nx)) > 300
  /\ e.op = "beam" => /\ OnGrid(e.g) /\ \A r \in 1..ny, c \in 1..nx : E[r][c] # CZero
Next == Len(hist) < DEPTH /\ \E d \in {R(1..4)} : \E e \in {IF d = 1 THEN Beam(d) ELSE Calc(d)} :
          hist' = IF GoodE(e) THEN Append(hist, e) ELSE hist
Out == Len(hist) < DEPTH \/ PrintT("HIST " \o ToJson(hist))
====
