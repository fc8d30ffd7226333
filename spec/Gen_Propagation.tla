---- MODULE Gen_Propagation ----
(* Random propagations: devices of every size, states, inputs and several paddings each (C11). *)
EXTENDS Propagation, Json, IOUtils
VARIABLE hist
DEPTH == atoi(IOEnv.DEPTH)
R(S) == RandomElement(S)
Init == hist = << >>
Map(m) == [a |-> R(0..(m-1)), b |-> R(0..(m-1)), c |-> R(0..(m-1)), m |-> m]
Form(z) == R({"bool", "gray", "signed", "phase", "phase", "phase"})
St(f) == CASE f = "bool" -> IF R(1..4) = 1 THEN [a |-> 1, b |-> 0, c |-> 0, m |-> 2] ELSE Map(R({2, 6, 10}))
           [] f = "gray" -> Map(R({17, 25})) [] f = "signed" -> Map(33) [] OTHER -> Map(240)
DSizes == {1, 2, 3, 4, 5, 6, 8, 10, 12, 15, 16, 20, 24, 30}
\* paddings of a device of size n whose padded size divides 240
DPads(n) == { p \in 0..8 : (n + 2*p) \in DSizes }
\* the dimensions (and kind of device) of the previous event half of the time: one device used again
Again(z) == hist # << >> /\ hist[Len(hist)].in.k = "dense" /\ R(1..2) = 1
Prev == hist[Len(hist)]
FormLike(z) == IF Prev.form = "phase" THEN "phase" ELSE R({"bool", "gray", "gray", "signed"})
Dense(z) ==
  LET old == TLCEval(Again(z))
      f == IF old THEN FormLike(z) ELSE Form(z)
      ny == IF old THEN Prev.Ny ELSE R({1, 2, 3, 4, 5, 6, 7, 8, 10})
      nx == IF old THEN Prev.Nx ELSE R({1, 2, 3, 4, 5, 6, 8, 9, 11, 12})
      pads == { <<py, px>> \in ((DPads(ny) \cup (IF ny = 7 THEN {4} ELSE {})) \X (DPads(nx) \cup (IF nx = 9 THEN {3} ELSE IF nx = 11 THEN {2} ELSE {}))) :
                 (ny + 2*py) * (nx + 2*px) <= 340 }
      pick(i) == IF pads = {} THEN <<0, 0>> ELSE R(pads)
  IN [op |-> "prop", Nx |-> nx, Ny |-> ny, model |-> "generic", form |-> f, st |-> St(f), pads |-> IF old THEN << pick(1), Prev.pads[2] >> ELSE << pick(1), pick(2) >>,
      in |-> [k |-> "dense", re |-> Map(5), im |-> Map(5), off |-> 2]]
Pix(ny, nx) == LET v == R({ <<r, c>> \in {-3, -1, 0, 1, 2, 3} \X {-2, -1, 0, 1, 3} : r # 0 \/ c # 0 }) IN
  [r |-> R({0, ny - 1, ny \div 2, R(0..(ny - 1))}), c |-> R({0, nx - 1, nx \div 2, R(0..(nx - 1))}), re |-> v[1], im |-> v[2]]
RECURSIVE Pixels(_, _, _, _)
Pixels(k, ny, nx, acc) == IF k = 0 THEN acc ELSE LET p == TLCEval(Pix(ny, nx)) IN
  Pixels(k - 1, ny, nx, IF \E i \in 1..Len(acc) : acc[i].r = p.r /\ acc[i].c = p.c THEN acc ELSE Append(acc, p))
Sparse(z) ==
  LET big == R(1..10) = 1
      f == Form(z)
      model == IF big THEN R({"DLP7000", "DLP9500", "PLUTO_2"}) ELSE "generic"
      nx == IF big THEN Catalogue[model].Nx ELSE R(1..70)
      ny == IF big THEN Catalogue[model].Ny ELSE R(1..70)
      f2 == IF big THEN (IF model = "PLUTO_2" THEN "phase" ELSE IF f = "phase" THEN "gray" ELSE f) ELSE f
      pd(i) == IF big THEN R({0, 0, 1, 3}) ELSE R({0, 1, 2, 5, 17, 100, R(0..150)})
  IN [op |-> "prop", Nx |-> nx, Ny |-> ny, model |-> model, form |-> f2, st |-> St(f2),
      pads |-> IF big THEN << << pd(1), pd(2) >> >> ELSE << << pd(1), pd(2) >>, << pd(3), pd(4) >> >>,
      in |-> [k |-> "sparse", px |-> Pixels(R({1, 3, 8}), ny, nx, << >>)]]
Wave(z) == LET f == Form(z) IN
  [op |-> "prop", Nx |-> R(1..120), Ny |-> R(1..120), model |-> "generic", form |-> f, st |-> St(f),
   pads |-> << <<0, 0>>, << R(0..90), R(0..90) >>, << R(0..9), 0 >> >>, in |-> [k |-> "wave", am |-> R(1..3), ph |-> Map(240)]]
Next == Len(hist) < DEPTH /\ \E d \in {R(1..9)} : \E e \in {IF d <= 5 THEN Dense(d) ELSE IF d <= 8 THEN Sparse(d) ELSE Wave(d)} : hist' = Append(hist, e)
Out == Len(hist) < DEPTH \/ PrintT("HIST " \o ToJson(hist))
====
