---- MODULE Gen_Analysis ----
(* Random phase maps, shapes, radii, numbers of terms and flags. *)
EXTENDS Analysis, Json, IOUtils
VARIABLE hist
DEPTH == atoi(IOEnv.DEPTH)
R(S) == RandomElement(S)
Init == hist = << >>
Emit(e) == hist' = Append(hist, e)
Big == IOEnv.SIZE = "big"
New(z) == LET ny == R(IF Big THEN 1..14 ELSE 1..9)  nx == R(IF Big THEN 1..14 ELSE 1..9)  r == R(IF Big THEN 2..24 ELSE 2..13) IN
  [op |-> "new", ny |-> ny, nx |-> nx, R2 |-> IF ny % 2 = 1 /\ nx % 2 = 1 /\ R(1..9) = 1 THEN 1 ELSE r]
Map(z) == LET m == R(2..11) IN
  [imp |-> R(1..6) = 1, a |-> R(0..10), b |-> R(0..10), c |-> R(0..10), m |-> m, off |-> R(0..m), d |-> R({0, 0, 3, 4}), t |-> R({0, 0, 1, 2})]
Op(z) == LET q == Map(z)  d == R(1..8)
             com == [map |-> q, dtype |-> R({"float64", "float32", "int64", "int32"}), scale |-> R({0, 0, 1, 2}), verbose |-> R(1..5) = 1,
                     dirt |-> R(0..4), rtype |-> R({"float", "int", "np"}), contig |-> R(0..3)] IN
  IF d <= 3 THEN com @@ [op |-> "strip", defocus |-> R({TRUE, FALSE})]
  ELSE com @@ [op |-> "decomp", k |-> LET km == KMax(q, hist[1].R2) IN R({R(0..km), R(0..Min2(km, 6)), R(1..Min2(km, 11)), IF R(1..6) = 1 THEN km ELSE 3}), rec |-> R({TRUE, FALSE}), ext |-> R({TRUE, FALSE})]
Next ==
  /\ Len(hist) < DEPTH
  /\ IF hist = << >> THEN \E e \in {New(1)} : (Pix(e.ny, e.nx, e.R2) = {} /\ UNCHANGED hist) \/ (Pix(e.ny, e.nx, e.R2) # {} /\ Emit(e))
     ELSE \E e \in {Op(hist)} : Emit(e)
Out == Len(hist) < DEPTH \/ PrintT("HIST " \o ToJson(hist))
====
