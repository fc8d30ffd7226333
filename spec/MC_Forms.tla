---- MODULE MC_Forms ----
(***************************************************************************)
(* Laws: every form offered can hold every value of the field exactly; a      *)
(* field that is a profile has a form besides arrays; an affine field on the   *)
(* two planes differs only through the coordinates; a shift of an affine field *)
(* by its centre is the field minus a constant.                               *)
(***************************************************************************)
EXTENDS Forms
VARIABLES d, q
M(a, b, c, m) == [a |-> a, b |-> b, c |-> c, m |-> m]
Init == d \in [nx : 1..4, ny : 1..3] /\ q \in
   { [k |-> "map", re |-> M(0, 1, 2, m), im |-> M(1, 1, 0, 3), off |-> o, cx |-> x] : m \in {2, 5}, o \in {0, 2}, x \in {TRUE, FALSE} }
   \cup { [k |-> "const", a |-> a, b |-> 2, cx |-> x] : a \in {-1, 0, 1, 3}, x \in {TRUE, FALSE} }
   \cup { [k |-> "affine", a |-> 1, b |-> b, c |-> c, cx |-> x] : b \in {0, 2}, c \in {-1, 1}, x \in {TRUE, FALSE} }
   \cup { [k |-> "rect", x0 |-> x0, y0 |-> 0, wx |-> w, wy |-> 3, a |-> a, cx |-> FALSE] : x0 \in {0, 1}, w \in {1, 5}, a \in {1, 2} }
   \cup { [k |-> "circ", x0 |-> x0, y0 |-> 0, r2 |-> w, a |-> a, cx |-> FALSE] : x0 \in {0, 1}, w \in {1, 9}, a \in {1, 2} }
Next == UNCHANGED << d, q >>
Px == (0..(d.ny - 1)) \X (0..(d.nx - 1))
Fits(t, v) == CASE t = "bool" -> v[1] \in {0, 1} /\ v[2] = 0 [] t \in {"uint8", "uint16"} -> v[1] \in 0..255 /\ v[2] = 0
                [] t \in {"complex64", "complex128"} -> TRUE [] OTHER -> v[2] = 0 /\ Abs(v[1]) <= 2048
Holds == \A cx \in {TRUE, FALSE}, f \in {TRUE, FALSE} : (q.cx => cx) => \A g \in FormsOf(q, cx) :
           g[1] \in {"arr", "ten"} => \A p \in Px : Fits(g[2], At(q, d, f, p[1], p[2]))
Some == \A cx \in {TRUE, FALSE} : (q.cx => cx) => FormsOf(q, cx) # {} /\ (Profiled(q) => \E g \in FormsOf(q, cx) : g[1] = "prof")
Planes == q.k = "affine" => \A p \in Px : LET u == At(q, d, TRUE, p[1], p[2])  v == At(q, d, FALSE, p[1], p[2]) IN
            u[1] - v[1] = q.b * (FX(d, TRUE, p[2]) - FX(d, FALSE, p[2])) + q.c * (FY(d, TRUE, p[1]) - FY(d, FALSE, p[1]))
\* steps along columns and rows
Steps == q.k = "affine" => \A p \in Px : \A f \in {TRUE, FALSE} : LET k == IF f THEN 2 ELSE 1 IN
            /\ p[2] > 0 => At(q, d, f, p[1], p[2])[1] - At(q, d, f, p[1], p[2] - 1)[1] = k * q.b
            /\ p[1] > 0 => At(q, d, f, p[1], p[2])[1] - At(q, d, f, p[1] - 1, p[2])[1] = -k * q.c
====
