---- MODULE Forms ----
(***************************************************************************)
(* The forms in which a field can be supplied (C02).  A field is a complex    *)
(* integer per pixel of a plane; coordinates are those of Geometry: half      *)
(* pixels on the Fourier plane, frequency steps on the image plane.          *)
(***************************************************************************)
EXTENDS Gratings, Geometry, TLC

Plane(d) == [Nx |-> d.nx, Ny |-> d.ny, px |-> 0, py |-> 0]
FX(d, f, c) == IF f THEN FX2(Plane(d), c) ELSE IX(Plane(d), c)
FY(d, f, r) == IF f THEN FY2(Plane(d), r) ELSE IY(Plane(d), r)
\* the value of field q of device d at pixel (r, c) of the Fourier plane (f) or the image plane
At(q, d, f, r, c) == LET x == FX(d, f, c)  y == FY(d, f, r) IN
  CASE q.k = "map"    -> << MapV(q.re, r, c) - q.off, IF q.cx THEN MapV(q.im, r, c) - 2 ELSE 0 >>
    [] q.k = "const"  -> << q.a, IF q.cx THEN q.b ELSE 0 >>
    [] q.k = "affine" -> << q.a + q.b * x + q.c * y, IF q.cx THEN q.c * x - q.b * y + 1 ELSE 0 >>
    [] q.k = "rect"   -> << IF 2 * Abs(x - q.x0) < q.wx /\ 2 * Abs(y - q.y0) < q.wy THEN q.a ELSE 0, 0 >>
    [] OTHER          -> << IF 2 * ((x - q.x0) * (x - q.x0) + (y - q.y0) * (y - q.y0)) < q.r2 THEN q.a ELSE 0, 0 >>    \* circle, r2 odd
\* range of a field, deciding in which types it can be supplied
NonNeg(q) == CASE q.k = "map" -> q.off = 0 [] q.k \in {"const", "rect", "circ"} -> q.a >= 0 [] OTHER -> FALSE
Binary(q) == CASE q.k = "map" -> q.off = 0 /\ q.re.m <= 2 [] q.k \in {"const", "rect", "circ"} -> q.a \in {0, 1} [] OTHER -> FALSE
Dtypes(q) == {"float32", "float64", "complex64", "complex128"} \cup (IF q.cx THEN {} ELSE {"int16", "int32", "int64"}) \cup (IF q.cx \/ q.k = "affine" THEN {} ELSE {"float16"})
   \cup (IF NonNeg(q) /\ ~q.cx THEN {"uint8", "uint16"} ELSE {}) \cup (IF Binary(q) /\ ~q.cx THEN {"bool"} ELSE {})
Profiled(q) == q.k # "map"
\* forms: arrays and tensors of any type that holds the values, profiles, and for uniform fields plain numbers
FormsOf(q, cx) == { << b, t >> : b \in {"arr", "ten"}, t \in { t \in Dtypes(q) : (q.cx => t \in {"complex64", "complex128"}) /\ (~cx => t \notin {"complex64", "complex128"}) } }
   \cup (IF Profiled(q) THEN { << "prof", "" >> } ELSE {}) \cup (IF q.k = "const" THEN { << "num", "" >>, << "prof", "" >> } ELSE {})
\* a supplied field may carry a part too fine for single precision (in 2^-30), kept by every form of double precision
Carries(p, prec) == prec = 64 /\ (p.t \in {"float64", "complex128"} \/ p.f = "num" \/ (p.f = "prof" /\ p.q.k = "const"))
Fine(p, prec) == IF Carries(p, prec) THEN p.fine ELSE 0
Kind2(cx, prec) == IF cx THEN (IF prec = 64 THEN "complex128" ELSE "complex64") ELSE (IF prec = 64 THEN "float64" ELSE "float32")
====
