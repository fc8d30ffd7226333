---- MODULE Backend ----
(***************************************************************************)
(* The backend (C14): precision, whether it has been used, FFT engine.        *)
(* Numbers are dual: << a, b >> stands for a + b 2^-40, products drop 2^-80.   *)
(* A result of 64-bit precision shows b; one of 32 bits shows a.             *)
(* Values are integers after multiplication by the scale an event states.    *)
(***************************************************************************)
EXTENDS Fixed
VARIABLES prec, used, eng
bvars == << prec, used, eng >>
\* "may": something was constructed that may or may not have consulted the backend
BInit == prec = 32 /\ used = "no" /\ eng = 1

\* what an attempt to set the precision may answer
SetAnswers(v) == LET free == IF v \in {32, 64} THEN "" ELSE "ValueError" IN
  CASE used = "no" -> {free} [] used = "yes" -> {"AssertionError"} [] OTHER -> {free, "AssertionError"}
\* the state after an attempt that was answered with a
SetPrec(v, a) ==
  /\ prec' = (IF a = "" /\ v \in {32, 64} /\ used # "yes" THEN v ELSE prec)
  /\ used' = (IF used = "may" THEN (IF a = "AssertionError" THEN "yes" ELSE "no") ELSE used)
  /\ UNCHANGED eng
Use == used' = "yes" /\ UNCHANGED << prec, eng >>
May == used' = (IF used = "yes" THEN "yes" ELSE "may") /\ UNCHANGED << prec, eng >>
SetEng(k) == eng' = k /\ UNCHANGED << prec, used >>
Idle == UNCHANGED bvars
Kind(c) == IF c THEN (IF prec = 64 THEN "complex128" ELSE "complex64") ELSE (IF prec = 64 THEN "float64" ELSE "float32")
IntKind == IF prec = 64 THEN "int64" ELSE "int32"

\* --- dual numbers -----------------------------------------------------------
DAdd(x, y) == << x[1] + y[1], x[2] + y[2] >>
DNeg(x) == << -x[1], -x[2] >>
DMul(x, y) == << x[1] * y[1], x[1] * y[2] + x[2] * y[1] >>
DInt(k, x) == << k * x[1], k * x[2] >>
DZero == << 0, 0 >>
DSum(s) == FoldLeft(LAMBDA a, x : DAdd(a, x), DZero, s)
\* complex: << re, im >> of duals; quarter turns
CDZero == << DZero, DZero >>
CDAdd(u, v) == << DAdd(u[1], v[1]), DAdd(u[2], v[2]) >>
CDSum(s) == FoldLeft(LAMBDA a, x : CDAdd(a, x), CDZero, s)
Quarter(u, k) == CASE k % 4 = 0 -> u [] k % 4 = 1 -> << DNeg(u[2]), u[1] >> [] k % 4 = 2 -> << DNeg(u[1]), DNeg(u[2]) >> [] OTHER -> << u[2], DNeg(u[1]) >>
DSq(u) == DAdd(DMul(u[1], u[1]), DMul(u[2], u[2]))

\* --- the result of each kind of calculation: a sequence of complex duals ------
Re(s) == [i \in 1..Len(s) |-> << s[i], DZero >>]
Flat(ny, nx, F(_, _)) == [k \in 1..(ny * nx) |-> F((k - 1) \div nx, (k - 1) % nx)]
\* propagation: LCOS quarter turns q0 + q1 r + q2 c, input In(r, c)
In(e, r, c) == << << ((e.a * (r + 1) + 3 * c) % 7) - 3, e.b + 5 * r - 3 * c >>, << ((2 * r + e.a * c) % 5) - 2, 2 * e.b - r + 7 * c >> >>
Out(e, r, c) == IF e.dmd = 0 THEN CDZero ELSE IF e.dmd = 1 THEN In(e, r, c) ELSE Quarter(In(e, r, c), e.q[1] + e.q[2] * r + e.q[3] * c)
Image(e, r, c) == LET NY == e.ny + 2 * e.py  NX == e.nx + 2 * e.px  H == NY \div 2  W == NX \div 2
      \* device pixel (i, j) sits at (i + py, j + px)
  IN CDSum([k \in 1..(e.ny * e.nx) |-> LET i == (k - 1) \div e.nx  j == (k - 1) % e.nx IN
        Quarter(Out(e, i, j), (4 \div NY) * (i + e.py - H) * (r - H) + (4 \div NX) * (j + e.px - W) * (c - W))])
Unit4(k) == CASE k % 4 = 0 -> 2 [] k % 4 = 2 -> 0 [] OTHER -> 1   \* 1 + cos
Sin4(k) == CASE k % 4 = 1 -> 1 [] k % 4 = 3 -> -1 [] OTHER -> 0
\* which of period, angle, output and input phase deviates, and by how much
GratingVar(e) == LET w == e.a % 5 IN << IF w = 1 THEN e.b ELSE 0, IF w = 2 THEN e.b ELSE 0, IF w = 3 THEN e.b ELSE 0, IF w = 4 THEN e.b ELSE 0 >>
Pw(e) == << e.a, e.b >>
Result(e) ==
  CASE e.kind \in {"const", "peak", "tensor", "zconst", "param", "c0"} -> << << Pw(e), DZero >> >>
    [] e.kind = "cconst" -> << << Pw(e), << e.b % 5, -e.a >> >> >>
    [] e.kind = "affine" -> << << DAdd(DMul(Pw(e), << 3, e.b \div 2 >>), DInt(2, << e.a, 7 >>)), DZero >> >>
    \* a tilt shifted by 3 + 11 2^-40
    [] e.kind = "shift" -> << << DAdd(Pw(e), << -3, -11 >>), DZero >> >>
    [] e.kind = "tilt" -> << << DInt(e.m, << e.a, e.b >>), DZero >> >>       \* Zernike(m, R = 2, 1, 1), unnormalised, at x: m x / R
    \* the tilt x turned by a quarter + b 2^-40 at (a, 3); stretched by 1 + b 2^-40; with radius 2 (1 + b 2^-40)
    [] e.kind = "rotate" -> << << << -3, -e.a * e.b >>, DZero >> >>
    [] e.kind = "stretch" -> << << << e.a, -(e.a * e.b) >>, DZero >> >>
    [] e.kind = "radius" -> << << << e.a, -(e.a * e.b) >>, DZero >> >>
    \* a Gaussian of width w (1 + b 2^-40) at the distance w (scale: its value there)
    [] e.kind = "width" -> << << << e.a, e.a * e.b * (IF e.v % 3 = 1 THEN 1 ELSE 2) >>, DZero >> >>
    \* window edges within 2^-40 of a point
    [] e.kind = "edge" -> << << << (IF e.v \div 4 = 0 THEN (IF prec = 64 THEN 0 ELSE 1)           \* circle of radius 1, point 1 + 2^-40
                               ELSE IF e.v \div 4 = 1 THEN (IF prec = 64 THEN 0 ELSE 1)             \* circle of radius 1 - 2^-40, point 1
                               ELSE (IF prec = 64 THEN 1 ELSE 0)), 0 >>, DZero >> >>               \* rectangle of width 1, point 1/2 - 2^-40
    [] e.kind = "edge2" -> << << << IF prec = 64 THEN 1 ELSE 0, 0 >>, DZero >> >>               \* rectangle of width 1 + 2^-39, point 1/2
    [] e.kind = "grid" -> Re([k \in 1..e.nx |-> DInt(2 * (k - 1) - e.nx, << 1, e.b >>)] \o [k \in 1..e.ny |-> DInt(e.ny - 2 * (k - 1), << 1, e.b >>)])
    [] e.kind = "igrid" -> Re([k \in 1..e.nx |-> DInt((k - 1) - (e.nx \div 2), << 1, e.b >>)] \o [k \in 1..e.ny |-> DInt(((e.ny \div 2) - (k - 1)) * e.m, << 1, e.b >>)])
    [] e.kind = "out" -> Flat(e.ny, e.nx, LAMBDA r, c : Out(e, r, c))
    [] e.kind = "image" -> Flat(e.ny + 2 * e.py, e.nx + 2 * e.px, LAMBDA r, c : Image(e, r, c))
    [] e.kind = "inten" -> Flat(e.ny + 2 * e.py, e.nx + 2 * e.px, LAMBDA r, c : << DSq(Image(e, r, c)), DZero >>)
    [] e.kind = "power" -> LET p == DSum(Flat(e.ny, e.nx, LAMBDA r, c : DSq(Out(e, r, c)))) IN
         << << DSum(Flat(e.ny, e.nx, LAMBDA r, c : DSq(In(e, r, c)))), DZero >>, << p, DZero >>, << p, DZero >> >>
    \* ideal grating of period 4 (1 + bp) at angle bt, amplitude 1/2 + b (scale 4), phase p quarter turns + bq, input phase bi
    [] e.kind = "grating" -> Flat(e.ny, e.nx, LAMBDA r, c :
         LET z == GratingVar(e)
             k == IF z[2] # 0 THEN (e.ny \div 2) - r ELSE c - (e.nx \div 2)     \* the deviating angle is a quarter turn + bt
             o == IF z[2] # 0 THEN c - (e.nx \div 2) ELSE 0
             p == e.p - (IF z[4] # 0 THEN 1 ELSE 0)                              \* the deviating input phase is a quarter turn + bi
             t == -RDiv(15708 * (o * z[2] + k * z[1]), 10000) - z[3] + z[4]
         IN << DMul(<< 1, 2 * e.b >>, << Unit4(k - p), -Sin4(k - p) * t >>), DZero >>)
    \* calculated: target an impulse at the axis, input 1 at the first mirror and 2 + b elsewhere (scale 4)
    [] e.kind = "calc" -> Flat(e.ny, e.nx, LAMBDA r, c : << DInt(Unit4(c - (e.nx \div 2)), IF r = 0 /\ c = 0 THEN << 2, 0 >> ELSE << 1, -8 * (e.b \div 16) >>), DZero >>)
    \* eta with input 1 and target impulse of height 1 + b: inverse (scale chosen)
    [] e.kind = "eta" -> << << << 1, -e.b >>, DZero >> >>
    [] e.kind = "origin" -> LET w == e.p % 3 IN     \* wavelength, angle or period deviates
         IF w = 1 THEN << << << 0, -e.m * e.b >>, DZero >>, << << e.m, 0 >>, DZero >> >>
         ELSE << << << e.m, (IF w = 0 THEN 1 ELSE -1) * e.m * e.b >>, DZero >>, CDZero >>
    [] OTHER -> << >>
\* kinds of complex type
IsCx(e) == e.kind \in {"cconst", "out", "image"} \/ (e.kind \in {"peak", "width"} /\ e.v % 3 = 1)
\* kinds whose type is a matter of the caller (Python floats and NumPy analyses)
Untyped(e) == e.kind \in {"eta", "c0", "power"}

\* an observed part o: << fine, hi, lo >> = 4096 x, the integer nearest x, and the rest in 2^-40
PartClose(o, x) == IF prec = 64 THEN o[2] = x[1] /\ Close(o[3], x[2], 3 + Abs(x[1]) \div 64 + Abs(x[2]) \div 2048)
                   ELSE Close(o[1], 4096 * x[1], 6 + Abs(x[1]) \div 64)
ObsClose(o, u) == PartClose(<< o[1], o[2], o[3] >>, u[1]) /\ PartClose(<< o[4], o[5], o[6] >>, u[2])
====
