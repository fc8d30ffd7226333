---- MODULE Profiles ----
(***************************************************************************)
(* Profile objects: a store of expression nodes over parameterised leaves  *)
(* (C03, C04).  A node is a record [op, ...]; operands are indices of      *)
(* earlier nodes, so a leaf whose parameter is assigned is seen by every    *)
(* expression built on it and by nothing else.                             *)
(***************************************************************************)
EXTENDS Rational

VARIABLE nodes

Leaves == {"const", "rect", "circ", "zern"}

\* rotation angles with rational sine and cosine: << cos, sin >> in fifths
ROT == << <<5, 0>>, <<0, 5>>, <<-5, 0>>, <<0, -5>>, <<4, 3>>, <<3, -4>>, <<-4, 3>>, <<-3, -4>> >>

\* whole turns added to the angle change nothing but its rounding
Turned(v, nd) == IF "t" \in DOMAIN nd THEN [v EXCEPT ![4] = @ + 8 * Abs(nd.t)] ELSE v

VSq(x, y) == VAdd(VMul(x, x), VMul(y, y))

\* unnormalised Zernike polynomials without the unit disk, at (u, v) = (x, y)/radius
ZernU(n, m, u, v) ==
  LET r2 == VSq(u, v) IN
  CASE n = 0             -> VInt(1)
    [] n = 1 /\ m =  1   -> u
    [] n = 1 /\ m = -1   -> v
    [] n = 2 /\ m =  0   -> VSub(VMul(VInt(2), r2), VInt(1))
    [] n = 2 /\ m =  2   -> VSub(VMul(u, u), VMul(v, v))
    [] n = 2 /\ m = -2   -> VMul(VInt(2), VMul(u, v))
    [] n = 3 /\ m =  1   -> VMul(u, VSub(VMul(VInt(3), r2), VInt(2)))
    [] n = 3 /\ m = -1   -> VMul(v, VSub(VMul(VInt(3), r2), VInt(2)))
    [] n = 3 /\ m =  3   -> VMul(u, VSub(VMul(u, u), VMul(VInt(3), VMul(v, v))))
    [] n = 3 /\ m = -3   -> VMul(v, VSub(VMul(VInt(3), VMul(u, u)), VMul(v, v)))
    [] OTHER             -> U

Abs2(a) == IF a = U THEN U ELSE << Abs(a[1]), 0, a[3], a[4] >>

LeafValue(nd, x, y) ==
  CASE nd.op = "const" -> nd.c
    [] nd.op = "zern"  -> VMul(nd.a, ZernU(nd.n, nd.m, VDiv(x, nd.r), VDiv(y, nd.r)))
    [] nd.op = "rect"  ->
         LET cx == VCmp(Abs2(VSub(x, nd.x0)), VDiv(nd.wx, VInt(2)))
             cy == VCmp(Abs2(VSub(y, nd.y0)), VDiv(nd.wy, VInt(2)))
         IN IF cx = "near" \/ cy = "near" THEN U
            ELSE IF cx = "lt" /\ cy = "lt" THEN VInt(1) ELSE VInt(0)
    [] nd.op = "circ"  ->
         LET c == VCmp(VSq(VSub(x, nd.x0), VSub(y, nd.y0)), VMul(nd.r, nd.r))
         IN IF c = "near" THEN U ELSE IF c = "lt" THEN VInt(1) ELSE VInt(0)

IPow(k) == CASE k % 4 = 0 -> VGauss(1, 0) [] k % 4 = 1 -> VGauss(0, 1)
             [] k % 4 = 2 -> VGauss(-1, 0) [] OTHER -> VGauss(0, -1)
\* 2 pi/4 times an integer, exponentiated: the error bound grows with the integer
Cis(v) == IF VIsInt(v) THEN [IPow(v[1]) EXCEPT ![4] = 2 * (Abs(v[1]) + v[4]) + 2] ELSE U

\* exp(i (pi/2 a + i ln 2 b)) = i^a / 2^b
Cis2(a, b) == IF ~VIsInt(a) \/ ~VIsInt(b) THEN U ELSE IF Abs(b[1]) > 6 THEN U
              ELSE LET u == IPow(a[1])  k == Pow(2, Abs(b[1]))
                       e == 2 * (Abs(a[1]) + a[4]) + 2 * (Abs(b[1]) + b[4]) + 8
                   IN IF b[1] >= 0 THEN VNorm(u[1], u[2], k, e) ELSE VNorm(k * u[1], k * u[2], 1, k * e)

PowV(a, n) == IF n <= 0 /\ VIsZero(a) THEN U
              ELSE LET p == VPow(a, n) IN
                   IF p = U THEN U ELSE VNorm(p[1], p[2], p[3], 2 * p[4] + 20 * VMag(p))

\* TRUE when the values of the node are complex numbers in the backend
RECURSIVE Cplx(_, _)
Cplx(ns, i) ==
  LET nd == ns[i] IN
  CASE nd.op = "const" -> nd.cx
    [] nd.op \in {"rect", "circ", "zern"} -> FALSE
    [] nd.op \in {"add", "sub", "mul", "div", "powp"} -> Cplx(ns, nd.i) \/ Cplx(ns, nd.j)
    [] nd.op \in {"adds", "radds", "subs", "muls", "rmuls", "divs"} -> Cplx(ns, nd.i) \/ nd.cx
    [] nd.op \in {"cis", "cis2", "cis240", "powc"} -> TRUE
    [] OTHER -> Cplx(ns, nd.i)

RECURSIVE Value(_, _, _, _)
Value(ns, i, x, y) ==
  LET nd == ns[i] IN
  IF x = U \/ y = U THEN U
  ELSE CASE nd.op \in Leaves -> LeafValue(nd, x, y)
    [] nd.op = "add"  -> VAdd(Value(ns, nd.i, x, y), Value(ns, nd.j, x, y))
    [] nd.op = "sub"  -> VSub(Value(ns, nd.i, x, y), Value(ns, nd.j, x, y))
    [] nd.op = "mul"  -> VMul(Value(ns, nd.i, x, y), Value(ns, nd.j, x, y))
    [] nd.op = "div"  -> VDiv(Value(ns, nd.i, x, y), Value(ns, nd.j, x, y))
    [] nd.op = "powp" -> LET b == Value(ns, nd.i, x, y)
                             n == Value(ns, nd.j, x, y)
                             p == PowV(b, n[1])
                         IN IF b = U \/ VIsZero(b) \/ ~VIsInt(n) THEN U
                            \* a real base must be positive: the exponent may be inexact
                            ELSE IF ~Cplx(ns, i) /\ b[1] < 0 THEN U
                            ELSE IF Abs(n[1]) > 4 \/ p = U THEN U
                            ELSE VNorm(p[1], p[2], p[3], p[4] + 7 * n[4] * VMag(p))
    [] nd.op \in {"adds", "radds"} -> VAdd(Value(ns, nd.i, x, y), nd.c)
    [] nd.op = "subs" -> VSub(Value(ns, nd.i, x, y), nd.c)
    [] nd.op \in {"muls", "rmuls"} -> VMul(Value(ns, nd.i, x, y), nd.c)
    [] nd.op = "divs" -> VDiv(Value(ns, nd.i, x, y), nd.c)
    [] nd.op = "pows" -> PowV(Value(ns, nd.i, x, y), nd.n)
    \* a complex exponent n + 0i promotes; 0 to a complex power is not claimed
    [] nd.op = "powc" -> LET b == Value(ns, nd.i, x, y) IN
                         IF b = U \/ VIsZero(b) THEN U ELSE PowV(b, nd.n)
    [] nd.op = "neg"  -> VNeg(Value(ns, nd.i, x, y))
    [] nd.op = "cis"  -> Cis(Value(ns, nd.i, x, y))
    [] nd.op = "cis2" -> Cis2(Value(ns, nd.i, x, y), Value(ns, nd.j, x, y))
    [] nd.op = "shift"-> Value(ns, nd.i, VSub(x, nd.dx), VSub(y, nd.dy))
    [] nd.op = "rot"  -> LET c == Turned(VRat(ROT[nd.k][1], 5), nd)  s == Turned(VRat(ROT[nd.k][2], 5), nd) IN
                         Value(ns, nd.i, VSub(VMul(c, x), VMul(s, y)), VAdd(VMul(s, x), VMul(c, y)))
    [] nd.op = "rsx"  -> Value(ns, nd.i, VDiv(x, nd.c), y)
    [] nd.op = "rsy"  -> Value(ns, nd.i, x, VDiv(y, nd.c))
    [] OTHER -> U

\* the leaves a node depends on
RECURSIVE Support(_, _)
Support(ns, i) ==
  LET nd == ns[i] IN
  IF nd.op \in Leaves THEN {i}
  ELSE IF nd.op \in {"add", "sub", "mul", "div", "powp", "cis2"} THEN Support(ns, nd.i) \cup Support(ns, nd.j)
  ELSE Support(ns, nd.i)

Params(nd) == CASE nd.op = "const" -> {"c"}
                [] nd.op = "zern"  -> {"a"}
                [] nd.op = "rect"  -> {"x0", "y0", "wx", "wy"}
                [] nd.op = "circ"  -> {"x0", "y0", "r"}
                [] OTHER -> {}

PInit       == nodes = << >>
Make(nd)    == nodes' = Append(nodes, nd)
Set(i,p,v)  == /\ i \in 1..Len(nodes) /\ p \in Params(nodes[i])
               /\ nodes' = [nodes EXCEPT ![i] = [nodes[i] EXCEPT ![p] = v]]
Evaluate(i) == i \in 1..Len(nodes) /\ UNCHANGED nodes
Get(i)      == i \in 1..Len(nodes) /\ UNCHANGED nodes
====
