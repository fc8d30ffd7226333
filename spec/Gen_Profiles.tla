---- MODULE Gen_Profiles ----
(* Random histories over profile objects; MODE "algebra" never assigns a parameter. *)
EXTENDS Profiles, TLC, Json, IOUtils
VARIABLE hist
DEPTH == atoi(IOEnv.DEPTH)
LIVE  == IOEnv.MODE = "live"
Init == PInit /\ hist = << >>
R(S) == RandomElement(S)
Ix == 1..Len(nodes)

Probe == { <<VInt(1), VInt(2)>>, <<VInt(-1), VInt(1)>>, <<VRat(1,2), VInt(-2)>>, <<VInt(0), VInt(0)>>, <<VInt(2), VRat(-3,2)>> }
Reals == { VInt(-3), VInt(-2), VInt(-1), VInt(1), VInt(2), VInt(3), VRat(1,2), VRat(-3,2), VRat(5,4), VInt(0) }
Cs    == { VGauss(1, 1), VGauss(0, 2), VGauss(-2, 1), VGauss(0, -1), VGauss(3, 0), VGauss(1, -2), VNorm(1, 3, 2, 2) }
Mult  == { VInt(2), VInt(-1), VInt(3), VRat(1,2), VRat(-1,2), VInt(-2), VRat(3,2) }
Cent  == { VInt(0), VInt(0), VInt(1), VInt(-1), VInt(-2), VRat(1,2), VInt(2) }
Wid   == { VInt(0), VRat(6,7), VRat(20,7), VRat(34,7), VRat(48,7) }
Rad   == { VInt(0), VRat(3,7), VRat(10,7), VRat(17,7), VRat(24,7) }
ZNM   == { <<0,0>>, <<1,1>>, <<1,-1>>, <<2,0>>, <<2,2>>, <<2,-2>>, <<3,1>>, <<3,-1>>, <<3,3>>, <<3,-3>> }
Pick(cx) == IF cx THEN R(Cs) ELSE R(Reals)

NewLeaf(z) ==
  CASE R(1..5) \in {1, 2} -> LET cx == R({TRUE, FALSE}) IN [op |-> "const", cx |-> cx, c |-> Pick(cx)]
    [] OTHER ->
       CASE R(1..3) = 1 -> [op |-> "rect", x0 |-> R(Cent), y0 |-> R(Cent), wx |-> R(Wid), wy |-> R(Wid)]
         [] R(1..3) = 2 -> [op |-> "circ", x0 |-> R(Cent), y0 |-> R(Cent), r |-> R(Rad)]
         [] OTHER -> LET nm == R(ZNM) IN [op |-> "zern", n |-> nm[1], m |-> nm[2], r |-> R({VInt(1), VInt(2)}), a |-> R(Reals)]

\* the operation of node i once more (a shift of a shift, a power of a power, ...)
Unary == {"cis", "neg", "adds", "radds", "subs", "muls", "rmuls", "divs", "pows", "powc", "shift", "rot", "rsx", "rsy"}
Again(i) ==
  LET nd == nodes[i] IN
  CASE nd.op \in {"cis", "neg"} -> [op |-> nd.op, i |-> i]
    [] nd.op \in {"adds", "radds", "subs", "muls", "rmuls", "divs"} ->
         LET cx == R({TRUE, FALSE}) IN [op |-> nd.op, i |-> i, cx |-> cx, c |-> Pick(cx)]
    [] nd.op \in {"pows", "powc"} -> [op |-> nd.op, i |-> i, n |-> R({-1, 2, 3, 4})]
    [] nd.op = "shift" -> [op |-> "shift", i |-> i, dx |-> R(Cent), dy |-> R(Cent)]
    [] nd.op = "rot" -> [op |-> "rot", i |-> i, k |-> R(1..8), t |-> R(-2..2)]
    [] OTHER -> [op |-> nd.op, i |-> i, c |-> R(Mult)]

NewNode(i, j) ==
  CASE nodes[i].op \in Unary /\ R(1..3) = 1 -> Again(i)
    [] R(1..11) = 1 -> NewLeaf(i)
    [] R(1..10) = 1 -> IF R(1..2) = 1 THEN [op |-> "cis", i |-> i] ELSE [op |-> "cis2", i |-> i, j |-> j]
    [] R(1..9) = 1 -> [op |-> "neg", i |-> i]
    [] R(1..8) <= 2 -> [op |-> R({"add", "sub", "mul", "div", "powp"}), i |-> i, j |-> j]
    [] R(1..6) <= 2 -> LET cx == R({TRUE, FALSE}) IN
                       [op |-> R({"adds", "radds", "subs", "muls", "rmuls", "divs"}), i |-> i, cx |-> cx, c |-> Pick(cx)]
    [] R(1..4) = 1 -> [op |-> R({"pows", "powc"}), i |-> i, n |-> R({-2, -1, 0, 1, 2, 2, 3, 3, 4, 5})]
    [] R(1..3) = 1 -> [op |-> "shift", i |-> i, dx |-> R(Cent), dy |-> R(Cent)]
    [] R(1..2) = 1 -> [op |-> "rot", i |-> i, k |-> R(1..8), t |-> R(-2..2)]
    [] OTHER -> [op |-> R({"rsx", "rsy"}), i |-> i, c |-> R(Mult)]

\* points in half units
PS == << << <<2, 4>> >>,
         << <<0, 0>>, <<1, 3>>, <<-2, 1>>, <<4, -3>> >>,
         << <<-2, 2>>, <<0, 2>>, <<2, 2>>, <<-2, 0>>, <<0, 0>>, <<2, 0>>, <<-2, -2>>, <<0, -2>>, <<2, -2>> >>,
         << <<3, 1>>, <<-1, -5>> >>,
         << <<-4, 4>>, <<5, 1>>, <<-3, -3>>, <<1, 0>>, <<0, 7>>, <<2, 5>> >> >>

Emit(e) == hist' = Append(hist, e)
Defined(nd) == \E p \in Probe : Value(Append(nodes, nd), Len(nodes) + 1, p[1], p[2]) # U
DoMake(nd) == Make(nd) /\ Emit([act |-> "make", nd |-> nd])
DoEval(i, k) == Evaluate(i) /\ Emit([act |-> "eval", i |-> i, pts |-> PS[k], form |-> R(0..3)])
NewVal(nd, p) == CASE p = "c" -> Pick(nd.cx) [] p = "a" -> R(Reals) [] p \in {"x0", "y0"} -> R(Cent)
                   [] p \in {"wx", "wy"} -> R(Wid) [] OTHER -> R(Rad)

LeafIx == {i \in Ix : nodes[i].op \in Leaves}
Next ==
  /\ Len(hist) < DEPTH
  /\ \E d \in {R(1..12)}, i \in {R(Ix \cup {1})}, j0 \in {R(Ix \cup {1})}, k \in {R(1..5)} :
     \* an operand is used twice now and then
     LET j == IF R(1..6) = 1 /\ Ix # {} THEN (IF d <= 3 THEN Len(nodes) ELSE i) ELSE j0 IN
     IF Cardinality(LeafIx) < 2 THEN \E nd \in {NewLeaf(i)} : DoMake(nd)
     ELSE IF d <= 5 /\ Len(nodes) < 14
       THEN \E nd \in {NewNode(IF d <= 3 THEN Len(nodes) ELSE i, j)} :
              IF Defined(nd) THEN DoMake(nd) ELSE DoEval(i, k)
     ELSE IF d <= 8 /\ LIVE
       THEN \E q \in {R(LeafIx)} : \E p \in {R(Params(nodes[q]))} : \E v \in {NewVal(nodes[q], p)} :
              /\ Set(q, p, v) /\ Emit([act |-> "set", i |-> q, p |-> p, v |-> v])
     ELSE IF d = 9 /\ LIVE
       THEN \E q \in {R(LeafIx)} : Get(q) /\ Emit([act |-> "get", i |-> q])
     ELSE DoEval(IF d = 10 THEN Len(nodes) ELSE i, k)
Out == Len(hist) < DEPTH \/ PrintT("HIST " \o ToJson(hist))
====
