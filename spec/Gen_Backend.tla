---- MODULE Gen_Backend ----
(* Histories of the backend: on fresh instances (all of them) and of whole processes (random). *)
EXTENDS Backend, TLC, Json, IOUtils
VARIABLE hist
DEPTH == atoi(IOEnv.DEPTH)
R(S) == RandomElement(S)
Init == BInit /\ hist = << >>
Emit(e) == hist' = Append(hist, e)
Inst == { [op |-> "set", v |-> v] : v \in {32, 64, 0} } \cup { [op |-> "read", what |-> w] : w \in {"dtype", "complex", "int"} }
        \cup { [op |-> "eng", v |-> v] : v \in {0, 1} } \cup { [op |-> "readeng"] }
NextInst == Len(hist) < DEPTH /\ (\E e \in Inst : Emit(e)) /\ UNCHANGED bvars
A == (-9..9) \ {0}
B == (-60..-20) \cup (20..60)
Sizes == { << n, p >> \in {1, 2, 4} \X {0, 1} : n + 2 * p \in {1, 2, 4} }
Kinds == << "const", "peak", "tensor", "zconst", "param", "c0", "cconst", "affine", "shift", "tilt", "edge", "edge2", "rotate", "stretch", "radius", "width", "grid", "igrid", "out", "image", "image", "inten", "power",
            "grating", "grating", "calc", "eta", "origin", "origin", "fix", "image" >>
Calc(z) == LET k == R(1..Len(Kinds))  s == R(Sizes)  t == R(Sizes)  m == R({1, 2, 4}) IN
  [op |-> "calc", kind |-> Kinds[k], a |-> R(A), b |-> R(B), s |-> R(-3..4), v |-> R(0..9), m |-> m, neg |-> R({TRUE, FALSE}), p |-> R(0..3), q |-> << R(0..3), R(0..3), R(0..3) >>,
   dmd |-> R({1, 2, 2, 2, 0}), ny |-> s[1], py |-> s[2], nx |-> t[1], px |-> t[2]]
Fit(e) == CASE e.kind = "igrid" -> [e EXCEPT !.nx = e.m * e.ny]
            [] e.kind = "grid" -> [e EXCEPT !.nx = e.nx + e.v, !.ny = e.ny + e.p]
            [] e.kind \in {"calc", "eta", "grating"} -> [e EXCEPT !.nx = 2 * e.nx, !.ny = 2 * e.ny]
            [] e.kind = "fix" -> [e EXCEPT !.nx = 2 + e.v, !.ny = 2 + e.p]
            [] OTHER -> e
Event(z) == LET d == R(1..20) IN
  CASE d <= 2 -> [op |-> "set", v |-> R({32, 64, 0})] [] d = 3 -> [op |-> "read", what |-> R({"dtype", "complex", "int"})]
    [] d <= 6 -> [op |-> "eng", v |-> R({0, 1})] [] d = 7 -> [op |-> "readeng"] [] OTHER -> Fit(Calc(z))
Early(z) == LET d == R(1..9) IN
  CASE d <= 4 -> [op |-> "set", v |-> R({32, 64, 64, 0})] [] d <= 6 -> [op |-> "eng", v |-> R({0, 1})] [] d = 7 -> [op |-> "readeng"]
    [] d = 8 -> [op |-> "import"] [] OTHER -> [op |-> "make", v |-> R(0..6)]
NextProc == Len(hist) < DEPTH /\ (\E e \in {IF Len(hist) < 2 + (DEPTH % 3) THEN Early(hist) ELSE Event(hist)} : Emit(e)) /\ UNCHANGED bvars
Next == IF IOEnv.MODE = "inst" THEN NextInst ELSE NextProc
Done == Len(hist) < DEPTH \/ PrintT("HIST " \o ToJson(hist))
====
