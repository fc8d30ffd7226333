---- MODULE Gen_Builtins ----
(* Random built-in profiles with parameters for which the formulas are exact; histories with assignments. *)
EXTENDS Builtins, FiniteSets, TLC, Json, IOUtils
VARIABLE hist
DEPTH == atoi(IOEnv.DEPTH)
LIVE  == IOEnv.MODE = "live"
R(S) == RandomElement(S)
SWEEP == IOEnv.MODE = "sweep"
Emit(e) == hist' = Append(hist, e)
W2(op) == IF op = "sg" THEN {1, 2, 4, 8, 16} ELSE IF op = "lg" THEN {2, 8} ELSE {2, 8, 32}
A == {-3, -2, -1, 1, 2, 5}
NM == {<<n, m>> \in (0..10) \X (-10..10) : ZernValid(n, m)}
ZR == {1, 2, 3, 4, 5}
NewQ(z) ==
  LET d == R(1..12) IN
  CASE d <= 3  -> [op |-> "hg", x0 |-> R(-2..2), y0 |-> R(-2..2), a |-> R(A), w2 |-> R(W2("hg")), n |-> R(IF R(1..3) = 1 THEN 6..10 ELSE 0..5), m |-> R(IF R(1..4) = 1 THEN 5..10 ELSE 0..4)]
    [] d <= 5  -> [op |-> "lg", x0 |-> R(-2..2), y0 |-> R(-2..2), a |-> R(A), w2 |-> R(W2("lg")), l |-> R(IF R(1..4) = 1 THEN {-5, -4, 4, 5} ELSE -3..3), p |-> R(0..5)]
    [] d <= 7  -> [op |-> "sg", x0 |-> R(-2..2), y0 |-> R(-2..2), a |-> R(A), w2 |-> R(W2("sg")), p2 |-> R({2, 2, 4, 6, 1, 3, 8, 12, 16})]
    [] d <= 9  -> LET nm == R(NM) ext == R({TRUE, FALSE}) IN
                  [op |-> "zn", n |-> nm[1], m |-> nm[2], a |-> R(A), r |-> R(IF nm[1] > 6 THEN {1, 2, 3, 3} ELSE IF nm[1] > 4 THEN {1, 2, 3, 5} ELSE ZR),
                   norm |-> R({TRUE, FALSE}), ext |-> ext, sharp |-> TRUE]
    [] d = 10  -> [op |-> "rw", x0 |-> R(-2..2), y0 |-> R(-2..2), wx |-> R(0..8), wy |-> R(0..8), sharp |-> TRUE]
    [] d = 11  -> [op |-> "cw", x0 |-> R(-2..2), y0 |-> R(-2..2), r |-> R(0..5), sharp |-> TRUE]
    [] OTHER   -> LET cx == R({TRUE, FALSE}) IN
                  [op |-> "co", re |-> R(-5..5), im |-> IF cx THEN R(-3..3) ELSE 0, den |-> R({1, 3, 7}), cx |-> cx]
\* parameters are exact in a power of two unit; otherwise edges are not decided
Blur(q, u) == IF "sharp" \in DOMAIN q THEN [q EXCEPT !.sharp = (u # 2)] ELSE q
Derived(i, j) == LET d == R(1..3) IN
  CASE d = 1 -> [op |-> "shift", i |-> i, dx |-> R(-2..2), dy |-> R(-2..2)]
    [] d = 2 -> [op |-> "times", i |-> i, k |-> R({2, -1, 3})]
    [] OTHER -> [op |-> "plus0", i |-> i, j |-> j]
NewVal(q, p) == CASE p \in {"x0", "y0"} -> R(-2..2) [] p = "a" -> R(A \cup {0}) [] p = "w2" -> R(W2(q.op))
                  [] p = "p2" -> R({2, 4, 6, 1, 3, 10, 14}) [] p = "r" -> R(0..5) [] p = "re" -> R(-5..5) [] OTHER -> R(0..8)
\* "sweep": every settable parameter of every profile takes every value, read back and evaluated each time
Bases == { [op |-> "hg", x0 |-> 1, y0 |-> 1, a |-> 2, w2 |-> 8, n |-> 2, m |-> 1],
           [op |-> "hg", x0 |-> -1, y0 |-> 2, a |-> 5, w2 |-> 2, n |-> 0, m |-> 0],
           [op |-> "sg", x0 |-> 1, y0 |-> 1, a |-> 2, w2 |-> 4, p2 |-> 2],
           [op |-> "sg", x0 |-> 0, y0 |-> -2, a |-> -1, w2 |-> 16, p2 |-> 3],
           [op |-> "zn", n |-> 0, m |-> 0, a |-> 1, r |-> 3, norm |-> TRUE, ext |-> FALSE, sharp |-> FALSE],
           [op |-> "zn", n |-> 3, m |-> -1, a |-> -2, r |-> 2, norm |-> FALSE, ext |-> TRUE, sharp |-> FALSE],
           [op |-> "rw", x0 |-> 1, y0 |-> 1, wx |-> 3, wy |-> 3, sharp |-> FALSE],
           [op |-> "rw", x0 |-> 0, y0 |-> 0, wx |-> 2, wy |-> 7, sharp |-> FALSE],
           [op |-> "cw", x0 |-> 1, y0 |-> 1, r |-> 1, sharp |-> FALSE],
           [op |-> "cw", x0 |-> 0, y0 |-> -1, r |-> 4, sharp |-> FALSE],
           [op |-> "co", re |-> 3, im |-> 0, den |-> 7, cx |-> FALSE],
           [op |-> "co", re |-> 0, im |-> 2, den |-> 3, cx |-> TRUE] }
Vals(q, p) == CASE p \in {"x0", "y0"} -> << 0, 2, -2, 1 >> [] p = "a" -> << -3, 0, 5 >> [] p = "re" -> << -5, 0, 1, 5 >>
                [] p = "w2" -> IF q.op = "sg" THEN << 1, 16, 2, 8, 4 >> ELSE << 32, 2, 8 >>
                [] p = "p2" -> << 3, 1, 16, 6, 4, 10, 2 >> [] p = "r" -> << 5, 0, 2 >> [] OTHER -> << 1, 8, 0, 5 >>
Shots(q, p, v) == << [act |-> "set", i |-> 1, p |-> p, v |-> v], [act |-> "eval", i |-> 1, form |-> 0],
                     [act |-> "eval", i |-> 3, form |-> 2], [act |-> "get", i |-> 1], [act |-> "eval", i |-> 2, form |-> 0],
                     [act |-> "eval", i |-> 4, form |-> 1], [act |-> "eval", i |-> 5, form |-> 2] >>
RECURSIVE Cat(_)
Cat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Cat(Tail(ss))
RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE x \in S : TRUE IN << x >> \o AsSeq(S \ {x})
Sweep(q, u) == << [act |-> "unit", u |-> u], [act |-> "make", q |-> Blur(q, u)],
   [act |-> "make", q |-> [op |-> "shift", i |-> 1, dx |-> 1, dy |-> -2]], [act |-> "make", q |-> [op |-> "times", i |-> 2, k |-> -1]],
   [act |-> "make", q |-> [op |-> "times", i |-> 1, k |-> 3]], [act |-> "make", q |-> Blur(q, u)], [act |-> "eval", i |-> 3, form |-> 0] >>
   \o Cat([k \in 1..Cardinality(Settable(q)) |-> LET p == AsSeq(Settable(q))[k] IN
        Cat([n \in 1..Len(Vals(q, p)) |-> Shots(q, p, Vals(q, p)[n])])])
\* "orders": every order of every family once
Orders(k) ==
  CASE k <= 12 -> << [op |-> "hg", x0 |-> (k % 3) - 1, y0 |-> 1 - (k % 2), a |-> 1, w2 |-> 8, n |-> k, m |-> (3 * k) % 13],
                     [op |-> "hg", x0 |-> 0, y0 |-> -1, a |-> 1, w2 |-> 8, n |-> k, m |-> k % 2],
                     [op |-> "hg", x0 |-> 0, y0 |-> 0, a |-> IF k < 9 THEN -2 ELSE -1, w2 |-> 8, n |-> (7 * k + 1) % 5, m |-> k],
                     [op |-> "hg", x0 |-> 0, y0 |-> 1, a |-> 3, w2 |-> 2, n |-> k % 6, m |-> (k + 2) % 4] >>
    [] k <= 23 -> [p \in 1..6 |-> [op |-> "lg", x0 |-> (k + p) % 2, y0 |-> -(p % 2), a |-> 1, w2 |-> IF (k + p) % 2 = 0 THEN 2 ELSE 8, l |-> k - 18, p |-> p - 1]]
                     \o [p \in 1..3 |-> [op |-> "lg", x0 |-> -1, y0 |-> p - 1, a |-> 1, w2 |-> IF p = 2 THEN 2 ELSE 8,
                                        l |-> IF k >= 18 THEN k - 13 ELSE k - 23, p |-> p - 1]]
    [] OTHER -> LET n == k - 24  ms == AsSeq({m \in -n..n : ZernValid(n, m)}) IN
         [j \in 1..(2 * Len(ms)) |-> LET m == ms[(j + 1) \div 2] IN
            [op |-> "zn", n |-> n, m |-> m, a |-> IF j % 3 = 0 THEN -2 ELSE 1, r |-> IF n > 10 \/ (j \div 2) % 2 = 0 THEN (IF n > 10 /\ j % 5 = 0 THEN 1 ELSE 2) ELSE 3,
             norm |-> (j % 2 = 0), ext |-> ((j \div 4) % 2 = 0), sharp |-> TRUE]]
OrderHist(k, u) == LET qs == Orders(k) IN
   << [act |-> "unit", u |-> u] >> \o Cat([j \in 1..Len(qs) |-> << [act |-> "make", q |-> Blur(qs[j], u)] >>])
Init == BInit /\ IF IOEnv.MODE = "orders" THEN \E k \in 0..36 : hist = OrderHist(k, k % 3) ELSE IF SWEEP THEN \E q \in Bases, u \in 0..2 : hist = Sweep(q, u) ELSE hist = << >>

Ix == 1..Len(leaves)
Roots == {i \in Ix : Settable(leaves[i]) # {}}
\* unit of length of this history: 0 -> 1, 1 -> 2^-20, 2 -> 10^-6
Unit == IF hist = << >> THEN 0 ELSE hist[1].u
Next ==
  /\ Len(hist) < DEPTH
  /\ IF hist = << >> THEN UNCHANGED leaves /\ Emit([act |-> "unit", u |-> R(0..2)])
     ELSE \E d \in {R(1..10)}, i \in {R(Ix \cup {1})}, j \in {R(Ix \cup {1})} :
       IF Ix = {} \/ (~LIVE /\ d <= 5) \/ (d <= 2 /\ Len(leaves) < 8)
         THEN \E q \in {Blur(NewQ(i), Unit)} : BMake(q) /\ Emit([act |-> "make", q |-> q])
       ELSE IF LIVE /\ d <= 4 /\ Len(leaves) < 8
         THEN \E q \in {Derived(i, j)} : BMake(q) /\ Emit([act |-> "make", q |-> q])
       ELSE IF LIVE /\ d <= 7 /\ Roots # {}
         THEN \E k \in {R(Roots)} : \E p \in {R(Settable(leaves[k]))} : \E v \in {NewVal(leaves[k], p)} :
                BSet(k, p, v) /\ Emit([act |-> "set", i |-> k, p |-> p, v |-> v])
       ELSE BLook(i) /\ Emit([act |-> IF d = 8 THEN "get" ELSE "eval", i |-> i, form |-> R(0..2)])
Out == Len(hist) < DEPTH \/ PrintT("HIST " \o ToJson(hist))
====
