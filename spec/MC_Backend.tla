---- MODULE MC_Backend ----
(***************************************************************************)
(* Every history of attempts, reads, uses, constructions and engine switches. *)
(*  Frozen: once used, the precision never changes and every attempt is        *)
(*          refused;  Legal: it is always 32 or 64;  Free: before use the last  *)
(*          good attempt wins.                                              *)
(***************************************************************************)
EXTENDS Backend
VARIABLES last, ans
vars == << prec, used, eng, last, ans >>
Init == BInit /\ last = 32 /\ ans = "none"
Next ==
  \/ \E v \in {32, 64, 0} : \E a \in SetAnswers(v) : SetPrec(v, a) /\ ans' = a /\ last' = (IF a = "" THEN v ELSE last)
  \/ /\ \/ Use \/ May \/ (\E k \in {0, 1} : SetEng(k))
     /\ ans' = "none" /\ UNCHANGED last
Spec == Init /\ [][Next]_vars
Legal == prec \in {32, 64} /\ eng \in {0, 1}
Free == prec = last
Frozen == [][used = "yes" => prec' = prec /\ used' = "yes" /\ ans' \in {"none", "AssertionError"}]_vars
\* dual arithmetic: a ring up to 2^-80, quarter turns a group
DD == {-2, 0, 3} \X {-1, 0, 5}
Ring == \A x, y \in DD, z \in {<<2, 3>>, <<-1, 4>>} : DMul(x, DAdd(y, z)) = DAdd(DMul(x, y), DMul(x, z)) /\ DMul(x, y) = DMul(y, x) /\ DMul(DMul(x, y), z) = DMul(x, DMul(y, z))
Turns == \A x, y \in DD, j, k \in 0..5 : Quarter(Quarter(<<x, y>>, j), k) = Quarter(<<x, y>>, j + k) /\ DSq(Quarter(<<x, y>>, k)) = DSq(<<x, y>>)
\* propagation conserves power exactly, to first order in 2^-40
Power == \A s \in {<<1,1,0,0>>, <<2,4,0,0>>, <<2,2,1,1>>, <<4,2,0,1>>, <<1,4,0,0>>}, q \in {<<0,0,0>>, <<1,2,3>>}, a \in {1, 4} :
  LET e == [kind |-> "image", ny |-> s[1], nx |-> s[2], py |-> s[3], px |-> s[4], dmd |-> 2, q |-> q, a |-> a, b |-> 9]
      NY == e.ny + 2 * e.py  NX == e.nx + 2 * e.px
  IN
     DSum(Flat(NY, NX, LAMBDA r, c : DSq(Image(e, r, c)))) = DInt(NY * NX, DSum(Flat(e.ny, e.nx, LAMBDA r, c : DSq(In(e, r, c)))))
Arith == Ring /\ Turns /\ Power
ArithOnce == last = 32 /\ ans = "none" /\ used = "no" => Arith
====
