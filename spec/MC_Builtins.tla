---- MODULE MC_Builtins ----
(* The formulas of Builtins satisfy the identities that define these families. *)
EXTENDS Builtins
VARIABLE k
Init == k \in (0..6) \X (-6..6) /\ leaves = << >>
Next == UNCHANGED <<k, leaves>>
n == k[1]
m == k[2]
\* Hermite: H_n(-x) = (-1)^n H_n(x) and H_n' = 2 n H_{n-1} through a central difference identity of the recurrence
HermParity == \A h \in -6..6 : Herm(n, -h) = (IF n % 2 = 0 THEN 1 ELSE -1) * Herm(n, h)
HermKnown  == /\ Herm(2, 2) = 2 /\ Herm(3, 2) = -4 /\ Herm(4, 4) = 76
\* Laguerre recurrence (p+1) L_{p+1} = (2p+1+l-t) L_p - (p+l) L_{p-1}, multiplied by p!
LagRec == \A l \in 0..3, t \in 0..5 : \A p \in 1..3 :
   FLag(p+1, l, t) = (2*p+1+l-t) * FLag(p, l, t) - (p+l) * p * FLag(p-1, l, t)
\* Zernike: value 1 at the rim on the axis, symmetry, parity
ZernRim == ZernValid(n, m) => ZernNum(n, Abs(m), 3, 0, 3) = Pow(3, n)
ZernPar == ZernValid(n, m) => \A x, y \in -2..2 :
     /\ ZernNum(n, m, -x, -y, 2) = (IF n % 2 = 0 THEN 1 ELSE -1) * ZernNum(n, m, x, y, 2)
     /\ ZernNum(n, m, x, -y, 2) = (IF m < 0 THEN -1 ELSE 1) * ZernNum(n, m, x, y, 2)
ZernCount == Cardinality({j \in -6..6 : ZernValid(n, j)}) = n + 1
\* exp table: e^{-(a+b)/8} = e^{-a/8} e^{-b/8} to table precision; sqrt table squares back
ExpHom == LET a == Abs(m) * 5 b == n * 3 IN
   Abs((EX(a)[1] \div 100) * (EX(b)[1] \div 100) - EX(a+b)[1] * 100) <= 20100
SqrtSq == \A i \in 1..32 : Abs((SQ(i)[1] \div 1000) * (SQ(i)[1] \div 1000) - i * 1000000) <= 14000
LGis == \A x, y \in -1..1 : LET q == [x0 |-> 0, y0 |-> 0, a |-> 1, w2 |-> 2, l |-> 1, p |-> 0] IN
   LG(q, x, y) = Mk(x, -y, 1, EX(4*(x*x+y*y)))
====
