---- MODULE MC_Analysis ----
(***************************************************************************)
(* Laws of the analysis on small maps.                                      *)
(*  Ansi:  the index is a bijection onto the admissible (n, m), in order.    *)
(*  Mean:  after removing piston the mean over the aperture vanishes.        *)
(*  Const: piston of a constant is that constant; it is removed entirely.    *)
(*  Outside: values beyond the aperture have no influence.                   *)
(*  Mirror: mirroring the map multiplies a coefficient by the parity of its   *)
(*          polynomial.                                                     *)
(*  Linear: coefficients are linear in the map.                              *)
(***************************************************************************)
EXTENDS Analysis, IOUtils
VARIABLE e
FULL == "FULL" \in DOMAIN IOEnv
Q(a, b, c, m, d) == [imp |-> FALSE, a |-> a, b |-> b, c |-> c, m |-> m, off |-> 2, d |-> d, t |-> 1]
\* the shape and radius first, then the map
Init == e \in [ny : {1, 2, 3}, nx : {2, 3, 4}, R2 : IF FULL THEN 1..6 ELSE {3, 4, 6}]
Next == "q" \notin DOMAIN e /\ \E a \in {0, 1}, b \in {1, 3}, m \in {1, 5}, d \in {0, 3}, f \in {TRUE, FALSE} :
          e' = [q |-> Q(a, b, 1, m, d), d |-> f] @@ e
Ap == Pix(e.ny, e.nx, e.R2)
P == PMap(e.q, e.ny, e.nx)
U == VU(e.R2)
Flip == BMat(e.ny, e.nx, LAMBDA r, c : P[r+1][e.nx - c])
Flop == BMat(e.ny, e.nx, LAMBDA r, c : P[e.ny - r][c+1])
Mask == BMat(e.ny, e.nx, LAMBDA r, c : IF In(e.ny, e.nx, e.R2, r, c) THEN P[r+1][c+1] ELSE 77)
M(p, n, m) == Moment(p, Ap, n, m, e.ny, e.nx, e.R2)
Terms == { << n, m >> \in (0..4) \X (-4..4) : Abs(m) <= n /\ (n - m) % 2 = 0 }
AnsiLaw == (\A j \in 0..60 : AnsiOk(j, AnsiN(j), AnsiM(j)))
        /\ (\A j \in 0..14 : << AnsiN(j), AnsiM(j) >> \in Terms)
        /\ { << AnsiN(j), AnsiM(j) >> : j \in 0..14 } = Terms
Ansi == IF "q" \in DOMAIN e THEN TRUE ELSE AnsiLaw
Mean0 == Ap # {} => LET v == Step18(BMat(e.ny, e.nx, LAMBDA r, c : U * P[r+1][c+1]), Ap, 0, 0, e.ny, e.nx, e.R2) IN
          Abs(SumOver(Ap, LAMBDA z : v[z[1]+1][z[2]+1])) <= Cardinality(Ap)
Const0 == (Ap # {} /\ e.q.m = 1) => LET one == BMat(e.ny, e.nx, LAMBDA r, c : 3) IN
          CoefB(one, Ap, 0, 0, e.ny, e.nx, e.R2) = 3 * 1048576 /\
          \A z \in Ap : Step18(one, Ap, 0, 0, e.ny, e.nx, e.R2)[z[1]+1][z[2]+1] = 0
Outside0 == Ap # {} => /\ \A t \in Terms : M(Mask, t[1], t[2]) = M(P, t[1], t[2])
           /\ LET v == Strip(BMat(e.ny, e.nx, LAMBDA r, c : U * P[r+1][c+1]), Trivial(e.d), Ap, e.ny, e.nx, e.R2)
                  w == Strip(BMat(e.ny, e.nx, LAMBDA r, c : U * Mask[r+1][c+1]), Trivial(e.d), Ap, e.ny, e.nx, e.R2)
              IN \A r \in 1..e.ny, c \in 1..e.nx : IF << r-1, c-1 >> \in Ap THEN v[r][c] = w[r][c] ELSE v[r][c] = U * P[r][c] /\ w[r][c] = U * 77
Mirror0 == \A t \in Terms : LET n == t[1] m == t[2] IN
            /\ M(Flop, n, m) = (IF m < 0 THEN -1 ELSE 1) * M(P, n, m)
            /\ M(Flip, n, m) = (IF m >= 0 THEN (IF m % 2 = 0 THEN 1 ELSE -1) ELSE (IF m % 2 = 0 THEN -1 ELSE 1)) * M(P, n, m)
Linear0 == \A t \in Terms : M(BMat(e.ny, e.nx, LAMBDA r, c : 2 * P[r+1][c+1] + Flip[r+1][c+1]), t[1], t[2]) = 2 * M(P, t[1], t[2]) + M(Flip, t[1], t[2])
Mean == "q" \in DOMAIN e => Mean0
Const == "q" \in DOMAIN e => Const0
Outside == "q" \in DOMAIN e => Outside0
Mirror == "q" \in DOMAIN e => Mirror0
Linear == "q" \in DOMAIN e => Linear0
====
