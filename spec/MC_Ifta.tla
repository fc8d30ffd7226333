---- MODULE MC_Ifta ----
(***************************************************************************)
(* Laws of the iteration on small devices.                                  *)
(*  Open:  with an empty window a step only binarizes (mirrors without light  *)
(*         become zero), so the result is the thresholded start.             *)
(*  Full:  with a full window every step restores the starting grating.       *)
(*  Linear: the correction leaves the starting grating itself unchanged.      *)
(*  Inside: after a correction the windowed field is that of the start, up to  *)
(*         the imaginary part that dividing out the beam discards.            *)
(***************************************************************************)
EXTENDS Ifta, IOUtils
VARIABLES e
FULL == "FULL" \in DOMAIN IOEnv
M(a, b, c, m) == [a |-> a, b |-> b, c |-> c, m |-> m]
Init == e \in { [via |-> "grating", g |-> [Nx |-> nx, Ny |-> ny, ga |-> 1, gb |-> gb, M |-> mm, neg |-> n], amp |-> M(a, 1, 3, 17), pin |-> M(0, 20, 0, 240),
                 pout |-> M(7, 0, po, 240), E |-> [re |-> M(1, 1, x, 3), im |-> M(2, 0, 1, 3), off |-> 1, hole |-> h, hs |-> 0],
                 win |-> [k |-> "box", r0 |-> 0, r1 |-> wr, c0 |-> 0, c1 |-> 9, v |-> v], N |-> N, s4 |-> 4] :
               nx \in {3, 4}, ny \in (IF FULL THEN {2, 5} ELSE {2}), gb \in (IF FULL THEN {0, 1} ELSE {1}), mm \in {5, 8}, n \in {TRUE, FALSE}, a \in {4, 12},
               po \in (IF FULL THEN {11, 60} ELSE {11}), x \in (IF FULL THEN {0, 2} ELSE {2}), h \in {0, 3},
               wr \in {1, 9}, v \in {0, 4}, N \in {0, 3} }
Next == UNCHANGED e
ny == e.g.Ny
nx == e.g.Nx
E == InputOf(e)
S == StartOf(e)
W == WMat(e.win, ny, nx)
P0 == DFTB(Modulated(S, E, ny, nx), ny, nx, 1)
Res == Ifta(S, E, W, e.N, ny, nx, 0)
Lit(r, c) == E[r][c] # CZero
Open == (e.win.v = 0 /\ e.N > 0) => \A r \in 1..ny, c \in 1..nx :
          IF ~Lit(r, c) THEN Res.G[r][c] = 0 ELSE Near(S[r][c], GU \div 2, 600) \/ Final(Res.G[r][c]) = Final(S[r][c])
Full == (e.win.v = 4 /\ e.win.r1 = 9 /\ e.N > 0) => \A r \in 1..ny, c \in 1..nx : IF Lit(r, c) THEN Near(Res.G[r][c], S[r][c], 30) ELSE Res.G[r][c] = 0
Zero == e.N = 0 => Res.G = S
Linear == Correct(P0, P0, W, ny, nx) = P0
Back == LET F == DFTB(P0, ny, nx, -1) X == Modulated(S, E, ny, nx) IN
        /\ \A r \in 1..ny, c \in 1..nx : CClose(F[r][c], X[r][c], 60)
        /\ \A r \in 1..ny, c \in 1..nx : Lit(r, c) => Near(DivideOut(F, E, ny, nx)[r][c], S[r][c], 40)
\* the precise sums agree with the coarse ones
Coarse == \A r \in 1..ny, c \in 1..nx : CClose(RotB(<<S[r][c], 1000>>, r * 7 + c), CRDiv(CMul(<<S[r][c] \div 128, 7>>, CExp(r * 7 + c)), SC \div 128), 1200)
====
