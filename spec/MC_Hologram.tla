---- MODULE MC_Hologram ----
(***************************************************************************)
(* Laws of the iterations on small devices, from every starting phase of a    *)
(* small family:                                                            *)
(*  Descent: the gs error never increases.                                   *)
(*  Agree:   mraf with m = 1 and a full window is gs.                         *)
(*  Idle:    mraf with m = 0 and an empty window keeps the state.             *)
(*  Sharp:   a one-pixel target puts all mirrors in phase there in one step.   *)
(***************************************************************************)
EXTENDS Hologram, IOUtils
VARIABLES cfg, u, n
FULL == "FULL" \in DOMAIN IOEnv
M(a, b, c, m) == [a |-> a, b |-> b, c |-> c, m |-> m]
Init ==
  /\ cfg \in [ny : {2, 3}, nx : {3, 4}, E : { [re |-> M(1, 1, x, 3), im |-> M(2, y, 1, 3), off |-> 1, hole |-> h, hs |-> 0] : x \in {0, 2}, y \in {0, 1}, h \in {0, 3} },
               A : { M(a, 3, b, 11) : a \in {0, 5}, b \in (IF FULL THEN {0, 1, 4, 7} ELSE {1, 4}) }]
  /\ u \in { BMat(cfg.ny, cfg.nx, LAMBDA r, c : LET k == a * r + b * c * c + d * r * c IN << Cos28(k) \div 256, Sin28(k) \div 256 >>) :
              a \in {17, 60}, b \in (IF FULL THEN {0, 31, 80, 113} ELSE {31, 113}), d \in {0, 7} }
  /\ n = 0
ny == cfg.ny
nx == cfg.nx
E == EOf(cfg.E, ny, nx)
A == AOf(cfg.A, ny, nx)
P == ImageOf(u, E, ny, nx)
StepGS(v) == LET G == Back(CorrectGS(ImageOf(v, E, ny, nx), A, ny, nx), E, ny, nx) IN BMat(ny, nx, LAMBDA r, c : CScale(32, Norm15(CRDiv(G[r+1][c+1], 32))))
Next == n < (IF FULL THEN 6 ELSE 3) /\ n' = n + 1 /\ u' = StepGS(u) /\ UNCHANGED cfg
Descent == [][ErrGS(ImageOf(u', E, ny, nx), A, ny, nx) <= ErrGS(P, A, ny, nx) + 60]_<<u, n>>
Sure == \A r \in 1..ny, c \in 1..nx : Mag(P[r][c]) > 2000
WAll(k) == BMat(ny, nx, LAMBDA r, c : k)
Agree == CorrectMRAF(P, A, WAll(4), 5, ny, nx) = CorrectGS(P, A, ny, nx)
Idle == LET G == Back(CorrectMRAF(P, A, WAll(0), 0, ny, nx), E, ny, nx) IN
        \A r \in 1..ny, c \in 1..nx : E[r][c] # CZero => Dir(u[r][c], G[r][c], 60)
Sharp == n = 0 => LET A1 == BMat(ny, nx, LAMBDA r, c : IF r = 1 /\ c = 2 THEN 9 ELSE 0)
              G == Back(CorrectGS(P, A1, ny, nx), E, ny, nx)
              v == BMat(ny, nx, LAMBDA r, c : CScale(32, Norm15(CRDiv(G[r+1][c+1], 32))))
          IN Close((Mag(ImageOf(v, E, ny, nx)[2][3]) * ny * nx) \div 128,
                   SumSeq([k \in 1..(ny * nx) |-> ISqrt(CNorm2(E[1 + ((k-1) \div nx)][1 + ((k-1) % nx)]) * 67108864)]), 20 * ny * nx)
Unit == \A r \in 1..ny, c \in 1..nx : UnitPhasor(u[r][c])
====
