---- MODULE MC_Grating ----
(* What the grating formulas must satisfy, for all angles, amplitudes and small devices. *)
EXTENDS Gratings
VARIABLES h, am
Init == h \in 0..239 /\ am \in 0..16
Next == UNCHANGED <<h, am>>
\* values in [0, 1], zero amplitude is dark, mean over the period is am/2, mirror image for the negative order
UnitV == IdealV(am, h) >= 0 /\ IdealV(am, h) <= SC
Dark  == am = 0 => IdealV(am, h) = 0 /\ SimpleV(am, h) = 0 /\ SteepV(0, h) = 0
Conj  == Abs(IdealV(am, h) - IdealV(am, -h)) <= 1
Half  == Abs(IdealV(am, h) + IdealV(am, h + 120) - am * 1024) <= 2
\* random on-probability grows with the amplitude and approaches the steep step
Mono  == \A v \in 0..59 : am = 0 => RandP(v + 1, h, 100) >= RandP(v, h, 100) - 600
Sharp == \A v \in 1..60 : am = 0 /\ SteepV(v, h) # 2 => Abs(RandP(v, h, 10000) - 1000000 * SteepV(v, h)) <= 2000
\* the negative order of a phase map is the positive order of the opposite map
Neg == am = 0 => \A p \in {0, 13, 60} : \A r, c \in 0..2 :
   LET g == [Nx |-> 3, Ny |-> 4, ga |-> 1, gb |-> -1, M |-> 4, neg |-> FALSE] IN
   /\ HAngle(g, r, c, p, h) = HAngle([g EXCEPT !.neg = TRUE], r, c, h, p)
   \* a shift by one grating period is invisible
   /\ HAngle(g, r, c, p, h) = HAngle(g, r, c + 4, p, h)
   \* output phase advances the fringe
   /\ HAngle(g, r, c, 0, h + 60) = (HAngle(g, r, c, 0, h) - 60) % TURN
====
