---- MODULE MC_Geometry ----
EXTENDS Geometry
VARIABLE p
Init == p \in [Nx : 1..7, Ny : 1..7, px : 0..4, py : 0..4]
Next == UNCHANGED p
Inv == Nested(p) /\ Oriented(p) /\ AxisSampled(p) /\ HalfPadNested(p)
====
