---- MODULE MC_Optics ----
(* Parseval, linearity of a shifted delta, and the inverse, on small planes; gratings and tanh laws. *)
EXTENDS Optics, Gratings, IOUtils
VARIABLES f, ny, nx
Vals == { <<0,0>>, <<10,0>>, <<0,-7>>, <<3,4>> }
Init == /\ ny \in {1, 2, 3, 4} /\ nx \in {1, 2, 3, 5}
        /\ ny * nx <= (IF "MAXN" \in DOMAIN IOEnv THEN atoi(IOEnv.MAXN) ELSE 5)
        /\ f \in [1..ny -> [1..nx -> Vals]]
Next == UNCHANGED <<f, ny, nx>>
Spectrum == DFT2(f, ny, nx, 1)
Parseval == Abs(Power(Spectrum) - ny * nx * Power(f)) <= ny * nx * 40 + (Power(f) \div 4)
Back == LET b == DFT2(Spectrum, ny, nx, -1) IN
        \A r \in 1..ny, c \in 1..nx : CClose(b[r][c], CScale(ny * nx, f[r][c]), 2 + ny * nx * 2)
\* the value on the axis is the plain sum
Axis == LET s == CSum([k \in 1..ny |-> CSumF(f[k], nx)]) IN
        CClose(Spectrum[(ny \div 2) + 1][(nx \div 2) + 1], s, 2)
Sparse == LET px == SetToSeq({[r |-> r, c |-> c, re |-> f[r+1][c+1][1], im |-> f[r+1][c+1][2]] : r \in 0..(ny-1), c \in 0..(nx-1)}) IN
        \A r \in 0..(ny-1), c \in 0..(nx-1) : CClose(CRDiv(SparseField(px, ny, nx, r, c), SC), Spectrum[r+1][c+1], 3)
\* padding leaves power unchanged and refines the sampling: every second point for even padding by half
PadPower == Power(Pad(f, ny, nx, 2, 1)) = Power(f)
TanhLaws == \A z \in {0, 125, 250, 777, 1000, 2500, 5003} :
   /\ Tanh(-z) = -Tanh(z) /\ Tanh(z) >= 0 /\ Tanh(z) <= 1000000
   /\ LET t == Tanh(z) \div 1000 IN Abs(Tanh(2*z) - ((2 * t * 1000000) \div (1000 + (t * t) \div 1000))) <= 3000
RandLaws == \A v \in 0..60, h \in {0, 17, 60, 119, 120, 200} :
   /\ RandP(v, h, 100) >= 0 /\ RandP(v, h, 100) <= 1000000
   /\ RandP(0, h, 100) = 0
ASSUME TanhLaws /\ RandLaws
====
