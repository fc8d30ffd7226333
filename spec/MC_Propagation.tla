---- MODULE MC_Propagation ----
(* Laws every propagation obeys, on small devices with small paddings. *)
EXTENDS Propagation
VARIABLES e, pad
Q(b, c, m) == [a |-> 1, b |-> b, c |-> c, m |-> m]
Init == /\ e \in { [kind |-> "any", Nx |-> nx, Ny |-> ny, form |-> f, st |-> Q(sb, s2, IF f = "phase" THEN 240 ELSE 17),
                    in |-> [k |-> "dense", re |-> Q(ib, ic, 5), im |-> Q(ic, 1, 4), off |-> 2]] :
                    nx \in {1, 3, 4}, ny \in {2, 3}, f \in {"bool", "gray", "phase"}, sb \in {0, 3, 50}, s2 \in {2, 7}, ib \in {0, 1, 3}, ic \in {0, 2} }
        /\ pad \in { <<py, px>> : py \in 0..2, px \in 0..2 }
Next == UNCHANGED <<e, pad>>
NY == e.Ny + 2 * pad[1]
NX == e.Nx + 2 * pad[2]
Ok == Divides(NY) /\ Divides(NX) /\ NY * NX <= 24
Out == Pad(OutDense(e), e.Ny, e.Nx, pad[1], pad[2])
\* image power equals output power
Parseval == Ok => LET S == DFT2(Out, NY, NX, 1)  p == RDiv(Power(S), NY * NX) IN Abs(p - Power(Out)) <= 2000 + Power(Out) \div 200
\* passive, and lossless for phase-only and all-on devices
Passive == PowOut(e) <= PUnit * PowIn(e) + 6 * e.Nx * e.Ny
Conserve == Lossless(e) => Abs(PowOut(e) - PUnit * PowIn(e)) <= 6 * e.Nx * e.Ny
\* the same field sampled sparsely
Agree == Ok => LET px == SetToSeq({[r |-> r, c |-> c, re |-> PIn(e, r, c)[1], im |-> PIn(e, r, c)[2]] : r \in 0..(e.Ny-1), c \in 0..(e.Nx-1)})
                   q == OutSparse([e EXCEPT !.in = [k |-> "sparse", px |-> px]], pad[1], pad[2])
                   S == DFT2(Out, NY, NX, 1)
               IN \A r \in {0, NY \div 2, NY - 1}, c \in {0, NX \div 2, NX - 1} : CClose(CRDiv(SparseField(q, NY, NX, r, c), SC), S[r+1][c+1], 6)
\* padding by the full size on both sides interpolates: every third sample is the unpadded field (odd sizes)
Refine == (e.Ny = 3 /\ e.Nx = 3 /\ pad = <<0, 0>>) =>
   LET S == DFT2(OutDense(e), 3, 3, 1)  T == DFT2(Pad(OutDense(e), 3, 3, 1, 1), 5, 5, 1) IN CClose(S[2][2], T[3][3], 4)
====
