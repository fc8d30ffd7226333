---- MODULE Precise ----
(***************************************************************************)
(* Fourier sums to about six digits in 32-bit integers.  Fields are pairs    *)
(* of integers below 2^27; twiddle factors have 28 bits and products are     *)
(* formed in two limbs.                                                      *)
(***************************************************************************)
EXTENDS Gratings, TLC

Cos28(k) == COS28[(k % TURN) + 1]
Sin28(k) == COS28[((k - 60) % TURN) + 1]
\* x v / 2^28
MulB(x, v) == LET xh == x \div 8192  xl == x % 8192  hi == v \div 16384  lo == v % 16384 IN
   ((xh * hi) + ((xl * hi + 4096) \div 8192) + ((xh * lo) \div 16384)) \div 2
RotB(u, k) == IF k % 60 = 0
   THEN CASE k % TURN = 0 -> u [] k % TURN = 60 -> << -u[2], u[1] >> [] k % TURN = 120 -> << -u[1], -u[2] >> [] OTHER -> << u[2], -u[1] >>
   ELSE LET co == Cos28(k)  si == Sin28(k) IN << MulB(u[1], co) - MulB(u[2], si), MulB(u[1], si) + MulB(u[2], co) >>
BSum(f, n) == << SumSeq([k \in 1..n |-> f[k][1]]), SumSeq([k \in 1..n |-> f[k][2]]) >>
\* centred Fourier sums (sg = 1 to the image plane); the image field is divided by NY*NX
DFTB(o, NY, NX, sg) ==
  LET H == NY \div 2  W == NX \div 2  uy == TURN \div NY  ux == TURN \div NX
      A == TLCEval([r \in 1..NY |-> TLCEval([b \in 1..NX |->
              BSum(TLCEval([a \in 1..NY |-> RotB(o[a][b], sg * uy * (a-1-H) * (r-1-H))]), NY)])])
      B == TLCEval([r \in 1..NY |-> TLCEval([c \in 1..NX |->
              BSum(TLCEval([b \in 1..NX |-> RotB(A[r][b], sg * ux * (b-1-W) * (c-1-W))]), NX)])])
  IN IF sg = 1 THEN TLCEval([r \in 1..NY |-> TLCEval([c \in 1..NX |-> CRDiv(B[r][c], NY * NX)])]) ELSE B
BMat(ny, nx, F(_, _)) == TLCEval([r \in 1..ny |-> TLCEval([c \in 1..nx |-> F(r - 1, c - 1)])])
====
