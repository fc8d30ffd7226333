---- MODULE Propagation ----
(***************************************************************************)
(* One propagation on a device of any size with any padding (C11).         *)
(* e: [kind, Nx, Ny, form, st, in] with                                     *)
(*   form "bool" / "gray" / "signed" (sixteenths, less one) / "phase" (1/240 turn), st a map,      *)
(*   in  [k |-> "dense", re, im, off] Gaussian integers by formula,           *)
(*       [k |-> "sparse", px] a sequence of [r, c, re, im],                    *)
(*       [k |-> "wave", am, ph] constant amplitude and a phase map.            *)
(* Output fields are in units of 1/64.                                       *)
(***************************************************************************)
EXTENDS Optics, Gratings
PUnit == 64
PMat(ny, nx, F(_, _)) == TLCEval([r \in 1..ny |-> TLCEval([c \in 1..nx |-> F(r - 1, c - 1)])])
PResp(e, r, c) == LET v == MapV(e.st, r, c) IN
  CASE e.form = "bool" -> << (v % 2) * SC, 0 >> [] e.form = "gray" -> << v * 1024, 0 >> [] e.form = "signed" -> << (v - 16) * 1024, 0 >> [] OTHER -> CExp(v)
PIn(e, r, c) == << MapV(e.in.re, r, c) - e.in.off, MapV(e.in.im, r, c) - e.in.off >>
POutOf(e, u, r, c) == CRDiv(CMul(u, PResp(e, r, c)), SC \div PUnit)
\* a state assigned by the user may have values above one
Amplifies(e) == e.form = "gray" /\ e.st.m > 17
Lossless(e) == e.form = "phase" \/ (e.form = "bool" /\ e.st.b % 2 = 0 /\ e.st.c % 2 = 0 /\ e.st.m % 2 = 0 /\ e.st.a % 2 = 1)

InDense(e)  == PMat(e.Ny, e.Nx, LAMBDA r, c : PIn(e, r, c))
OutDense(e) == PMat(e.Ny, e.Nx, LAMBDA r, c : POutOf(e, PIn(e, r, c), r, c))
\* sparse output on the padded plane
OutSparse(e, py, px) == TLCEval([k \in 1..Len(e.in.px) |-> LET p == e.in.px[k]  u == POutOf(e, << p.re, p.im >>, p.r, p.c) IN
   [r |-> p.r + py, c |-> p.c + px, re |-> u[1], im |-> u[2]]])
PowIn(e) == \* units of pitch^2
  CASE e.in.k = "dense" -> Power(InDense(e))
    [] e.in.k = "sparse" -> SumSeq([k \in 1..Len(e.in.px) |-> e.in.px[k].re * e.in.px[k].re + e.in.px[k].im * e.in.px[k].im])
    [] OTHER -> e.Nx * e.Ny * e.in.am * e.in.am
PowOut(e) == \* units of pitch^2/64, only dense and sparse
  CASE e.in.k = "dense" -> RDiv(SumSeq([r \in 1..e.Ny |-> SumSeq([c \in 1..e.Nx |-> CNorm2(OutDense(e)[r][c])])]), PUnit)
    [] OTHER -> LET o == OutSparse(e, 0, 0) IN RDiv(SumSeq([k \in 1..Len(o) |-> o[k].re * o[k].re + o[k].im * o[k].im]), PUnit)
====
