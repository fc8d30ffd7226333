---- MODULE Trace_Propagation ----
(* Recorded propagations against Propagation (C11). *)
EXTENDS Propagation, TraceBase
VARIABLES s, l
TInit == s \in 1..Len(Trace) /\ l = 0
Ev == Trace[s].events[l + 1]

ShapeIs(m, ny, nx) == Len(m) = ny /\ \A r \in 1..ny : Len(m[r]) = nx
FieldOK(want, obs, ny, nx, tol) == ShapeIs(obs, ny, nx) /\ \A r \in 1..ny, c \in 1..nx : CClose(obs[r][c], want[r][c], tol)
\* amp = |u| (all in the same unit, below 2^15 after scaling)
AmpIs(u, a) == LET k == Max2(Max2(Abs(u[1]), Abs(u[2])), Abs(a)) IN
   a >= 0 /\ k <= 2000000 /\
   LET d == 1 + k \div 30000  x == << u[1] \div d, u[2] \div d >>  y == a \div d  m == k \div d
   IN Abs(CNorm2(x) - y * y) <= 6 * m + 12
AmpOK(f, a, ny, nx) == ShapeIs(a, ny, nx) /\ \A r \in 1..ny, c \in 1..nx : AmpIs(f[r][c], a[r][c])

\* one padding: e.pads[i] = <<py, px>>, e.res[i] the observation
DenseFails(e, i) ==
  LET py == e.pads[i][1]  px == e.pads[i][2]  ny == e.Ny + 2*py  nx == e.Nx + 2*px  o == e.res[i]
      inp == Pad(Map2(InDense(e), e.Ny, e.Nx, LAMBDA u : CScale(PUnit, u)), e.Ny, e.Nx, py, px)
      out == Pad(OutDense(e), e.Ny, e.Nx, py, px)
  IN (IF FieldOK(inp, o.inp, ny, nx, 1) THEN {} ELSE {"input field"})
     \cup (IF FieldOK(out, o.out, ny, nx, 2) THEN {} ELSE {"output field"})
     \cup (IF DFTFits(out, ny, nx)
           THEN (IF FieldOK(DFT2(out, ny, nx, 1), o.img, ny, nx, IF e.form = "phase" THEN 8 + 2 * ISqrt(e.Ny * e.Nx) ELSE 10) THEN {} ELSE {"image plane field"})
           ELSE (IF ShapeIs(o.img, ny, nx) THEN {} ELSE {"shape of the image plane field"}))
     \cup (IF AmpOK(o.inp, o.ainp, ny, nx) /\ AmpOK(o.out, o.aout, ny, nx) /\ AmpOK(o.img, o.aimg, ny, nx) THEN {} ELSE {"intensity"})

\* sparse: o.nz pixels different from zero in the input and output field, o.pts << R, C, re, im, amp >> of the image
SparseFails(e, i) ==
  LET py == e.pads[i][1]  px == e.pads[i][2]  ny == e.Ny + 2*py  nx == e.Nx + 2*px  o == e.res[i]
      out == OutSparse(e, py, px)
      nz  == [k \in 1..Len(out) |-> << out[k].r, out[k].c, out[k].re, out[k].im >>]
      mass == 40 + SumSeq([k \in 1..Len(out) |-> Abs(out[k].re) + Abs(out[k].im)])
      Has(S, q, tol) == \E k \in 1..Len(S) : S[k][1] = q[1] /\ S[k][2] = q[2] /\ Abs(S[k][3] - q[3]) <= tol /\ Abs(S[k][4] - q[4]) <= tol
      Zero(q, tol) == Abs(q[3]) <= tol /\ Abs(q[4]) <= tol
      inz == [k \in 1..Len(e.in.px) |-> << e.in.px[k].r + py, e.in.px[k].c + px, PUnit * e.in.px[k].re, PUnit * e.in.px[k].im >>]
  IN (IF o.shapes = << <<ny, nx>>, <<ny, nx>>, <<ny, nx>> >> THEN {} ELSE {"shape of the fields"})
     \cup (IF (\A k \in 1..Len(inz) : Has(o.inz, inz[k], 1)) /\ (\A k \in 1..Len(o.inz) : Zero(o.inz[k], 1) \/ Has(inz, o.inz[k], 1)) THEN {} ELSE {"input field"})
     \cup (IF (\A k \in 1..Len(nz) : Zero(nz[k], 2) \/ Has(o.onz, nz[k], 2)) /\ (\A k \in 1..Len(o.onz) : Zero(o.onz[k], 2) \/ Has(nz, o.onz[k], 2)) THEN {} ELSE {"output field"})
     \cup (IF \A k \in 1..Len(o.pts) : LET p == o.pts[k] IN
              /\ CClose(CRDiv(SparseField(out, ny, nx, p[1], p[2]), SC), << p[3], p[4] >>, 3 + mass \div 1000)
              /\ AmpIs(<< p[3], p[4] >>, p[5])
           THEN {} ELSE {"image plane field"})

PowerFails(e, i) ==
  LET o == e.res[i]  pin == PUnit * PowIn(e)
      po == IF e.in.k = "wave" THEN o.pout ELSE PowOut(e)
      \* relative accuracy of the power sums
      tol(v) == 3 + v \div 5000
  IN (IF Close(o.pin, pin, tol(pin)) THEN {} ELSE {"input power"})
     \cup (IF Close(o.pout, po, IF e.form = "phase" THEN 100 + po \div 50 ELSE tol(po)) THEN {} ELSE {"output power"})
     \cup (IF Close(o.pimg, o.pout, tol(o.pout)) THEN {} ELSE {"image power differs from output power"})
     \cup (IF Amplifies(e) \/ o.pout <= o.pin + tol(o.pin) THEN {} ELSE {"output power exceeds input power"})
     \cup (IF Lossless(e) => Close(o.pout, o.pin, tol(o.pin)) THEN {} ELSE {"lossless device lost power"})
     \* powers do not depend on the padding
     \cup (IF Close(o.pin, e.res[1].pin, tol(o.pin)) /\ Close(o.pout, e.res[1].pout, tol(o.pout)) THEN {} ELSE {"powers depend on padding"})

Fails(e) == IF e.exc # "" THEN {e.op \o " raised " \o e.exc} ELSE
  UNION { (CASE e.in.k = "dense" -> DenseFails(e, i) [] e.in.k = "sparse" -> SparseFails(e, i) [] OTHER -> {}) \cup PowerFails(e, i)
          : i \in 1..Len(e.pads) }
TNext ==
  /\ l < Len(Trace[s].events)
  /\ Report(s, l + 1, Fails(Ev))
  /\ l' = l + 1 /\ UNCHANGED s
TSpec == TInit /\ [][TNext]_<<s, l>>
====
