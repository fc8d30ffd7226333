---- MODULE Geometry ----
(***************************************************************************)
(* Coordinates of the Fourier plane and of the image plane (C01).          *)
(* Lengths on the Fourier plane are in half pixels, so that all values are  *)
(* integers; on the image plane they are in units of                        *)
(* wavelength*focal length/(N*pitch).                                       *)
(* A plane is [Nx, Ny, px, py]: a device of Nx by Ny pixels padded by px    *)
(* and py pixels on either side.  Rows and columns count from 0.            *)
(***************************************************************************)
EXTENDS Fixed

Cols(p) == p.Nx + 2 * p.px
Rows(p) == p.Ny + 2 * p.py

\* twice the coordinate of column c / row r of the padded Fourier plane
FX2(p, c) == 2 * (c - p.px) - p.Nx
FY2(p, r) == p.Ny - 2 * (r - p.py)

\* coordinate of column c / row r of the padded image plane
IX(p, c) == c - (Cols(p) \div 2)
IY(p, r) == (Rows(p) \div 2) - r

Unpadded(p) == [p EXCEPT !.px = 0, !.py = 0]

\* resolution and pitch (in pm) of the device models
Catalogue == [
  DLP9500 |-> [Nx |-> 1920, Ny |-> 1080, pitch |-> 10800000],
  DLP7000 |-> [Nx |-> 1024, Ny |->  768, pitch |-> 13680000],
  DLP9000 |-> [Nx |-> 2560, Ny |-> 1600, pitch |->  7560000],
  PLUTO_2 |-> [Nx |-> 1920, Ny |-> 1080, pitch |->  8000000] ]

(***************************************************************************)
(* What the definitions must imply (checked by MC_Geometry).               *)
(***************************************************************************)
\* the device is the centre block of every padded plane
Nested(p) ==
  /\ \A c \in 0..(p.Nx - 1) : FX2(p, c + p.px) = FX2(Unpadded(p), c)
  /\ \A r \in 0..(p.Ny - 1) : FY2(p, r + p.py) = FY2(Unpadded(p), r)
\* x grows to the right, y grows upwards, on both planes, in unit steps
Oriented(p) ==
  /\ \A c \in 1..(Cols(p) - 1) : FX2(p, c) = FX2(p, c-1) + 2 /\ IX(p, c) = IX(p, c-1) + 1
  /\ \A r \in 1..(Rows(p) - 1) : FY2(p, r) = FY2(p, r-1) - 2 /\ IY(p, r) = IY(p, r-1) - 1
\* the optical axis is a sample of the image plane; it is a sample of the
\* Fourier plane exactly for even sizes, and then in the same row and column
AxisSampled(p) ==
  /\ IX(p, Cols(p) \div 2) = 0 /\ IY(p, Rows(p) \div 2) = 0
  /\ (p.Nx % 2 = 0) => FX2(p, Cols(p) \div 2) = 0
  /\ (p.Ny % 2 = 0) => FY2(p, Rows(p) \div 2) = 0
\* padding by half the size samples the same image points every second column
HalfPadNested(p) ==
  (p.px * 2 = p.Nx /\ p.py * 2 = p.Ny /\ p.px % 2 = 0 /\ p.py % 2 = 0) =>
     /\ \A c \in 0..(p.Nx - 1) : IX(p, 2*c) = 2 * IX(Unpadded(p), c)
     /\ \A r \in 0..(p.Ny - 1) : IY(p, 2*r) = 2 * IY(Unpadded(p), r)
====
