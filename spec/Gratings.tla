---- MODULE Gratings ----
(***************************************************************************)
(* Lee holograms (C08).  A device g has Nx, Ny, grating vector             *)
(* 2 pi (ga, gb)/M per pixel (M divides 120) and a flag neg.  Angles are in *)
(* units of 1/240 turn; amplitudes are am/16 with am in 0..16, or sines of   *)
(* an angle; mirror values are in units of 1/16384.                          *)
(***************************************************************************)
EXTENDS Geometry

\* grating angle of the mirror in row r, column c (from 0)
GAngle(g, r, c) == ((120 * (g.ga * (2*c - g.Nx) + g.gb * (g.Ny - 2*r))) \div g.M) % TURN

\* the angle whose cosine the hologram is built on
HAngle(g, r, c, pin, pout) == (GAngle(g, r, c) - (IF g.neg THEN -(pout - pin) ELSE pout - pin)) % TURN

\* gray value of "ideal"
IdealV(am, h) == RDiv(am * (SC + CosT(h)), 32)
\* "simple": 1 on, 0 off, 2 either (the gray value is 1/2 up to rounding)
SimpleV(am, h) == LET e == am * (SC + CosT(h)) - 16 * SC IN
                  IF Abs(e) <= 40 THEN 2 ELSE IF e > 0 THEN 1 ELSE 0
\* distance of an angle from 0 on the circle, 0..120: arccos(cos(h))
Fold(h) == LET k == h % TURN IN IF k <= 120 THEN k ELSE TURN - k
\* "random" with a very steep step, amplitude sin(v): on iff arccos(cos h) < v
SteepV(v, h) == IF v = 0 THEN 0 ELSE IF Fold(h) = v THEN 2 ELSE IF Fold(h) < v THEN 1 ELSE 0

\* per-mirror maps: a + b*row + c*column, modulo m
MapV(q, r, c) == (q.a + q.b * r + q.c * c) % q.m

\* mirrors of a circular patch; centre and diameter in half pixels
InPatch(i2, j2, d2, r, c) == 4 * ((2*c - j2) * (2*c - j2) + (2*r - i2) * (2*r - i2)) < d2 * d2

\* tanh(z) in units of 10^-6 for z in units of 10^-3 (|z| < 2^20), from the table of exponentials:
\* tanh z = (1 - q)/(1 + q), q = exp(-2 z)
ExpNeg(z) == \* 10^6 exp(-z/1000), z >= 0
  LET k == (z * 8) \div 1000  f == z * 8 - k * 1000 \* f in 1/8000
      x == f * 125  \* the rest of the exponent in 10^-6
      e1 == 1000000 - x + ((x \div 1000) * (x \div 1000)) \div 2 - ((x \div 1000) * (x \div 1000) * (x \div 1000)) \div 6000
  IN IF k >= 160 THEN 0 ELSE LET E == EXP8[k + 1] IN
     IF E < 2000 THEN RDiv(E * e1, 1000000) ELSE IF E < 100000 THEN RDiv(E * RDiv(e1, 100), 10000)
     ELSE RDiv(RDiv(E, 10) * RDiv(e1, 100), 1000)
\* 10^6 a / b for 0 <= a <= b, b <= 2000000
MicroDiv(a, b) == LET x == a * 1000 IN (x \div b) * 1000 + ((x % b) * 1000) \div b
Tanh(z) == LET a == Abs(z)
               q == IF a > 20000 THEN 0 ELSE ExpNeg(2 * a)
               t == 1000000 - MicroDiv(2 * q, 1000000 + q)
           IN IF z < 0 THEN -t ELSE t
\* probability (10^-6) that "random" switches on a mirror at angle h, amplitude sin(v), steepness r10/10
RandP(v, h, r10) ==
  LET \* 2 pi/240 = 0.026180 rad; r times it in 10^-3
      z(k) == IF r10 <= 300 THEN RDiv(k * 26180 * r10, 10000) ELSE ((k * 26180) \div 1000) * (r10 \div 10)
      u == Fold(h)
      zp == z(u + v)
      zm == z(u - v)
  IN (Tanh(zp) - Tanh(zm)) \div 2
====
