----------------------------- MODULE Directions -----------------------------
(***************************************************************************)
(* Directions and turns.  Vectors are sequences of three numbers.          *)
(***************************************************************************)
EXTENDS RealNum, FiniteSets

VDot(a, b) == ((a[1] (.) b[1]) (+) (a[2] (.) b[2])) (+) (a[3] (.) b[3])
VCross(a, b) == << (a[2] (.) b[3]) (-) (a[3] (.) b[2]),
                   (a[3] (.) b[1]) (-) (a[1] (.) b[3]),
                   (a[1] (.) b[2]) (-) (a[2] (.) b[1]) >>
VSub(a, b) == << a[1] (-) b[1], a[2] (-) b[2], a[3] (-) b[3] >>
VAdd(a, b) == << a[1] (+) b[1], a[2] (+) b[2], a[3] (+) b[3] >>
VScale(s, a) == << s (.) a[1], s (.) a[2], s (.) a[3] >>

IsUnit(d, tol) == /\ \A i \in 1 .. 3 : RIsFinite(d[i])
                  /\ Near(VDot(d, d), 1, tol)

(* v scaled to unit length *)
UnitOf(v) == LET n == RSqrt(VDot(v, v)) IN << v[1] (/) n, v[2] (/) n, v[3] (/) n >>

(* out is a direction whose cosine with d is mu *)
HasCosine(d, mu, out, tol) == IsUnit(out, tol) /\ Near(VDot(d, out), mu, tol)

(* what is left of out after taking away its part along d *)
Aside(d, mu, out) == VSub(out, VScale(mu, d))

(* out1 and out2 result from turning d by cosines mu1, mu2 and azimuths
   phi1, phi2: the azimuth between them is the difference *)
SineOf(mu) == RSqrt(RMax(0, 1 (-) RSq(mu)))
AzimuthApart(d, mu1, phi1, out1, mu2, phi2, out2, tol) ==
  LET a == Aside(d, mu1, out1)
      b == Aside(d, mu2, out2)
      s == SineOf(mu1) (.) SineOf(mu2)
  IN Near(VDot(a, b), s (.) RCos(phi1 (-) phi2), tol)
(* sense of rotation: 1 or -1 *)
AzimuthSense(d, mu1, phi1, out1, mu2, phi2, out2, sense, tol) ==
  LET a == Aside(d, mu1, out1)
      b == Aside(d, mu2, out2)
      s == SineOf(mu1) (.) SineOf(mu2)
  IN Near(VDot(d, VCross(a, b)), (sense (.) s) (.) RSin(phi2 (-) phi1), tol)
=============================================================================
