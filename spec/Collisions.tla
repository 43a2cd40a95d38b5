----------------------------- MODULE Collisions -----------------------------
(***************************************************************************)
(* Continuous-energy collisions: probabilities of nuclides and reactions,  *)
(* number of fission neutrons, and the distribution of energy and cosine   *)
(* after elastic scattering off free atoms, isotropic in the centre of     *)
(* mass.                                                                   *)
(*                                                                         *)
(* At T = 0 atoms are at rest and the cosine follows from the energy.      *)
(* Otherwise their velocities are Maxwellian and a collision is as likely  *)
(* as its relative speed is large, so that energy e and cosine mu have the *)
(* density                                                                 *)
(*   sqrt(e / E) S(a, b),  a = (E + e - 2 mu sqrt(E e)) / (A kT),          *)
(*   b = (e - E) / kT,  S(a, b) = exp(-(a + b)^2 / (4 a)) / sqrt(4 pi a)   *)
(* up to a factor; Antiderivative(s, b) is the integral of 2 s S(s^2, b).  *)
(***************************************************************************)
EXTENDS ContinuousData

kT(T) == Boltzmann (.) T

LowestAtRest(A, E) == RSq((A (-) 1) (/) (A (+) 1)) (.) E
CosineAtRest(A, E, e) == ((((A (+) 1)) (.) RSqrt(e (/) E)) (-) (((A (-) 1)) (.) RSqrt(E (/) e))) (/) 2
CDFAtRest(A, E, e) ==
  LET low == LowestAtRest(A, E) IN RMax(0, RMin(1, (e (-) low) (/) (E (-) low)))

Antiderivative(s, b) ==
  IF REq(s, 0) THEN (IF REq(b, 0) THEN R(0) ELSE (RExp((RAbs(b) (-) b) (/) 2) (-) RExp(RNeg((RAbs(b) (+) b) (/) 2))) (/) 2)
  ELSE LET h == s (/) 2
           q == RAbs(b) (/) (2 (.) s)
       IN ((RExp((RAbs(b) (-) b) (/) 2) (.) RErf(h (+) q)) (+) (RExp(RNeg((RAbs(b) (+) b) (/) 2)) (.) RErf(h (-) q))) (/) 2

(* square root of the momentum transfer for forward and backward scattering *)
Least(A, E, T, e) == RAbs(RSqrt(E) (-) RSqrt(e)) (/) RSqrt(A (.) kT(T))
Most(A, E, T, e)  == (RSqrt(E) (+) RSqrt(e)) (/) RSqrt(A (.) kT(T))
At(A, E, T, e, mu) == RSqrt(RMax(0, (E (+) e) (-) (((2 (.) mu)) (.) RSqrt(E (.) e)))) (/) RSqrt(A (.) kT(T))

(* probabilities of energies between lo and hi and cosines above each of mus,
   and of any cosine: Simpson's rule in the speed with k pairs of intervals *)
EnergyCosineProb(A, E, T, lo, hi, mus, k) ==
  LET a == RSqrt(lo)
      w == (RSqrt(hi) (-) a) (/) (2 * k)
      factor == (RSq(1 (+) (1 (/) A)) (.) A) (/) ((4 (.) E) (.) FreeGasFactor(A, E, T))
      values(v) == LET e == RSq(v)
                       b == (e (-) E) (/) kT(T)
                       low == Antiderivative(Least(A, E, T, e), b)
                       f(s) == ((2 (.) v)) (.) (Antiderivative(s, b) (-) low)
                   IN Evaluated([ m \in 1 .. Len(mus) + 1 |-> f(IF m > Len(mus) THEN Most(A, E, T, e) ELSE At(A, E, T, e, mus[m])) ])
      weight(i) == IF i = 0 \/ i = 2 * k THEN 1 ELSE IF i % 2 = 1 THEN 4 ELSE 2
      nodes == Evaluated([ j \in 1 .. 2 * k + 1 |-> values(a (+) ((j - 1) (.) w)) ])
  IN Evaluated([ m \in 1 .. Len(mus) + 1 |->
       ((RSum([ j \in 1 .. 2 * k + 1 |-> weight(j - 1) (.) nodes[j][m] ]) (.) w) (.) factor) (/) 3 ])

(* probability of n neutrons from a fission *)
Yield(r, E, n) ==
  LET nu == Value(r.nubar, E)
      f == RFloor(nu)
  IN IF n = f THEN 1 (-) (nu (-) f) ELSE IF n = f + 1 THEN nu (-) f ELSE R(0)
=============================================================================
