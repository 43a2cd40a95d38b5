--------------------------- MODULE ContinuousData ---------------------------
(***************************************************************************)
(* Continuous-energy interaction data.                                     *)
(*                                                                         *)
(* A nuclide is [awr, data], data maps a particle type to                  *)
(*   [total |-> <<evaluation>> or <<>>, reactions |-> << reaction, .. >>]  *)
(* an evaluation is [x, y, T] (a curve and its temperature), a reaction    *)
(*   [kind |-> "capture", xs], [kind |-> "scatter", xs, tsl],              *)
(*   [kind |-> "fission", xs, nubar]                                       *)
(* tsl is <<>> or <<thermal scattering data>> (module ThermalData).        *)
(***************************************************************************)
EXTENDS Tables, ThermalData

(* MeV / K *)
RelativeTolerance == R("0.01")

(* data evaluated at temperature T0 are used as they are at T *)
Applies(T0, T) == RAbs(T (-) T0) \prec (RelativeTolerance (.) T0)

(* factor by which thermal motion of free atoms increases a constant
   scattering cross section *)
FreeGasFactor(awr, E, T) ==
  IF REq(T, 0) THEN R(1) ELSE
  LET a == (awr (.) E) (/) (Boltzmann (.) T)
      s == RSqrt(a)
  IN ((1 (+) (1 (/) (2 (.) a))) (.) RErf(s)) (+) (RExp(RNeg(a)) (/) RSqrt(RPi (.) a))
IsFreeGas(n, ty, E, T) ==
  ty = "neutron" /\ (n.awr \preceq 1 \/ (n.awr (.) E) \prec (((500 (.) Boltzmann)) (.) T))

ThermalOn(r, ty, E) ==
  /\ r.kind = "scatter"
  /\ r.tsl # <<>>
  /\ ty = "neutron"
  /\ E \prec Cutoff(r.tsl[1])

ReactionXS(n, ty, r, E, T) ==
  IF ThermalOn(r, ty, E) THEN ThermalXS(r.tsl[1], E, T)
  ELSE LET table == Value(r.xs, E) IN
       IF r.kind = "scatter" /\ ~Applies(r.xs.T, T) /\ IsFreeGas(n, ty, E, T)
       THEN (table (/) FreeGasFactor(n.awr, E, r.xs.T)) (.) FreeGasFactor(n.awr, E, T)
       ELSE table

SumOfReactions(n, ty, E, T) ==
  LET d == n.data[ty] IN RSum([ i \in DOMAIN d.reactions |-> ReactionXS(n, ty, d.reactions[i], E, T) ])
NuclideTotal(n, ty, E, T) ==
  LET d == n.data[ty] IN
  IF /\ d.total # <<>>
     /\ Applies(d.total[1].T, T)
     /\ \A i \in DOMAIN d.reactions : ~ThermalOn(d.reactions[i], ty, E)
  THEN Value(d.total[1], E)
  ELSE SumOfReactions(n, ty, E, T)
(* probability that a collision is reaction i *)
ReactionProb(n, ty, E, T, i) ==
  ReactionXS(n, ty, n.data[ty].reactions[i], E, T) (/) SumOfReactions(n, ty, E, T)

(* a material [aden, comps |-> << <<nuclide, atom fraction as given>> .. >>] *)
AtomFraction(m, k) == m.comps[k][2] (/) RSum([ i \in DOMAIN m.comps |-> m.comps[i][2] ])
MixtureTotal(nuc, m, ty, E, T) ==
  RSum([ k \in DOMAIN m.comps |-> AtomFraction(m, k) (.) NuclideTotal(nuc.nuclides[m.comps[k][1]], ty, E, T) ])
(* probability that a collision in m is with component k *)
ComponentProb(nuc, m, ty, E, T, k) ==
  (AtomFraction(m, k) (.) NuclideTotal(nuc.nuclides[m.comps[k][1]], ty, E, T)) (/) MixtureTotal(nuc, m, ty, E, T)
=============================================================================
