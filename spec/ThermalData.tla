---------------------------- MODULE ThermalData -----------------------------
(***************************************************************************)
(* Scattering by bound atoms: data compressed by proper orthogonal         *)
(* decomposition,                                                          *)
(*   [majorant, totE, totT, totS, betaCut, alphaCut, awr,                  *)
(*    beta |-> << [cdf, s, modes] .. >>, alpha |-> << [cdf, s, modes] >>]  *)
(* totE, totT, cdf have axes (x, order), s the axis (order), modes axes    *)
(* (x, temperature, order).                                                *)
(***************************************************************************)
EXTENDS Tables

Boltzmann == R("8.617333262145e-11")

Cutoff(t) == LET e == t.totE.axes[1] IN e[Len(e)]

(* value reconstructed at grid point i of energy and j of temperature *)
GridXS(t, i, j) ==
  RSum([ o \in 1 .. Len(t.totS.values) |->
     (t.totS.values[o] (.) Entry(t.totE, <<i, o>>)) (.) Entry(t.totT, <<j, o>>) ])
ThermalXS(t, E, T) ==
  LET e == Neighbours(t.totE.axes[1], E)
      h == Neighbours(t.totT.axes[1], T)
      at(j) == IF e[1] = e[2] THEN GridXS(t, e[1], j) ELSE Between(GridXS(t, e[1], j), GridXS(t, e[2], j), e[3])
  IN IF h[1] = h[2] THEN at(h[1]) ELSE Between(at(h[1]), at(h[2]), h[3])

----------------------------------------------------------------------------
(* A partition p covers some points of an axis (incident energies, or energy
   transfers).  Its curve for point i: values of the quantity at the
   tabulated cumulative probabilities, interpolated in temperature. *)
Modes(p) == Len(p.s.values)
GridValue(p, f, i, j) ==
  RSum([ o \in 1 .. Modes(p) |-> (p.s.values[o] (.) Entry(p.cdf, <<f, o>>)) (.) Entry(p.modes, <<i, j, o>>) ])
PartitionValue(p, f, i, T) ==
  LET h == Neighbours(p.modes.axes[2], T)
      a == GridValue(p, f, i, h[1])
  IN IF h[1] = h[2] THEN a ELSE Between(a, GridValue(p, f, i, h[2]), h[3])

(* all points of the partitions together: <<value, partition, index in it>> *)
RECURSIVE Points(_, _)
Points(ps, k) ==
  IF k > Len(ps) THEN <<>>
  ELSE [ i \in DOMAIN ps[k].modes.axes[1] |-> <<ps[k].modes.axes[1][i], k, i>> ] \o Points(ps, k + 1)

(* cumulative distribution at one point as a curve from (lowest, 0) to
   (highest, 1), linear between tabulated values *)
Distribution(ps, pt, T, lowest, highest) ==
  LET p == ps[pt[2]]
      n == Len(p.cdf.axes[1])
  IN [ x |-> <<lowest>> \o [ f \in 1 .. n |-> PartitionValue(p, f, pt[3], T) ] \o <<highest>>,
       y |-> <<R(0)>> \o [ f \in 1 .. n |-> p.cdf.axes[1][f] ] \o <<R(1)>> ]

(* ---- energy transfer, in units of kT *)
LowestTransfer(E, T) == RNeg(E (/) (Boltzmann (.) T))
(* the incident energies whose distributions are used, with their weights *)
EnergyGrids(t, E) ==
  LET pts == Points(t.beta, 1)
      n == Neighbours([ i \in DOMAIN pts |-> pts[i][1] ], E)
  IN IF n[1] = n[2] THEN << <<pts[n[1]], R(1)>> >>
     ELSE << <<pts[n[1]], 1 (-) n[3]>>, <<pts[n[2]], n[3]>> >>
TransferDistribution(t, pt, T) ==
  Distribution(t.beta, pt, T, LowestTransfer(pt[1], T), t.betaCut)
(* probability of an energy transfer of at most b *)
TransferCDF(t, curves, E, T, b) ==
  LET low == LowestTransfer(E, T)
      one(c) == LET f0 == Value(c, low) IN RMax(0, (Value(c, b) (-) f0) (/) (1 (-) f0))
  IN RSum([ k \in DOMAIN curves |-> curves[k][2] (.) one(curves[k][1]) ])
TransferCurves(t, E, T) ==
  LET g == EnergyGrids(t, E) IN [ k \in DOMAIN g |-> <<TransferDistribution(t, g[k][1], T), g[k][2]>> ]

(* ---- momentum transfer *)
AlphaLimits(t, E, T, b) ==
  LET kT == Boltzmann (.) T
      e1 == RSqrt(E)  e2 == RSqrt(RMax(0, E (+) (b (.) kT)))
      d == t.awr (.) kT
  IN << RSq(e1 (-) e2) (/) d, RSq(e1 (+) e2) (/) d >>
(* the energy transfers whose distributions are used for an energy transfer
   b, with signs and weights: <<index, transfer, weight>>; bs are all
   tabulated transfers *)
TransferGrids(t, bs, E, T, b) ==
  LET ab == RAbs(b)
      n == NotAbove(bs, ab)
      signed(v) == IF b \prec 0 THEN RNeg(v) ELSE v
      \* the upper one does not exist or is not possible
      noUpper == IF n = Len(bs) THEN TRUE
                 ELSE IF b \prec 0 THEN RNeg(bs[n + 1]) \prec LowestTransfer(E, T)
                 ELSE t.betaCut \preceq bs[n + 1]
      lower(w) == <<n, signed(bs[n]), w>>
      upper(w) == <<n + 1, signed(bs[n + 1]), w>>
  IN IF n = 0 THEN (IF noUpper THEN << <<1, b, R(1)>> >> ELSE << upper(R(1)) >>)
     ELSE IF noUpper THEN << lower(R(1)) >>
     ELSE LET w == (ab (-) bs[n]) (/) (bs[n + 1] (-) bs[n])
          IN << lower(1 (-) w), upper(w) >>
(* Given the energy transfer b, the momentum transfer lies between its limits
   for b; the probability that it lies in the fraction f of that range next
   to the lower limit.  A tabulated distribution is restricted to the range
   of its own energy transfer and stretched onto the one of b.  ds are the
   distributions at the tabulated transfers bs. *)
FractionCDF(t, bs, ds, E, T, b, f) ==
  LET g == Evaluated(TransferGrids(t, bs, E, T, b))
      one(pt, bg) == LET there == AlphaLimits(t, E, T, bg)
                         c == ds[pt]
                         f1 == Value(c, there[1])  f2 == Value(c, there[2])
                     IN (Value(c, Between(there[1], there[2], f)) (-) f1) (/) (f2 (-) f1)
  IN RSum([ k \in DOMAIN g |-> g[k][3] (.) one(g[k][1], g[k][2]) ])
MomentumDistribution(t, pt, T) == Distribution(t.alpha, pt, T, R(0), t.alphaCut)

(* With energies E before and e after scattering and cosine mu the momentum
   transfer is (E + e - 2 mu sqrt(E e)) / (A kT), so that it lies in the
   fraction (1 - mu) / 2 of its range. *)
FractionOf(mu) == (1 (-) mu) (/) 2
=============================================================================
