------------------------------ MODULE CollTrace ------------------------------
(***************************************************************************)
(* Judges many collisions of particles in the same state:                  *)
(*  [t |-> "problem", w, nuc, field, temps, ..] as in XsTrace              *)
(*  [t |-> "coll", p, E, ty, c, n, hits, ev, yields, bad, phi, fdirs,      *)
(*    edges, mus, hist, samples]                                           *)
(* n collisions of particles of type ty and energy E at p in region c:     *)
(*  hits: << <<nuclide, count>> .. >>                                      *)
(*  ev: << <<nuclide, event, count>> .. >>                                 *)
(*  yields: << <<nuclide, number of neutrons, count>> .. >>                *)
(*  bad: names of things that happened and must not                        *)
(*  phi: histogram of the azimuth after scattering; fdirs: histograms of   *)
(*    directions of fission neutrons                                       *)
(*  edges, hist: << <<nuclide, rows>> .. >>, a row counts scatterings with *)
(*    an energy below the first edge, between edges, above the last, by    *)
(*    cosine: above the first of mus, above the second, .., below all      *)
(*  samples: << <<nuclide, energy, cosine after scattering>> .. >>         *)
(***************************************************************************)
EXTENDS Temperature, Chance, Replay

CO == INSTANCE Collisions

VARIABLES pb
vars == <<replayVars, pb>>

Material(r) == pb.nuc.materials[pb.w.cells[r.c].mat]
CompOf(m, n) == CHOOSE k \in DOMAIN m.comps : m.comps[k][1] = n
Sum(seq, P(_), V(_)) == ISum([ i \in DOMAIN seq |-> IF P(seq[i]) THEN V(seq[i]) ELSE 0 ])
HitsOf(r, n) == LET P(x) == x[1] = n  V(x) == x[2] IN Sum(r.hits, P, V)

(* reactions of nuclide n by kind: the probability that one of them happens *)
KindProb(nd, r, T, kind) ==
  RSum([ i \in DOMAIN nd.data[r.ty].reactions |->
          IF nd.data[r.ty].reactions[i].kind = kind THEN CO!ReactionProb(nd, r.ty, r.E, T, i) ELSE R(0) ])
ScatterOf(nd, ty) == { i \in DOMAIN nd.data[ty].reactions : nd.data[ty].reactions[i].kind = "scatter" }
FissionOf(nd, ty) == { i \in DOMAIN nd.data[ty].reactions : nd.data[ty].reactions[i].kind = "fission" }
Bound(nd, ty, E) == \E i \in ScatterOf(nd, ty) : CO!ThermalOn(nd.data[ty].reactions[i], ty, E)

EventsRight(r, n, nd, T) ==
  \A kind \in { "capture", "scatter", "fission" } :
    LET P(x) == x[1] = n /\ x[2] = kind  V(x) == x[3] IN Plausible(Sum(r.ev, P, V), HitsOf(r, n), KindProb(nd, r, T, kind))
EventsKnown(r) == \A i \in DOMAIN r.ev : r.ev[i][2] \in { "capture", "scatter", "fission" }
YieldsRight(r, n, nd) ==
  LET F(x) == x[1] = n /\ x[2] = "fission"  C3(x) == x[3]
      all == Sum(r.ev, F, C3)
      got == { r.yields[i][2] : i \in { j \in DOMAIN r.yields : r.yields[j][1] = n } }
  IN \A i \in FissionOf(nd, r.ty) : \A k \in 0 .. 6 \cup got :
       LET P(x) == x[1] = n /\ x[2] = k IN Plausible(Sum(r.yields, P, C3), all, CO!Yield(nd.data[r.ty].reactions[i], r.E, k))

(* free atoms *)
SubIntervals == 3
RowSum(row) == ISum(row)
Rows(h) == Evaluated([ i \in DOMAIN h |-> RowSum(h[i]) ])
AtRestRight(h, A, r) ==
  LET n == ISum(Rows(h))
      inner == Len(r.edges) - 1
      p(i) == CO!CDFAtRest(A, r.E, r.edges[i + 1]) (-) CO!CDFAtRest(A, r.E, r.edges[i])
  IN /\ \A i \in 1 .. inner : PlausibleNear(RowSum(h[i + 1]), n, p(i), R("1e-9"))
     /\ PlausibleNear(RowSum(h[1]) + RowSum(h[inner + 2]), n, 1 (-) RSum([ i \in 1 .. inner |-> p(i) ]), R("1e-9"))
Compare(h, A, r, T) ==
  LET Columns == Len(r.mus) + 1
      n == ISum(Rows(h))
      inner == Len(r.edges) - 1
      ps == Evaluated([ i \in 1 .. inner |-> CO!EnergyCosineProb(A, r.E, T, r.edges[i], r.edges[i + 1], r.mus, SubIntervals) ])
      q(i, m) == IF m = 1 THEN ps[i][1] ELSE ps[i][m] (-) ps[i][m - 1]
      col(m) == RSum([ i \in 1 .. inner |-> q(i, m) ])
  IN [ energy |-> /\ \A i \in 1 .. inner : PlausibleNear(RowSum(h[i + 1]), n, ps[i][Columns], R("2e-5"))
                  /\ PlausibleNear(RowSum(h[1]) + RowSum(h[inner + 2]), n, 1 (-) RSum([ i \in 1 .. inner |-> ps[i][Columns] ]), R("1e-4")),
       cosine |-> /\ \A i \in 1 .. inner : \A m \in 1 .. Columns : PlausibleNear(h[i + 1][m], n, q(i, m), R("2e-5"))
                  /\ \A m \in 1 .. Columns : PlausibleNear(ISum([ i \in 1 .. inner |-> h[i + 1][m] ]), n, col(m), R("1e-4")) ]
SamplesOf(r, n) == SelectSeq(r.samples, LAMBDA x : x[1] = n)
FreeRight(r, n, nd, T) ==
  LET hs == { i \in DOMAIN r.hist : r.hist[i][1] = n }
      h == r.hist[CHOOSE i \in hs : TRUE][2]
      s == SamplesOf(r, n)
  IN IF hs = {} THEN [energy |-> TRUE, cosine |-> TRUE]
     ELSE IF REq(T, 0)
     THEN [ energy |-> AtRestRight(h, nd.awr, r),
            cosine |-> \A i \in DOMAIN s : /\ Near(s[i][3], CO!CosineAtRest(nd.awr, r.E, s[i][2]), R("1e-6"))
                                          /\ s[i][2] \preceq (r.E (.) R("1.0000001"))
                                          /\ (CO!LowestAtRest(nd.awr, r.E) (.) R("0.9999999")) \preceq s[i][2] ]
     ELSE Compare(h, nd.awr, r, T)

(* Bound atoms.  The edges contain all energies at which the tables change, so
   that the density of the energy is constant between them and the mean over
   a bin is found with few points. *)
ThermalRight(r, n, nd, T) ==
  LET hs == { i \in DOMAIN r.hist : r.hist[i][1] = n }
      h == r.hist[CHOOSE i \in hs : TRUE][2]
      total == ISum(Rows(h))
      i0 == CHOOSE j \in ScatterOf(nd, r.ty) : TRUE
      t == nd.data[r.ty].reactions[i0].tsl[1]
      curves == Evaluated(CO!TransferCurves(t, r.E, T))
      b(e) == (e (-) r.E) (/) CO!kT(T)
      F == Evaluated([ i \in DOMAIN r.edges |-> CO!TransferCDF(t, curves, r.E, T, b(r.edges[i])) ])
      inner == Len(r.edges) - 1
      pts == CO!Points(t.alpha, 1)
      bs == Evaluated([ j \in DOMAIN pts |-> pts[j][1] ])
      ds == Evaluated([ j \in DOMAIN pts |-> CO!MomentumDistribution(t, pts[j], T) ])
      \* is there no tabulated transfer that is possible?
      alone(i) == LET x == CO!Between(b(r.edges[i]), b(r.edges[i + 1]), R("0.5"))
                      g == CO!TransferGrids(t, bs, r.E, T, x)
                  IN Len(g) = 1 /\ REq(g[1][2], x)
      K(i) == IF alone(i) THEN 20 ELSE 3
      \* by Simpson's rule in the speed, from just inside of the bin
      below(i, mu) ==
        LET v1 == RSqrt(r.edges[i] (+) (R("1e-9") (.) (r.edges[i + 1] (-) r.edges[i])))
            v2 == RSqrt(r.edges[i + 1] (-) (R("1e-9") (.) (r.edges[i + 1] (-) r.edges[i])))
            k == K(i)
            v(j) == CO!Between(v1, v2, j (/) (2 * k))
            f(j) == v(j) (.) CO!FractionCDF(t, bs, ds, r.E, T, b(RSq(v(j))), CO!FractionOf(mu))
            weight(j) == IF j = 0 \/ j = 2 * k THEN 1 ELSE IF j % 2 = 1 THEN 4 ELSE 2
        IN RSum([ j \in 1 .. 2 * k + 1 |-> weight(j - 1) (.) f(j - 1) ]) (/) ((3 * k) (.) (v1 (+) v2))
      p(i) == F[i + 1] (-) F[i]
      Err(i) == IF alone(i) THEN p(i) (.) R("0.01") ELSE R("1e-6")
      Columns == Len(r.mus) + 1
      cum == Evaluated([ i \in 1 .. inner |-> Evaluated([ m \in 1 .. Columns |->
               IF m = Columns THEN R(1) ELSE IF h[i + 1][m] = 0 /\ p(i) \prec R("1e-7") THEN R(0) ELSE below(i, r.mus[m]) ]) ])
      q(i, m) == p(i) (.) (IF m = 1 THEN cum[i][1] ELSE cum[i][m] (-) cum[i][m - 1])
  IN IF hs = {} THEN [energy |-> TRUE, cosine |-> TRUE]
     ELSE [ energy |-> /\ RowSum(h[1]) = 0 /\ RowSum(h[inner + 2]) = 0
                       /\ \A i \in 1 .. inner : PlausibleNear(RowSum(h[i + 1]), total, p(i), R("1e-9")),
            cosine |-> /\ \A i \in 1 .. inner : \A m \in 1 .. Columns : PlausibleNear(h[i + 1][m], total, q(i, m), Err(i))
                       /\ \A m \in 1 .. Columns : PlausibleNear(ISum([ i \in 1 .. inner |-> h[i + 1][m] ]), total, RSum([ i \in 1 .. inner |-> q(i, m) ]), RSum([ i \in 1 .. inner |-> Err(i) ])) ]

NuclideRules(r, n) ==
  LET m == Material(r)
      T == TemperatureAt(pb, r.c, r.p)
      nd == pb.nuc.nuclides[n]
      bound == Bound(nd, r.ty, r.E)
      free == ScatterOf(nd, r.ty) # {} /\ ~bound /\ r.ty = "neutron"
      judged == Len(r.edges) > 0
      fr == IF judged /\ free THEN FreeRight(r, n, nd, T) ELSE [energy |-> TRUE, cosine |-> TRUE]
      th == IF judged /\ bound THEN ThermalRight(r, n, nd, T) ELSE [energy |-> TRUE, cosine |-> TRUE]
  IN Broken({ << Plausible(HitsOf(r, n), r.n, CO!ComponentProb(pb.nuc, m, r.ty, r.E, T, CompOf(m, n))), "C06: nuclide of a collision" >>,
              << EventsRight(r, n, nd, T), "C19: probability of a reaction" >>,
              << YieldsRight(r, n, nd), "C07: number of neutrons" >>,
              << fr.energy, "C19: energy after elastic scattering" >>,
              << fr.cosine, "C19: cosine of elastic scattering" >>,
              << th.energy, "C21: energy transfer" >>,
              << th.cosine, "C21: momentum transfer given the energy transfer" >> })

BadRule(b) ==
  CASE b = "energy after scattering is not positive" -> { "C19: " \o b, "C21: " \o b }
    [] b = "direction after scattering is not a unit vector" -> { "C19: " \o b, "C21: " \o b, "C23: " \o b }
    [] b = "fission neutron" -> { "C07: fission neutron" }
    [] OTHER -> { "C19: " \o b }

CollRules(r) ==
  LET m == Material(r) IN
  IF ~(\A i \in DOMAIN r.hits : \E k \in DOMAIN m.comps : m.comps[k][1] = r.hits[i][1]) \/ ~EventsKnown(r)
  THEN {"C06: nuclide or event that is impossible"}
  ELSE UNION { NuclideRules(r, m.comps[k][1]) : k \in DOMAIN m.comps }
       \cup UNION { BadRule(r.bad[i]) : i \in DOMAIN r.bad }
       \cup Broken({ << Uniform(r.phi), "C19: azimuth of scattering" >>,
                     << Uniform(r.phi), "C21: azimuth of scattering" >>,
                     << Isotropic(r.fdirs), "C07: fission neutrons are not isotropic" >> })

Class(r) ==
  LET m == Material(r)
      T == TemperatureAt(pb, r.c, r.p)
      some(P(_)) == \E k \in DOMAIN m.comps : P(pb.nuc.nuclides[m.comps[k][1]])
      bound(n) == Bound(n, r.ty, r.E)
  IN IF Len(r.edges) = 0 THEN (IF ISum([ i \in DOMAIN r.yields |-> r.yields[i][3] ]) > 0 THEN "collisions with fissions" ELSE "collisions without fission")
     ELSE IF r.ty # "neutron" THEN "photon"
     ELSE IF some(bound) THEN "bound atoms"
     ELSE IF REq(T, 0) THEN "atoms at rest" ELSE "free atoms in motion"

TraceInit == ReplayInit /\ pb = <<>>
Problem == Rec.t = "problem" /\ pb' = Rec /\ ConsumeBroken({}, "problem")
Coll == Rec.t = "coll" /\ ConsumeBroken(CollRules(Rec), Class(Rec)) /\ UNCHANGED pb
TraceNext == HaveRecord /\ (Problem \/ Coll)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
