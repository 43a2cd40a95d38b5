------------------------------ MODULE StatTrace ------------------------------
(***************************************************************************)
(* Judges how often each outcome occurred in simulations against the exact *)
(* probabilities which the specification of the data (NuclearData) gives.  *)
(*                                                                         *)
(* Records: [t |-> "problem", w, nuc, src] as in WalkTrace                 *)
(*   [t |-> "source", n, dirs, fine, flux] directions of source particles        *)
(*   [t |-> "collisions", c, ty, g, n, ev, to, tomu, yield, path, stops,   *)
(*     sfine, ffine, sdirs, fdirs, between, apart, sibs, secto]            *)
(*     outcomes of n collisions in region c of                             *)
(*     particles of type ty in group g:                                    *)
(*     ev: << <<event, count>> .. >>, to: << <<outgoing group, count>> >>, *)
(*     tomu: << <<outgoing group, histogram of the cosine>> .. >>,         *)
(*     yield: << <<number of neutrons, group of the first, of the second,  *)
(*       count>> .. >>,                                                    *)
(*     path, stops: distance flown and number of collisions by distance    *)
(*       since the previous event,                                         *)
(*     sibs: << <<i, group of the i-th neutron of a fission, of the next     *)
(*       (0: there is none), count>> .. >>,                                *)
(*     between, apart: histograms of the cosine between one neutron of a   *)
(*       fission and the next, the one after the next,                     *)
(*     secto: << <<group, histogram of the component z>> .. >> of neutrons *)
(*       of fission,                                                       *)
(*     sdirs, fdirs: histograms of directions after scattering and fission *)
(*                                                                         *)
(***************************************************************************)
EXTENDS NuclearData, Chance, Replay

VARIABLES pb
vars == <<replayVars, pb>>

CountOf(pairs, key) == LET S == { i \in DOMAIN pairs : pairs[i][1] = key }
                       IN IF S = {} THEN 0 ELSE pairs[CHOOSE i \in S : TRUE][2]

(* probability that a collision is a fission with n neutrons, the first two
   of groups a and b (0: there is none) *)
YieldClass(nuc, m, ty, g, n, a, b) ==
  RSum([k \in Components(m) |->
     LET d == DataOf(nuc, m.comps[k][1], ty)
     IN IF d.fission = <<>> THEN R(0) ELSE
        ((FissionOfProb(nuc, m, ty, g, k) (.) YieldProb(d.nubar[g], n))
          (.) (IF n > 0 THEN ChiProb(d, g, a) ELSE R(1))) (.) (IF n > 1 THEN ChiProb(d, g, b) ELSE R(1))])
\* probability that a collision is a fission whose i-th neutron exists, of group
\* a, and is followed by one of group b (0: is the last)
SiblingClass(nuc, m, ty, g, i, a, b) ==
  RSum([k \in Components(m) |->
     LET d == DataOf(nuc, m.comps[k][1], ty)
         more == IF b = 0 THEN YieldProb(d.nubar[g], i)
                 ELSE RSum([n \in 1 .. 13 |-> IF n > i THEN YieldProb(d.nubar[g], n) ELSE R(0)])
     IN IF d.fission = <<>> THEN R(0) ELSE
        ((FissionOfProb(nuc, m, ty, g, k) (.) more) (.) ChiProb(d, g, a)) (.) (IF b = 0 THEN R(1) ELSE ChiProb(d, g, b))])
MaxYield(nuc, m, ty, g) ==
  LET ks == { k \in Components(m) : DataOf(nuc, m.comps[k][1], ty).fission # <<>> }
      S == { n \in 0 .. 12 : \E k \in ks : \lnot (n \succ (DataOf(nuc, m.comps[k][1], ty).nubar[g] (+) 1)) }
  IN IF S = {} THEN 0 ELSE CHOOSE n \in S : \A i \in S : i <= n
YieldKeys(nuc, n) ==
  IF n = 0 THEN {<<0, 0, 0>>} ELSE
  IF n = 1 THEN { <<1, a, 0>> : a \in 1 .. nuc.groups }
  ELSE { <<n, a, b>> : a, b \in 1 .. nuc.groups }

CollisionRules(r) ==
  LET nuc == pb.nuc
      m == nuc.materials[pb.w.cells[r.c].mat]
      reach == MaxYield(nuc, m, r.ty, r.g)
      keys == UNION { YieldKeys(nuc, n) : n \in 0 .. reach }
      yieldCount(k) == LET S == { i \in DOMAIN r.yield : <<r.yield[i][1], r.yield[i][2], r.yield[i][3]>> = k }
                       IN IF S = {} THEN 0 ELSE r.yield[CHOOSE i \in S : TRUE][4]
      observed == { <<r.yield[i][1], r.yield[i][2], r.yield[i][3]>> : i \in DOMAIN r.yield }
      \* with many groups only those which occurred: the totals settle the others
      likely == IF nuc.groups <= 4 THEN keys ELSE observed \cap keys
      sibCount(k) == LET S == { i \in DOMAIN r.sibs : <<r.sibs[i][1], r.sibs[i][2], r.sibs[i][3]>> = k }
                     IN IF S = {} THEN 0 ELSE r.sibs[CHOOSE i \in S : TRUE][4]
      siblings == IF nuc.groups <= 4 THEN (1 .. reach) \X (1 .. nuc.groups) \X (0 .. nuc.groups)
                  ELSE { <<r.sibs[i][1], r.sibs[i][2], r.sibs[i][3]>> : i \in DOMAIN r.sibs }
      rate == m.aden (.) MaterialTotal(nuc, m, r.ty, r.g)
      has == { "capture", "scatter", "fission" }
      nfis == CountOf(r.ev, "fission")
      fisAll == \A n \in 0 .. reach :
        LET k == ISum([i \in DOMAIN r.yield |-> IF r.yield[i][1] = n THEN r.yield[i][4] ELSE 0])
        IN Plausible(k, r.n, RSum([j \in Components(m) |->
             LET d == DataOf(nuc, m.comps[j][1], r.ty)
             IN IF d.fission = <<>> THEN R(0) ELSE FissionOfProb(nuc, m, r.ty, r.g, j) (.) YieldProb(d.nubar[r.g], n)]))
  IN { x[2] : x \in { y \in {
       << \A e \in has : Plausible(CountOf(r.ev, e), r.n, EventProb(nuc, m, r.ty, r.g, e)), "C06: probability of a reaction" >>,
       << ISum([i \in DOMAIN r.ev |-> r.ev[i][2]]) = r.n /\ \A i \in DOMAIN r.ev : r.ev[i][1] \in has, "C06: outcome that is not a reaction" >>,
       << \A h \in 1 .. nuc.groups : Plausible(CountOf(r.to, h), r.n, ScatterToProb(nuc, m, r.ty, r.g, h)), "C06: probability of the outgoing group" >>,
       << \A i \in DOMAIN r.to : r.to[i][1] \in 1 .. nuc.groups, "C06: outgoing group does not exist" >>,
       << Isotropic(r.sdirs) /\ \A i \in DOMAIN r.sfine : FineUniform(r.sfine[i]), "C06: scattering is not isotropic" >>,
       << \A i \in DOMAIN r.tomu : Uniform(r.tomu[i][2]), "C06: scattering is not isotropic" >>,
       << fisAll, "C07: number of neutrons" >>,
       << \A k \in likely : Plausible(yieldCount(k), r.n, YieldClass(nuc, m, r.ty, r.g, k[1], k[2], k[3])), "C07: spectrum of fission neutrons" >>,
       << \A k \in siblings : Plausible(sibCount(k), r.n, SiblingClass(nuc, m, r.ty, r.g, k[1], k[2], k[3])), "C07: spectrum of fission neutrons" >>,
       << \A i \in DOMAIN r.yield : r.yield[i][4] = 0 \/ <<r.yield[i][1], r.yield[i][2], r.yield[i][3]>> \in keys, "C07: number of neutrons" >>,
       << Isotropic(r.fdirs) /\ Uniform(r.between) /\ Uniform(r.apart) /\ (\A i \in DOMAIN r.secto : Uniform(r.secto[i][2])) /\ \A i \in DOMAIN r.ffine : FineUniform(r.ffine[i]), "C07: fission neutrons are not isotropic" >>,
       << \A i \in DOMAIN r.stops : PlausibleRate(r.stops[i], R(r.path[i]) (.) rate), "C05: number of collisions per distance flown" >>
     } : ~y[1] } }

SourceRules(r) ==
  LET tilted == pb.src.dir = "isotropic-flux"
  IN { x[2] : x \in { y \in {
       << pb.src.dir = "isotropic" => (Isotropic(r.dirs) /\ \A i \in DOMAIN r.fine : FineUniform(r.fine[i])), "C22: isotropic source" >>,
       << pb.src.dir = "isotropic" => (Isotropic(r.dirs) /\ \A i \in DOMAIN r.fine : FineUniform(r.fine[i])), "C23: isotropic directions" >>,
       \* cosine squared is uniform, and so is the azimuth about the normal
       << tilted => Uniform(r.flux), "C22: cosine of the inward flux" >>,
       << tilted => (Uniform(r.dirs[5]) /\ FineUniform(r.fine[5])), "C22: azimuth of the inward flux" >>,
       << tilted => (Uniform(r.dirs[5]) /\ FineUniform(r.fine[5])), "C23: azimuth of directions" >>
     } : ~y[1] } }

TraceInit == ReplayInit /\ pb = <<>>
Problem == Rec.t = "problem" /\ pb' = Rec /\ ConsumeBroken({}, "problem")
Source == Rec.t = "source" /\ ConsumeBroken(SourceRules(Rec), "source " \o pb.src.dir) /\ UNCHANGED pb
Colls == /\ Rec.t = "collisions"
         /\ ConsumeBroken(IF Rec.c = 0 \/ Rec.n = 0 THEN {} ELSE CollisionRules(Rec),
              IF Rec.n > 20000 THEN "collisions in one region and group, more than 20000" ELSE "collisions in one region and group")
         /\ UNCHANGED pb
TraceNext == HaveRecord /\ (Problem \/ Source \/ Colls)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
