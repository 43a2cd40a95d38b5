------------------------------ MODULE XsTrace ------------------------------
(***************************************************************************)
(* Judges what the implementation answers for particles in regions:        *)
(*  [t |-> "problem", w, nuc, field, temps, tracking, groups]              *)
(*     groups = 0: continuous energy                                       *)
(*  [t |-> "tracking", ok] whether the tracking mode was accepted          *)
(*  [t |-> "at", p, E, ty, c, T, lo, up, comps, mt, mm, aden, pd]          *)
(*     comps: << <<nuclide, fraction, total, majorant>> .. >>, mt and mm   *)
(*     total and majorant of the material, pd the cross section which      *)
(*     determines flight distances                                         *)
(***************************************************************************)
EXTENDS Temperature, Replay

CD == INSTANCE ContinuousData
MG == INSTANCE NuclearData

VARIABLES pb
vars == <<replayVars, pb>>

Tol == R("1e-10")
Same(a, b) == RelClose(a, b, Tol, R("1e-280"))
Comp(m, n) == { k \in DOMAIN m.comps : m.comps[k][1] = n }

HasThermal(n, ty) == ty \in DOMAIN n.data /\ \E i \in DOMAIN n.data[ty].reactions : LET r == n.data[ty].reactions[i] IN r.kind = "scatter" /\ r.tsl # <<>>
InForce(n, ty, E) == ty \in DOMAIN n.data /\ \E i \in DOMAIN n.data[ty].reactions : CD!ThermalOn(n.data[ty].reactions[i], ty, E)

AtRules(r) ==
  LET m == pb.nuc.materials[pb.w.cells[r.c].mat]
      cont == pb.groups = 0
      J == DOMAIN r.comps
      nuclide(j) == pb.nuc.nuclides[r.comps[j][1]]
      T == TemperatureAt(pb, r.c, r.p)
      known == \A j \in J : r.comps[j][1] \in DOMAIN pb.nuc.nuclides
      right(j) == Same(r.comps[j][3], IF cont THEN CD!NuclideTotal(nuclide(j), r.ty, r.E, T)
                                      ELSE MG!TotalXS(nuclide(j)[r.ty], r.E))
      weighted(i) == RSum([ j \in J |-> r.comps[j][2] (.) r.comps[j][i] ])
      wrong == { j \in J : ~right(j) }
  IN IF r.c < 1 \/ ~known THEN {"C25: unknown region or nuclide"} ELSE
     Broken({ << Close(r.T, T, Tol), "C24: temperature at a position" >>,
              << Same(r.up, UpperBound(pb, r.c)) /\ Same(r.lo, LowerBound(pb, r.c)), "C24: bounds of the temperature" >>,
              << Accepted(pb) => Same(r.pd, IF Mode(pb) = "delta" THEN r.mm ELSE r.mt), "C24: tracking mode" >>,
              << Len(r.comps) = Len(m.comps) /\ \A j \in J : Comp(m, r.comps[j][1]) # {}, "C25: nuclides of a material" >>,
              << \A j \in J : \A k \in Comp(m, r.comps[j][1]) : Same(r.comps[j][2], CD!AtomFraction(m, k)), "C25: atom fractions" >>,
              << Same(r.mt, weighted(3)), "C25: total is not the weighted sum" >>,
              << Same(r.mm, weighted(4)), "C25: majorant is not the weighted sum" >>,
              << Same(r.aden, m.aden), "C25: atom density" >>,
              << cont \/ wrong = {}, "C25: total of a nuclide" >>,
              << ~cont \/ wrong = {}, "C18: cross section of a nuclide" >>,
              << ~cont \/ \A j \in wrong : ~(r.ty = "neutron" /\ HasThermal(nuclide(j), r.ty)), "C20: cross section of bound atoms" >>,
              << r.mt \preceq (r.mm (.) R("1.0000000001")) \/ ~pb.consistent, "C08: majorant below total" >>,
              << cont \/ \A j \in J : Same(r.comps[j][3], r.comps[j][4]), "C25: majorant of a nuclide" >> })

Class(r) ==
  LET m == pb.nuc.materials[pb.w.cells[r.c].mat]
      some(P(_)) == \E k \in DOMAIN m.comps : P(pb.nuc.nuclides[m.comps[k][1]])
      T == TemperatureAt(pb, r.c, r.p)
      force(n) == InForce(n, r.ty, r.E)
      above(n) == HasThermal(n, r.ty) /\ ~InForce(n, r.ty, r.E)
      totals(n) == r.ty \in DOMAIN n.data /\ n.data[r.ty].total # <<>> /\ CD!Applies(n.data[r.ty].total[1].T, T)
      free(n) == r.ty \in DOMAIN n.data /\ CD!IsFreeGas(n, r.ty, r.E, T)
  IN IF pb.groups > 0 THEN "multigroup"
     ELSE IF some(force) THEN "bound atoms below the cutoff"
     ELSE IF some(above) THEN "bound atoms above the cutoff"
     ELSE IF some(totals) THEN "tabulated total applies"
     ELSE IF some(free) THEN "free gas" ELSE "tables of reactions"

TraceInit == ReplayInit /\ pb = <<>>
Problem == Rec.t = "problem" /\ pb' = Rec /\ ConsumeBroken({}, "problem")
Tracking == /\ Rec.t = "tracking"
            /\ ConsumeBroken(Broken({ << Rec.ok = Accepted(pb), "C24: tracking request accepted or refused" >> }),
                 IF Accepted(pb) THEN "tracking accepted" ELSE "tracking refused")
            /\ UNCHANGED pb
At == Rec.t = "at" /\ ConsumeBroken(AtRules(Rec), Class(Rec)) /\ UNCHANGED pb
TraceNext == HaveRecord /\ (Problem \/ Tracking \/ At)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
