---------------------------- MODULE Interactions ----------------------------
(***************************************************************************)
(* Interaction data of either kind as seen by a particle.                  *)
(*                                                                         *)
(* nuc = [groups, nuclides, materials] as in NuclearData if groups > 0;    *)
(* with continuous-energy data groups = 0 and there are in addition        *)
(* [field, temps, delta, consistent]: temperatures as in Temperature,      *)
(* whether delta tracking is in use and whether the data are such that no  *)
(* table contradicts another.                                              *)
(*                                                                         *)
(* x is a particle [p, g, ty, c, ..] in a region with material m; g is its *)
(* group or energy.                                                        *)
(***************************************************************************)
EXTENDS Temperature

MG == INSTANCE NuclearData
CO == INSTANCE Collisions

Multigroup(nuc) == nuc.groups > 0
Delta(nuc) == ~Multigroup(nuc) /\ nuc.delta

TotalAt(nuc, m, x, p) ==
  IF Multigroup(nuc) THEN MG!MaterialTotal(nuc, m, x.ty, x.g)
  ELSE CO!MixtureTotal(nuc, m, x.ty, x.g, TemperatureAt(nuc, x.c, p))

(* cross section which governs flights of x; the majorant is the one in use *)
FlightXS(nuc, m, x) == IF Delta(nuc) THEN R(x.m) ELSE TotalAt(nuc, m, x, x.p)

Kinds(nuc, m, x, p, ev) ==
  { k \in DOMAIN m.comps :
      LET n == nuc.nuclides[m.comps[k][1]]
      IN IF Multigroup(nuc) THEN 0 \prec MG!ReactionXS(n[x.ty], ev, x.g)
         ELSE \E i \in DOMAIN n.data[x.ty].reactions :
                LET r == n.data[x.ty].reactions[i]
                IN r.kind = ev /\ 0 \prec CO!ReactionXS(n, x.ty, r, x.g, TemperatureAt(nuc, x.c, p)) }
CanHappen(nuc, m, x, p, ev) == Kinds(nuc, m, x, p, ev) # {}

CosineOf(x, y) == Dot(x.d, y.d)
(* scattering of x leads to y *)
CanScatterTo(nuc, m, x, y) ==
  IF Multigroup(nuc) THEN MG!CanScatterTo(nuc, m, x.ty, x.g, y.g)
  ELSE LET T == TemperatureAt(nuc, x.c, y.p) IN
       \E k \in Kinds(nuc, m, x, y.p, "scatter") :
          LET A == nuc.nuclides[m.comps[k][1]].awr
              d == nuc.nuclides[m.comps[k][1]].data[x.ty]
              bound == { i \in DOMAIN d.reactions : CO!ThermalOn(d.reactions[i], x.ty, x.g) }
          IN IF bound # {}
             THEN \* off bound atoms: the energy transfer is limited
                  /\ RIsFinite(y.g) /\ 0 \prec y.g
                  /\ \E i \in bound : y.g \preceq ((x.g (+) ((d.reactions[i].tsl[1].betaCut (.) CO!Boltzmann) (.) T)) (.) R("1.000001"))
             ELSE IF REq(T, 0) /\ x.ty = "neutron"
             THEN /\ y.g \preceq (x.g (.) R("1.000001"))
                  /\ (CO!LowestAtRest(A, x.g) (.) R("0.999999")) \preceq y.g
                  /\ Near(CosineOf(x, y), CO!CosineAtRest(A, x.g, y.g), R("1e-5"))
             ELSE RIsFinite(y.g) /\ 0 \prec y.g

(* secondaries of a fission have groups or energies outs *)
CanYield(nuc, m, x, p, outs) ==
  IF Multigroup(nuc) THEN MG!CanYield(nuc, m, x.ty, x.g, outs)
  ELSE \E k \in Kinds(nuc, m, x, p, "fission") :
         LET d == nuc.nuclides[m.comps[k][1]].data[x.ty]
         IN \E i \in DOMAIN d.reactions :
              /\ d.reactions[i].kind = "fission"
              /\ 0 \prec CO!Yield(d.reactions[i], x.g, Len(outs))
              /\ \A j \in DOMAIN outs : REq(outs[j], x.g)
=============================================================================
