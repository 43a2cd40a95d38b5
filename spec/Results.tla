------------------------------ MODULE Results ------------------------------
(***************************************************************************)
(* Results of a problem as requested in the input, as accumulated and as   *)
(* printed.                                                                *)
(***************************************************************************)
EXTENDS Geometry, Tally, Bins

LOCAL Wrong(pairs) == { q[2] : q \in { x \in pairs : ~x[1] } }

Unit(v) == Scale(1 (/) Norm(v), v)

(* a result with everything that is derived from the input once *)
PrepareEst(e) ==
  [surf |-> e.surf, name |-> e.name, sens |-> e.sens,
   hasCosine |-> e.cosine.kind # "none",
   ref |-> IF e.cosine.kind = "none" THEN <<R(1), R(0), R(0)>> ELSE Unit(e.ref),
   cb |-> Boundaries(e.cosine), eb |-> Boundaries(e.energy),
   exactCosine |-> e.cosine.kind \in {"none", "boundaries"},
   \* boundaries given as numbers are compared without rounding
   exactEnergy |-> e.energy.kind \in {"none", "boundaries"}]

(* along a coordinate axis everything is exact *)
AlongAxis(v) == \A k \in 1 .. 3 : REq(v[k], 0) \/ REq(RAbs(v[k]), 1)
CosineTol(e, d) == IF e.exactCosine /\ AlongAxis(d) /\ AlongAxis(e.ref) THEN R(0) ELSE R("1e-13")
CosineParts(e, d) == PartsNear(e.cb, Dot(d, e.ref), CosineTol(e, d))
EnergyTol(e, g) == IF e.exactEnergy THEN R(0) ELSE R("1e-13") (.) RMax(1, RAbs(g))
EnergyParts(e, g) == PartsNear(e.eb, g, EnergyTol(e, g))
FlatBin(e, x) == Flat(CHOOSE c \in CosineParts(e, x.d) : TRUE, CHOOSE g \in EnergyParts(e, x.g) : TRUE, Parts(e.eb))
IsVague(e, x) == Cardinality(CosineParts(e, x.d)) > 1 \/ Cardinality(EnergyParts(e, x.g)) > 1

(* absolute floor: cancelling contributions *)
SensMean(st, j, n, v) ==
  RelClose(v, Mean(st, j, n), R("2e-6"), R("1e-8") (.) RSqrt(At(st.sq, j) (/) n) (+) R("1e-300"))

(* rules that a printed result r breaks: e is the result requested, t its
   tally, sts those of its sensitivities, n the number of histories *)
ResultRules(e, t, sts, n, isVague, r) ==
  LET size == Parts(e.cb) * Parts(e.eb)
      okShape == /\ Len(r.mean) = size /\ Len(r.sd) = size
      sumTot == RSum([j \in 1 .. size |-> Mean(t, j - 1, n)])
      bndOk(bs, printed) == /\ Len(bs) = Len(printed)
                            /\ \A j \in DOMAIN bs : RelClose(printed[j], bs[j], R("1e-6"), R("1e-14"))
  IN Wrong({ << r.name = e.name, "C13: name" >>,
             << bndOk(e.cb, r.cosine) /\ bndOk(e.eb, r.energy), "C13: bin boundaries" >>,
             << okShape, "C13: number of bins" >> }) \cup
     IF ~okShape THEN {} ELSE
     Wrong({ << \A j \in 1 .. size : RIsFinite(r.mean[j]) /\ RIsFinite(r.sd[j]), "C13: not finite" >>,
             << Near(RSum(r.mean), sumTot, R("1e-5") (.) RMax(R("1e-9"), sumTot)), "C12: number of crossings" >> }) \cup
     (IF isVague THEN {} ELSE
      IF \A j \in 1 .. size : MeanPrinted(t, j - 1, n, r.mean[j])
      THEN (IF \A j \in 1 .. size : StdErrPrinted(t, j - 1, n, r.sd[j]) THEN {}
            ELSE {"C10: squares of history totals", "C13: standard error"})
      ELSE {"C12: bin of a crossing", "C10: history totals", "C13: mean"})
     \cup
     (IF Len(r.sens) # Len(e.sens) THEN {"C14: sensitivities reported"} ELSE
      UNION { LET st == sts[k]  rs == r.sens[k]
              IN Wrong({ << rs.name = e.sens[k].name, "C14: sensitivity name" >>,
                         << Len(rs.mean) = size /\ Len(rs.sd) = size, "C14: number of bins" >>,
                         << \A j \in 1 .. Len(rs.mean) : RIsFinite(rs.mean[j]), "C14: not finite" >>,
                         << \A j \in 1 .. Len(rs.sd) : RIsFinite(rs.sd[j]), "C13: not finite" >> }) \cup
                 (IF isVague \/ Len(rs.mean) # size \/ Len(rs.sd) # size THEN {} ELSE
                  Wrong({ << \A j \in 1 .. size : SensMean(st, j - 1, n, rs.mean[j]), "C14: sensitivity totals" >>,
                          << \A j \in 1 .. size : StdErrPrinted(st, j - 1, n, rs.sd[j]), "C14: sensitivity squares" >> }))
              : k \in DOMAIN e.sens })
=============================================================================
