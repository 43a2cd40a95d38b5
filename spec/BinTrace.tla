------------------------------ MODULE BinTrace ------------------------------
(***************************************************************************)
(* Judges binnings of the implementation.                                  *)
(*   [t |-> "one", b, size, printed, exact, vals] vals: <<value, part>> of *)
(*     a single binning, ascending; exact: values and boundaries for which *)
(*     floating point arithmetic is exact                                  *)
(*   [t |-> "fine", b, size, vals] of very many equal or proportional      *)
(*     spaces                                                              *)
(*   [t |-> "all", cosine, ref, energy, size, cosines, energies, pts]      *)
(*     pts: [d, g, i], the position in the results of particles            *)
(***************************************************************************)
EXTENDS Results, Replay

Fails(pairs) == { q[2] : q \in { x \in pairs : ~x[1] } }

Printed(bs, p) == Len(bs) = Len(p) /\ \A j \in DOMAIN bs : RelClose(p[j], bs[j], R("1e-6"), R("1e-14"))

Biggest(bs) == FoldLeft(LAMBDA a, x : RMax(a, RAbs(x)), R(0), bs)
Tolerance(b, bs, v) ==
  CASE b.kind = "linspace" -> R("1e-14") (.) RMax(RAbs(v), Biggest(bs))
    [] b.kind = "logspace" -> R("1e-14") (.) (RAbs(v) (.) (1 (+) (RLn(b.base) (.) RMax(RAbs(b.min), RAbs(b.max)))))
    [] OTHER -> R(0)
PartOk(b, bs, v, i, exact) ==
  IF exact \/ b.kind \in {"none", "boundaries"} THEN i = PartOf(bs, v)
  ELSE IF ~RIsFinite(v) THEN i = PartOf(bs, v)
  ELSE \* the lowest and the highest boundary of equal spaces are given as numbers
    /\ b.kind = "linspace" /\ v \preceq b.min => i = PartOf(bs, v)
    /\ b.kind = "linspace" /\ b.max \preceq v => i = PartOf(bs, v)
    /\ i \in PartsNear(bs, v, Tolerance(b, bs, v))

OneRules(r) ==
  LET bs == Boundaries(r.b)
  IN Fails({ << r.size = Parts(bs), "C11: number of parts" >>,
             << Printed(bs, r.printed), "C11: printed boundaries" >>,
             << \A k \in DOMAIN r.vals : PartOk(r.b, bs, r.vals[k][1], r.vals[k][2], r.exact), "C11: part of a value" >>,
             << \A k \in 1 .. Len(r.vals) - 1 : r.vals[k][2] <= r.vals[k + 1][2], "C11: parts are not intervals" >> })

FineRules(r) ==
  LET ends == << BoundaryAt(r.b, 1), BoundaryAt(r.b, r.b.n + 1) >>
  IN Fails({ << r.size = r.b.n + 2, "C11: number of parts" >>,
             << \A k \in DOMAIN r.vals : InPart(r.b, r.vals[k][2], r.vals[k][1], Tolerance(r.b, ends, r.vals[k][1])), "C11: part of a value" >> })

AllRules(r) ==
  LET e == PrepareEst([surf |-> 0, name |-> "", sens |-> <<>>, cosine |-> r.cosine, ref |-> r.ref, energy |-> r.energy])
      ok(x) == \E c \in CosineParts(e, x.d) : \E g \in EnergyParts(e, x.g) : x.i = Flat(c, g, Parts(e.eb))
  IN Fails({ << r.size = Parts(e.cb) * Parts(e.eb), "C11: number of combinations" >>,
             << Printed(e.cb, r.cosines) /\ Printed(e.eb, r.energies), "C11: printed boundaries" >>,
             << \A k \in DOMAIN r.pts : r.pts[k].i \in 0 .. r.size - 1, "C11: outside the results" >>,
             << \A k \in DOMAIN r.pts : ok(r.pts[k]), "C11: position of a combination" >> })

TraceNext == /\ HaveRecord
             /\ \/ Rec.t = "one" /\ ConsumeBroken(OneRules(Rec), Rec.b.kind \o (IF Rec.exact THEN " exact" ELSE ""))
                \/ Rec.t = "fine" /\ ConsumeBroken(FineRules(Rec), "very many parts: " \o Rec.b.kind)
                \/ Rec.t = "all" /\ ConsumeBroken(AllRules(Rec), "combination " \o Rec.cosine.kind \o "-" \o Rec.energy.kind)
TraceSpec == ReplayInit /\ [][TraceNext]_replayVars
=============================================================================
