------------------------------ MODULE InputDoc ------------------------------
(***************************************************************************)
(* Which inputs are usable.                                                *)
(*                                                                         *)
(* An input is [root, files]: a document and the data files that exist,    *)
(*   [name, axes |-> lengths of the axes, values |-> their number,         *)
(*    first |-> values of the first axis]                                  *)
(* (anything else that is not a data file does not count as existing).     *)
(*                                                                         *)
(* Verdict: "reject", "accept", or "either" when the documentation leaves  *)
(* it open (numbers beyond any sensible range, mistakes in parts that are  *)
(* not used, criticality problems).                                        *)
(***************************************************************************)
EXTENDS InputFormat

LOCAL If(c, what) == IF c THEN {what} ELSE {}
LOCAL Set(s) == { s[i] : i \in DOMAIN s }
LOCAL Names(s) == { Attr(s[i], "name") : i \in DOMAIN s }
LOCAL Sub(n, tag) == IF HasKid(n, tag) THEN Kid(n, tag).ch ELSE <<>>
LOCAL NotFinite(s) == s \in {"INF", "-INF", "NaN"}

(* -------------------------------- parts -------------------------------- *)
Part(d, tag) == Kid(d.root, tag)
General(d, tag) == Kid(Part(d, "general"), tag)
Particles(d) == Set(General(d, "particles").tx)
Cells(d) == KidsOf(Part(d, "cells"), {"cell"})
Data(d) == Part(d, "nuclides").ch[1]
IsMultigroup(d) == Data(d).tag = "multigroup"
Groups(d) == R(Attr(Data(d), "groups"))
MaterialsNamed(d, name) == { m \in Set(Part(d, "materials").ch) : Attr(m, "name") = name }
UsedMaterials(d) == UNION { MaterialsNamed(d, Attr(c, "material")) : c \in Set(Cells(d)) }
UsedNuclides(d) == UNION { Names(m.ch) : m \in UsedMaterials(d) }
NuclidesNamed(d, name) == { i \in DOMAIN Data(d).ch : Attr(Data(d).ch[i], "name") = name }
UsedSurfaces(d) == UNION { Names(c.ch) : c \in Set(Part(d, "cells").ch) }
Results(d) == Sub(d.root, "estimators")
Perturbations(d) == Sub(d.root, "perturbations")

(* ---------------------------- data of nuclides ------------------------- *)
Sized(d, table, n) == REq(R(Len(table.tx)), n)
BadTable(d, table, n) == ~Sized(d, table, n) \/ \E i \in DOMAIN table.tx : NotFinite(table.tx[i])
(* reactions: element "neutron" or "photon" of a multigroup nuclide *)
MultigroupErrors(d, reactions) ==
  LET G == Groups(d)
      G2 == G (.) G
      bad(r) == CASE r.tag = "capture" -> BadTable(d, r, G)
                  [] r.tag = "scatter" -> BadTable(d, r, G2)
                  [] r.tag = "fission" -> BadTable(d, Kid(r, "xs"), G) \/ BadTable(d, Kid(r, "nubar"), G) \/ BadTable(d, Kid(r, "chi"), G2)
  IN  If(\E r \in Set(reactions.ch) : bad(r), "table of the wrong size")

File(d, name) == { f \in Set(d.files) : f.name = name }
RECURSIVE Product(_)
Product(s) == IF s = <<>> THEN 1 ELSE s[1] * Product(Tail(s))
IsTable(d, name, axes) ==
  \E f \in File(d, name) : Len(f.axes) = axes /\ Product(f.axes) > 0 /\ f.values = Product(f.axes)
Ascending(d, name) ==
  \E f \in File(d, name) : \A i \in 2 .. Len(f.first) : R(f.first[i - 1]) \prec R(f.first[i])
FromPositive(d, name) == \E f \in File(d, name) : R(0) \prec R(f.first[1])
Length(d, name, axis) == (CHOOSE f \in File(d, name) : TRUE).axes[axis]
(* the first axes of the files continue one another *)
Joined(d, names) ==
  /\ \A i \in DOMAIN names : Ascending(d, names[i]) /\ FromPositive(d, names[i])
  /\ \A i \in 1 .. Len(names) - 1 :
       LET a == CHOOSE f \in File(d, names[i]) : TRUE
           b == CHOOSE f \in File(d, names[i + 1]) : TRUE
       IN  R(a.first[Len(a.first)]) \prec R(b.first[1])
BadEvaluation(d, e) == ~IsTable(d, Attr(e, "file"), 1)
BadPartition(d, p, modes) ==
  \/ ~IsTable(d, Attr(p, "CDF"), 2) \/ ~IsTable(d, Attr(p, "S"), 1) \/ ~IsTable(d, Attr(p, modes), 3)
  \/ LET n == Length(d, Attr(p, "S"), 1) IN Length(d, Attr(p, "CDF"), 2) # n \/ Length(d, Attr(p, modes), 3) # n
BadThermal(d, t) ==
  \/ ~IsTable(d, Attr(t, "majorant"), 1) \/ ~IsTable(d, Attr(t, "total_S"), 1)
  \/ ~IsTable(d, Attr(t, "total_E"), 2) \/ ~IsTable(d, Attr(t, "total_T"), 2)
  \/ LET n == Length(d, Attr(t, "total_S"), 1) IN Length(d, Attr(t, "total_E"), 2) # n \/ Length(d, Attr(t, "total_T"), 2) # n
  \/ \E p \in Set(Sub(t, "beta_partitions")) : BadPartition(d, p, "E_T")
  \/ \E p \in Set(Sub(t, "alpha_partitions")) : BadPartition(d, p, "beta_T")
  \/ ~Joined(d, [ i \in DOMAIN Sub(t, "beta_partitions") |-> Attr(Sub(t, "beta_partitions")[i], "E_T") ])
  \/ ~Joined(d, [ i \in DOMAIN Sub(t, "alpha_partitions") |-> Attr(Sub(t, "alpha_partitions")[i], "beta_T") ])
ContinuousErrors(d, reactions) ==
  LET bad(r) == CASE r.tag \in {"total", "capture"} -> BadEvaluation(d, r)
                  [] r.tag = "fission" -> BadEvaluation(d, Kid(r, "xs")) \/ BadEvaluation(d, Kid(r, "nubar"))
                  [] r.tag = "scatter" -> BadEvaluation(d, Kid(r, "xs")) \/ (HasKid(r, "tsl") /\ BadThermal(d, Kid(r, "tsl")))
  IN  If(\E r \in Set(reactions.ch) : bad(r), "data file missing or of the wrong size")
(* shapes the documentation does not exclude and nobody relies on *)
Unordered(d, n) ==
  \E i \in DOMAIN n.at : \E f \in File(d, n.at[i][2]) : ~Ascending(d, f.name)
RECURSIVE AnyUnordered(_, _)
AnyUnordered(d, n) == Unordered(d, n) \/ \E c \in Set(n.ch) : AnyUnordered(d, c)

ReactionErrors(d, n, p) ==
  IF ~HasKid(n, p) THEN {"no data for a particle type"}
  ELSE IF IsMultigroup(d) THEN MultigroupErrors(d, Kid(n, p)) ELSE ContinuousErrors(d, Kid(n, p))
(* fission emits neutrons, for which there have to be data *)
Stranded(d, n) ==
  "neutron" \notin Particles(d) /\ \E p \in Particles(d) : HasKid(n, p) /\ HasKid(Kid(n, p), "fission")
NuclideErrors(d) ==
  UNION { LET is == NuclidesNamed(d, name) IN
          If(is = {}, "undefined nuclide") \cup If(Cardinality(is) > 1, "nuclide defined twice")
          \cup (IF Cardinality(is) # 1 THEN {}
                ELSE LET n == Data(d).ch[CHOOSE i \in is : TRUE]
                     IN  UNION { ReactionErrors(d, n, p) : p \in Particles(d) }
                         \cup If(Stranded(d, n), "no data for neutrons from fission"))
        : name \in UsedNuclides(d) }
NuclideDoubts(d) ==
  LET unused == { i \in DOMAIN Data(d).ch : Attr(Data(d).ch[i], "name") \notin UsedNuclides(d) }
      absent(n) == { "neutron", "photon" } \ Particles(d)
  IN  If(\E i \in unused : \/ Cardinality(NuclidesNamed(d, Attr(Data(d).ch[i], "name"))) > 1
                           \/ Stranded(d, Data(d).ch[i])
                           \/ \E p \in Particles(d) : ReactionErrors(d, Data(d).ch[i], p) # {}, "mistake in an unused nuclide")
      \cup If(\E i \in DOMAIN Data(d).ch : \E p \in absent(Data(d).ch[i]) : HasKid(Data(d).ch[i], p) /\ ReactionErrors(d, Data(d).ch[i], p) # {},
              "mistake in unused data")
      \cup If(~IsMultigroup(d) /\ \E n \in Set(Data(d).ch) : HasKid(n, "photon") /\ HasKid(Kid(n, "photon"), "scatter") /\ HasKid(Kid(Kid(n, "photon"), "scatter"), "tsl"),
              "thermal scattering of photons")
      \cup If(~IsMultigroup(d) /\ AnyUnordered(d, Data(d)), "data in no order")
      \cup If(\E m \in Set(Part(d, "materials").ch) \ UsedMaterials(d) : \E name \in Names(m.ch) : NuclidesNamed(d, name) = {}, "mistake in an unused material")
      \cup If(IsMultigroup(d) /\ R(1000) \prec Groups(d), "excessive number of groups")

(* ------------------------------- geometry ------------------------------ *)
GeometryErrors(d) ==
  If(\E c \in Set(Cells(d)) : MaterialsNamed(d, Attr(c, "material")) = {}, "undefined material")
  \cup If(UsedSurfaces(d) \ Names(Part(d, "surfaces").ch) # {}, "undefined surface")
GeometryDoubts(d) ==
  If(\E s \in Set(Part(d, "surfaces").ch) : s.tag = "cylinderx" /\ ~Positive(Attr(s, "r")), "cylinder without a radius")
  \cup If(\E v \in Set(KidsOf(Part(d, "cells"), {"void"})) : \E a, b \in Set(v.ch) : Attr(a, "name") = Attr(b, "name") /\ Attr(a, "sense") # Attr(b, "sense"),
          "both sides of a surface")

(* ---------------------------- temperatures ----------------------------- *)
Field(d) == Sub(d.root, "temperature")[1]
IsZero(s) == IsFinite(s) /\ REq(R(s), R(0))
NonConstant(d) ==
  /\ HasKid(d.root, "temperature")
  /\ Field(d).tag = "linear"
  /\ \E a \in {"x", "y", "z"} : ~IsZero(Attr(Kid(Field(d), "gradient"), a))
Tracking(d) == IF HasKid(Part(d, "general"), "tracking") THEN General(d, "tracking").tx[1] ELSE "surface"
TemperatureErrors(d) == If(NonConstant(d) /\ Tracking(d) = "surface", "direct tracking in a temperature gradient")
TemperatureDoubts(d) ==
  If(/\ HasKid(d.root, "temperature")
     /\ LET neg(s) == ~IsFinite(s) \/ R(s) \prec R(0) IN
        IF Field(d).tag = "constant" THEN neg(Attr(Field(d), "c"))
        ELSE LET b == Kid(Field(d), "bounds") IN
             neg(Attr(b, "lower")) \/ neg(Attr(b, "upper")) \/ ~(R(Attr(b, "lower")) \preceq R(Attr(b, "upper"))), "odd temperatures")

(* -------------------------------- source ------------------------------- *)
NoDirection(n, as) == \/ \E a \in as : NotFinite(Attr(n, a))
                      \/ \A a \in as : IsZero(Attr(n, a))
SourceErrors(d) ==
  LET s == Part(d, "problemtype").ch[1]
      dir == Kid(s, "direction").ch[1]
      e == Attr(Kid(s, "energy").ch[1], "energy")
      ty == Kid(s, "particletype").ch[1]
  IN  If(dir.tag # "isotropic" /\ NoDirection(dir, {"x", "y", "z"}), "direction without length")
      \cup If(IsMultigroup(d) /\ (NotFinite(e) \/ R(e) \prec R(1) \/ Groups(d) \prec R(e) \/ ~REq(R(e), RFloor(R(e)))), "source energy is not a group")
      \cup If(Attr(ty, "type") \notin Particles(d), "type of source particles not simulated")

(* -------------------------------- results ------------------------------ *)
BinErrors(b) ==
  CASE b.tag \in {"linspace", "logspace"} ->
         If(NotFinite(Attr(b, "min")) \/ NotFinite(Attr(b, "max")) \/ R(Attr(b, "max")) \preceq R(Attr(b, "min")), "limits of a binning")
         \cup If(b.tag = "logspace" /\ LET base == AttrOr(b, "base", "10") IN NotFinite(base) \/ R(base) \preceq R(1), "base of a binning")
    [] b.tag = "boundaries" ->
         If(\E i \in DOMAIN b.tx : b.tx[i] = "NaN", "boundary is not a number")
         \cup If(\E i \in 1 .. Len(b.tx) - 1 : IsFinite(b.tx[i]) /\ IsFinite(b.tx[i + 1]) /\ R(b.tx[i + 1]) \preceq R(b.tx[i]), "boundaries not increasing")
BinDoubts(b) ==
  IF b.tag = "boundaries" THEN {}
  ELSE If(R(10000) \prec R(Attr(b, "bins")), "excessive number of bins")
       \cup If(b.tag = "logspace" /\ \E a \in {"min", "max"} : IsFinite(Attr(b, a)) /\ R(100) \prec RAbs(R(Attr(b, a))), "excessive boundaries")
Binnings(d) == UNION { UNION { { x.ch[1] : x \in Set(b.ch) } : b \in Set(KidsOf(e, {"bins"})) } : e \in Set(Results(d)) }
References(d) == UNION { UNION { { x \in Set(b.ch) : x.tag = "cosine" } : b \in Set(KidsOf(e, {"bins"})) } : e \in Set(Results(d)) }
ResultErrors(d) ==
  UNION { BinErrors(b) : b \in Binnings(d) }
  \cup If(\E c \in References(d) : NoDirection(c, {"u", "v", "w"}), "reference direction without length")
  \cup If(\E e \in Set(Results(d)) : Attr(e, "surface") \notin Names(Part(d, "surfaces").ch), "undefined surface of a result")
  \cup If(\E e \in Set(Results(d)) : ~(Names(Sub(e, "sensitivities")) \subseteq Names(Perturbations(d))), "undefined perturbation")
  \cup If(\E p \in Set(Perturbations(d)) : NuclidesNamed(d, Attr(p, "nuclide")) = {}, "undefined nuclide of a perturbation")
ResultDoubts(d) ==
  UNION { BinDoubts(b) : b \in Binnings(d) }
  \cup If(\E e \in Set(Results(d)) : Attr(e, "surface") \notin UsedSurfaces(d), "result on an unused surface")
  \cup If(\E p \in Set(Perturbations(d)) : Attr(p, "nuclide") \notin UsedNuclides(d), "perturbation of an unused nuclide")

GeneralDoubts(d) ==
  If(R(1000000) \prec R(General(d, "histories").tx[1]), "excessive number of histories")
  \cup If(R(64) \prec R(General(d, "threads").tx[1]), "excessive number of threads")
  \cup If(Part(d, "problemtype").ch[1].tag # "fixedsource", "criticality problem")

(* ------------------------------- verdict ------------------------------- *)
Mistakes(d) ==
  LET f == IF d.root.tag # "minimc" THEN {"unknown root"} ELSE FormatErrors(d.root, "minimc") IN
  IF f # {} THEN f
  ELSE NuclideErrors(d) \cup GeometryErrors(d) \cup TemperatureErrors(d) \cup ResultErrors(d)
       \cup (IF Part(d, "problemtype").ch[1].tag = "fixedsource" THEN SourceErrors(d) ELSE {})
Doubts(d) ==
  FormatDoubts(d.root, "minimc") \cup NuclideDoubts(d) \cup GeometryDoubts(d) \cup TemperatureDoubts(d) \cup ResultDoubts(d) \cup GeneralDoubts(d)
Verdict(d) ==
  LET m == Mistakes(d) IN
  IF m # {} THEN <<"reject", CHOOSE x \in m : TRUE>>
  ELSE LET q == Doubts(d) IN
       IF q # {} THEN <<"either", CHOOSE x \in q : TRUE>> ELSE <<"accept", "usable">>
=============================================================================
