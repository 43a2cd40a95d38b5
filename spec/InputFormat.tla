---------------------------- MODULE InputFormat ----------------------------
(***************************************************************************)
(* The documented format of input files.                                   *)
(*                                                                         *)
(* A document is a tree of elements [tag, at, ch, tx]: attributes          *)
(* << <<name, value>> .. >>, children, and the words of its text.          *)
(***************************************************************************)
EXTENDS RealNum, FiniteSets, TLC

(* ----------------------------- lexical forms --------------------------- *)
Char(s, i) == SubSeq(s, i, i)
Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Positions(s, cs) == { i \in 1 .. Len(s) : Char(s, i) \in cs }
IsDigits(s) == Len(s) > 0 /\ \A i \in 1 .. Len(s) : Char(s, i) \in Digit
Unsigned(s) == IF Len(s) > 0 /\ Char(s, 1) \in {"+", "-"} THEN SubSeq(s, 2, Len(s)) ELSE s
IsDecimal(s) ==
  LET u == Unsigned(s)
      dots == Positions(u, {"."})
  IN  /\ Cardinality(dots) <= 1
      /\ Len(u) > Cardinality(dots)
      /\ \A i \in 1 .. Len(u) \ dots : Char(u, i) \in Digit
IsFinite(s) ==
  LET e == Positions(s, {"e", "E"}) IN
  IF e = {} THEN IsDecimal(s)
  ELSE LET k == CHOOSE i \in e : TRUE IN
       Cardinality(e) = 1 /\ IsDecimal(SubSeq(s, 1, k - 1)) /\ IsDigits(Unsigned(SubSeq(s, k + 1, Len(s))))
IsDouble(s) == s \in {"INF", "-INF", "NaN"} \/ IsFinite(s)
IsPositiveInteger(s) ==
  Len(s) > 0 /\ Char(s, 1) # "-" /\ IsDigits(Unsigned(s)) /\ \E i \in 1 .. Len(s) : Char(s, i) \in Digit \ {"0"}

Positive(s) == s = "INF" \/ (IsFinite(s) /\ R(0) \prec R(s))
(* numbers which nobody will simulate with, and which exceed what a program *)
(* computes with: an input may be rejected because of them or not           *)
Excessive(s) ==
  \/ s \in {"INF", "-INF", "NaN"}
  \/ IsFinite(s) /\ LET a == RAbs(R(s)) IN R("1e9") \prec a \/ (a \prec R("1e-30") /\ R(0) \prec a)

Valid(ty, s) ==
  CASE ty \in {"string", "name", "uri"} -> TRUE
    [] ty = "double"   -> IsDouble(s)
    [] ty = "positive" -> s = "NaN" \/ Positive(s)
    [] ty = "nonneg"   -> s = "NaN" \/ Positive(s) \/ (IsFinite(s) /\ REq(R(s), R(0)))
    [] ty = "integer"  -> IsPositiveInteger(s)
    [] ty = "particle" -> s \in {"neutron", "photon"}
    [] ty = "tracking" -> s \in {"surface", "cell delta"}
    [] ty = "sense"    -> s \in {"+1", "-1"}
Dubious(ty, s) ==
  \/ ty \in {"double", "positive", "nonneg"} /\ Valid(ty, s) /\ Excessive(s)
  \/ ty = "integer" /\ Valid(ty, s) /\ R("2147483647") \prec R(s)

(* ------------------------------- elements ------------------------------ *)
(* m: "all" (each child at most once), "one", "many", "text", "list",      *)
(* "empty", "any"; kids: types of the children, must: those required;      *)
(* at: types of attributes, need: those required; item: type of words,     *)
(* min: least number of words; unique: children with different names       *)
LOCAL Type == [m |-> "empty", kids |-> <<>>, must |-> {}, at |-> <<>>, need |-> {}, item |-> "string", min |-> 0, unique |-> {}]
LOCAL All(kids, must) == [Type EXCEPT !.m = "all", !.kids = kids, !.must = must]
LOCAL One(kids) == [Type EXCEPT !.m = "one", !.kids = kids]
LOCAL Many(kids) == [Type EXCEPT !.m = "many", !.kids = kids]
LOCAL Text(item) == [Type EXCEPT !.m = "text", !.item = item]
LOCAL List(item, min) == [Type EXCEPT !.m = "list", !.item = item, !.min = min]
LOCAL With(t, at) == [t EXCEPT !.at = at @@ t.at, !.need = @ \cup DOMAIN at]
LOCAL May(t, at) == [t EXCEPT !.at = at @@ t.at]
LOCAL Unique(t, tags) == [t EXCEPT !.unique = tags]
LOCAL Point == With(Type, [x |-> "double", y |-> "double", z |-> "double"])
LOCAL Named == [name |-> "name"]
LOCAL Evaluation == With(Type, [file |-> "uri", temperature |-> "positive"])
LOCAL Source == All([position |-> "position", direction |-> "direction", energy |-> "energy", particletype |-> "particletype"],
                    {"position", "direction", "energy", "particletype"})
LOCAL Bin == One([linspace |-> "linspace", logspace |-> "logspace", boundaries |-> "boundaries"])
LOCAL Limits == [min |-> "double", max |-> "double", bins |-> "integer"]

Types ==
  [ minimc |-> All([general |-> "general", nuclides |-> "nuclides", materials |-> "materials", surfaces |-> "surfaces", cells |-> "cells",
                    temperature |-> "temperature", problemtype |-> "problemtype", estimators |-> "estimators", perturbations |-> "perturbations"],
                   {"general", "nuclides", "materials", "surfaces", "cells", "problemtype"}),
    general |-> All([particles |-> "particles", histories |-> "count", threads |-> "count", chunksize |-> "count", seed |-> "count", tracking |-> "tracking"],
                    {"particles", "histories", "threads", "chunksize"}),
    particles |-> List("particle", 0),
    count |-> Text("integer"),
    tracking |-> Text("tracking"),
    (* interaction data *)
    nuclides |-> One([multigroup |-> "multigroup", continuous |-> "continuous"]),
    multigroup |-> With(Many([nuclide |-> "mgnuclide"]), [groups |-> "integer"]),
    mgnuclide |-> With(All([neutron |-> "mgreactions", photon |-> "mgreactions"], {}), Named),
    mgreactions |-> All([capture |-> "xs", scatter |-> "xs", fission |-> "mgfission"], {}),
    mgfission |-> All([xs |-> "xs", nubar |-> "xs", chi |-> "xs"], {"xs", "nubar", "chi"}),
    xs |-> List("nonneg", 0),
    continuous |-> Many([nuclide |-> "cenuclide"]),
    cenuclide |-> With(All([neutron |-> "cereactions", photon |-> "cereactions"], {}), [name |-> "name", awr |-> "positive"]),
    cereactions |-> All([total |-> "evaluation", capture |-> "evaluation", scatter |-> "cescatter", fission |-> "cefission"], {}),
    cescatter |-> All([xs |-> "evaluation", tsl |-> "tsl"], {"xs"}),
    cefission |-> All([xs |-> "evaluation", nubar |-> "evaluation"], {"xs", "nubar"}),
    evaluation |-> Evaluation,
    tsl |-> With(All([beta_partitions |-> "betas", alpha_partitions |-> "alphas"], {"beta_partitions", "alpha_partitions"}),
                 [majorant |-> "uri", total_E |-> "uri", total_T |-> "uri", total_S |-> "uri", beta_cutoff |-> "positive", alpha_cutoff |-> "positive"]),
    betas |-> Many([partition |-> "beta"]),
    alphas |-> Many([partition |-> "alpha"]),
    beta |-> With(Type, [CDF |-> "uri", S |-> "uri", E_T |-> "uri"]),
    alpha |-> With(Type, [CDF |-> "uri", S |-> "uri", beta_T |-> "uri"]),
    (* materials and geometry *)
    materials |-> Unique(Many([material |-> "material"]), {"material"}),
    material |-> Unique(With(Many([nuclide |-> "component"]), [name |-> "name", aden |-> "positive"]), {"nuclide"}),
    component |-> With(Type, [name |-> "name", afrac |-> "positive"]),
    surfaces |-> Unique(Many([sphere |-> "sphere", planex |-> "planex", cylinderx |-> "cylinderx"]), {"sphere", "planex", "cylinderx"}),
    sphere |-> With(All([center |-> "point", radius |-> "radius"], {"center", "radius"}), Named),
    planex |-> With(Type, [name |-> "name", x |-> "double"]),
    cylinderx |-> With(Type, [name |-> "name", r |-> "double"]),
    point |-> Point,
    radius |-> With(Type, [r |-> "positive"]),
    cells |-> Unique(Many([cell |-> "cell", void |-> "void"]), {"cell"}),
    cell |-> Unique(May(With(Many([surface |-> "side"]), [name |-> "name", material |-> "name"]), [temperature |-> "nonneg"]), {"surface"}),
    void |-> Many([surface |-> "side"]),
    side |-> With(Type, [name |-> "name", sense |-> "sense"]),
    temperature |-> One([constant |-> "fieldconstant", linear |-> "fieldlinear"]),
    fieldconstant |-> With(Type, [c |-> "double"]),
    fieldlinear |-> All([bounds |-> "bounds", intercept |-> "intercept", gradient |-> "point"], {"bounds", "intercept", "gradient"}),
    bounds |-> With(Type, [lower |-> "double", upper |-> "double"]),
    intercept |-> With(Type, [b |-> "double"]),
    (* problem *)
    problemtype |-> One([fixedsource |-> "source", keigenvalue |-> "keigenvalue"]),
    keigenvalue |-> With(All([initialsource |-> "source"], {"initialsource"}), [inactive |-> "integer", active |-> "integer"]),
    source |-> Source,
    position |-> One([constant |-> "point"]),
    direction |-> One([constant |-> "point"] @@ ("isotropic" :> "anything") @@ ("isotropic-flux" :> "point")),
    energy |-> One([constant |-> "energyconstant"]),
    energyconstant |-> With(Type, [energy |-> "positive"]),
    particletype |-> One([constant |-> "typeconstant"]),
    typeconstant |-> May(Type, [type |-> "particle"]),
    anything |-> [Type EXCEPT !.m = "any"],
    (* results *)
    estimators |-> Unique(Many([current |-> "current"]), {"current"}),
    current |-> With(All([bins |-> "bins", sensitivities |-> "sensitivities"], {}), [name |-> "name", surface |-> "name"]),
    bins |-> All([energy |-> "energybins", cosine |-> "cosinebins"], {}),
    energybins |-> Bin,
    cosinebins |-> With(Bin, [u |-> "double", v |-> "double", w |-> "double"]),
    linspace |-> With(Type, Limits),
    logspace |-> May(With(Type, Limits), [base |-> "double"]),
    boundaries |-> List("double", 1),
    sensitivities |-> Unique(Many([perturbation |-> "sensitivity"]), {"perturbation"}),
    sensitivity |-> May(Type, Named),
    perturbations |-> Unique(Many([total |-> "perturbation"]), {"total"}),
    perturbation |-> With(Type, [name |-> "name", nuclide |-> "name"]) ]

(* -------------------------------- access ------------------------------- *)
Attrs(n) == { n.at[i][1] : i \in DOMAIN n.at }
AttrOr(n, a, default) == IF a \in Attrs(n) THEN n.at[CHOOSE i \in DOMAIN n.at : n.at[i][1] = a][2] ELSE default
Attr(n, a) == AttrOr(n, a, "")
KidsOf(n, tags) == SelectSeq(n.ch, LAMBDA c : c.tag \in tags)
HasKid(n, tag) == \E i \in DOMAIN n.ch : n.ch[i].tag = tag
Kid(n, tag) == n.ch[CHOOSE i \in DOMAIN n.ch : n.ch[i].tag = tag /\ \A j \in 1 .. i - 1 : n.ch[j].tag # tag]
(* children in place k which have a name, and the same one as an earlier one *)
Repeats(n, tags) ==
  \E i, j \in DOMAIN n.ch : /\ i < j
                            /\ n.ch[i].tag \in tags /\ n.ch[j].tag \in tags
                            /\ "name" \in Attrs(n.ch[i]) \cap Attrs(n.ch[j])
                            /\ Attr(n.ch[i], "name") = Attr(n.ch[j], "name")

(* --------------------------- format violations ------------------------- *)
LOCAL If(c, what) == IF c THEN {what} ELSE {}

RECURSIVE FormatErrors(_, _)
FormatErrors(n, type) ==
  LET T == Types[type]
      tags == { n.ch[i].tag : i \in DOMAIN n.ch }
      known == { i \in DOMAIN n.ch : n.ch[i].tag \in DOMAIN T.kids }
  IN  IF T.m = "any" THEN {}
      ELSE
      If(Attrs(n) \ DOMAIN T.at # {}, "unknown attribute")
      \cup If(T.need \ Attrs(n) # {}, "missing attribute")
      \cup If(\E a \in Attrs(n) \cap DOMAIN T.at : ~Valid(T.at[a], Attr(n, a)), "attribute value")
      \cup (IF T.m \in {"text", "list"}
            THEN If(n.ch # <<>>, "element within text")
                 \cup If(\E i \in DOMAIN n.tx : ~Valid(T.item, n.tx[i]), "word")
                 \cup If(IF T.m = "text" THEN Len(n.tx) # 1 ELSE Len(n.tx) < T.min, "number of words")
            ELSE If(n.tx # <<>>, "unexpected text")
                 \cup If(known # DOMAIN n.ch, "unknown element")
                 \cup If(T.m = "all" /\ Cardinality(tags) # Len(n.ch), "repeated element")
                 \cup If(T.must \ tags # {}, "missing element")
                 \cup If(T.m = "one" /\ Len(n.ch) # 1, "exactly one element")
                 \cup If(T.m = "many" /\ n.ch = <<>>, "at least one element")
                 \cup If(T.unique # {} /\ Repeats(n, T.unique), "repeated name")
                 \cup UNION { FormatErrors(n.ch[i], T.kids[n.ch[i].tag]) : i \in known })

RECURSIVE FormatDoubts(_, _)
FormatDoubts(n, type) ==
  LET T == Types[type] IN
  If(\/ \E a \in Attrs(n) \cap DOMAIN T.at : Dubious(T.at[a], Attr(n, a))
     \/ T.m \in {"text", "list"} /\ \E i \in DOMAIN n.tx : Dubious(T.item, n.tx[i]), "excessive number")
  \cup UNION { FormatDoubts(n.ch[i], T.kids[n.ch[i].tag]) : i \in { k \in DOMAIN n.ch : n.ch[k].tag \in DOMAIN T.kids } }
=============================================================================
