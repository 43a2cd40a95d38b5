-------------------------------- MODULE Bins --------------------------------
(***************************************************************************)
(* Binnings: partitions of the real numbers into half-open intervals.      *)
(*   [kind |-> "none"], [kind |-> "linspace", min, max, n],                *)
(*   [kind |-> "logspace", min, max, n, base] (min, max: exponents),       *)
(*   [kind |-> "boundaries", b |-> <<...>>]                                *)
(***************************************************************************)
EXTENDS RealNum, FiniteSets

(* the boundaries, ascending; the partition has one more part *)
Boundaries(b) ==
  CASE b.kind = "none" -> <<>>
    [] b.kind = "linspace" ->
         [i \in 1 .. b.n + 1 |-> IF i = 1 THEN R(b.min) ELSE IF i = b.n + 1 THEN R(b.max) ELSE b.min (+) (((i - 1) (.) (b.max (-) b.min)) (/) b.n)]
    [] b.kind = "logspace" ->
         [i \in 1 .. b.n + 1 |-> RPow(b.base, b.min (+) (((i - 1) (.) (b.max (-) b.min)) (/) b.n))]
    [] b.kind = "boundaries" -> b.b

(* the j-th boundary, 1 <= j <= b.n + 1, of equal or proportional spaces *)
BoundaryAt(b, j) ==
  LET x == IF j = 1 THEN R(b.min) ELSE IF j = b.n + 1 THEN R(b.max) ELSE b.min (+) (((j - 1) (.) (b.max (-) b.min)) (/) b.n)
  IN IF b.kind = "linspace" THEN x ELSE RPow(b.base, x)
(* a value known to within tol may lie in part i *)
InPart(b, i, v, tol) ==
  /\ i \in 0 .. b.n + 1
  /\ i = 0 \/ BoundaryAt(b, i) \preceq (v (+) tol)
  /\ i = b.n + 1 \/ (v (-) tol) \prec BoundaryAt(b, i + 1)

Parts(bs) == Len(bs) + 1

(* number of the part a value lies in, counting from 0: the number of
   boundaries which are not above it *)
PartOf(bs, v) == Cardinality({ i \in DOMAIN bs : bs[i] \preceq v })

(* parts that a value known to within tol may lie in *)
PartsNear(bs, v, tol) == PartOf(bs, v (-) tol) .. PartOf(bs, v (+) tol)

Increasing(bs) == \A i \in 1 .. Len(bs) - 1 : bs[i] \prec bs[i + 1]

(* position in the results of a combination of parts *)
Flat(cosinePart, energyPart, energyParts) == cosinePart * energyParts + energyPart
=============================================================================
