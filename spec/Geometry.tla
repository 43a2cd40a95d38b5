------------------------------ MODULE Geometry ------------------------------
(***************************************************************************)
(* Constructive solid geometry: surfaces, half-spaces, cells, rays.        *)
(*                                                                         *)
(* A surface is a record                                                   *)
(*   [kind |-> "sphere", c |-> <<x, y, z>>, r |-> r]                       *)
(*   [kind |-> "planex", x |-> x]                                          *)
(*   [kind |-> "cylinderx", r |-> r]            (axis = the x axis)        *)
(* A cell is a record [sides |-> << <<surface number, TRUE iff negative    *)
(* side>>, ...>>, ...].  A world is [surfaces |-> .., cells |-> ..].       *)
(***************************************************************************)
EXTENDS RealNum, FiniteSets

Dot(a, b) == (a[1] (.) b[1]) (+) (a[2] (.) b[2]) (+) (a[3] (.) b[3])
Plus(a, b) == <<a[1] (+) b[1], a[2] (+) b[2], a[3] (+) b[3]>>
Minus(a, b) == <<a[1] (-) b[1], a[2] (-) b[2], a[3] (-) b[3]>>
Scale(k, a) == <<k (.) a[1], k (.) a[2], k (.) a[3]>>
Norm(a) == RSqrt(Dot(a, a))
Along(p, d, t) == Plus(p, Scale(t, d))
MaxAbs(a) == RMax(RAbs(a[1]), RMax(RAbs(a[2]), RAbs(a[3])))

(* signed value of the surface equation: negative on the negative side *)
Value(s, p) ==
  CASE s.kind = "sphere"    -> LET q == Minus(p, s.c) IN Dot(q, q) (-) RSq(s.r)
    [] s.kind = "planex"    -> p[1] (-) s.x
    [] s.kind = "cylinderx" -> RSq(p[2]) (+) RSq(p[3]) (-) RSq(s.r)

OnNegativeSide(s, p) == Value(s, p) \prec 0

(* coefficients of the surface equation along p + t d: a t^2 + 2 b t + c *)
RayA(s, d) ==
  CASE s.kind = "sphere"    -> Dot(d, d)
    [] s.kind = "planex"    -> 0
    [] s.kind = "cylinderx" -> RSq(d[2]) (+) RSq(d[3])
RayB(s, p, d) ==
  CASE s.kind = "sphere"    -> Dot(Minus(p, s.c), d)
    [] s.kind = "planex"    -> d[1] (/) 2
    [] s.kind = "cylinderx" -> (p[2] (.) d[2]) (+) (p[3] (.) d[3])
RayDisc(s, p, d) == RSq(RayB(s, p, d)) (-) (RayA(s, d) (.) Value(s, p))

(* the distances, in increasing order, at which the ray crosses (not merely
   touches) the surface *)
Roots(s, p, d) ==
  LET a == RayA(s, d)  b == RayB(s, p, d)  c == Value(s, p)
  IN IF REq(a, 0)
     THEN IF REq(b, 0) THEN <<>> ELSE << RNeg(c) (/) (2 (.) b) >>
     ELSE LET disc == RSq(b) (-) (a (.) c)
          IN IF disc \preceq 0 THEN <<>>
             ELSE LET q == RSqrt(disc)
                  IN << (RNeg(b) (-) q) (/) a, (RNeg(b) (+) q) (/) a >>

PositiveRoots(s, p, d) == SelectSeq(Roots(s, p, d), LAMBDA t : 0 \prec t)

Infinite == R("inf")

(* distance from p along d to surface s *)
Distance(s, p, d) ==
  LET t == PositiveRoots(s, p, d) IN IF t = <<>> THEN Infinite ELSE t[1]

InCell(w, c, p) ==
  \A k \in DOMAIN c.sides : OnNegativeSide(w.surfaces[c.sides[k][1]], p) = c.sides[k][2]

CellsAt(w, p) == { i \in DOMAIN w.cells : InCell(w, w.cells[i], p) }

(* number of the region a point lies in; 0 if there is none *)
FindCell(w, p) ==
  LET S == CellsAt(w, p)
  IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j

CellSurfaces(c) == { c.sides[k][1] : k \in DOMAIN c.sides }

(* distance to the nearest boundary of a cell and the surfaces it is on *)
NearestDistance(w, c, p, d) ==
  LET ds == { Distance(w.surfaces[s], p, d) : s \in CellSurfaces(c) }
      RECURSIVE m(_)
      m(S) == LET x == CHOOSE y \in S : TRUE
              IN IF Cardinality(S) = 1 THEN x ELSE RMin(x, m(S \ {x}))
  IN m(ds)

----------------------------------------------------------------------------
(***************************************************************************)
(* Judging values computed in floating point.                              *)
(***************************************************************************)
Eps == R("1e-15")

(* size of the numbers that enter the surface equation at p *)
Extent(s, p) ==
  CASE s.kind = "sphere"    -> RMax(MaxAbs(p), RMax(MaxAbs(s.c), RAbs(s.r)))
    [] s.kind = "planex"    -> RMax(RAbs(p[1]), RAbs(s.x))
    [] s.kind = "cylinderx" -> RMax(MaxAbs(p), RAbs(s.r))

(* rounding uncertainty of Value(s, p) *)
ValueTol(s, p) ==
  IF s.kind = "planex" THEN 0 (.) Eps
  ELSE (64 (.) Eps) (.) RSq(Extent(s, p))

(* the side of s on which p lies is beyond doubt in floating point *)
ClearSide(s, p) == s.kind = "planex" \/ ValueTol(s, p) \prec RAbs(Value(s, p))

(* uncertainty of the discriminant *)
DiscTol(s, p, d) == (256 (.) Eps) (.) RSq(Extent(s, p))

(* uncertainty of a root *)
RootTol(s, p, d, t) ==
  LET e == Extent(s, p)
  IN IF s.kind = "planex"
     THEN (64 (.) Eps) (.) RMax(RAbs(t), e (/) RMax(RAbs(d[1]), R("1e-300")))
     ELSE LET q == RSqrt(RMax(RayDisc(s, p, d), DiscTol(s, p, d)))
              a == RMax(RayA(s, d), R("1e-300"))
          IN ((512 (.) Eps) (.) (RMax(RAbs(t), e) (+) (RSq(e) (/) q))) (/) a

(* the ray may touch s without crossing it, or run parallel to its axis *)
Delicate(s, p, d) ==
  IF s.kind = "planex" THEN FALSE
  ELSE \/ RAbs(RayDisc(s, p, d)) \preceq DiscTol(s, p, d)
       \/ RayA(s, d) \prec R("1e-9")

(* t is an acceptable distance from p along d to s *)
DistanceAgrees(s, p, d, t) ==
  LET rs == Roots(s, p, d)
      tol(i) == RootTol(s, p, d, rs[i])
  IN IF RIsFinite(t)
     THEN /\ 0 \prec t
          /\ \E i \in DOMAIN rs :
               /\ Near(t, rs[i], tol(i))
               \* any smaller root may be mistaken for one that is not positive
               /\ \A j \in DOMAIN rs : j < i => rs[j] \preceq tol(j)
     ELSE ~RIsNaN(t) /\ \A i \in DOMAIN rs : rs[i] \preceq tol(i)
=============================================================================
