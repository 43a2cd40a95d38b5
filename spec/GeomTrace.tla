------------------------------ MODULE GeomTrace ------------------------------
(***************************************************************************)
(* Judges point location and ray tracing answers of the implementation.    *)
(* Records: [t |-> "world", w |-> world] makes a world current;            *)
(*  [t |-> "loc", p, cell, contains (per surface), exact]                  *)
(*  [t |-> "ray", p, d, dist (per surface), cell, near, nears, exact]      *)
(* "exact" marks inputs for which floating point arithmetic is exact.      *)
(***************************************************************************)
EXTENDS Geometry, Replay

VARIABLE w

ClearlyIn(c, p) == \A k \in DOMAIN c.sides :
   LET s == w.surfaces[c.sides[k][1]] IN ClearSide(s, p) /\ OnNegativeSide(s, p) = c.sides[k][2]
ClearlyOut(c, p) == \E k \in DOMAIN c.sides :
   LET s == w.surfaces[c.sides[k][1]] IN ClearSide(s, p) /\ OnNegativeSide(s, p) # c.sides[k][2]

AllClear(p) == \A s \in DOMAIN w.surfaces : ClearSide(w.surfaces[s], p)

LocOk(r) ==
  LET sure == r.exact \/ AllClear(r.p)
  IN /\ \A s \in DOMAIN w.surfaces :
          (r.exact \/ ClearSide(w.surfaces[s], r.p))
             => r.contains[s] = OnNegativeSide(w.surfaces[s], r.p)
     /\ IF sure THEN r.cell = FindCell(w, r.p)
        ELSE IF r.cell = 0 THEN \A i \in DOMAIN w.cells : ~ClearlyIn(w.cells[i], r.p)
        ELSE /\ ~ClearlyOut(w.cells[r.cell], r.p)
             /\ \A i \in 1 .. (r.cell - 1) : ~ClearlyIn(w.cells[i], r.p)
LocClass(r) ==
  IF \E s \in DOMAIN w.surfaces : REq(Value(w.surfaces[s], r.p), 0) THEN "point on a surface"
  ELSE IF r.cell = 0 THEN "point outside all regions"
  ELSE IF Cardinality(CellsAt(w, r.p)) > 1 THEN "point in overlapping regions"
  ELSE IF AllClear(r.p) THEN "point strictly inside" ELSE "point very close to a surface"

ExactDistance(s, p, d, t) ==
  LET e == Distance(s, p, d)
  IN IF RIsFinite(e) THEN RIsFinite(t) /\ Close(t, e, R("1e-13")) ELSE ~RIsFinite(t) /\ ~RIsNaN(t)

RayOk(r) ==
  /\ \A s \in DOMAIN w.surfaces :
       LET sf == w.surfaces[s] IN
       IF r.exact THEN ExactDistance(sf, r.p, r.d, r.dist[s])
       ELSE Delicate(sf, r.p, r.d) \/ DistanceAgrees(sf, r.p, r.d, r.dist[s])
  /\ r.cell = 0 \/
       LET cs == CellSurfaces(w.cells[r.cell])
       IN /\ r.nears \in cs
          /\ REq(r.near, r.dist[r.nears])
          /\ \A s \in cs : r.near \preceq r.dist[s]
RayClass(r) ==
  IF \E s \in DOMAIN w.surfaces : REq(Value(w.surfaces[s], r.p), 0) THEN "ray from a surface"
  ELSE IF \E s \in DOMAIN w.surfaces : Delicate(w.surfaces[s], r.p, r.d) THEN "ray touching or parallel"
  ELSE IF \A s \in DOMAIN w.surfaces : ~RIsFinite(r.dist[s]) THEN "ray hitting nothing"
  ELSE "ray hitting a surface"

TraceInit == ReplayInit /\ w = [surfaces |-> <<>>, cells |-> <<>>]
TraceNext ==
  /\ HaveRecord
  /\ \/ Rec.t = "world" /\ w' = Rec.w /\ Consume(TRUE, "world")
     \/ Rec.t = "loc" /\ Consume(LocOk(Rec), LocClass(Rec)) /\ UNCHANGED w
     \/ Rec.t = "ray" /\ Consume(RayOk(Rec), RayClass(Rec)) /\ UNCHANGED w
TraceSpec == TraceInit /\ [][TraceNext]_<<w, replayVars>>
=============================================================================
