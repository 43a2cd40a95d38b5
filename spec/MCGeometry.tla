----------------------------- MODULE MCGeometry -----------------------------
(***************************************************************************)
(* Exhaustive check of the geometry on a small integer world: a ray flies  *)
(* through a proper partition of space from boundary to boundary.          *)
(***************************************************************************)
EXTENDS Geometry

N == 3                                   \* lattice is -N .. N
Surfaces == << [kind |-> "sphere", c |-> <<1, 0, 0>>, r |-> 2],
               [kind |-> "planex", x |-> 0],
               [kind |-> "cylinderx", r |-> 1] >>
B == BOOLEAN
(* all sign combinations: cells partition space whatever the surfaces are *)
Cells == << [sides |-> << <<1, TRUE>>, <<2, TRUE>>, <<3, TRUE>> >>],
            [sides |-> << <<1, TRUE>>, <<2, TRUE>>, <<3, FALSE>> >>],
            [sides |-> << <<1, TRUE>>, <<2, FALSE>>, <<3, TRUE>> >>],
            [sides |-> << <<1, TRUE>>, <<2, FALSE>>, <<3, FALSE>> >>],
            [sides |-> << <<1, FALSE>>, <<2, TRUE>>, <<3, TRUE>> >>],
            [sides |-> << <<1, FALSE>>, <<2, TRUE>>, <<3, FALSE>> >>],
            [sides |-> << <<1, FALSE>>, <<2, FALSE>>, <<3, TRUE>> >>],
            [sides |-> << <<1, FALSE>>, <<2, FALSE>>, <<3, FALSE>> >>] >>
World == [surfaces |-> Surfaces, cells |-> Cells]
Axes == { <<1, 0, 0>>, <<-1, 0, 0>>, <<0, 1, 0>>, <<0, -1, 0>>, <<0, 0, 1>>, <<0, 0, -1>> }

VARIABLES p, d, cell, crossed, phase
vars == <<p, d, cell, crossed, phase>>

Lattice == (-N .. N) \X (-N .. N) \X (-N .. N)
Shift == <<R("0.25"), R("0.125"), R("0.375")>>
Init == /\ p \in { Plus(q, <<0, 0, 0>>) : q \in Lattice } \cup { Plus(q, Shift) : q \in Lattice }
        /\ d \in Axes
        /\ cell = FindCell(World, p)
        /\ crossed = <<>>
        /\ phase = "fly"

Dist == NearestDistance(World, Cells[cell], p, d)
(* beyond the boundary by less than the distance to any other boundary *)
Beyond == Along(p, d, Dist (+) R("0.001"))
Hit == { s \in CellSurfaces(Cells[cell]) : REq(Distance(Surfaces[s], p, d), Dist) }

Cross == /\ phase = "fly" /\ RIsFinite(Dist)
         /\ p' = Beyond /\ cell' = FindCell(World, Beyond)
         /\ crossed' = Append(crossed, Hit)
         /\ UNCHANGED <<d, phase>>
Escape == /\ phase = "fly" /\ ~RIsFinite(Dist)
          /\ phase' = "gone" /\ UNCHANGED <<p, d, cell, crossed>>
Next == Cross \/ Escape
Spec == Init /\ [][Next]_vars

(* every point lies in exactly one cell of a partition *)
Partition == Cardinality(CellsAt(World, p)) = 1
OnSomeSurface == \E s \in 1 .. 3 : REq(Value(Surfaces[s], p), 0)
(* no other boundary between here and the nearest boundary: the midpoint is
   still in the cell *)
MidpointInside ==
  (phase = "fly" /\ ~OnSomeSurface /\ RIsFinite(Dist)) => FindCell(World, Along(p, d, Dist (/) 2)) = cell
(* a crossing changes exactly the sides of the surfaces that were hit *)
SidesOf(c) == { Cells[c].sides[k] : k \in 1 .. 3 }
CrossingChangesSides ==
  [][crossed' # crossed =>
       \A s \in 1 .. 3 : ((s \in Hit) <=> (OnNegativeSide(Surfaces[s], p) # OnNegativeSide(Surfaces[s], p')))
          \/ REq(Value(Surfaces[s], p), 0)]_vars
NeverStays == [][crossed' # crossed => cell' # cell \/ \E s \in 1 .. 3 : REq(Value(Surfaces[s], p), 0)]_vars
BoundedCrossings == Len(crossed) <= 6
=============================================================================
