------------------------------ MODULE Sources ------------------------------
(***************************************************************************)
(* Source particles.  src: [p |-> position, dir |-> kind of direction,     *)
(* u |-> its vector, e |-> energy or group, group |-> whether it is a      *)
(* group, ty |-> particle type].  What the history's seed leaves open is   *)
(* only the direction, and only for directions that are distributed.       *)
(***************************************************************************)
EXTENDS Directions

DirTolerance == R("2e-14")
DirectionOf(src, d) ==
  /\ IsUnit(d, DirTolerance)
  /\ CASE src.dir = "constant" -> LET u == UnitOf(src.u) IN \A i \in 1 .. 3 : Near(d[i], u[i], DirTolerance)
       [] src.dir = "isotropic" -> TRUE
       [] src.dir = "isotropic-flux" -> RNeg(DirTolerance) \preceq VDot(d, UnitOf(src.u))
FixedStateOf(src, q) ==
  /\ \A i \in 1 .. 3 : REq(q.p[i], src.p[i])
  /\ q.group = src.group
  /\ REq(q.e, src.e)
  /\ q.ty = src.ty
=============================================================================
