-------------------------------- MODULE Walk --------------------------------
(***************************************************************************)
(* The random walk of particles through a world, one history at a time.    *)
(*                                                                         *)
(* A particle is [p, d, g, ty, c, s, e]: position, direction, group or     *)
(* energy, type, region (0: not known), surface it crossed last (0: none)  *)
(* and what happened last.  With delta tracking m is the majorant for it.  *)
(* Secondaries wait in a bank until they are simulated.                    *)
(*                                                                         *)
(* The rules say which event may follow in a particle's life; each returns *)
(* the names of the rules an observed step breaks.  MCWalk uses them as    *)
(* the next-state relation of a model, WalkTrace to judge executions.      *)
(***************************************************************************)
EXTENDS Geometry, Interactions, FiniteSets, TLC

Final == {"capture", "fission", "leak"}
Collisions == {"capture", "fission", "scatter", "virtual_collision"}
Crossings == {"surface_cross", "leak"}

Alive(x) == x.e \notin Final

Fails(pairs) == { q[2] : q \in { x \in pairs : ~x[1] } }

----------------------------------------------------------------------------
(* tolerances: positions are doubles, and a particle is placed a little
   beyond a boundary it crosses *)
PosTol(a, b) == R("1e-13") (.) RMax(1, RMax(MaxAbs(a), MaxAbs(b)))

SamePoint(a, b) == \A i \in 1 .. 3 : REq(a[i], b[i])
IsUnit(d) == Near(Dot(d, d), 1, R("1e-12"))

(* a particle exactly on a surface is on the side it is headed to *)
Negative(s, p, d) == OnNegativeSide(s, p) \/ (REq(Value(s, p), 0) /\ RayB(s, p, d) \prec 0)
InCellMoving(w, c, p, d) == \A k \in DOMAIN c.sides : Negative(w.surfaces[c.sides[k][1]], p, d) = c.sides[k][2]
FindCellMoving(w, p, d) ==
  LET S == { i \in DOMAIN w.cells : InCellMoving(w, w.cells[i], p, d) }
  IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j

(* numbers with which the surface equation is evaluated without rounding *)
Round(x) == RAbs(x) \preceq 1024 /\ REq(RFloor(1024 (.) x), 1024 (.) x)
Exact(s, p) == /\ \A i \in 1 .. 3 : Round(p[i])
               /\ Round(s.r) /\ (s.kind = "sphere" => \A i \in 1 .. 3 : Round(s.c[i]))
(* the side of s is beyond doubt in floating point *)
ClearMoving(s, p, d) ==
  \/ ClearSide(s, p)
  \/ /\ Exact(s, p)
     /\ ~REq(Value(s, p), 0) \/ (R("1e-13") (.) Extent(s, p)) \prec RAbs(RayB(s, p, d))

ClearlyInside(w, c, p, d) == \A k \in DOMAIN c.sides :
   LET s == w.surfaces[c.sides[k][1]]
   IN ClearMoving(s, p, d) /\ Negative(s, p, d) = c.sides[k][2]
ClearlyOutside(w, c, p, d) == \E k \in DOMAIN c.sides :
   LET s == w.surfaces[c.sides[k][1]]
   IN ClearMoving(s, p, d) /\ Negative(s, p, d) # c.sides[k][2]

(* region a particle is in if that is beyond doubt, else 0 *)
SureCell(w, p, d) ==
  LET S == { i \in DOMAIN w.cells : ClearlyInside(w, w.cells[i], p, d) }
  IN IF Cardinality(S) = 1 THEN CHOOSE i \in S : TRUE ELSE 0

(* distances at which the ray certainly meets the boundary of the region *)
FirstRoot(s, p, d) ==
  LET t == SelectSeq(Roots(s, p, d), LAMBDA x : RootTol(s, p, d, x) \prec x)
  IN IF t = <<>> THEN Infinite ELSE t[1]
(* chord through the surface too short to be resolved *)
Grazing(s, p, d) ==
  IF s.kind = "planex" THEN RAbs(d[1]) \prec R("1e-9")
  ELSE \/ RayA(s, d) \prec R("1e-9")
       \/ RayDisc(s, p, d) \preceq (16 (.) DiscTol(s, p, d))

----------------------------------------------------------------------------
(* x flies on to y in a straight line *)
FlightRules(x, y) ==
  LET v == Minus(y.p, x.p)
      t == Dot(v, x.d)
      off == Minus(v, Scale(t, x.d))
  IN Fails({ << Norm(off) \preceq (8 (.) PosTol(x.p, y.p)), "C03: flight leaves its direction" >>,
             << RNeg(PosTol(x.p, y.p)) \preceq t, "C03: flight goes backwards" >>,
             << y.ty = x.ty, "C03: particle type changes" >> })
Flown(x, y) == Dot(Minus(y.p, x.p), x.d)

(* how far beyond the surface, which is r away, a crossing particle may be:
   as far as it takes to be beyond it in floating point *)
Past(sf, x, y, r) == (16 (.) RootTol(sf, x.p, x.d, r)) (+) (32 (.) PosTol(x.p, y.p))

(* x crosses the surface y.s *)
CrossRules(w, x, y) ==
  LET t == Flown(x, y)
      cell == w.cells[x.c]
      own == CellSurfaces(cell)
      sf == w.surfaces[y.s]
      \* one that is met at once may count or not
      roots == Roots(sf, x.p, x.d)
      graze == \E s \in own : Grazing(w.surfaces[s], x.p, x.d)
      \* from the side on which the region is to the other one
      flips(s) == \E k \in DOMAIN cell.sides : cell.sides[k][1] = s /\ cell.sides[k][2] # Negative(w.surfaces[s], y.p, x.d)
      clear(s) == ClearMoving(w.surfaces[s], x.p, x.d) /\ ClearMoving(w.surfaces[s], y.p, x.d)
      \* along a curved surface it flies on either side of it by rounding alone
      adrift == sf.kind # "planex" /\ ~ClearMoving(sf, x.p, x.d) /\ t \preceq R("4e-6")
      \* met at the same place as y.s
      together(s) == \E i \in DOMAIN Roots(w.surfaces[s], x.p, x.d) :
                       LET r == Roots(w.surfaces[s], x.p, x.d)[i]
                       IN Near(r, t, 2 (.) (Past(w.surfaces[s], x, y, r) (+) Past(sf, x, y, t)))
  IN  FlightRules(x, y) \cup
      (IF y.c < 1 \/ y.c > Len(w.cells) THEN {"C03: crossing into no region"} ELSE
      Fails({ << \A i \in 1 .. 3 : REq(x.d[i], y.d[i]), "C03: direction changes at a boundary" >>,
              << REq(x.g, y.g), "C03: energy changes at a boundary" >>,
              << (y.e = "leak") = w.cells[y.c].void, "C03: leaves the problem elsewhere than in a void" >> }))
      \cup
      (IF x.c = 0 \/ y.c < 1 THEN {} ELSE
       IF y.s \notin own THEN {"C03: crosses a surface which does not bound the region",
                             "C12: counts a surface which does not bound the region"} ELSE
       Fails({ << graze \/ adrift \/ \E i \in DOMAIN roots :
                            LET r == roots[i]
                            IN /\ RNeg(RootTol(sf, x.p, x.d, r)) \preceq r
                               /\ Near(t, r, Past(sf, x, y, r))
                               /\ \A s \in own : LET q == FirstRoot(w.surfaces[s], x.p, x.d)
                                    IN (r (-) q) \preceq (RootTol(sf, x.p, x.d, r) (+) RootTol(w.surfaces[s], x.p, x.d, q)),
                  "C03: does not cross the nearest boundary" >>,
               << ~ClearlyOutside(w, w.cells[y.c], y.p, x.d), "C04: region after crossing does not contain the particle" >>,
               << graze \/ adrift \/ y.c # x.c, "C04: still in the region it left" >>,
               << graze \/ ~clear(y.s) \/ flips(y.s), "C04: not on the other side of the surface crossed" >>,
               << graze \/ ~clear(y.s) \/ flips(y.s), "C12: counts a crossing which did not happen" >>,
               << graze \/ \A s \in own \ {y.s} : ~clear(s) \/ ~flips(s) \/ together(s),
                  "C04: a crossing is not registered" >>,
               << graze \/ \A s \in own \ {y.s} : ~clear(s) \/ ~flips(s) \/ together(s),
                  "C12: a crossing is not counted" >> }))

(* x has a collision; secs are the secondaries it produces *)
CollideRules(w, nuc, x, y, secs) ==
  LET t == Flown(x, y)
      cell == w.cells[x.c]
      own == CellSurfaces(cell)
      graze == \E s \in own : Grazing(w.surfaces[s], x.p, x.d)
      m == nuc.materials[cell.mat]
      same == /\ REq(x.g, y.g) /\ \A i \in 1 .. 3 : REq(x.d[i], y.d[i])
      outs == [i \in DOMAIN secs |-> secs[i].g]
  IN FlightRules(x, y) \cup
     Fails({ << y.c = x.c \/ x.c = 0, "C03: region changes without crossing" >>,
             << y.c = x.c \/ x.c = 0, "C12: a crossing is not counted" >>,
             << y.s = x.s, "C03: surface changes without crossing" >>,
             << y.e = "scatter" \/ same, "C03: direction or energy changes without scattering" >>,
             << y.e = "fission" \/ secs = <<>>, "C07: secondaries without fission" >> })
     \cup
     (IF x.c = 0 THEN {} ELSE
      Fails({ << graze \/ \A s \in own : LET q == FirstRoot(w.surfaces[s], x.p, x.d)
                                         IN t \preceq (q (+) RootTol(w.surfaces[s], x.p, x.d, q)),
                 "C03: collides beyond the nearest boundary" >>,
              << y.p = x.p \/ ~ClearlyOutside(w, cell, y.p, x.d), "C03: collides outside its region" >>,
              << y.p = x.p \/ ~ClearlyOutside(w, cell, y.p, x.d), "C04: a crossing is lost" >>,
              << ~cell.void, "C03: collides in a void" >> })
      \cup
      (IF cell.void THEN {} ELSE
       Fails({ << y.e = "virtual_collision" \/ CanHappen(nuc, m, x, y.p, y.e),
                  "C06: reaction with zero cross section" >>,
               << y.e = "virtual_collision" => Delta(nuc), "C08: rejected where total equals majorant" >>,
               << y.e = "virtual_collision" /\ Delta(nuc) => TotalAt(nuc, m, x, y.p) \prec (x.m (.) R("1.0000000001")),
                  "C08: rejected where total equals majorant" >>,
               << Delta(nuc) /\ nuc.consistent => TotalAt(nuc, m, x, y.p) \preceq (x.m (.) R("1.0000000001")),
                  "C08: majorant below total" >>,
               << y.e = "scatter" => CanScatterTo(nuc, m, x, y),
                  IF Multigroup(nuc) THEN "C06: scatters into a group with zero probability" ELSE "C19: kinematics of scattering" >>,
               << y.e = "scatter" => IsUnit(y.d), "C23: direction is not a unit vector" >>,
               << y.e = "fission" => CanYield(nuc, m, x, y.p, outs),
                  "C07: number or energy of secondaries" >>,
               << \A i \in DOMAIN secs : secs[i].ty = "neutron", "C07: secondary is not a neutron" >>,
               << \A i \in DOMAIN secs : SamePoint(secs[i].p, y.p), "C07: secondary starts elsewhere" >>,
               << \A i \in DOMAIN secs : IsUnit(secs[i].d), "C23: direction is not a unit vector" >> })))

StepRules(w, nuc, x, y, secs) ==
  IF ~Alive(x) THEN {"C03: something happens to a particle whose walk has ended"}
  ELSE IF y.e \in Crossings
       THEN CrossRules(w, x, y) \cup (IF secs = <<>> THEN {} ELSE {"C07: secondaries without fission"})
  ELSE IF y.e \in Collisions THEN CollideRules(w, nuc, x, y, secs)
  ELSE {"C03: impossible event"}

----------------------------------------------------------------------------
(* the state of one worker *)
VARIABLES phase,    \* "idle", "started" (a history was begun), "walking"
          part,     \* the particle being simulated
          bank      \* secondaries of this history which wait
walkVars == <<phase, part, bank>>

Nobody == [e |-> "leak"]

(* a history may only end when nothing is left to simulate *)
CommitRules ==
  Fails({ << phase = "walking", "C07: history without a particle" >>,
          << phase = "walking" => ~Alive(part), "C03: walk abandoned" >>,
          << bank = <<>>, "C07: secondaries are lost" >> })
BeginRules ==
  Fails({ << phase = "walking" => ~Alive(part), "C03: walk abandoned" >>,
          << phase # "idle", "C07: particle outside any history" >> })
(* position in the bank of a secondary; 0 if it is not there *)
InBank(x) ==
  LET S == { i \in DOMAIN bank : /\ SamePoint(bank[i].p, x.p) /\ SamePoint(bank[i].d, x.d)
                                 /\ REq(bank[i].g, x.g) /\ bank[i].ty = x.ty }
  IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
RemoveFrom(b, i) == SubSeq(b, 1, i - 1) \o SubSeq(b, i + 1, Len(b))

WalkInit == phase = "idle" /\ part = Nobody /\ bank = <<>>
StartHistory == phase' = "started" /\ part' = Nobody /\ bank' = <<>>
(* begin to simulate x; w is the world.  A particle which starts in a void
   has left the problem already *)
Born(w, x, c) == [x EXCEPT !.c = c, !.s = 0, !.e = IF c = 0 THEN "birth" ELSE IF w.cells[c].void THEN "leak" ELSE "birth"]
Begin(w, x) ==
  /\ phase' = "walking"
  /\ part' = Born(w, x, SureCell(w, x.p, x.d))
  /\ bank' = IF phase = "walking" /\ InBank(x) # 0 THEN RemoveFrom(bank, InBank(x)) ELSE bank
Step(y, secs) ==
  /\ part' = y /\ bank' = bank \o secs /\ UNCHANGED phase
(* it may have started in a void if its region is not known *)
Ended(x, e) == IF x.e = "birth" /\ x.c = 0 /\ e = "leak" THEN [x EXCEPT !.e = e] ELSE x
End(e) == part' = Ended(part, e) /\ UNCHANGED <<phase, bank>>
EndHistory == phase' = "idle" /\ part' = Nobody /\ bank' = <<>>
=============================================================================
