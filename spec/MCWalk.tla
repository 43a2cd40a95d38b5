------------------------------- MODULE MCWalk -------------------------------
(***************************************************************************)
(* Exhaustive check of the walk on two slabs between voids.  The next step *)
(* is any candidate, legal or not, that breaks none of the rules by which  *)
(* executions of the program are judged: the invariants hold only because  *)
(* the rules reject everything else.                                       *)
(***************************************************************************)
EXTENDS Walk, Tally

CONSTANTS MaxEvents, MaxBank

W == [surfaces |-> << [kind |-> "planex", x |-> R(0)], [kind |-> "planex", x |-> R(1)], [kind |-> "planex", x |-> R(2)] >>,
      cells |-> << [sides |-> << <<1, TRUE>> >>, void |-> TRUE, mat |-> 1],
                   [sides |-> << <<1, FALSE>>, <<2, TRUE>> >>, void |-> FALSE, mat |-> 1],
                   [sides |-> << <<2, FALSE>>, <<3, TRUE>> >>, void |-> FALSE, mat |-> 2],
                   [sides |-> << <<3, FALSE>> >>, void |-> TRUE, mat |-> 1] >>]
None == <<>>
A == [capture |-> <<R(1), R(1)>>, scatter |-> << <<R(0), R(0)>>, <<R(1), R(0)>> >>, fission |-> None, nubar |-> None, chi |-> None]
B == [capture |-> <<R(0), R(1)>>, scatter |-> None, fission |-> <<R(1), R(0)>>, nubar |-> <<R("1.5"), R(1)>>,
      chi |-> << <<R(0), R(1)>>, <<R(1), R(0)>> >>]
N == [groups |-> 2, nuclides |-> << [neutron |-> A], [neutron |-> B] >>,
      materials |-> << [aden |-> R(1), comps |-> << <<1, R(1)>> >>], [aden |-> R(1), comps |-> << <<2, R(2)>>, <<1, R(1)>> >>] >>]

XPos == <<R(1), R(0), R(0)>>
XNeg == <<R(-1), R(0), R(0)>>
Particle(x, d, g) == [p |-> <<x, R(0), R(0)>>, d |-> d, g |-> g, ty |-> "neutron", c |-> 0, s |-> 0, e |-> "birth"]

VARIABLES events, born, made, net, home, cur, total
vars == <<walkVars, events, born, made, net, home, cur, total>>

Side(s, p, d) == IF Negative(W.surfaces[s], p, d) THEN 0 ELSE 1

Init == /\ WalkInit /\ events = 0 /\ born = 0 /\ made = 0
        /\ net = [s \in 1 .. 3 |-> 0] /\ home = [p |-> <<R(0), R(0), R(0)>>, d |-> XPos]
        /\ cur = NewTally /\ total = 0

Start == /\ phase = "idle" /\ events = 0 /\ StartHistory /\ born' = 0 /\ made' = 0
         /\ UNCHANGED <<events, net, home, cur, total>>

Enter(x) == /\ Begin(W, x) /\ born' = born + 1
            /\ net' = [s \in 1 .. 3 |-> 0] /\ home' = [p |-> x.p, d |-> x.d]
            /\ UNCHANGED <<events, made, cur, total>>
BeginSource == /\ phase = "started" /\ BeginRules = {}
               /\ \E d \in {XPos, XNeg} : \E x \in {R(0), R("0.25"), R(1)} : Enter(Particle(x, d, 1))
BeginSecondary == /\ phase = "walking" /\ BeginRules = {}
                  /\ \E i \in DOMAIN bank : Enter(bank[i] @@ [c |-> 0, s |-> 0, e |-> "birth"])

Dist == NearestDistance(W, W.cells[part.c], part.p, part.d)
Places == { Along(part.p, part.d, t) : t \in { Dist (/) 2, Dist, Dist (+) R("0.0000001"), Dist (+) R("0.5"), Dist (+) 1 } }
Sec(p, d, g) == [p |-> p, d |-> d, g |-> g, ty |-> "neutron"]
SecSets(p, e) ==
  IF e = "fission"
  THEN { <<>>, <<Sec(p, XPos, 1)>>, <<Sec(p, XNeg, 2)>>, <<Sec(p, XPos, 2), Sec(p, XNeg, 2)>>,
         <<Sec(p, XPos, 1), Sec(p, XNeg, 1)>>, <<Sec(p, XPos, 2), Sec(p, XPos, 2), Sec(p, XPos, 2)>> }
  ELSE { <<>>, <<Sec(p, XPos, 1)>> }
Candidates ==
  { << [p |-> q, d |-> d, g |-> g, ty |-> "neutron", c |-> c, s |-> s, e |-> e], e >> :
      q \in Places, d \in {XPos, XNeg}, g \in {1, 2}, c \in 1 .. 4, s \in 0 .. 3,
      e \in Collisions \cup Crossings }

Happens == \E k \in Candidates :
  LET y == k[1] IN
  \E secs \in SecSets(y.p, y.e) :
    /\ StepRules(W, N, part, y, secs) = {}
    /\ Len(bank) + Len(secs) <= MaxBank
    /\ Step(y, secs)
    /\ made' = made + Len(secs)
    /\ net' = IF y.e \in Crossings
              THEN [net EXCEPT ![y.s] = @ + (IF part.d[1] \succ 0 THEN 1 ELSE -1)] ELSE net
    /\ total' = IF y.e \in Crossings /\ y.s = 2 THEN total + 1 ELSE total
    /\ cur' = IF y.e \in Crossings /\ y.s = 2 THEN Score(cur, y.g, 1) ELSE cur
    /\ events' = events + 1 /\ UNCHANGED <<born, home>>
Event == phase = "walking" /\ Alive(part) /\ events < MaxEvents /\ Happens

Commits == /\ phase # "idle" /\ CommitRules = {} /\ EndHistory /\ cur' = Commit(cur)
       /\ UNCHANGED <<events, born, made, net, home, total>>

Next == Start \/ BeginSource \/ BeginSecondary \/ Event \/ Commits
Spec == Init /\ [][Next]_vars

Walking == phase = "walking"
(* a particle that is alive is inside the material region it is said to be in *)
InItsRegion == Walking /\ Alive(part) =>
  part.c # 0 /\ ~W.cells[part.c].void /\ FindCellMoving(W, part.p, part.d) = part.c
(* a leaked particle is in a void *)
LeakedOutside == Walking /\ part.e = "leak" => W.cells[FindCellMoving(W, part.p, part.d)].void
(* crossings registered so far account exactly for the side of every surface
   the particle is on *)
NoCrossingLost == Walking => \A s \in 1 .. 3 : net[s] = Side(s, part.p, part.d) - Side(s, home.p, home.d)
(* every particle is simulated or waits *)
Conservation == phase # "idle" => (IF born = 0 THEN bank = <<>> ELSE made + 1 = born + Len(bank))
Complete == [][phase # "idle" /\ phase' = "idle" => born = made + 1]_vars
(* the tally of the middle surface *)
TallyCounts == LET all == RSum(<<At(cur.pend, 1), At(cur.pend, 2), At(cur.tot, 1), At(cur.tot, 2)>>)
               IN REq(all, total)
Events == events <= MaxEvents
=============================================================================
