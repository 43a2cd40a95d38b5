------------------------------ MODULE DeltaTrace ------------------------------
(***************************************************************************)
(* Judges many first flights of particles in the same state.               *)
(*  [t |-> "problem", w, nuc] as in WalkTrace                              *)
(*  [t |-> "flights", p, d, g, ty, c, edges, n, M, crossed, accepted,      *)
(*    rejected, capture, scatter, fission, bad]                            *)
(* n particles at p in region c: numbers of first tentative collisions     *)
(* accepted and rejected, and of first real collisions of each kind, by    *)
(* distance between edges (first and last count: below the first edge and  *)
(* above the last, which is where the region ends); crossed of them left   *)
(* the region without collision.  M is the majorant in use.                *)
(***************************************************************************)
EXTENDS Delta, Chance, Replay

VARIABLES pb
vars == <<replayVars, pb>>

FlightRules(r) ==
  LET m == pb.nuc.materials[pb.w.cells[r.c].mat]
      x == [p |-> r.p, d |-> r.d, g |-> r.g, ty |-> r.ty, c |-> r.c]
      I == 1 .. Len(r.edges) - 1
      w == Evaluated([ i \in I |-> r.edges[i + 1] (-) r.edges[i] ])
      S == Evaluated([ i \in I |-> Evaluated([ j \in 1 .. 5 |-> At4(pb.nuc, m, x, Along(r.p, r.d, Node(r.edges, i, j))) ]) ])
      totals(i) == [ j \in 1 .. 5 |-> S[i][j][1] ]
      part == Evaluated([ i \in I |-> Partial(totals(i), w[i]) ])
      tau[i \in 0 .. Len(r.edges) - 1] == IF i = 0 THEN R(0) ELSE tau[i - 1] (+) part[i][5]
      reach == Evaluated([ i \in I |-> Evaluated([ j \in 1 .. 5 |-> RExp(RNeg(tau[i - 1] (+) part[i][j])) ]) ])
      real(i, k) == Simpson([ j \in 1 .. 5 |-> S[i][j][k] (.) reach[i][j] ], w[i])
      rate == m.aden (.) r.M
      \* first tentative collisions
      tent(i) == RExp(RNeg(rate (.) r.edges[i])) (-) RExp(RNeg(rate (.) r.edges[i + 1]))
      acc(i) == Simpson([ j \in 1 .. 5 |-> S[i][j][1] (.) RExp(RNeg(rate (.) Node(r.edges, i, j))) ], w[i])
      err == R("2e-6")
      delta == Delta(pb.nuc)
      fits(counts, P(_)) == \A i \in I : PlausibleNear(counts[i + 1], r.n, P(i), err)
      cap(i) == real(i, 2)
      sca(i) == real(i, 3)
      fis(i) == real(i, 4)
      any(i) == real(i, 1)
      all == [ i \in DOMAIN r.capture |-> r.capture[i] + r.scatter[i] + r.fission[i] ]
      both == [ i \in DOMAIN r.accepted |-> r.accepted[i] + r.rejected[i] ]
      left == RExp(RNeg(tau[Len(r.edges) - 1]))
      law == IF delta THEN "C08" ELSE "C05"
  IN Broken({ << fits(all, any), law \o ": distance to collision" >>,
              << fits(r.capture, cap) /\ fits(r.scatter, sca) /\ fits(r.fission, fis), law \o ": kind of collision by distance" >>,
              << PlausibleNear(r.crossed, r.n, left, err), law \o ": flights out of the region" >>,
              << all[1] = 0 /\ all[Len(all)] = 0 /\ both[Len(both)] = 0, law \o ": collision beyond the boundary" >>,
              << delta => fits(both, tent), "C08: tentative collisions do not follow the majorant" >>,
              << delta => fits(r.accepted, acc), "C08: probability of acceptance" >>,
              << delta \/ ISum(r.rejected) = 0, "C08: collision rejected with direct tracking" >>,
              << ~delta \/ \A i \in I : \A j \in 1 .. 5 : S[i][j][1] \preceq (rate (.) R("1.0000000001")), "C08: majorant below total" >> })
     \cup { "C08: " \o r.bad[i] : i \in DOMAIN r.bad }

Class(r) == IF ~Delta(pb.nuc) THEN "direct tracking"
            ELSE IF ISum(r.rejected) > 500 THEN "delta tracking, many rejections" ELSE "delta tracking"

TraceInit == ReplayInit /\ pb = <<>>
Problem == Rec.t = "problem" /\ pb' = Rec /\ ConsumeBroken({}, "problem")
Flights == Rec.t = "flights" /\ ConsumeBroken(FlightRules(Rec), Class(Rec)) /\ UNCHANGED pb
TraceNext == HaveRecord /\ (Problem \/ Flights)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
