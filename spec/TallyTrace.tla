----------------------------- MODULE TallyTrace -----------------------------
(***************************************************************************)
(* Judges what the real sets of results contain after behaviours of        *)
(* MCTally were executed on them.                                          *)
(*   [t |-> "tallies", est, parts, n, sets] a problem with results est;    *)
(*     kinds of particles [e, s, d, g, ie, id]; sets: the numbers of the   *)
(*     results each set has, in its order                                  *)
(*   [t |-> "ops", ops, shown] shown: what each set prints afterwards      *)
(***************************************************************************)
EXTENDS Results, Replay

VARIABLE pb
vars == <<replayVars, pb>>

Crossing == {"surface_cross", "leak"}
Hits(e, x) == x.e \in Crossing /\ x.s = e.surf
Fresh == [i \in DOMAIN pb.est |-> [t |-> NewTally, s |-> [k \in DOMAIN pb.est[i].sens |-> NewTally]]]
ScoreAll(ts, x) ==
  [i \in DOMAIN ts |->
     LET e == pb.est[i] IN
     IF ~Hits(e, x) THEN ts[i] ELSE
     LET b == FlatBin(e, x)
     IN [t |-> Score(ts[i].t, b, 1), s |-> [k \in DOMAIN e.sens |-> Score(ts[i].s[k], b, x.ie[e.sens[k].pert])]]]
Both(op(_, _), a, b) == [i \in DOMAIN a |-> [t |-> op(a[i].t, b[i].t), s |-> [k \in DOMAIN a[i].s |-> op(a[i].s[k], b[i].s[k])]]]
WithPend(a, b) == Commit([a EXCEPT !.pend = b.pend])

(* state: the sets, and the proxies as <<set, scores>> *)
Start == [sets |-> [a \in DOMAIN pb.sets |-> Fresh], open |-> [i \in 1 .. 3 |-> <<0, Fresh>>]]
Do(st, op) ==
  CASE op[1] = "proxy" -> [st EXCEPT !.open[op[2]] = <<op[3], Fresh>>]
    [] op[1] = "score" -> [st EXCEPT !.open[op[2]] = <<@[1], ScoreAll(@[2], pb.parts[op[3]])>>]
    [] op[1] = "commit" -> [st EXCEPT !.sets[st.open[op[2]][1]] = Both(WithPend, @, st.open[op[2]][2])]
    [] op[1] = "copy" -> [st EXCEPT !.sets[op[3]] = st.sets[op[2]]]
    [] op[1] = "merge" -> [st EXCEPT !.sets[op[2]] = Both(Merge, @, st.sets[op[3]])]
Final(ops) == FoldLeft(Do, Start, ops)

Vague(i) == \E k \in DOMAIN pb.parts : Hits(pb.est[i], pb.parts[k]) /\ IsVague(pb.est[i], pb.parts[k])
OpsRules(r) ==
  LET f == Final(r.ops)
  IN UNION { IF Len(r.shown[a]) # Len(pb.sets[a]) THEN {"C10: results of a set"} ELSE
             UNION { LET i == pb.sets[a][j]
                         rules == ResultRules(pb.est[i], f.sets[a][i].t, f.sets[a][i].s, pb.n, Vague(i), r.shown[a][j])
                     IN rules \cup (IF rules = {} THEN {} ELSE {"C10: contents of a set"})
                     : j \in DOMAIN pb.sets[a] }
             : a \in DOMAIN pb.sets }

TraceInit == ReplayInit /\ pb = [est |-> <<>>, parts |-> <<>>, n |-> 1, sets |-> <<>>]
Problem == /\ Rec.t = "tallies"
           /\ pb' = [est |-> [i \in DOMAIN Rec.est |-> PrepareEst(Rec.est[i])], parts |-> Rec.parts, n |-> R(Rec.n), sets |-> Rec.sets]
           /\ ConsumeBroken({}, "tallies")
Ops == /\ Rec.t = "ops"
       /\ ConsumeBroken(OpsRules(Rec),
            IF \E i \in DOMAIN Rec.ops : Rec.ops[i][1] = "merge" THEN "behaviour with merging"
            ELSE IF \E i \in DOMAIN Rec.ops : Rec.ops[i][1] = "copy" THEN "behaviour with copying"
            ELSE "behaviour of proxies only")
       /\ UNCHANGED pb
TraceNext == HaveRecord /\ (Problem \/ Ops)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
