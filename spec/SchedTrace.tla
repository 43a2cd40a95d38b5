----------------------------- MODULE SchedTrace -----------------------------
(***************************************************************************)
(* Judges which histories real runs simulated and recorded (C09) and what  *)
(* the same problem did in different runs (C15).                           *)
(*                                                                         *)
(* [t |-> "counted", seed, n, workers, got, dup, odd, lo, hi, threads,     *)
(*    took, est]: number of histories recorded, duplicates, histories not  *)
(*    recorded or recorded twice, least and greatest seed, and for short   *)
(*    runs who took which history; in these problems each history scores   *)
(*    exactly once, in one bin                                             *)
(* [t |-> "run", problem, seed, n, distinct, hist, est]: digest of         *)
(*    everything that happened in each history, << <<seed, digest>> .. >>  *)
(*    and the printed results; problem stands for everything in the input  *)
(*    but seed, number of histories and threads                            *)
(***************************************************************************)
EXTENDS Replay, FiniteSets

VARIABLES known,    \* problem -> seed -> digest
          results   \* <<problem, seed, n>> -> printed results
vars == <<replayVars, known, results>>
Empty == [x \in {} |-> 0]
TraceInit == ReplayInit /\ known = Empty /\ results = Empty

Names(pairs) == { q[2] : q \in { x \in pairs : ~x[1] } }

Counted ==
  /\ Rec.t = "counted"
  /\ LET r == Rec
     IN ConsumeBroken(Names({
          << r.got = r.n, "C09: number of histories recorded" >>,
          << r.dup = 0, "C09: a history simulated twice" >>,
          << r.odd = 0, "C09: a history not recorded once" >>,
          << r.lo = r.seed /\ r.hi = r.seed + r.n - 1, "C09: seeds of histories" >>,
          << r.threads <= r.workers, "C09: more threads than requested" >>,
          \* for short runs: tickets in order, each taken once
          << r.took # <<>> => /\ Len(r.took) = r.n
                              /\ \A i \in DOMAIN r.took : r.took[i][2] = r.seed + i - 1, "C09: seeds of histories" >>,
          << \A i \in DOMAIN r.est : Near(r.est[i].mean[1], 1, R("1e-9")) /\ Near(r.est[i].sd[1], 0, R("1e-6")), "C09: results are not those of each history once" >> }),
          IF r.workers > r.n THEN "more threads than histories"
          ELSE IF r.n > 10000 THEN "more than 10000 histories"
          ELSE IF r.workers = 1 THEN "one thread" ELSE "several threads")
  /\ UNCHANGED <<known, results>>

Same(a, b, n) ==
  /\ Len(a) = Len(b)
  /\ \A i \in DOMAIN a :
       /\ a[i].name = b[i].name /\ a[i].mean = b[i].mean /\ a[i].sd = b[i].sd
       /\ Len(a[i].sens) = Len(b[i].sens)
       /\ \A k \in DOMAIN a[i].sens :
            LET x == a[i].sens[k]  y == b[i].sens[k]
                big(j) == RMax(RAbs(x.mean[j]), RAbs(y.mean[j]))
                \* sums of many terms of either sign in another order
                tol(j) == RMax(R("1e-300"), R("4e-6") (.) (big(j) (+) RMax(RAbs(x.sd[j]), RAbs(y.sd[j]))))
                \* mean of squares: what variances are differences of
                msq(j) == RSq(big(j)) (+) (n (.) RSq(RMax(x.sd[j], y.sd[j])))
            IN /\ x.name = y.name /\ Len(x.mean) = Len(y.mean)
               /\ \A j \in DOMAIN x.mean :
                    /\ Near(x.mean[j], y.mean[j], tol(j))
                    /\ Near(RSq(x.sd[j]), RSq(y.sd[j]), (R("2e-4") (.) RSq(x.sd[j])) (+) (R("1e-13") (.) msq(j)))

Run ==
  /\ Rec.t = "run"
  /\ LET r == Rec
         new == [s \in { r.hist[i][1] : i \in DOMAIN r.hist } |-> r.hist[CHOOSE i \in DOMAIN r.hist : r.hist[i][1] = s][2]]
         old == IF r.problem \in DOMAIN known THEN known[r.problem] ELSE Empty
         all == new @@ old
         key == <<r.problem, r.seed, r.n>>
     IN /\ ConsumeBroken(Names({
             << \A s \in DOMAIN new \cap DOMAIN old : new[s] = old[s], "C15: same seed, different history" >>,
             << DOMAIN new = r.seed .. r.seed + r.n - 1 /\ Len(r.hist) = r.n, "C15: histories are not those of the seeds" >>,
             << r.distinct => Cardinality({ all[s] : s \in DOMAIN all }) = Cardinality(DOMAIN all), "C15: different seeds, same history" >>,
             << key \in DOMAIN results => Same(results[key], r.est, r.n), "C15: same input, different results" >> }),
             IF key \in DOMAIN results THEN "repeated run" ELSE IF DOMAIN new \cap DOMAIN old # {} THEN "run sharing seeds with another" ELSE "first run")
        /\ known' = (r.problem :> all) @@ known
        /\ results' = IF key \in DOMAIN results THEN results ELSE (key :> r.est) @@ results

TraceNext == HaveRecord /\ (Counted \/ Run)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
