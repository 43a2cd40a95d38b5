------------------------------ MODULE WalkTrace ------------------------------
(***************************************************************************)
(* Judges complete executions of the program: every event of every         *)
(* particle of every history, and the printed results.                     *)
(*                                                                         *)
(* Records: [t |-> "problem", w, nuc, src, seed, n, perts, est]            *)
(*   begins a problem; est is a sequence of                                *)
(*     [name, surf, cosine, ref, energy, sens]                             *)
(*   [t |-> "solve"] the program starts to simulate                        *)
(*   [t |-> "hist", seed] a source particle is sampled                     *)
(*   [t |-> "begin", p, d, g, ty, m, ie] simulation of a particle begins      *)
(*   [t |-> "ev", e, p, d, g, ty, c, s, m, ie, sec] something happened to it  *)
(*   [t |-> "end", e] simulation of that particle ends; e happened last   *)
(*   [t |-> "commit"] the history's scores are recorded                    *)
(*   [t |-> "report", ok, est] results; est as printed                     *)
(*   [t |-> "output", rc, ok, n, est] the program itself was run on the    *)
(*     same problem: exit status and contents of its output file           *)
(***************************************************************************)
EXTENDS Walk, Results, Replay

VARIABLES pb,      \* current problem
          nth,     \* histories started since "solve"
          tal,     \* tally of each result
          stal,    \* tallies of each result's sensitivities
          vague,   \* results for which some score lay on a bin boundary
          ie       \* indirect effects of the particle

vars == <<walkVars, replayVars, pb, nth, tal, stal, vague, ie>>

(* a problem with everything that is derived from the input once *)
Prepare(r) ==
  [w |-> r.w, nuc |-> r.nuc, src |-> r.src, seed |-> R(r.seed), n |-> r.n, perts |-> r.perts,
   est |-> [i \in DOMAIN r.est |-> PrepareEst(r.est[i])]]

(* a current result scores each crossing of its surface *)
Scores(e, x) == x.e \in Crossings /\ x.s = e.surf

State(r) == [p |-> r.p, d |-> r.d, g |-> r.g, ty |-> r.ty, c |-> r.c, s |-> r.s, e |-> r.e, m |-> r.m]

----------------------------------------------------------------------------
(* indirect effect of a perturbation over a flight from x to y *)
RateAt(x) == FlightXS(pb.nuc, pb.nuc.materials[pb.w.cells[x.c].mat], x)
Affected(x, k) ==
  \E i \in DOMAIN pb.nuc.materials[pb.w.cells[x.c].mat].comps :
     pb.nuc.materials[pb.w.cells[x.c].mat].comps[i][1] = pb.perts[k]
EffectRules(x, y, before, after) ==
  IF pb.perts = <<>> \/ x.c = 0 THEN {} ELSE
  IF pb.w.cells[x.c].void THEN {} ELSE
  LET t == Flown(x, y)
      change(k) == IF Affected(x, k) THEN (1 (/) RateAt(x)) (-) t ELSE R(0)
      tol(k) == R("1e-9") (.) RMax(1, RMax(RAbs(before[k]), RAbs(change(k)) (+) t))
                  (+) (8 (.) PosTol(x.p, y.p))
  IN IF \A k \in DOMAIN pb.perts : Near(after[k], before[k] (+) change(k), tol(k)) THEN {}
     ELSE {"C14: indirect effect of a flight"}

(* a flight from x to y is explained by one of the random numbers us used for
   this step: the optical distance is exponentially distributed *)
FlightLawRules(x, y, us, dup) ==
  (IF dup = 0 THEN {} ELSE {"C05: random number used twice"}
     \cup (IF y.e = "scatter" THEN {"C06: random number used twice"} ELSE {})
     \cup (IF y.e = "fission" THEN {"C07: random number used twice"} ELSE {})) \cup
  IF us = <<>> \/ x.c = 0 THEN {} ELSE
  IF pb.w.cells[x.c].void THEN {} ELSE
  LET m == pb.nuc.materials[pb.w.cells[x.c].mat]
      rate == m.aden (.) RateAt(x)
      t == Flown(x, y)
      tol == (64 (.) PosTol(x.p, y.p)) (+) ((IF Multigroup(pb.nuc) THEN R("1e-11") ELSE R("1e-9")) (.) t)
      past == IF y.s < 1 \/ y.s > Len(pb.w.surfaces) THEN R("1e-6")
              ELSE 2 (.) Past(pb.w.surfaces[y.s], x, y, t)
      wrong(what) == { "C05: " \o what } \cup (IF Delta(pb.nuc) THEN { "C08: " \o what } ELSE {})
      law(u) == << RNeg(RLn(1 (-) u)) (/) rate, RNeg(RLn(RMax(u, R("1e-30")))) (/) rate >>
  IN IF y.e \in Collisions
     THEN IF \E i \in DOMAIN us : \E k \in 1 .. 2 : Near(law(us[i])[k], t, tol) THEN {}
          ELSE wrong("distance to collision")
     ELSE IF \E i \in DOMAIN us : \E k \in 1 .. 2 : (t (-) past) \preceq law(us[i])[k] THEN {}
          ELSE wrong("crosses where it should collide")

(* source particle *)
SourceRules(x) ==
  Fails({ << SamePoint(x.p, pb.src.p), "C22: source position" >>,
          << REq(x.g, pb.src.g), "C22: source energy" >>,
          << x.ty = pb.src.ty, "C22: source particle type" >>,
          << IsUnit(x.d), "C23: direction is not a unit vector" >>,
          << pb.src.dir = "constant" => Near(Norm(Minus(x.d, Unit(pb.src.u))), 0, R("1e-12")), "C22: source direction" >>,
          << pb.src.dir = "isotropic-flux" => R("-1e-12") \preceq Dot(x.d, Unit(pb.src.u)), "C22: source direction" >> })

(* printed results *)
Results(i, r) == ResultRules(pb.est[i], tal[i], stal[i], pb.n, i \in vague, r)

----------------------------------------------------------------------------
NoProblem == [n |-> 0, est |-> <<>>, perts |-> <<>>]
TraceInit == /\ ReplayInit /\ WalkInit
             /\ pb = NoProblem /\ nth = 0 /\ tal = <<>> /\ stal = <<>> /\ vague = {} /\ ie = <<>>

FreshTallies == /\ tal' = [i \in DOMAIN pb'.est |-> NewTally]
                /\ stal' = [i \in DOMAIN pb'.est |-> [k \in DOMAIN pb'.est[i].sens |-> NewTally]]
                /\ vague' = {}

Problem == /\ Rec.t = "problem" /\ pb' = Prepare(Rec) /\ FreshTallies /\ nth' = 0
           /\ ConsumeBroken({}, "problem") /\ EndHistory /\ UNCHANGED ie

SolveBegins == /\ Rec.t = "solve" /\ pb' = pb /\ FreshTallies /\ nth' = 0
               /\ ConsumeBroken({}, "solve") /\ EndHistory /\ UNCHANGED ie

History == /\ Rec.t = "hist" /\ nth' = nth + 1 /\ StartHistory
           /\ ConsumeBroken(
                Fails({ << REq(R(Rec.seed), pb.seed (+) nth), "C09: seeds of histories" >>,
                        << phase = "idle", "C09: history not recorded" >> }), "history")
           /\ UNCHANGED <<pb, tal, stal, vague, ie>>

BeginParticle ==
  /\ Rec.t = "begin"
  /\ LET x == [p |-> Rec.p, d |-> Rec.d, g |-> Rec.g, ty |-> Rec.ty, c |-> 0, s |-> 0, e |-> "birth", m |-> Rec.m]
         first == phase = "started"
     IN /\ Begin(pb.w, x)
        /\ ConsumeBroken(BeginRules
             \cup (IF first THEN SourceRules(x)
                   ELSE Fails({ << InBank(x) # 0, "C07: simulates a particle that was not produced" >> }))
             \cup Fails({ << Rec.s = 0, "C12: particle starts with a surface crossed" >>,
                          << \A k \in DOMAIN Rec.ie : REq(Rec.ie[k], 0), "C14: indirect effect does not start at zero" >> }),
             IF first THEN "source particle" ELSE "secondary particle")
        /\ ie' = Rec.ie
  /\ UNCHANGED <<pb, nth, tal, stal, vague>>

Event ==
  /\ Rec.t = "ev"
  /\ LET y0 == State(Rec)
         y == [y0 EXCEPT !.c = IF y0.c < 1 \/ y0.c > Len(pb.w.cells) THEN 0 ELSE y0.c]
         secs == [i \in DOMAIN Rec.sec |-> [p |-> Rec.sec[i].p, d |-> Rec.sec[i].d, g |-> Rec.sec[i].g, ty |-> Rec.sec[i].ty]]
         hit == { i \in DOMAIN pb.est : Scores(pb.est[i], y) }
     IN /\ Step(y, secs)
        /\ ConsumeBroken((IF phase # "walking" THEN {"C07: event outside any particle"}
                          ELSE StepRules(pb.w, pb.nuc, part, y, secs) \cup EffectRules(part, y, ie, Rec.ie)
                            \cup FlightLawRules(part, y, Rec.u, Rec.dup)),
             (IF Multigroup(pb.nuc) THEN "" ELSE "continuous energy: ") \o
             (IF y.e = "fission" THEN (IF secs = <<>> THEN "fission without secondaries" ELSE "fission with secondaries")
              ELSE y.e))
        /\ tal' = [i \in DOMAIN pb.est |-> IF i \in hit THEN Score(tal[i], FlatBin(pb.est[i], y), 1) ELSE tal[i]]
        /\ stal' = [i \in DOMAIN pb.est |-> IF i \in hit
                      THEN [k \in DOMAIN pb.est[i].sens |->
                              Score(stal[i][k], FlatBin(pb.est[i], y), Rec.ie[pb.est[i].sens[k].pert])]
                      ELSE stal[i]]
        /\ vague' = vague \cup { i \in hit : IsVague(pb.est[i], y) }
  /\ ie' = Rec.ie
  /\ UNCHANGED <<pb, nth>>

EndParticle ==
  /\ Rec.t = "end"
  /\ ConsumeBroken(IF phase = "walking"
                   THEN Fails({ << ~Alive(Ended(part, Rec.e)), "C03: walk abandoned" >>,
                                << part.e = "leak" /\ part.s = 0 => Rec.e = "leak", "C03: walk ends otherwise" >>,
                                << Rec.e \in Crossings => Ended(part, Rec.e).e \in Crossings, "C12: a crossing is not counted" >> })
                   ELSE {"C07: end without a particle"},
                   IF phase = "walking" /\ part.e = "leak" /\ part.s = 0 THEN "particle starts in a void" ELSE "particle ends")
  /\ End(Rec.e)
  /\ UNCHANGED <<pb, nth, tal, stal, vague, ie>>

Stray == /\ Rec.t = "stray" /\ ConsumeBroken({"C07: secondaries without event"}, "stray")
         /\ UNCHANGED <<walkVars, pb, nth, tal, stal, vague, ie>>

Endless == /\ Rec.t = "endless" /\ ConsumeBroken({"C03: walk does not end", "C07: history does not end", "C09: history does not end"}, "endless")
           /\ UNCHANGED <<walkVars, pb, nth, tal, stal, vague, ie>>

CommitAll ==
  /\ Rec.t = "commit"
  /\ ConsumeBroken(CommitRules, "history ends")
  /\ tal' = [i \in DOMAIN tal |-> Commit(tal[i])]
  /\ stal' = [i \in DOMAIN stal |-> [k \in DOMAIN stal[i] |-> Commit(stal[i][k])]]
  /\ EndHistory
  /\ UNCHANGED <<pb, nth, vague, ie>>

Report ==
  /\ Rec.t = "report"
  /\ ConsumeBroken(
       Fails({ << nth = pb.n, "C09: number of histories" >>,
               << phase = "idle", "C09: history not recorded" >>,
               << Rec.ok /\ Len(Rec.est) = Len(pb.est), "C13: form of the report" >> })
       \cup (IF Rec.ok /\ Len(Rec.est) = Len(pb.est)
             THEN UNION { Results(i, Rec.est[i]) : i \in DOMAIN pb.est } ELSE {}),
       IF vague = {} THEN "report" ELSE "report with scores on bin boundaries")
  /\ UNCHANGED <<walkVars, pb, nth, tal, stal, vague, ie>>

Output ==
  /\ Rec.t = "output"
  /\ ConsumeBroken(
       Fails({ << Rec.rc = 0, "C13: the program does not succeed" >>,
               << Rec.ok /\ Len(Rec.est) = Len(pb.est), "C13: form of the output file" >>,
               << Rec.ok => REq(R(Rec.n), pb.n), "C13: number of histories" >> })
       \cup (IF Rec.ok /\ Len(Rec.est) = Len(pb.est)
             THEN UNION { Results(i, Rec.est[i]) : i \in DOMAIN pb.est } ELSE {}), "output file")
  /\ UNCHANGED <<walkVars, pb, nth, tal, stal, vague, ie>>

TraceNext == HaveRecord /\ (Problem \/ SolveBegins \/ History \/ BeginParticle \/ Event \/ EndParticle \/ Stray \/ Endless \/ CommitAll \/ Report \/ Output)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
