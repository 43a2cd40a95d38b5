----------------------------- MODULE SourceTrace -----------------------------
(***************************************************************************)
(* Judges source particles of the implementation.                          *)
(*  [t |-> "source", src, distinct]         a source, as in Sources        *)
(*  [t |-> "sample", inst, seed, p, d, e, group, ty, event, next]          *)
(*     state of one sampled particle, next: its next random number         *)
(*  [t |-> "hist", what, h, fine]  histograms of uniform quantities              *)
(***************************************************************************)
EXTENDS Sources, Chance, Replay

VARIABLES src, known
vars == <<replayVars, src, known>>
Empty == [s \in {} |-> 0]

TraceInit == ReplayInit /\ src = <<>> /\ known = Empty
Source == Rec.t = "source" /\ src' = Rec.src /\ known' = Empty /\ ConsumeBroken({}, "source " \o Rec.src.dir)
Sample ==
  /\ Rec.t = "sample"
  /\ LET r == Rec
         state == << r.p, r.d, r.e, r.group, r.ty, r.next >>
         old == r.seed \in DOMAIN known
     IN /\ ConsumeBroken(Broken({
              << FixedStateOf(src, r), "C22: position, energy or type" >>,
              << DirectionOf(src, r.d), "C22: direction" >>,
              << r.event = "birth", "C22: not newly born" >>,
              << old => known[r.seed] = state, "C22: same seed, different particle" >>,
              << old \/ src.dir = "constant" \/ \A s \in DOMAIN known : known[s][2] # r.d, "C22: different seeds, same direction" >> }),
              IF old THEN "seed sampled again" ELSE "sample " \o src.dir)
        /\ known' = IF old THEN known ELSE (r.seed :> state) @@ known
  /\ UNCHANGED src
Hist == /\ Rec.t = "hist"
        /\ ConsumeBroken(Broken({ << Uniform(Rec.h) /\ FineUniform(Rec.fine), "C22: not uniform: " \o Rec.what >> }), "histogram " \o src.dir)
        /\ UNCHANGED <<src, known>>
TraceNext == HaveRecord /\ (Source \/ Sample \/ Hist)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
