------------------------------ MODULE DirTrace ------------------------------
(***************************************************************************)
(* Judges directions of the implementation.                                *)
(*  [t |-> "turns", d, turns] turns: <<mu, phi, result>> of direction d     *)
(*  [t |-> "chain", d, steps] a particle scattering again and again:        *)
(*     steps: <<mu, direction afterwards>>                                  *)
(*  [t |-> "scale", v, out]   a direction made of any components            *)
(*  [t |-> "hist", what, h, fine]   histograms of quantities uniform by the       *)
(*     specification                                                       *)
(***************************************************************************)
EXTENDS Directions, Chance, Replay

Eps == R("2e-14")

TurnRules(r) ==
  LET d == r.d
      T == DOMAIN r.turns
      mu(i) == r.turns[i][1]
      phi(i) == r.turns[i][2]
      out(i) == r.turns[i][3]
      \* rounding of the sine computed from a cosine near 1 or -1
      slack(i) == R("1e-15") (/) (SineOf(mu(i)) (+) R("3e-8"))
      tol(i) == (slack(1) (+) slack(i)) (+) R("4e-14")
      finite == \A i \in T : IsUnit(out(i), Eps)
  IN Broken({ << \A i \in T : IsUnit(out(i), Eps), "C23: not a unit vector" >>,
              << finite => \A i \in T : HasCosine(d, mu(i), out(i), Eps), "C23: cosine of a turn" >>,
              << finite => \A i \in T : AzimuthApart(d, mu(1), phi(1), out(1), mu(i), phi(i), out(i), tol(i)), "C23: azimuth of a turn" >>,
              << finite => \E s \in {1, -1} : \A i \in T : AzimuthSense(d, mu(1), phi(1), out(1), mu(i), phi(i), out(i), s, tol(i)), "C23: azimuth of a turn" >> })
ChainRules(r) ==
  LET before(i) == IF i = 1 THEN r.d ELSE r.steps[i - 1][2]
      S == DOMAIN r.steps
  IN Broken({ << \A i \in S : IsUnit(r.steps[i][2], Eps), "C23: not a unit vector" >>,
              << \A i \in S : HasCosine(before(i), r.steps[i][1], r.steps[i][2], Eps), "C23: cosine of scattering" >> })
ScaleRules(r) == LET u == UnitOf(r.v) IN
  Broken({ << IsUnit(r.out, Eps), "C23: not a unit vector" >>,
           << \A i \in 1 .. 3 : Near(r.out[i], u[i], Eps), "C23: not parallel to the given vector" >> })

Axis(d) == IF \E i \in 1 .. 3 : RAbs(d[i]) \succ R("0.999999999") THEN "near an axis" ELSE "away from the axes"
TraceNext == /\ HaveRecord
             /\ \/ Rec.t = "turns" /\ ConsumeBroken(TurnRules(Rec), "turns " \o Axis(Rec.d))
                \/ Rec.t = "chain" /\ ConsumeBroken(ChainRules(Rec), "chain of scatterings")
                \/ Rec.t = "scale" /\ ConsumeBroken(ScaleRules(Rec), "scaled to unit length")
                \/ Rec.t = "hist" /\ ConsumeBroken(Broken({ << Uniform(Rec.h) /\ FineUniform(Rec.fine), "C23: not uniform: " \o Rec.what >> }), "histogram")
TraceSpec == ReplayInit /\ [][TraceNext]_replayVars
=============================================================================
