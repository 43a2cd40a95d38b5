------------------------------ MODULE MCSource ------------------------------
(* Sampling source particles in any order from several instances of the    *)
(* same source; the seed alone decides. Behaviours are printed to be       *)
(* replayed into the real class.                                           *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Instances, Seeds, Depth
VARIABLES got,   \* <<instance, seed, state>> sampled so far
          ops,
          map    \* what a seed means: chosen when it is first used
vars == <<got, ops, map>>
States == 1 .. 2
Init == got = {} /\ ops = <<>> /\ map = [s \in {} |-> 0]
Sample(i, s) ==
  /\ Len(ops) < Depth
  /\ ops' = Append(ops, <<i, s>>)
  /\ \E v \in (IF s \in DOMAIN map THEN {map[s]} ELSE States) :
       /\ map' = (s :> v) @@ map
       /\ got' = got \cup {<<i, s, v>>}
Next == \E i \in Instances, s \in Seeds : Sample(i, s)
Spec == Init /\ [][Next]_vars
DecidedBySeed == \A x, y \in got : x[2] = y[2] => x[3] = y[3]
Emit == (Len(ops) = Depth /\ \A s \in DOMAIN map : map[s] = 1) => PrintT("SEQ " \o ToString(ops))
=============================================================================
