-------------------------------- MODULE Tally --------------------------------
(***************************************************************************)
(* Tallies: per result and bin the sum over histories of the history's     *)
(* total score, and the sum of its square.                                 *)
(*                                                                         *)
(* A tally is [pend, tot, sq]: functions from touched bin numbers to       *)
(* numbers; every other bin is zero.                                       *)
(***************************************************************************)
EXTENDS RealNum, TLC, FiniteSets

NoScores == [x \in {} |-> 0]
NewTally == [pend |-> NoScores, tot |-> NoScores, sq |-> NoScores]

At(f, i) == IF i \in DOMAIN f THEN f[i] ELSE R(0)
AddAt(f, i, v) == IF i \in DOMAIN f THEN [f EXCEPT ![i] = @ (+) v] ELSE f @@ (i :> R(v))

(* one score of the current history *)
Score(t, i, v) == [t EXCEPT !.pend = AddAt(t.pend, i, v)]

(* the history ends: its total score per bin is recorded *)
Commit(t) ==
  LET keys == DOMAIN t.tot \cup DOMAIN t.pend
  IN [pend |-> NoScores,
      tot |-> [i \in keys |-> At(t.tot, i) (+) At(t.pend, i)],
      sq  |-> [i \in keys |-> At(t.sq, i) (+) RSq(At(t.pend, i))]]

(* the scores of a history are abandoned *)
Discard(t) == [t EXCEPT !.pend = NoScores]

(* the recorded results of b are added to those of a *)
Merge(a, b) ==
  LET keys == DOMAIN a.tot \cup DOMAIN b.tot
  IN [pend |-> a.pend,
      tot |-> [i \in keys |-> At(a.tot, i) (+) At(b.tot, i)],
      sq  |-> [i \in keys |-> At(a.sq, i) (+) At(b.sq, i)]]

(* mean per history and its standard error *)
Mean(t, i, n) == At(t.tot, i) (/) n
Variance(t, i, n) == At(t.sq, i) (-) (RSq(At(t.tot, i)) (/) n)
StdErr(t, i, n) == RSqrt(RMax(0, Variance(t, i, n))) (/) n

(* agreement with printed numbers (seven significant digits) *)
MeanPrinted(t, i, n, v) == RelClose(v, Mean(t, i, n), R("1e-6"), R("1e-300"))
StdErrPrinted(t, i, n, v) ==
  /\ RIsFinite(v) /\ 0 \preceq v
  \* compare squares; the difference of totals loses digits
  /\ Near(RSq(v (.) n), RMax(0, Variance(t, i, n)),
          (R("4e-6") (.) RAbs(Variance(t, i, n))) (+) (R("1e-13") (.) (At(t.sq, i) (+) RSq(At(t.tot, i)))))
=============================================================================
