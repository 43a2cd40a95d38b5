------------------------------ MODULE Scheduler ------------------------------
(***************************************************************************)
(* Distribution of histories over workers.  Workers draw tickets from a    *)
(* shared counter, simulate the history of that number with a seed made    *)
(* from the base seed and the ticket, add its score to results of their    *)
(* own, and end when the tickets are used up.  The answer is made by       *)
(* waiting for each worker in turn and adding up their results.  A problem *)
(* may be solved again.                                                    *)
(*                                                                         *)
(* The score of a history depends on its seed only.  A worker may not even *)
(* start before it is waited for (deferred execution).                     *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

CONSTANTS Workers,    \* 1 .. k
          N,          \* histories requested
          Solves,     \* how often the problem is solved
          BaseSeed

ScoreOf(seed) == 2 ^ (seed - BaseSeed)     \* tells which histories a sum contains
Seeds == { BaseSeed + i : i \in 0 .. N - 1 }

VARIABLES counter, pc, ticket, own, sq, ran, answer, answersq, joined, round, started
vars == <<counter, pc, ticket, own, sq, ran, answer, answersq, joined, round, started>>

Init == /\ counter = N          \* whatever a previous run left behind
        /\ pc = [w \in Workers |-> "none"] /\ ticket = [w \in Workers |-> 0]
        /\ own = [w \in Workers |-> 0] /\ sq = [w \in Workers |-> 0]
        /\ ran = [s \in Seeds |-> 0]
        /\ answer = 0 /\ answersq = 0 /\ joined = 0 /\ round = 0 /\ started = 0

(* a new solution starts from nothing *)
Begin == /\ round < Solves /\ joined = 0 /\ started = 0
         /\ counter' = 0 /\ started' = 1 /\ round' = round + 1
         /\ pc' = [w \in Workers |-> "ready"]
         /\ own' = [w \in Workers |-> 0] /\ sq' = [w \in Workers |-> 0]
         /\ ran' = [s \in Seeds |-> 0] /\ answer' = 0 /\ answersq' = 0
         /\ UNCHANGED <<ticket, joined>>

(* one indivisible step: no two workers get the same ticket *)
Draw(w) == /\ pc[w] = "ready"
           /\ ticket' = [ticket EXCEPT ![w] = counter]
           /\ counter' = counter + 1
           /\ pc' = [pc EXCEPT ![w] = IF counter < N THEN "simulate" ELSE "over"]
           /\ UNCHANGED <<own, sq, ran, answer, answersq, joined, round, started>>

Simulate(w) == /\ pc[w] = "simulate"
               /\ ran' = [ran EXCEPT ![BaseSeed + ticket[w]] = @ + 1]
               /\ pc' = [pc EXCEPT ![w] = "record"]
               /\ UNCHANGED <<counter, ticket, own, sq, answer, answersq, joined, round, started>>

Record(w) == /\ pc[w] = "record"
             /\ LET v == ScoreOf(BaseSeed + ticket[w])
                IN own' = [own EXCEPT ![w] = @ + v] /\ sq' = [sq EXCEPT ![w] = @ + v * v]
             /\ pc' = [pc EXCEPT ![w] = "ready"]
             /\ UNCHANGED <<counter, ticket, ran, answer, answersq, joined, round, started>>

(* wait for the next worker *)
Join(w) == /\ started = 1 /\ w = joined + 1 /\ pc[w] = "over"
           /\ answer' = answer + own[w] /\ answersq' = answersq + sq[w]
           /\ joined' = w
           /\ UNCHANGED <<counter, pc, ticket, own, sq, ran, round, started>>

Finish == /\ started = 1 /\ joined = Cardinality(Workers)
          /\ started' = 0 /\ joined' = 0
          /\ UNCHANGED <<counter, pc, ticket, own, sq, ran, answer, answersq, round>>

Next == Begin \/ Finish \/ \E w \in Workers : Draw(w) \/ Simulate(w) \/ Record(w) \/ Join(w)
Fairness == WF_vars(Begin) /\ WF_vars(Finish) /\ \A w \in Workers : WF_vars(Draw(w) \/ Simulate(w) \/ Record(w) \/ Join(w))
Spec == Init /\ [][Next]_vars /\ Fairness

----------------------------------------------------------------------------
Solved == round > 0 /\ started = 0
AtMostOnce == \A s \in Seeds : ran[s] <= 1
NoSharedTicket == \A v, w \in Workers : v # w /\ pc[v] \in {"simulate", "record"} /\ pc[w] \in {"simulate", "record"} => ticket[v] # ticket[w]
ExactlyOnce == Solved => \A s \in Seeds : ran[s] = 1
(* every history in the answer, once, whatever the schedule *)
Answer == Solved => answer = 2 ^ N - 1
Squares == Solved => 3 * answersq = 4 ^ N - 1
Ends == <>(round = Solves /\ started = 0)
=============================================================================
