------------------------------ MODULE MCTally ------------------------------
(***************************************************************************)
(* Everything that can be done with sets of results: histories are scored  *)
(* on a set through a proxy and recorded, sets are copied and merged.      *)
(* Checks that a tally always means what it should: per bin the sum over   *)
(* the recorded histories of the history's score and of its square.  Every *)
(* behaviour is also printed, to be replayed into the real classes.        *)
(***************************************************************************)
EXTENDS Tally, TLC, SequencesExt

CONSTANTS Depth, Sets, Proxies, Kinds, Emitting

(* what a particle of each kind scores *)
Bin(k) == IF k = 3 THEN 1 ELSE 0
Value(k) == IF k = 2 THEN R("-0.5") ELSE R(1)

VARIABLES tally,   \* of each set, as accumulated
          hist,    \* histories recorded in each set, as sequences of kinds
          open,    \* proxies: the set they belong to and the scores so far, or <<>>
          ops
vars == <<tally, hist, open, ops>>

Init == /\ tally = [a \in Sets |-> NewTally] /\ hist = [a \in Sets |-> <<>>]
        /\ open = [i \in Proxies |-> <<>>] /\ ops = <<>>

Did(op) == ops' = Append(ops, op)
(* a new proxy replaces the old one, abandoning what was not recorded *)
NewProxy(i, a) == /\ open' = [open EXCEPT ![i] = <<a, <<>>>>]
                  /\ Did(<<"proxy", i, a>>) /\ UNCHANGED <<tally, hist>>
ScoreOn(i, k) == /\ open[i] # <<>>
                 /\ open' = [open EXCEPT ![i] = <<@[1], Append(@[2], k)>>]
                 /\ Did(<<"score", i, k>>) /\ UNCHANGED <<tally, hist>>
Pend(ks) == FoldLeft(LAMBDA t, k : Score(t, Bin(k), Value(k)), NewTally, ks).pend
Record(i) == /\ open[i] # <<>>
             /\ LET a == open[i][1] IN
                /\ tally' = [tally EXCEPT ![a] = Commit([@ EXCEPT !.pend = Pend(open[i][2])])]
                /\ hist' = [hist EXCEPT ![a] = Append(@, open[i][2])]
             /\ open' = [open EXCEPT ![i] = <<>>]
             /\ Did(<<"commit", i, 0>>)
(* sets that proxies refer to stay where they are *)
Free(a) == \A i \in Proxies : (IF open[i] = <<>> THEN TRUE ELSE open[i][1] # a)
Copy(a, b) == /\ a # b /\ Free(b) /\ hist[a] # hist[b]
              /\ tally' = [tally EXCEPT ![b] = tally[a]] /\ hist' = [hist EXCEPT ![b] = hist[a]]
              /\ Did(<<"copy", a, b>>) /\ UNCHANGED open
MergeInto(a, b) == /\ hist[b] # <<>>
                   /\ tally' = [tally EXCEPT ![a] = Merge(tally[a], tally[b])]
                   /\ hist' = [hist EXCEPT ![a] = @ \o hist[b]]
                   /\ Did(<<"merge", a, b>>) /\ UNCHANGED open
Next == /\ Len(ops) < Depth
        /\ \/ \E i \in Proxies, a \in Sets : NewProxy(i, a)
           \/ \E i \in Proxies, k \in Kinds : ScoreOn(i, k)
           \/ \E i \in Proxies : Record(i)
           \/ \E a, b \in Sets : Copy(a, b) \/ MergeInto(a, b)
Spec == Init /\ [][Next]_vars

HistScore(ks, b) == RSum([j \in DOMAIN ks |-> IF Bin(ks[j]) = b THEN Value(ks[j]) ELSE R(0)])
Meaning == \A a \in Sets : \A b \in 0 .. 1 :
   /\ REq(At(tally[a].tot, b), RSum([h \in DOMAIN hist[a] |-> HistScore(hist[a][h], b)]))
   /\ REq(At(tally[a].sq, b), RSum([h \in DOMAIN hist[a] |-> RSq(HistScore(hist[a][h], b))]))
NoNegativeVariance == \A a \in Sets : \A b \in 0 .. 1 :
   hist[a] = <<>> \/ 0 \preceq Variance(tally[a], b, Len(hist[a]))
Emit == Emitting => (Len(ops) = Depth => PrintT("SEQ " \o ToString(ops)))
=============================================================================
