------------------------------- MODULE Replay -------------------------------
(***************************************************************************)
(* Binding of a specification to a recorded execution: position in the     *)
(* trace, the rules of the specification which records break, and how      *)
(* often each class of behaviour was exercised.  The state always follows  *)
(* the recorded execution, so that each record is judged on its own.       *)
(***************************************************************************)
EXTENDS RealNum, TLC, SequencesExt

CONSTANT TraceFile

Trace == LoadTrace(TraceFile)

VARIABLES l,       \* next record
          bad,     \* <<number of record, broken rule>>
          seen     \* how many records fell into each class

replayVars == <<l, bad, seen>>

Bump(s, c) == IF c \in DOMAIN s THEN [s EXCEPT ![c] = @ + 1] ELSE s @@ (c :> 1)

ReplayInit == l = 1 /\ bad = <<>> /\ seen = [x \in {} |-> 0]

HaveRecord == l <= Len(Trace)
Rec == Trace[l]

(* consume one record which breaks the given rules *)
ConsumeBroken(broken, class) ==
  /\ HaveRecord
  /\ l' = l + 1
  /\ bad' = IF broken = {} \/ Len(bad) > 300 THEN bad
            ELSE bad \o SetToSeq({<<l, x>> : x \in broken})
  /\ seen' = Bump(seen, class)
  /\ IF l = Len(Trace)
     THEN PrintT(<<"RESULT", Len(Trace), bad',
                   SetToSeq({<<c, seen'[c]>> : c \in DOMAIN seen'})>>)
     ELSE TRUE

Consume(ok, class) == ConsumeBroken(IF ok THEN {} ELSE {"specification"}, class)

(* the rules among the pairs <<holds, name>> that do not hold *)
Broken(pairs) == { q[2] : q \in { x \in pairs : ~x[1] } }

TraceConsumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
