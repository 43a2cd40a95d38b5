----------------------------- MODULE InputTrace -----------------------------
(***************************************************************************)
(* Judges what became of inputs.                                           *)
(*  [t |-> "doc", verdict, out, began, solved, histories, ...]             *)
(*     verdict of the specification (InputDoc); outcome of creating the    *)
(*     problem; histories started meanwhile; whether it could be simulated *)
(*  [t |-> "layout", ...]  the last input that was a usable one to begin   *)
(*     with, written down in another way                                   *)
(*  [t |-> "program", verdict, rc, written]  the program run on it         *)
(***************************************************************************)
EXTENDS Replay

VARIABLES plain    \* record of the last unchanged usable input
vars == <<replayVars, plain>>

Refused(r) == r.out \in {"exception", "other exception"}
DocRules(r) ==
  { << r.out \in {"ok", "exception", "other exception"}, "C16: input ends in a report, not in a crash" >>,
    << r.verdict[1] = "reject" => r.out # "ok", "C16: unusable input is refused" >>,
    << r.verdict[1] = "accept" => ~Refused(r), "C16: usable input is accepted" >>,
    << r.began = 0, "C16: no history before the input is accepted" >>,
    << r.solved \in {"no", "ok"}, "C16: accepted input can be simulated" >> }
LayoutRules(r) ==
  DocRules(r) \cup { << r.out = plain.out, "C16: accepted however it is written" >>,
                     << r.digest = plain.digest /\ r.histories = plain.histories, "C16: results do not depend on how the input is written" >> }
ProgramRules(r) ==
  { << r.verdict[1] = "reject" => r.rc # 0 /\ ~r.written, "C16: no results of unusable input" >>,
    << r.verdict[1] = "accept" => r.rc = 0 /\ r.written, "C16: results of usable input" >> }

TraceInit == ReplayInit /\ plain = <<>>
Doc == /\ Rec.t = "doc"
       /\ LET class == IF Rec.verdict[1] = "reject" THEN "because: " \o Rec.verdict[2]
                       ELSE IF Rec.solved = "ok" THEN "simulated" ELSE Rec.verdict[1] IN
          ConsumeBroken(Broken(DocRules(Rec)), class)
       /\ plain' = IF Rec.fault = "[\"base\"]" THEN Rec ELSE plain
Layout == Rec.t = "layout" /\ ConsumeBroken(Broken(LayoutRules(Rec)), "layout") /\ UNCHANGED plain
Program == Rec.t = "program" /\ ConsumeBroken(Broken(ProgramRules(Rec)), "program: " \o Rec.verdict[1]) /\ UNCHANGED plain
TraceNext == HaveRecord /\ (Doc \/ Layout \/ Program)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
