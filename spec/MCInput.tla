------------------------------ MODULE MCInput ------------------------------
(***************************************************************************)
(* Generates inputs: usable ones read from a file, and what mistakes make  *)
(* of them.                                                                *)
(***************************************************************************)
EXTENDS InputFaults, Json

CONSTANTS Bases,     \* file with usable inputs
          Few        \* of how many mistakes to follow up (0: all)

Inputs == ndJsonDeserialize(Bases)

VARIABLES base, doc, fault
vars == <<base, doc, fault>>

Init == /\ base \in DOMAIN Inputs
        /\ doc = Inputs[base]
        /\ fault = <<>>

Next == /\ fault = <<>>
        /\ \E f \in Up(Faults(doc), Few) :
             /\ fault' = f
             /\ doc' = [doc EXCEPT !.root = Apply(@, f)]
        /\ UNCHANGED base
Spec == Init /\ [][Next]_vars

(* what is generated from is usable *)
UsableBases ==
  \/ fault # <<>> \/ Inputs[base].any \/ Verdict(doc)[1] = "accept"
  \/ PrintT(<<"NOT USABLE", base, Verdict(doc)>>) /\ FALSE
(* the order of elements that are not a list is irrelevant *)
RECURSIVE Mirror(_, _)
Mirror(n, type) ==
  LET T == Types[type]
      ch == [ i \in DOMAIN n.ch |-> IF n.ch[i].tag \in DOMAIN T.kids THEN Mirror(n.ch[i], T.kids[n.ch[i].tag]) ELSE n.ch[i] ]
  IN  [n EXCEPT !.ch = IF T.m = "all" THEN Reverse(ch) ELSE ch]
OrderIrrelevant == Mistakes([doc EXCEPT !.root = Mirror(@, "minimc")]) = Mistakes(doc)
Emit == PrintT("DOC " \o ToJson([base |-> base, fault |-> fault, verdict |-> Verdict(doc), root |-> doc.root]))
=============================================================================
