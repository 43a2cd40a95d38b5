----------------------------- MODULE TableTrace -----------------------------
(***************************************************************************)
(* Judges tables of the implementation.                                    *)
(*  [t |-> "file", axes, values]  what a data file holds                   *)
(*  [t |-> "set", axes, at, look] read from that file; at: << <<index,     *)
(*     value, whether there is one>> .. >>, look: << <<keys, value>> .. >> *)
(*  [t |-> "cdf", cum, draws] draws: << <<u, entry>> .. >>                 *)
(***************************************************************************)
EXTENDS Tables, Replay

VARIABLES file
vars == <<replayVars, file>>

Eps == R("1e-12")
Scale == LET s == RSort([i \in DOMAIN file.values |-> RAbs(file.values[i])]) IN s[Len(s)]

SetRules(r) ==
  Broken({ << /\ Len(r.axes) = Len(file.axes)
              /\ \A k \in DOMAIN r.axes : Len(r.axes[k]) = Len(file.axes[k]) /\ \A i \in DOMAIN r.axes[k] : REq(r.axes[k][i], file.axes[k][i]), "C17: axes" >>,
           << \A i \in DOMAIN r.at : LET e == r.at[i] IN
                IF InShape(file, e[1]) THEN e[3] /\ REq(e[2], Entry(file, e[1])) ELSE ~e[3], "C17: entry under its axis values" >>,
           << \A i \in DOMAIN r.look : Near(r.look[i][2], ValueAt(file, r.look[i][1]), Eps (.) Scale), "C17: interpolated value" >>,
           << \A i \in DOMAIN r.look : LET k == r.look[i][1] IN
                (\A a \in DOMAIN k : \E j \in DOMAIN file.axes[a] : REq(k[a], file.axes[a][j]))
                  => Near(r.look[i][2], Entry(file, [a \in DOMAIN k |-> NotAbove(file.axes[a], k[a])]), Eps (.) Scale), "C17: value at tabulated points" >> })
CdfRules(r) ==
  Broken({ << \A i \in DOMAIN r.draws : r.draws[i][2] = DrawnEntry(r.cum, r.draws[i][1]), "C17: entry drawn from a cumulative distribution" >> })

TraceInit == ReplayInit /\ file = <<>>
File == Rec.t = "file" /\ file' = Rec /\ ConsumeBroken({}, "file")
Set == Rec.t = "set" /\ ConsumeBroken(SetRules(Rec), "axes: " \o ToString(Len(file.axes))) /\ UNCHANGED file
Cdf == Rec.t = "cdf" /\ ConsumeBroken(CdfRules(Rec), "cumulative distribution") /\ UNCHANGED file
TraceNext == HaveRecord /\ (File \/ Set \/ Cdf)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
