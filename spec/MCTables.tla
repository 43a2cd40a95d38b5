------------------------------ MODULE MCTables ------------------------------
(***************************************************************************)
(* Walks over all positions of all small tables in the order in which the  *)
(* entries are listed.  Checked: the place of an entry is that order, so   *)
(* each combination of axis values has an entry of its own; interpolation  *)
(* reproduces tabulated values and stays between neighbours; draws from a  *)
(* cumulative distribution are monotone and hit every entry.               *)
(***************************************************************************)
EXTENDS Tables, FiniteSets, TLC
CONSTANTS MaxAxes, MaxLength

Shapes == UNION { [1 .. d -> 1 .. MaxLength] : d \in 1 .. MaxAxes }
TableOf(s) == LET RECURSIVE size(_)
                  size(k) == IF k > Len(s) THEN 1 ELSE s[k] * size(k + 1)
              IN [ axes |-> [k \in 1 .. Len(s) |-> [i \in 1 .. s[k] |-> R(i * i)]],
                   \* entries which identify their place
                   values |-> [i \in 1 .. size(1) |-> R(i)] ]
VARIABLES shape, idx, count, x
vars == <<shape, idx, count, x>>

Init == /\ shape \in Shapes
        /\ idx = [k \in 1 .. Len(shape) |-> 1]
        /\ count = 1
        /\ x \in 0 .. MaxLength * MaxLength + 1
(* the next combination, last axis fastest *)
Last == LET S == { k \in 1 .. Len(shape) : idx[k] < shape[k] } IN
        IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : j <= k
Next == /\ Last > 0
        /\ idx' = [k \in 1 .. Len(shape) |-> IF k < Last THEN idx[k] ELSE IF k = Last THEN idx[k] + 1 ELSE 1]
        /\ count' = count + 1
        /\ UNCHANGED <<shape, x>>
Spec == Init /\ [][Next]_vars

OwnPlace == LET t == TableOf(shape) IN InShape(t, idx) /\ REq(Entry(t, idx), count) /\ (Last = 0 => count = Len(t.values))
Reproduces == LET t == TableOf(shape) IN REq(ValueAt(t, [k \in DOMAIN idx |-> t.axes[k][idx[k]]]), Entry(t, idx))
Keys == LET t == TableOf(shape) IN [k \in DOMAIN idx |-> IF k = Len(idx) THEN R(x) ELSE t.axes[k][idx[k]]]
(* along the last axis the value lies between its neighbours' *)
StaysBetween ==
  LET t == TableOf(shape)
      v == ValueAt(t, Keys)
      n == Neighbours(t.axes[Len(shape)], x)
      at(i) == Entry(t, [idx EXCEPT ![Len(shape)] = i])
  IN at(n[1]) \preceq v /\ v \preceq at(n[2])
      /\ (n[1] # n[2] => /\ t.axes[Len(shape)][n[1]] \preceq x
                         /\ x \prec t.axes[Len(shape)][n[2]]
                         \* on the straight line between them
                         /\ Near((v (-) at(n[1])) (.) (t.axes[Len(shape)][n[2]] (-) t.axes[Len(shape)][n[1]]),
                                (x (-) t.axes[Len(shape)][n[1]]) (.) (at(n[2]) (-) at(n[1])), R("1e-40")))
DrawsCover ==
  LET cum == [i \in 1 .. shape[1] |-> R(i) (/) shape[1]]
      u == R(x) (/) (MaxLength * MaxLength + 2)
      e == DrawnEntry(cum, u)
  IN e \in 1 .. shape[1] /\ u \prec cum[e] /\ (e > 1 => cum[e - 1] \preceq u)
=============================================================================
