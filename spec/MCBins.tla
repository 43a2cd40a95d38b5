------------------------------- MODULE MCBins -------------------------------
(* Binnings partition the numbers; combinations have distinct positions.   *)
EXTENDS Bins
CONSTANT Top
VARIABLES b, c, v, w
vars == <<b, c, v, w>>
Binnings == { [kind |-> "none"] }
  \cup { [kind |-> "boundaries", b |-> s] : s \in UNION { { t \in [1 .. n -> 0 .. Top] : \A i \in 1 .. n - 1 : t[i] < t[i + 1] } : n \in 1 .. 3 } }
  \cup { [kind |-> "linspace", min |-> 0, max |-> m, n |-> n] : m \in 1 .. Top, n \in 1 .. 3 }
Halves == { i (/) 2 : i \in -1 .. 2 * Top + 1 }
Init == b \in Binnings /\ c \in Binnings /\ v \in Halves /\ w \in Halves
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
In(bs, k, x) == /\ k = 0 \/ bs[k] \preceq x
                /\ k = Len(bs) \/ x \prec bs[k + 1]
Partition == LET bs == Boundaries(b) IN
  /\ Increasing(bs)
  /\ \A k \in 0 .. Parts(bs) - 1 : In(bs, k, v) <=> k = PartOf(bs, v)
Even == b.kind = "linspace" => LET bs == Boundaries(b) IN
  \A i \in 1 .. Len(bs) - 1 : Near(bs[i + 1] (-) bs[i], (b.max (-) b.min) (/) b.n, R("1e-40"))
Distinct == LET n == Parts(Boundaries(b)) m == Parts(Boundaries(c)) IN
  \A i, j \in 0 .. n - 1, k, l \in 0 .. m - 1 : Flat(i, k, m) = Flat(j, l, m) => i = j /\ k = l
WithinSize == LET n == Parts(Boundaries(b)) m == Parts(Boundaries(c)) IN
  Flat(PartOf(Boundaries(b), v), PartOf(Boundaries(c), w), m) \in 0 .. n * m - 1
=============================================================================
