--------------------------- MODULE MCDirections ---------------------------
(* A particle's direction over any sequence of turns by right and straight *)
(* angles: exact integer vectors, right angles as numbers of quarters.     *)
EXTENDS Directions
CONSTANT MaxTurns
VARIABLES d, n, last
vars == <<d, n, last>>
Axes == { << x, y, z >> : x, y, z \in -1 .. 1 }
Units == { v \in Axes : v[1] * v[1] + v[2] * v[2] + v[3] * v[3] = 1 }
IDot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
ICross(a, b) == << a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1] >>
(* some vector beside a: which one is arbitrary *)
Beside(a) == CHOOSE v \in Units : IDot(a, v) = 0
CosQ(q) == CASE q = 0 -> 1 [] q = 1 -> 0 [] q = 2 -> -1 [] q = 3 -> 0
SinQ(q) == CosQ((q + 3) % 4)
Turned(a, mu, q) ==
  LET u == Beside(a) v == ICross(a, u) s == IF mu = 0 THEN 1 ELSE 0
  IN [i \in 1 .. 3 |-> mu * a[i] + s * CosQ(q) * u[i] + s * SinQ(q) * v[i]]
Init == d \in Units /\ n = 0 /\ last = <<>>
Turn(mu, q) == /\ n < MaxTurns
               /\ d' = Turned(d, mu, q)
               /\ n' = n + 1
               /\ last' = << d, mu, q, d' >>
Next == \E mu \in -1 .. 1, q \in 0 .. 3 : Turn(mu, q)
Spec == Init /\ [][Next]_vars
StaysUnit == d \in Units
TurnedByTheCosine == last # <<>> => IDot(last[1], last[4]) = last[2]
(* the judgement of recorded turns agrees with the model *)
JudgeAgrees == \A mu \in -1 .. 1, q \in 0 .. 3, p \in 0 .. 3 :
  LET o == Turned(d, mu, q) r == Turned(d, 0, p) h == RPi (/) 2 IN
  /\ HasCosine(d, mu, o, R("1e-15"))
  /\ AzimuthApart(d, mu, q (.) h, o, 0, p (.) h, r, R("1e-15"))
  /\ AzimuthSense(d, mu, q (.) h, o, 0, p (.) h, r, 1, R("1e-15"))
=============================================================================
