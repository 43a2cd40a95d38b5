------------------------------ MODULE RealNum ------------------------------
(***************************************************************************)
(* Real arithmetic for the specification.  TLC evaluates these operators   *)
(* with the Java override in java/RealNum.java (50 significant digits);    *)
(* the definitions below only fix arity.  Integers are accepted wherever a *)
(* real is expected.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL Override == CHOOSE x : FALSE

R(a)         == Override      \* a real from an integer or a numeral string
RAdd(a, b)   == Override
RSub(a, b)   == Override
RMul(a, b)   == Override
RDiv(a, b)   == Override
RLt(a, b)    == Override      \* FALSE as soon as one operand is not a number
RLe(a, b)    == Override
REq(a, b)    == Override
RIsFinite(a) == Override
RIsNaN(a)    == Override
RSqrt(a)     == Override
RExp(a)      == Override
RLn(a)       == Override
RCos(a)      == Override
RSin(a)      == Override
RErf(a)      == Override
RPow(a, b)   == Override
RFloor(a)    == Override      \* largest integer not above a
RSum(s)      == Override      \* sum of a sequence
RSort(s)     == Override      \* ascending
RNearestDouble(a) == Override \* the IEEE-754 double nearest to a
LoadTrace(path)   == Override \* sequence of the records of an ndjson file

a (+) b == RAdd(a, b)
a (-) b == RSub(a, b)
a (.) b == RMul(a, b)
a (/) b == RDiv(a, b)
a \prec b   == RLt(a, b)
a \preceq b == RLe(a, b)
a \succ b   == RLt(b, a)
a \succeq b == RLe(b, a)

RNeg(a) == RSub(0, a)
RAbs(a) == IF RLt(a, 0) THEN RNeg(a) ELSE a
RMax(a, b) == IF RLt(a, b) THEN b ELSE a
RMin(a, b) == IF RLt(b, a) THEN b ELSE a
RSq(a) == RMul(a, a)
RPi == R("3.14159265358979323846264338327950288419716939937510")

(* a and b agree to within an absolute tolerance *)
Near(a, b, tol) == RLe(RAbs(RSub(a, b)), tol)
(* a and b agree to within tol relative to their size (never below size 1) *)
Close(a, b, tol) == Near(a, b, RMul(tol, RMax(1, RMax(RAbs(a), RAbs(b)))))
(* purely relative agreement, with an absolute floor *)
RelClose(a, b, tol, floor) ==
  Near(a, b, RMax(floor, RMul(tol, RMax(RAbs(a), RAbs(b)))))

(* the same sequence, with its elements evaluated once (TLC) *)
Evaluated(s) == s \o <<>>

(* ascending sequences agree elementwise *)
SortedClose(s, t, tol) ==
  /\ Len(s) = Len(t)
  /\ LET a == RSort(s) b == RSort(t)
     IN  \A i \in 1 .. Len(s) : Close(a[i], b[i], tol)
=============================================================================
