------------------------------- MODULE Tables -------------------------------
(***************************************************************************)
(* Tabulated data as read from data files.                                 *)
(*                                                                         *)
(* A data set is [axes |-> << axis, axis, ... >>, values |-> << ... >>]    *)
(* with ascending axes; the entries are listed with the last axis running  *)
(* fastest.  A curve is [x |-> ascending, y |-> values].                   *)
(***************************************************************************)
EXTENDS RealNum

Shape(ds) == [ i \in DOMAIN ds.axes |-> Len(ds.axes[i]) ]
(* number of entries of the axes after axis k together *)
RECURSIVE Stride(_, _)
Stride(ds, k) == IF k >= Len(ds.axes) THEN 1 ELSE Len(ds.axes[k + 1]) * Stride(ds, k + 1)
RECURSIVE Place(_, _, _)
Place(ds, idx, k) == IF k > Len(idx) THEN 1 ELSE (idx[k] - 1) * Stride(ds, k) + Place(ds, idx, k + 1)
InShape(ds, idx) == Len(idx) = Len(ds.axes) /\ \A k \in DOMAIN idx : idx[k] \in 1 .. Len(ds.axes[k])
(* the entry with its own combination of axis positions *)
Entry(ds, idx) == ds.values[Place(ds, idx, 1)]

(* how many points of an ascending axis are not above x *)
RECURSIVE Search(_, _, _, _)
Search(axis, x, lo, hi) ==
  IF lo > hi THEN lo - 1 ELSE
  LET m == (lo + hi) \div 2
  IN IF axis[m] \preceq x THEN Search(axis, x, m + 1, hi) ELSE Search(axis, x, lo, m - 1)
NotAbove(axis, x) == Search(axis, x, 1, Len(axis))

(* the two neighbouring points of an axis and the weight of the second; the
   end points outside of the axis *)
Neighbours(axis, x) ==
  LET n == NotAbove(axis, x)
  IN IF n = 0 THEN <<1, 1, R(0)>>
     ELSE IF n = Len(axis) THEN <<n, n, R(0)>>
     ELSE <<n, n + 1, (x (-) axis[n]) (/) (axis[n + 1] (-) axis[n])>>
Between(a, b, w) == a (+) (w (.) (b (-) a))
Value(curve, x) == LET n == Neighbours(curve.x, x) IN
  IF n[1] = n[2] THEN curve.y[n[1]] ELSE Between(curve.y[n[1]], curve.y[n[2]], n[3])

(* a table keyed by several continuous variables: interpolated in the
   innermost variable first *)
RECURSIVE ValueFrom(_, _, _)
ValueFrom(ds, idx, keys) ==
  LET k == Len(idx) + 1 IN
  IF k > Len(ds.axes) THEN Entry(ds, idx)
  ELSE LET n == Neighbours(ds.axes[k], keys[k])
           a == ValueFrom(ds, Append(idx, n[1]), keys)
       IN IF n[1] = n[2] THEN a ELSE Between(a, ValueFrom(ds, Append(idx, n[2]), keys), n[3])
ValueAt(ds, keys) == ValueFrom(ds, <<>>, keys)

(* a cumulative distribution: entry i is drawn when the number lies between
   the cumulative probability before it and its own *)
DrawnEntry(cumulative, u) == NotAbove(cumulative, u) + 1
=============================================================================
