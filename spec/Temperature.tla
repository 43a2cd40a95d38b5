---------------------------- MODULE Temperature -----------------------------
(***************************************************************************)
(* Temperatures of a problem pb: the global field pb.field                 *)
(*   [kind |-> "none"], [kind |-> "constant", c] or                        *)
(*   [kind |-> "linear", lower, upper, b, g]                               *)
(* and the values given with regions, pb.temps[c] = <<>> or <<T>>.         *)
(***************************************************************************)
EXTENDS Geometry

RoomTemperature == R("293.6")

FieldAt(f, p) ==
  CASE f.kind = "none"     -> RoomTemperature
    [] f.kind = "constant" -> f.c
    [] f.kind = "linear"   -> Dot(f.g, p) (+) f.b
FieldUpper(f) == CASE f.kind = "none" -> RoomTemperature [] f.kind = "constant" -> f.c [] f.kind = "linear" -> f.upper
FieldLower(f) == CASE f.kind = "none" -> RoomTemperature [] f.kind = "constant" -> f.c [] f.kind = "linear" -> f.lower
IsConstantField(f) == f.kind = "linear" => \A i \in 1 .. 3 : REq(f.g[i], 0)

Own(pb, c) == pb.temps[c] # <<>>
TemperatureAt(pb, c, p) == IF Own(pb, c) THEN pb.temps[c][1] ELSE FieldAt(pb.field, p)
UpperBound(pb, c) == IF Own(pb, c) THEN pb.temps[c][1] ELSE FieldUpper(pb.field)
LowerBound(pb, c) == IF Own(pb, c) THEN pb.temps[c][1] ELSE FieldLower(pb.field)

(* tracking: "none" (not requested), "surface" or "cell delta" *)
Mode(pb) == IF pb.tracking = "cell delta" THEN "delta" ELSE "direct"
Accepted(pb) == Mode(pb) = "direct" => IsConstantField(pb.field)
=============================================================================
