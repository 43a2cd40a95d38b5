---------------------------- MODULE NuclearData ----------------------------
(***************************************************************************)
(* Multigroup interaction data as given in the input.                      *)
(*                                                                         *)
(* nuc = [groups, nuclides, materials]; a nuclide maps a particle type to  *)
(*   [capture, scatter, fission, nubar, chi]                               *)
(* where an absent reaction is <<>>, vectors are indexed by the incoming   *)
(* group and matrices are sequences of rows (outgoing group), each row     *)
(* indexed by the incoming group.  A material is                           *)
(*   [aden, comps |-> << <<nuclide, atom fraction as given>>, ... >>].     *)
(***************************************************************************)
EXTENDS RealNum, FiniteSets

HasData(nuc, n, ty) == ty \in DOMAIN nuc.nuclides[n]
DataOf(nuc, n, ty) == nuc.nuclides[n][ty]

Column(m, g) == [row \in 1 .. Len(m) |-> m[row][g]]

CaptureXS(d, g) == IF d.capture = <<>> THEN R(0) ELSE d.capture[g]
ScatterXS(d, g) == IF d.scatter = <<>> THEN R(0) ELSE RSum(Column(d.scatter, g))
FissionXS(d, g) == IF d.fission = <<>> THEN R(0) ELSE d.fission[g]
TotalXS(d, g) == (CaptureXS(d, g) (+) ScatterXS(d, g)) (+) FissionXS(d, g)
ReactionXS(d, ev, g) ==
  CASE ev = "capture" -> CaptureXS(d, g)
    [] ev = "scatter" -> ScatterXS(d, g)
    [] ev = "fission" -> FissionXS(d, g)

(* nuclides and atom fractions of a material; fractions sum to one *)
Components(m) == DOMAIN m.comps
Fraction(m, k) == m.comps[k][2] (/) RSum([i \in DOMAIN m.comps |-> m.comps[i][2]])

MaterialTotal(nuc, m, ty, g) ==
  RSum([k \in Components(m) |-> Fraction(m, k) (.) TotalXS(DataOf(nuc, m.comps[k][1], ty), g)])
(* with these data the cross section does not vary within a region *)
MaterialMajorant(nuc, m, ty, g) == MaterialTotal(nuc, m, ty, g)

(* probability that a collision in m has outcome ev *)
NuclideProb(nuc, m, ty, g, k) ==
  (Fraction(m, k) (.) TotalXS(DataOf(nuc, m.comps[k][1], ty), g)) (/) MaterialTotal(nuc, m, ty, g)
EventProb(nuc, m, ty, g, ev) ==
  RSum([k \in Components(m) |-> Fraction(m, k) (.) ReactionXS(DataOf(nuc, m.comps[k][1], ty), ev, g)])
     (/) MaterialTotal(nuc, m, ty, g)
(* probability that a collision in m scatters from group g into group h *)
ScatterToProb(nuc, m, ty, g, h) ==
  RSum([k \in Components(m) |->
     LET d == DataOf(nuc, m.comps[k][1], ty)
     IN IF d.scatter = <<>> THEN R(0) ELSE Fraction(m, k) (.) d.scatter[h][g]])
     (/) MaterialTotal(nuc, m, ty, g)
(* probability that a collision in m is a fission of nuclide k *)
FissionOfProb(nuc, m, ty, g, k) ==
  (Fraction(m, k) (.) FissionXS(DataOf(nuc, m.comps[k][1], ty), g)) (/) MaterialTotal(nuc, m, ty, g)

(* probability of n neutrons from a fission with mean yield nu: the integer
   part or one more, with mean nu *)
YieldProb(nu, n) ==
  LET f == RFloor(nu) IN
  IF REq(n, f) THEN 1 (-) (nu (-) f)
  ELSE IF REq(n, f (+) 1) THEN nu (-) f ELSE R(0)
(* distribution of the outgoing group of a fission neutron *)
ChiProb(d, g, h) == d.chi[h][g] (/) RSum(Column(d.chi, g))

----------------------------------------------------------------------------
(* outcomes that are possible at all *)
CanHappen(nuc, m, ty, g, ev) ==
  \E k \in Components(m) : 0 \prec ReactionXS(DataOf(nuc, m.comps[k][1], ty), ev, g)
CanScatterTo(nuc, m, ty, g, h) ==
  /\ h \in 1 .. nuc.groups
  /\ \E k \in Components(m) :
       LET d == DataOf(nuc, m.comps[k][1], ty)
       IN d.scatter # <<>> /\ 0 \prec d.scatter[h][g]
(* fission in group g with the given outgoing groups (a sequence) *)
CanYield(nuc, m, ty, g, outs) ==
  \E k \in Components(m) :
     LET d == DataOf(nuc, m.comps[k][1], ty)
     IN /\ 0 \prec FissionXS(d, g)
        /\ 0 \prec YieldProb(d.nubar[g], Len(outs))
        /\ \A i \in DOMAIN outs : outs[i] \in 1 .. nuc.groups /\ 0 \prec d.chi[outs[i]][g]
=============================================================================
