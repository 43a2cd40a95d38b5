-------------------------------- MODULE Delta --------------------------------
(***************************************************************************)
(* Flights through a region whose temperature, and hence whose cross       *)
(* section, changes from place to place.                                   *)
(*                                                                         *)
(* S(s) is the macroscopic cross section at distance s.  With direct       *)
(* tracking the distance to the next collision has the density             *)
(* S(s) exp(-tau(s)), tau(s) the integral of S from 0 to s.  With delta    *)
(* tracking tentative collisions have the constant rate M >= S; one at s   *)
(* is accepted with probability S(s) / M, hence the first tentative        *)
(* collision is at s and accepted with density S(s) exp(-M s), and the     *)
(* first accepted one has the density above, whatever M is.                *)
(*                                                                         *)
(* edges is an ascending sequence from 0 on between whose members S is     *)
(* smooth.  Integrals by Simpson's rule with nodes at 0, 1/4, 1/2, 3/4, 1. *)
(***************************************************************************)
EXTENDS Interactions

(* places of the nodes of interval i, not quite reaching its ends *)
Node(edges, i, j) ==
  LET w == edges[i + 1] (-) edges[i]
  IN edges[i] (+) (w (.) CASE j = 1 -> R("1e-9") [] j = 5 -> R("0.999999999") [] OTHER -> (j - 1) (/) 4)
(* optical distance from the first to each node of an interval of width w,
   from the values f of S *)
Partial(f, w) ==
  LET h == w (/) 4
      half(a, b, c) == (h (/) 12) (.) (((5 (.) a) (+) (8 (.) b)) (-) c)
      full(a, b, c) == (h (/) 3) (.) ((a (+) (4 (.) b)) (+) c)
      t2 == half(f[1], f[2], f[3])
      t3 == full(f[1], f[2], f[3])
      t4 == t3 (+) half(f[3], f[4], f[5])
      t5 == t3 (+) full(f[3], f[4], f[5])
  IN << R(0), t2, t3, t4, t5 >>
Simpson(g, w) == (w (/) 12) (.) ((((g[1] (+) (4 (.) g[2])) (+) (2 (.) g[3])) (+) (4 (.) g[4])) (+) g[5])

(* cross sections [total, capture, scatter, fission] of the material m, of
   atom density m.aden, for x at p *)
At4(nuc, m, x, p) ==
  LET T == TemperatureAt(nuc, x.c, p)
      kind(k) == m.aden (.) RSum([ c \in DOMAIN m.comps |->
                   LET n == nuc.nuclides[m.comps[c][1]]
                   IN CO!AtomFraction(m, c) (.) (CO!NuclideTotal(n, x.ty, x.g, T) (.)
                        RSum([ i \in DOMAIN n.data[x.ty].reactions |->
                          IF n.data[x.ty].reactions[i].kind = k THEN CO!ReactionProb(n, x.ty, x.g, T, i) ELSE R(0) ])) ])
  IN << m.aden (.) TotalAt(nuc, m, x, p), kind("capture"), kind("scatter"), kind("fission") >>
=============================================================================
