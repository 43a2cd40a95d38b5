------------------------------- MODULE Chance -------------------------------
(***************************************************************************)
(* When a count contradicts a probability.  Limits follow from Bernstein's *)
(* inequality: a correct program exceeds one of them with probability      *)
(* below 3e-12.                                                            *)
(***************************************************************************)
EXTENDS RealNum, SequencesExt, FiniteSets

L == R("28")
Band(n, p) == RSqrt((2 (.) L) (.) ((n (.) p) (.) (1 (-) p))) (+) L
(* k of n trials have an outcome of probability p *)
Plausible(k, n, p) ==
  /\ R("-1e-9") \preceq p
  /\ (p \preceq R("1e-15")) => k = 0
  /\ (R(1) (-) R("1e-15") \preceq p) => k = n
  /\ RAbs(k (-) (n (.) p)) \preceq Band(n, RMax(0, RMin(1, p)))
(* as many events as exposure x rate: the compensated count is a martingale *)
PlausibleRate(k, m) == RAbs(k (-) m) \preceq (RSqrt((2 (.) L) (.) m) (+) L)

ISum(h) == FoldLeft(LAMBDA a, b : a + b, 0, h)
Uniform(h) == LET n == ISum(h) IN \A i \in DOMAIN h : Plausible(h[i], n, 1 (/) Len(h))
(* occupancy of many cells of equal probability: [n, cells, least, most] *)
FineUniform(f) == \/ f.n < 40 * f.cells
                  \/ 0 < f.least /\ Plausible(f.most, f.n, 1 (/) f.cells)
(* distribution of a direction: components and cosine, azimuth about another,
   and both together *)
Isotropic(ds) == \A i \in DOMAIN ds : Uniform(ds[i])
(* as Plausible, the probability being known up to err *)
PlausibleNear(k, n, p, err) == RAbs(k (-) (n (.) p)) \preceq (Band(n, RMax(0, RMin(1, p))) (+) (n (.) err))
(* histogram of values in [0, 1) over b cells of equal width *)
Histogram(us, b) == LET cell(u) == IF u \prec 0 THEN 1 ELSE IF 1 \preceq u THEN b ELSE 1 + RFloor(u (.) b)
                        cs == Evaluated([ i \in DOMAIN us |-> cell(us[i]) ])
                    IN [ k \in 1 .. b |-> Cardinality({ i \in DOMAIN us : cs[i] = k }) ]
=============================================================================
