------------------------------- MODULE Erosion ------------------------------
(***************************************************************************)
(* C09, C11: chamfer distances over the link graph.                         *)
(* Two sweeps over the spans in column order; costs 2 (straight), 3          *)
(* (diagonal, reached through the link of the straight neighbour).           *)
(***************************************************************************)
EXTENDS Compact

Hop(nb, i, d) == IF i = 0 THEN 0 ELSE nb[i][d + 1]
Via(nb, i, d, d2) == Hop(nb, Hop(nb, i, d), d2)
Near(dist, j, cost, cap) == IF j = 0 THEN cap ELSE Mn(dist[j] + cost, cap)

Relax(nb, dist, i, cap, a, b, c, e) ==
  \* straight a with diagonal a->b, straight c with diagonal c->e
  Mn(Mn(dist[i], Mn(Near(dist, Hop(nb, i, a), 2, cap), Near(dist, Via(nb, i, a, b), 3, cap))),
     Mn(Near(dist, Hop(nb, i, c), 2, cap), Near(dist, Via(nb, i, c, e), 3, cap)))

RECURSIVE Sweep1(_, _, _, _)
Sweep1(nb, dist, i, cap) ==
  IF i > Len(dist) THEN dist
  ELSE Sweep1(nb, [dist EXCEPT ![i] = Relax(nb, dist, i, cap, 0, 3, 3, 2)], i + 1, cap)
RECURSIVE Sweep2(_, _, _, _)
Sweep2(nb, dist, i, cap) ==
  IF i = 0 THEN dist
  ELSE Sweep2(nb, [dist EXCEPT ![i] = Relax(nb, dist, i, cap, 2, 1, 1, 0)], i - 1, cap)
TwoSweeps(nb, seed, cap) ==
  LET d1 == Sweep1(nb, Force(seed), 1, cap) IN Sweep2(nb, d1, Len(d1), cap)

\* ---- C09 -------------------------------------------------------------------
ErodeBoundary(nb, ar, i) ==
  ~Walk(ar[i]) \/ \E e \in 1..4 : nb[i][e] = 0 \/ ~Walk(ar[nb[i][e]])
CAP == 1000000
ErodeDist(chf) ==
  LET nb == Links(chf)
  IN TwoSweeps(nb, [i \in DOMAIN chf.sp |-> IF ErodeBoundary(nb, chf.ar, i) THEN 0 ELSE CAP], CAP)
Erode(chf, radius) ==
  LET d == ErodeDist(chf)
  IN Force([i \in DOMAIN chf.ar |-> IF d[i] < 2 * radius THEN 0 ELSE chf.ar[i]])

\* ---- C11 -------------------------------------------------------------------
DistBoundary(nb, ar, i) == \E e \in 1..4 : nb[i][e] = 0 \/ ar[nb[i][e]] # ar[i]
RawDist(chf) ==
  LET nb == Links(chf)
  IN TwoSweeps(nb, [i \in DOMAIN chf.sp |-> IF DistBoundary(nb, chf.ar, i) THEN 0 ELSE CAP], CAP)
Blur(chf, raw) ==
  LET nb == Links(chf)
      val(i, j) == IF j = 0 THEN raw[i] ELSE raw[j]
      side(i, d) == val(i, Hop(nb, i, d)) + val(i, Via(nb, i, d, CW(d)))
  IN Force([i \in DOMAIN raw |->
        IF raw[i] <= 2 THEN raw[i]
        ELSE (raw[i] + side(i, 0) + side(i, 1) + side(i, 2) + side(i, 3) + 5) \div 9])
MaxDist(raw) == IF raw = <<>> THEN 0 ELSE MaxOf(Elems(raw))

\* ---- the metric the two sweeps have to realise -----------------------------
\* Bellman fixpoint of the chamfer metric over the same hops in all directions
ChamferOK(nb, dist, isSeed(_)) ==
  \A i \in DOMAIN dist :
    IF isSeed(i) THEN dist[i] = 0
    ELSE dist[i] = MinOf({CAP} \cup
           UNION {{Near(dist, Hop(nb, i, d), 2, CAP), Near(dist, Via(nb, i, d, CCW(d)), 3, CAP),
                   Near(dist, Via(nb, i, d, CW(d)), 3, CAP)} : d \in Dirs})
=============================================================================
