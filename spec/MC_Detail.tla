----------------------------- MODULE MC_Detail -------------------------------
(***************************************************************************)
(* C19, C20 as state machines.                                              *)
(* Kind "tri": a convex polygon with vertices inserted on its edges is        *)
(* triangulated by a walk that advances left or right in any order, then       *)
(* points are inserted inside triangles and edges flipped in any order.  Every  *)
(* such mesh is accepted, every damaged one is rejected.                        *)
(* Kind "edge": the samples of an edge are simplified for every height profile; *)
(* every choice among equally distant samples is accepted, and no sample is      *)
(* farther than the error from what is kept.                                     *)
(* Kind "spread": heights spread over the links of a surface from the cells of    *)
(* its region in any queue order; every outcome is among the heights allowed.     *)
(* Kind "surface": whole behaviours over every profile of a small field.          *)
(***************************************************************************)
EXTENDS Detail, Json
CONSTANTS Kind, Lat, Corners, MaxExtra, MaxInner, MaxSharp, N, Hs, Errs, W, H, Rows, Params, Emit
VARIABLES P, V, hull, T, lft, rgt, phase, prof, kept, more
vars == <<P, V, hull, T, lft, rgt, phase, prof, kept, more>>

\* ---- tri ---------------------------------------------------------------------
Pt(x, z) == <<x, 5, z>>
Lattice == {Pt(x, z) : x \in Lat, z \in Lat}
Before(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[3] < q[3])
RECURSIVE Outl(_, _)
Outl(pre, n) == IF Len(pre) = n THEN {pre}
  ELSE UNION {Outl(Append(pre, q), n) : q \in {x \in Lattice \ Elems(pre) : Before(pre[1], x) /\ (Len(pre) < 2 \/ Cross(pre[Len(pre) - 1], pre[Len(pre)], x) < 0)}}
Polys == {c \in UNION {Outl(<<p>>, n) : p \in Lattice, n \in Corners} : StrictlyConvex(c)
            /\ MinOf({c[k][1] : k \in DOMAIN c}) = MinOf(Lat) /\ MinOf({c[k][3] : k \in DOMAIN c}) = MinOf(Lat)}
\* ex[e] vertices inserted on edge e, at thirds and halves
Milli(p) == <<1000 * p[1], 100 * (p[2] + 1), 1000 * p[3]>>
Along(p, q, k, n) == <<(1000 * (n * p[1] + k * (q[1] - p[1]))) \div n, 600, (1000 * (n * p[3] + k * (q[3] - p[3]))) \div n>>
OnEdges(c, ex) == Flat([e \in DOMAIN c |-> [k \in 1..ex[e] |-> Along(c[e], c[Succ(e, Len(c))], k, ex[e] + 1)]])
Before0(c, ex, e) == SumSeq([k \in DOMAIN c |-> IF k < e THEN ex[k] ELSE 0])
HullOf(c, ex) == Flat([e \in DOMAIN c |-> <<e - 1>> \o [k \in 1..ex[e] |-> Len(c) + Before0(c, ex, e) + k - 1]])
TriInit ==
  /\ P \in Polys
  /\ \E ex \in [DOMAIN P -> 0..MaxExtra] :
       /\ SumSeq([k \in DOMAIN P |-> ex[k]]) <= 3
       /\ V = [k \in DOMAIN P |-> Milli(P[k])] \o OnEdges(P, ex)
       /\ hull = HullOf(P, ex)
  /\ \E s \in DOMAIN hull :
       /\ hull[s] < Len(P)
       /\ lft = Succ(s, Len(hull)) /\ rgt = Prev(s, Len(hull))
       /\ T = {<<hull[s], hull[lft], hull[rgt]>>}
  /\ phase = "walk" /\ prof = <<>> /\ kept = {} /\ more = <<>>
Advance ==
  /\ phase = "walk" /\ Succ(lft, Len(hull)) # rgt
  /\ \/ /\ lft' = Succ(lft, Len(hull)) /\ T' = T \cup {<<hull[lft], hull[lft'], hull[rgt]>>} /\ UNCHANGED rgt
     \/ /\ rgt' = Prev(rgt, Len(hull)) /\ T' = T \cup {<<hull[lft], hull[rgt'], hull[rgt]>>} /\ UNCHANGED lft
  /\ UNCHANGED <<P, V, hull, phase, prof, kept, more>>
Walked == /\ phase = "walk" /\ Succ(lft, Len(hull)) = rgt /\ phase' = "refine" /\ lft' = 0 /\ rgt' = 0
          /\ UNCHANGED <<P, V, hull, T, prof, kept, more>>
C3(t) == MCross(V[t[1] + 1], V[t[2] + 1], V[t[3] + 1])
\* a new vertex inside a triangle (its centroid)
Split == \E t \in T :
  LET a == V[t[1] + 1]  b == V[t[2] + 1]  c == V[t[3] + 1]  m == Len(V)
  IN /\ phase = "refine" /\ m < Len(hull) + MaxInner /\ C3(t) < -100000
     /\ V' = Append(V, <<(a[1] + b[1] + c[1]) \div 3, 700, (a[3] + b[3] + c[3]) \div 3>>)
     /\ T' = (T \ {t}) \cup {<<t[1], t[2], m>>, <<t[2], t[3], m>>, <<t[3], t[1], m>>}
     /\ UNCHANGED <<P, hull, lft, rgt, phase, prof, kept, more>>
Rot(t, j) == <<t[1 + ((j - 1) % 3)], t[1 + (j % 3)], t[1 + ((j + 1) % 3)]>>
\* the diagonal of a strictly convex quadrilateral
Flip == \E t, u \in T : \E j, k \in 1..3 :
  LET a == Rot(t, j)  b == Rot(u, k)
      Turn(x, y, z) == MCross(V[x + 1], V[y + 1], V[z + 1])
  IN /\ phase = "refine" /\ a[1] = b[2] /\ a[2] = b[1]
     /\ Turn(a[3], a[1], b[3]) < -1000 /\ Turn(b[3], a[2], a[3]) < -1000
     /\ T' = (T \ {t, u}) \cup {<<a[3], a[1], b[3]>>, <<b[3], a[2], a[3]>>}
     /\ UNCHANGED <<P, V, hull, lft, rgt, phase, prof, kept, more>>
\* boundary flags from the geometry: two consecutive vertices of one edge
RimPair(a, b) == \E e \in DOMAIN P :
  LET p == P[e]  q == P[Succ(e, Len(P))]
      d(v) == (q[1] - p[1]) * (v[1] - 1000 * p[1]) + (q[3] - p[3]) * (v[3] - 1000 * p[3])
      on(v) == Abs((q[1] - p[1]) * (v[3] - 1000 * p[3]) - (q[3] - p[3]) * (v[1] - 1000 * p[1])) <= 3 * (Abs(q[1] - p[1]) + Abs(q[3] - p[3]))
               /\ d(v) >= -10 /\ d(v) <= 1000 * Len2(p, q) + 10
  IN /\ on(V[a + 1]) /\ on(V[b + 1]) /\ d(V[a + 1]) < d(V[b + 1])
     /\ ~\E k \in DOMAIN V : on(V[k]) /\ d(V[k]) > d(V[a + 1]) /\ d(V[k]) < d(V[b + 1])
FlagOf(t) == (IF RimPair(t[1], t[2]) THEN 1 ELSE 0) + (IF RimPair(t[2], t[3]) THEN 4 ELSE 0) + (IF RimPair(t[3], t[1]) THEN 16 ELSE 0)
TS == SetToSeq(T)
Judge(ts, fs) == SubBad(P, V, ts, fs, 1)
Accepted == phase = "refine" => Judge(TS, [k \in DOMAIN TS |-> FlagOf(TS[k])]) \ {"inner vertex in a sliver"} = {}
\* every single damage shows
Sharp == (phase = "refine" /\ Cardinality(T) <= MaxSharp) =>
  LET ts == TS  fs == Force([k \in DOMAIN ts |-> FlagOf(ts[k])])
      drop(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
      swap(t) == <<t[1], t[3], t[2]>>
      m == Len(V)
      bad(a, f) == Judge(a, f) \ {"inner vertex in a sliver"} # {}
  IN /\ \A k \in DOMAIN ts : bad(drop(ts, k), drop(fs, k)) /\ bad(Append(ts, ts[k]), Append(fs, fs[k]))
     /\ \A k \in DOMAIN ts : bad([ts EXCEPT ![k] = swap(ts[k])], [fs EXCEPT ![k] = 0])
     /\ \A k \in DOMAIN ts : \A j \in 1..3 : \A v \in (0..(m - 1)) \ {ts[k][1], ts[k][2], ts[k][3]} :
          bad([ts EXCEPT ![k][j] = v], fs)
     /\ \A k \in DOMAIN ts : \A f \in {1, 4, 16} : bad(ts, [fs EXCEPT ![k] = IF (fs[k] \div f) % 2 = 1 THEN fs[k] - f ELSE fs[k] + f])

\* ---- edge ----------------------------------------------------------------------
\* unit samples of unit height cells: n steps on an edge of n cells
EdgeInit ==
  /\ prof \in [0..N -> Hs] /\ P \in Errs /\ kept = {} /\ more = <<<<0, N>>>>
  /\ phase = "split" /\ V = <<>> /\ hull = <<>> /\ T = {} /\ lft = 0 /\ rgt = 0
DevAt(i, j, k) == Dev64(prof, N, i, j, k, N * N, 1)
Simplify ==
  /\ phase = "split" /\ more # <<>>
  /\ LET i == more[1][1]  j == more[1][2]
         ds == Force([k \in (i + 1)..(j - 1) |-> DevAt(i, j, k)])
         mx == IF j = i + 1 THEN 0 ELSE MaxOf({ds[k] : k \in DOMAIN ds})
     IN \/ /\ mx <= P * P /\ more' = Tail(more) /\ kept' = kept
        \/ /\ mx > P * P
           /\ \E k \in DOMAIN ds : ds[k] = mx /\ kept' = kept \cup {k} /\ more' = <<<<i, k>>, <<k, j>>>> \o Tail(more)
  /\ UNCHANGED <<P, V, hull, T, lft, rgt, phase, prof>>
KeptAccepted == (phase = "split" /\ more = <<>>) => KeptOK(prof, N, 0, N, kept, N * N, 1, P)
\* the distance of every sample from the kept polyline, in exact arithmetic
WithinError == (phase = "split" /\ more = <<>>) =>
  \A k \in 1..(N - 1) \ kept :
    LET i == MaxOf({u \in kept \cup {0} : u < k})  j == MinOf({u \in kept \cup {N} : u > k})
        K == j - i  HH == prof[j] - prof[i]  q == K * (prof[k] - prof[i]) - (k - i) * HH
        foot == (k - i) * K + (prof[k] - prof[i]) * HH
    IN \/ foot > 0 /\ foot < K * K + HH * HH /\ 64 * q * q <= (P * P + 1) * (K * K + HH * HH)
       \/ foot <= 0 /\ 64 * ((k - i) * (k - i) + (prof[k] - prof[i]) * (prof[k] - prof[i])) <= P * P + 1
       \/ foot >= K * K + HH * HH /\ 64 * ((j - k) * (j - k) + (prof[j] - prof[k]) * (prof[j] - prof[k])) <= P * P + 1
\* dropping a kept sample or keeping another one shows where it matters
KeptSharp == (phase = "split" /\ more = <<>>) =>
  /\ kept # {} => ~KeptOK(prof, N, 0, N, {}, N * N, 1, P) \/ \A k \in 1..(N - 1) : DevAt(0, N, k) <= P * P + DTol(DevAt(0, N, k))
  /\ kept = {} => \A k \in 1..(N - 1) : DevAt(0, N, k) + DTol(DevAt(0, N, k)) < P * P => ~KeptOK(prof, N, 0, N, {k}, N * N, 1, P)

\* ---- surface ----------------------------------------------------------------------
SurfInit ==
  /\ prof \in [1..W -> Hs] /\ kept \in [1..H -> Rows]
  /\ phase = "emit" /\ P = 0 /\ V = <<>> /\ hull = <<>> /\ T = {} /\ lft = 0 /\ rgt = 0 /\ more = <<>>
SurfCols == [k \in 1..(W * H) |-> <<<<0, 10 + prof[1 + ((k - 1) % W)] + kept[1 + ((k - 1) \div W)], 1>>>>]
SurfOps(q) == <<[a |-> "cols", w |-> W, h |-> H, cols |-> SurfCols], [a |-> "compact", h |-> 3, c |-> 4], [a |-> "dist"],
   [a |-> "regions", b |-> 0, min |-> 0, mrg |-> 1000], [a |-> "contours", e10 |-> q[3], len |-> q[4], fl |-> 1],
   [a |-> "poly", nvp |-> q[5]], [a |-> "detail", sd2 |-> q[1], se8 |-> q[2]]>>
SurfEmit == phase = "emit" /\ phase' = "done" /\ UNCHANGED <<P, V, hull, T, lft, rgt, prof, kept, more>>
  /\ \A q \in Params : PrintT("OPS " \o ToJson([id |-> "surface", ops |-> SurfOps(q)]))

Init == CASE Kind = "tri" -> TriInit [] Kind = "edge" -> EdgeInit [] Kind = "surface" -> SurfInit
Next == Advance \/ Walked \/ Split \/ Flip \/ Simplify \/ (Emit /\ SurfEmit)
Spec == Init /\ [][Next]_vars
=============================================================================
