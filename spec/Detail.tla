-------------------------------- MODULE Detail ------------------------------
(***************************************************************************)
(* C19, C20: the detail mesh [ms, vs, ts, fl, same] of a polygon mesh.        *)
(* ms[i] = <<base vertex, vertices, base triangle, triangles>>; vertices are  *)
(* <<x, y, z>>, x and z in 1/1000 cell and y in 1/100 cell height, relative   *)
(* to the polygon mesh; y is one cell height above the sampled surface.       *)
(* The sample distance is sd2 halves of a cell, the accepted error se8        *)
(* eighths of a cell height; a cell is cs2 halves wide and ch2 halves high.   *)
(***************************************************************************)
EXTENDS Poly

MAXDV == 127
MAXDT == 255
MAXEDGE == 31
ANYH == -1          \* some height that the model does not determine

\* floor(a * b / c) for 0 <= a, b < 2^31, 0 < c < 2^30
Bits == [k \in 1..31 |-> 31 - k]
Pow2(k) == FoldLeft(LAMBDA acc, j : 2 * acc, 1, [j \in 1..k |-> j])
Pows == [k \in 0..30 |-> Pow2(k)]
MulDiv(a, b, c) ==
  LET a1 == a % c
      step(acc, k) ==
        LET bit == (b \div Pows[k]) % 2
            r2 == 2 * acc[2] + (IF bit = 1 THEN a1 ELSE 0)
        IN <<2 * acc[1] + (r2 \div c), r2 % c>>
  IN (a \div c) * b + FoldLeft(step, <<0, 0>>, Bits)[1]
SMulDiv(a, b, c) == Sgn(a) * Sgn(b) * MulDiv(Abs(a), Abs(b), c)
\* the largest k with (k * s)^2 <= v
RECURSIVE RootFrom(_, _, _)
RootFrom(k, s, v) == IF (k + 1) * s * (k + 1) * s <= v THEN RootFrom(k + 1, s, v) ELSE k

SubVs(d, i) == SubSeq(d.vs, d.ms[i][1] + 1, d.ms[i][1] + d.ms[i][2])
SubTs(d, i) == SubSeq(d.ts, d.ms[i][3] + 1, d.ms[i][3] + d.ms[i][4])
SubFl(d, i) == SubSeq(d.fl, d.ms[i][3] + 1, d.ms[i][3] + d.ms[i][4])

\* ---- C19 --------------------------------------------------------------------
RangesBad(pm, d) ==
  (IF Len(d.ms) = Len(pm.ps) THEN {} ELSE {"one sub-mesh per polygon"})
  \cup (IF Len(d.fl) = Len(d.ts) THEN {} ELSE {"one flag per triangle"})
  \cup (IF LET n == Len(d.ms) IN
           /\ \A i \in 1..n :
                /\ d.ms[i][1] = (IF i = 1 THEN 0 ELSE d.ms[i - 1][1] + d.ms[i - 1][2])
                /\ d.ms[i][3] = (IF i = 1 THEN 0 ELSE d.ms[i - 1][3] + d.ms[i - 1][4])
                /\ d.ms[i][2] <= MAXDV /\ d.ms[i][4] <= MAXDT
           /\ Len(d.vs) = (IF n = 0 THEN 0 ELSE d.ms[n][1] + d.ms[n][2])
           /\ Len(d.ts) = (IF n = 0 THEN 0 ELSE d.ms[n][3] + d.ms[n][4])
        THEN {} ELSE {"ranges"})
\* twice the area spanned by three vertices in 1/1000 cell
MCross(p, q, r) == (q[1] - p[1]) * (r[3] - p[3]) - (q[3] - p[3]) * (r[1] - p[1])
Span1(p, q) == Abs(q[1] - p[1]) + Abs(q[3] - p[3])
\* vertex v lies on the open edge k of polygon P, within rounding
OnEdge(P, k, v) ==
  LET p == P[k]  q == P[Succ(k, Len(P))]  dx == q[1] - p[1]  dz == q[3] - p[3]
      vx == v[1] - 1000 * p[1]  vz == v[3] - 1000 * p[3]
      t == dx * vx + dz * vz
  IN /\ Abs(dx * vz - dz * vx) <= 3 * (Abs(dx) + Abs(dz))
     /\ t > 0 /\ t < 1000 * (dx * dx + dz * dz)
AlongEdge(P, k, v) ==
  LET p == P[k]  q == P[Succ(k, Len(P))] IN (q[1] - p[1]) * (v[1] - 1000 * p[1]) + (q[3] - p[3]) * (v[3] - 1000 * p[3])
\* vertices (1-based) beyond the corners, by the edges they lie on
Extras(P, V) == (Len(P) + 1)..Len(V)
EdgesAt(P, V) == Force([k \in Extras(P, V) |-> {e \in DOMAIN P : OnEdge(P, e, V[k])}])
Clear(P, V, at) ==
  /\ \A k \in Extras(P, V) : Cardinality(at[k]) <= 1
  /\ \A j, k \in DOMAIN P : j # k => Xz(P[j]) # Xz(P[k])
\* the outline of the sub-mesh: corners and the vertices inserted on each edge
EdgeVerts(P, V, at, e) ==
  SetToSortSeq({k \in Extras(P, V) : e \in at[k]}, LAMBDA j, k : AlongEdge(P, e, V[j]) < AlongEdge(P, e, V[k]))
Outline(P, V, at) == Force(Flat([e \in DOMAIN P |-> <<e>> \o EdgeVerts(P, V, at, e)]))
\* all others lie inside a convex polygon
Inside(P, v) == \A e \in DOMAIN P :
  LET p == P[e]  q == P[Succ(e, Len(P))] IN
  (q[1] - p[1]) * (v[3] - 1000 * p[3]) - (q[3] - p[3]) * (v[1] - 1000 * p[1]) < 0

\* the polygon is certainly too thin for inner samples: within 2 sample distances of an edge
Thin(P, sd2) == \E e \in DOMAIN P :
  LET p == P[e]  q == P[Succ(e, Len(P))]  l2 == Len2(p, q) IN
  l2 > 0 /\ \A k \in DOMAIN P : 1000 * DevNum(p, q, P[k]) < 999 * sd2 * sd2 * l2

\* at the limit of being too thin
ThinTie(P, sd2) == \E e \in DOMAIN P :
  LET p == P[e]  q == P[Succ(e, Len(P))]  l2 == Len2(p, q) IN
  l2 > 0 /\ \A k \in DOMAIN P : 1000 * DevNum(p, q, P[k]) <= 1001 * sd2 * sd2 * l2

SubBad(P, V, T, F, sd2) ==
  LET n == Len(P)  m == Len(V)
      indices == \A k \in DOMAIN T : /\ \A j \in 1..3 : T[k][j] >= 0 /\ T[k][j] < m
                                     /\ Cardinality({T[k][1], T[k][2], T[k][3]}) = 3
      corners == /\ m >= n
                 /\ \A k \in DOMAIN P : /\ Abs(V[k][1] - 1000 * P[k][1]) <= 1
                                        /\ Abs(V[k][3] - 1000 * P[k][3]) <= 1
                                        /\ Abs(V[k][2] - 100 * (P[k][2] + 1)) <= 1
  IN
  IF ~indices THEN {"triangle indices"}
  ELSE IF ~corners THEN {"polygon vertices"}
  ELSE
  LET at == EdgesAt(P, V)
      inner == {k \in Extras(P, V) : at[k] = {}}
      plain == IF sd2 > 0 THEN {} ELSE
        (IF m = n THEN {} ELSE {"samples although disabled"}) \cup (IF Len(T) = n - 2 THEN {} ELSE {"not a plain triangulation"})
      thin == IF sd2 > 0 /\ Convex(P) /\ Thin(P, sd2) /\ inner # {} THEN {"inner vertex in a sliver"} ELSE {}
  IN plain \cup thin \cup
  (IF ~Clear(P, V, at) THEN {} ELSE
   LET hull == Outline(P, V, at)
       rim == Cycle([k \in DOMAIN hull |-> hull[k] - 1])
       tri == Flat([k \in DOMAIN T |-> Cycle(T[k])])
       onRim(a, b) == <<a, b>> \in Elems(rim)
       flagOf(t) == (IF onRim(t[1], t[2]) THEN 1 ELSE 0) + (IF onRim(t[2], t[3]) THEN 4 ELSE 0) + (IF onRim(t[3], t[1]) THEN 16 ELSE 0)
   IN (IF (inner # {} /\ ~Convex(P)) \/ Net(tri) = Net(rim) THEN {} ELSE {"triangles do not cover the polygon"})
      \cup (IF \A k \in DOMAIN T : F[k] = flagOf(T[k]) THEN {} ELSE {"boundary flags"})
      \cup (IF ~Convex(P) THEN {} ELSE
        (IF \A k \in inner : Inside(P, V[k]) THEN {} ELSE {"vertex outside the polygon"})
        \cup (IF \A k \in DOMAIN T : LET p == V[T[k][1] + 1]  q == V[T[k][2] + 1]  r == V[T[k][3] + 1] IN
                MCross(p, q, r) <= 3 * (Span1(p, q) + Span1(q, r)) THEN {} ELSE {"triangles overlap"})
        \cup (IF Len(T) = 2 * (m - Len(hull)) + Len(hull) - 2 THEN {} ELSE {"number of triangles"})
        \cup (IF {T[k][j] : k \in DOMAIN T, j \in 1..3} = 0..(m - 1) THEN {} ELSE {"unused vertex"})))
DetailShapeBad(pm, sd2, d) ==
  LET rb == RangesBad(pm, d) IN
  (IF d.same THEN {} ELSE {"other state changed"}) \cup
  (IF rb # {} THEN rb
   ELSE UNION {SubBad(Force(PolyXZ(pm, i)), Force(SubVs(d, i)), SubTs(d, i), SubFl(d, i), sd2) : i \in DOMAIN pm.ps})

\* ---- C20: the heights known around a polygon -------------------------------------
(* env: chf surface with regions: w, h, bs, first, cnt, sp (spans), nb (links),     *)
(* reg, co (column of a span).  Cells are <<x, z>> in polygon mesh coordinates.      *)
SurfEnv(chf, reg) ==
  Force([w |-> chf.w, h |-> chf.h, bs |-> reg.bs, first |-> chf.first, cnt |-> chf.cnt, sp |-> chf.sp,
         nb |-> Links(chf), reg |-> reg.reg, co |-> Force(ColOfSpans(chf))])
ColumnAt(env, c) == Col(env.w, c[1] + env.bs, c[2] + env.bs)
SpansAt(env, c) == LET k == ColumnAt(env, c) IN (env.first[k] + 1)..(env.first[k] + env.cnt[k])
CellOf(env, i) == <<ColX(env.w, env.co[i]) - env.bs, ColZ(env.w, env.co[i]) - env.bs>>
\* the cells looked at: the bounding box of the polygon and one more around it
PatchOf(env, P) ==
  LET xs == {P[k][1] : k \in DOMAIN P}  zs == {P[k][3] : k \in DOMAIN P} IN
  [x0 |-> Mx(0, MinOf(xs) - 1), x1 |-> Mn(env.w, MaxOf(xs) + 1) - 1, z0 |-> Mx(0, MinOf(zs) - 1), z1 |-> Mn(env.h, MaxOf(zs) + 1) - 1]
PatchCells(pt) == (pt.x0 .. pt.x1) \X (pt.z0 .. pt.z1)
InPatch(pt, c) == c[1] >= pt.x0 /\ c[1] <= pt.x1 /\ c[2] >= pt.z0 /\ c[2] <= pt.z1
LinkedIn(env, pt, i) == {j \in {env.nb[i][e] : e \in 1..4} \ {0} : InPatch(pt, CellOf(env, j))}

\* heights spread over links, nearest first; where two could arrive, all further ones are open
RECURSIVE Spread(_, _, _, _, _)
Spread(env, pt, known, front, open) ==
  LET next == {j \in UNION {LinkedIn(env, pt, i) : i \in front} : CellOf(env, j) \notin DOMAIN known}
      cells == {CellOf(env, j) : j \in next}
      at(c) == {j \in next : CellOf(env, j) = c}
      more == Force([c \in cells |-> IF open THEN {ANYH} ELSE {env.sp[j][1] : j \in at(c)}])
  IN IF next = {} THEN known
     ELSE Spread(env, pt, Force(known @@ more), next, open \/ \E c \in cells : Cardinality(at(c)) > 1)
RECURSIVE Closure(_, _, _, _)
Closure(env, pt, seen, front) ==
  LET next == UNION {LinkedIn(env, pt, i) : i \in front} \ seen
  IN IF next = {} THEN seen ELSE Closure(env, pt, Force(seen \cup next), next)
\* heights by cell; ok = FALSE when the start is not determined
HeightsAround(env, pt, P, region) ==
  LET own == IF region = 0 THEN <<>> ELSE
        Force([c \in {k \in PatchCells(pt) : \E i \in SpansAt(env, k) : env.reg[i] = region} |->
               MinOf({i \in SpansAt(env, c) : env.reg[i] = region})])
      ownSpans == {own[c] : c \in DOMAIN own}
      rim == {i \in ownSpans : \E j \in {env.nb[i][e] : e \in 1..4} \ {0} : env.reg[j] # region}
      \* no span of the region: start below the polygon and walk to its centre
      near == UNION {UNION {{<<Abs(P[k][2] - env.sp[i][1]), i>> : i \in SpansAt(env, c)} :
                c \in {q \in {<<P[k][1] + dx, P[k][3] + dz>> : dx \in -1..1, dz \in -1..1} : InPatch(pt, q)}} : k \in DOMAIN P}
      starts == IF near = {} THEN {} ELSE LET best == MinOf({q[1] : q \in near}) IN {q[2] : q \in {r \in near : r[1] = best}}
      reach == Force(Closure(env, pt, starts, starts))
      centre == <<SumSeq([k \in DOMAIN P |-> P[k][1]]) \div Len(P), SumSeq([k \in DOMAIN P |-> P[k][3]]) \div Len(P)>>
      single == \A i, j \in reach : CellOf(env, i) = CellOf(env, j) => i = j
      seed == {i \in reach : CellOf(env, i) = centre}
  IN IF DOMAIN own # {}
     THEN [ok |-> TRUE, h |-> Spread(env, pt, Force([c \in DOMAIN own |-> {env.sp[own[c]][1]}]), rim, FALSE)]
     \* wherever it starts, the walk arrives at one span
     ELSE IF single /\ seed # {} /\ \A i \in starts : seed \subseteq Closure(env, pt, {i}, {i})
     THEN [ok |-> TRUE, h |-> Spread(env, pt, [c \in {centre} |-> {env.sp[i][1] : i \in seed}], seed, FALSE)]
     ELSE [ok |-> FALSE, h |-> <<>>]

\* heights a sample in a cell with expected height fn / fd may get: its own, or the best of the
\* nearest cells that have one
Ring(pt, c, r) == {q \in PatchCells(pt) : Mx(Abs(q[1] - c[1]), Abs(q[2] - c[2])) = r}
HeightAt(pt, H, cell, fn, fd) ==
  LET radius == Mx(pt.x1 - pt.x0, pt.z1 - pt.z0)
      c == <<Clamp(cell[1], pt.x0, pt.x1), Clamp(cell[2], pt.z0, pt.z1)>>
      rings == {r \in 1..radius : \E q \in Ring(pt, c, r) : q \in DOMAIN H}
      hs == UNION {H[q] : q \in {p \in Ring(pt, c, MinOf(rings)) : p \in DOMAIN H}}
      best == MinOf({Abs(h * fd - fn) : h \in hs})
  IN IF c \in DOMAIN H THEN H[c]
     ELSE IF \E q \in Ring(pt, c, MinOf(rings)) : q \in DOMAIN H /\ (Cardinality(H[q]) > 1 \/ ANYH \in H[q]) THEN {ANYH}
     ELSE {h \in hs : 100 * (Abs(h * fd - fn) - best) <= fd}
May(hs, h) == ANYH \in hs \/ h \in hs

\* ---- C20: the boundary --------------------------------------------------------------
\* every edge is sampled from its lexicographically smaller end so that neighbours agree
EdgeEnds(P, e) ==
  LET p == P[e]  q == P[Succ(e, Len(P))] IN
  IF p[1] < q[1] \/ (p[1] = q[1] /\ p[3] <= q[3]) THEN <<p, q>> ELSE <<q, p>>
EdgeSteps(a, b, sd2) == Mn(MAXEDGE, 1 + RootFrom(0, sd2, 4 * Len2(a, b)))
SampleX(a, b, n, k, c) == a[c] * n + (b[c] - a[c]) * k       \* times n
EdgeHeights(pt, H, a, b, n) ==
  Force([k \in 0..n |-> HeightAt(pt, H, <<SampleX(a, b, n, k, 1) \div n, SampleX(a, b, n, k, 3) \div n>>, SampleX(a, b, n, k, 2), n)])
\* squared distance of sample k from the segment i..j in units where the error is se8^2
\* w2 = squared edge length, c2 = squared cell height, in one unit; hs = heights
Dev64(hs, n, i, j, k, w2, c2) ==
  LET K == j - i  dk == k - i  dh == hs[k] - hs[i]  HH == hs[j] - hs[i]
      q == K * dh - dk * HH
      den == w2 * K * K + n * n * c2 * HH * HH
      t == dk * K * w2 + n * n * c2 * dh * HH
      ending(dq, hq) == MulDiv(64, dq * dq * w2 + hq * hq * n * n * c2, n * n * c2)
  IN IF t <= 0 THEN ending(dk, dh)
     ELSE IF t >= den THEN ending(j - k, hs[j] - hs[k])
     ELSE MulDiv(64 * w2, q * q, den)
DTol(v) == 2 + v \div 500
RECURSIVE KeptOK(_, _, _, _, _, _, _, _)
KeptOK(hs, n, i, j, kept, w2, c2, se8) ==
  LET ds == Force([k \in (i + 1)..(j - 1) |-> Dev64(hs, n, i, j, k, w2, c2)])
      mx == IF j = i + 1 THEN 0 ELSE MaxOf({ds[k] : k \in DOMAIN ds})
  IN \/ kept = {} /\ mx <= se8 * se8 + DTol(mx)
     \/ \E k \in kept : /\ ds[k] >= mx - DTol(mx) /\ ds[k] > se8 * se8 - DTol(ds[k])
                        /\ KeptOK(hs, n, i, k, {u \in kept : u < k}, w2, c2, se8)
                        /\ KeptOK(hs, n, k, j, {u \in kept : u > k}, w2, c2, se8)
\* the sample a vertex on the edge stands for, 0 if none
SampleOf(a, b, n, v) ==
  LET ks == {k \in 1..(n - 1) : /\ Abs(n * v[1] - 1000 * SampleX(a, b, n, k, 1)) <= 3 * n
                                /\ Abs(n * v[3] - 1000 * SampleX(a, b, n, k, 3)) <= 3 * n}
  IN IF ks = {} THEN 0 ELSE MinOf(ks)
LevelOf(v) == ((v[2] + 50) \div 100) - 1
OnLevel(v) == Abs(v[2] - 100 * (LevelOf(v) + 1)) <= 2 + (v[2] \div 2000)
EdgeBad(P, V, at, e, pt, H, sd2, se8, cs2, ch2) ==
  LET ends == EdgeEnds(P, e)  a == ends[1]  b == ends[2]
      n == EdgeSteps(a, b, sd2)
      hs == EdgeHeights(pt, H, a, b, n)
      mine == {k \in Extras(P, V) : e \in at[k]}
      of == Force([k \in mine |-> SampleOf(a, b, n, V[k])])
      sure == \A k \in 0..n : Cardinality(hs[k]) = 1 /\ hs[k] \cap {ANYH} = {}
      val == Force([k \in 0..n |-> MinOf(hs[k])])
  IN IF Len(V) >= MAXDV - MAXEDGE THEN {}
     ELSE IF \E k \in mine : of[k] = 0 THEN {"boundary vertex between samples"}
     ELSE IF Cardinality({of[k] : k \in mine}) # Cardinality(mine) THEN {"boundary sample twice"}
     ELSE (IF \A k \in mine : OnLevel(V[k]) /\ May(hs[of[k]], LevelOf(V[k])) THEN {} ELSE {"height of a boundary vertex"})
          \cup (IF ~sure \/ KeptOK(val, n, 0, n, {of[k] : k \in mine}, cs2 * cs2 * Len2(a, b), ch2 * ch2, se8)
                THEN {} ELSE {"boundary not within the error"})

\* ---- C20: the interior --------------------------------------------------------------
\* grid points <<gx, gz>>, at gx * sd2 / 2 cells
GridXs(P, c, sd2) ==
  LET lo == MinOf({P[k][c] : k \in DOMAIN P})  hi == MaxOf({P[k][c] : k \in DOMAIN P})
  IN FloorDiv(2 * lo, sd2) .. (CeilDiv(2 * hi, sd2) - 1)
Doubled(P) == [k \in DOMAIN P |-> <<2 * P[k][1], P[k][2], 2 * P[k][3]>>]
\* all edges are at least num / den half-cells squared away (strictly)
AwayFrom(Q, g, num, den, strict) == \A e \in DOMAIN Q :
  LET p == Q[e]  q == Q[Succ(e, Len(Q))]  d == den * DevNum(p, q, g)  r == num * Len2(p, q)
  IN IF strict THEN d > r ELSE d >= r
Within2(Q, g) == \A e \in DOMAIN Q : Cross(Q[e], Q[Succ(e, Len(Q))], g) < 0
(* Samples keep half the sample distance from the edges.  The implementation, like    *)
(* its model, compares the squared distance instead; a sample both rules admit must   *)
(* be there, one that either admits may be.                                           *)
Inner(P, sd2, cs2) ==
  LET Q == Force(Doubled(P))
      pts == {g \in GridXs(P, 1, sd2) \X GridXs(P, 3, sd2) : Within2(Q, <<sd2 * g[1], 0, sd2 * g[2]>>)}
      pos(g) == <<sd2 * g[1], 0, sd2 * g[2]>>
      coarse(g, s) == AwayFrom(Q, pos(g), sd2 * sd2, 4, s)
      fine(g, s) == AwayFrom(Q, pos(g), 2 * sd2, cs2, s)
  IN Force([may |-> {g \in pts : coarse(g, FALSE) \/ fine(g, FALSE)}, must |-> {g \in pts : coarse(g, TRUE) /\ fine(g, TRUE)}])
InnerHeights(P, pt, H, gs, sd2) ==
  LET ys == {P[k][2] : k \in DOMAIN P} IN
  Force([g \in gs |-> HeightAt(pt, H, <<(sd2 * g[1]) \div 2, (sd2 * g[2]) \div 2>>, MinOf(ys) + MaxOf(ys), 2)])
\* the mesh may be within tol (1/100 cell height) of height y at the sample with jitter
JIT == 102
NearTri(V, t, g, sd2) ==
  LET x == 500 * sd2 * g[1]  z == 500 * sd2 * g[2] IN
  \A j \in 1..3 : LET p == V[t[j] + 1]  q == V[t[1 + (j % 3)] + 1] IN
    (q[1] - p[1]) * (z - p[3]) - (q[3] - p[3]) * (x - p[1]) <= (JIT + 2) * Span1(p, q)
PlaneAt(p, q, r, A, x, z) ==
  LET w2 == (x - p[1]) * (r[3] - p[3]) - (z - p[3]) * (r[1] - p[1])
      w3 == (q[1] - p[1]) * (z - p[3]) - (q[3] - p[3]) * (x - p[1])
  IN p[2] + SMulDiv(w2 * Sgn(A), q[2] - p[2], Abs(A)) + SMulDiv(w3 * Sgn(A), r[2] - p[2], Abs(A))
MeshNear(V, T, g, sd2, h, se8) ==
  \E k \in DOMAIN T :
    LET t == T[k]  p == V[t[1] + 1]  q == V[t[2] + 1]  r == V[t[3] + 1]
        A == MCross(p, q, r)
        x == 500 * sd2 * g[1]  z == 500 * sd2 * g[2]
        ys == {PlaneAt(p, q, r, A, x + dx, z + dz) : dx \in {-JIT, JIT}, dz \in {-JIT, JIT}}
        tol == 5 + (25 * se8) \div 2
    IN /\ NearTri(V, t, g, sd2)
       /\ \/ Abs(A) < 20000
          \/ (100 * (h + 1) >= MinOf(ys) - tol /\ 100 * (h + 1) <= MaxOf(ys) + tol)
InteriorBad(P, V, T, inner, pt, H, sd2, se8, cs2) ==
  LET samples == Inner(P, sd2, cs2)
      hs == InnerHeights(P, pt, H, samples.may, sd2)
      of(v) == {g \in samples.may : Abs(v[1] - 500 * sd2 * g[1]) <= JIT /\ Abs(v[3] - 500 * sd2 * g[2]) <= JIT}
      src == Force([k \in inner |-> of(V[k])])
      added == UNION {src[k] : k \in inner}
  IN (IF \A k \in inner : src[k] # {} THEN {} ELSE {"inner vertex between samples"})
     \cup (IF \A k \in inner : OnLevel(V[k]) /\ \E g \in src[k] : May(hs[g], LevelOf(V[k])) THEN {} ELSE {"height of an inner vertex"})
     \cup (IF Len(V) >= MAXDV \/ ThinTie(P, sd2) THEN {}
           ELSE IF \A g \in samples.must \ added : ANYH \in hs[g] \/ \E h \in hs[g] : MeshNear(V, T, g, sd2, h, se8)
                THEN {} ELSE {"surface not within the error"})

SubHeightBad(env, P, V, T, region, sd2, se8, cs2, ch2) ==
  LET pt == PatchOf(env, P)
      known == Force(HeightsAround(env, pt, P, region))
      at == EdgesAt(P, V)
      inner == {k \in Extras(P, V) : at[k] = {}}
  IN IF sd2 = 0 \/ ~known.ok \/ ~Convex(P) \/ ~Clear(P, V, at) THEN {}
     ELSE UNION {EdgeBad(P, V, at, e, pt, known.h, sd2, se8, cs2, ch2) : e \in DOMAIN P}
          \cup InteriorBad(P, V, T, inner, pt, known.h, sd2, se8, cs2)
\* the heights along edge e, <<>> when the model does not determine them
EdgeSight(env, P, region, e, sd2) ==
  LET pt == PatchOf(env, P)
      known == Force(HeightsAround(env, pt, P, region))
      ends == EdgeEnds(P, e)
      n == EdgeSteps(ends[1], ends[2], sd2)
      hs == EdgeHeights(pt, known.h, ends[1], ends[2], n)
  IN IF ~known.ok \/ \E k \in 0..n : Cardinality(hs[k]) # 1 \/ ANYH \in hs[k] THEN <<>> ELSE [k \in 0..n |-> MinOf(hs[k])]
EdgeKept(P, V, at, e, sd2) ==
  LET ends == EdgeEnds(P, e)  n == EdgeSteps(ends[1], ends[2], sd2)
  IN {SampleOf(ends[1], ends[2], n, V[k]) : k \in {u \in DOMAIN at : e \in at[u]}}
(* No seams: two polygons that see the same heights along their common edge keep the  *)
(* same samples of it.                                                                *)
SeamBad(env, pm, d, sd2) ==
  LET Ps == Force([i \in DOMAIN pm.ps |-> PolyXZ(pm, i)])
      Vs == Force([i \in DOMAIN pm.ps |-> SubVs(d, i)])
      ats == Force([i \in DOMAIN pm.ps |-> EdgesAt(Ps[i], Vs[i])])
      fit(i) == Clear(Ps[i], Vs[i], ats[i]) /\ Len(Vs[i]) < MAXDV - MAXEDGE
      kept == Force([i \in DOMAIN pm.ps |-> [e \in DOMAIN Ps[i] |-> EdgeKept(Ps[i], Vs[i], ats[i], e, sd2)]])
      across(i, e) == {q \in {<<pm.ns[i][e] + 1, f>> : f \in 1..pm.nvp} :
        q[1] \in DOMAIN Ps /\ i < q[1] /\ q[2] \in DOMAIN Ps[q[1]]
          /\ Ps[q[1]][q[2]] = Ps[i][Succ(e, Len(Ps[i]))] /\ Ps[q[1]][Succ(q[2], Len(Ps[q[1]]))] = Ps[i][e]}
  IN IF sd2 = 0 \/ \A i \in DOMAIN pm.ps : \A e \in DOMAIN Ps[i] : \A q \in across(i, e) :
          \/ kept[i][e] = kept[q[1]][q[2]] \/ ~fit(i) \/ ~fit(q[1])
          \/ LET a == EdgeSight(env, Ps[i], pm.rg[i], e, sd2) IN a = <<>> \/ a # EdgeSight(env, Ps[q[1]], pm.rg[q[1]], q[2], sd2)
     THEN {} ELSE {"seam between neighbours"}
DetailHeightBad(chf, reg, pm, cs2, ch2, sd2, se8, d) ==
  IF RangesBad(pm, d) # {} THEN {}
  ELSE
  LET env == SurfEnv(chf, reg)
      bad(i) == LET P == Force(PolyXZ(pm, i))  V == Force(SubVs(d, i)) IN
        IF SubBad(P, V, SubTs(d, i), SubFl(d, i), sd2) # {} THEN {}
        ELSE SubHeightBad(env, P, V, SubTs(d, i), pm.rg[i], sd2, se8, cs2, ch2)
      each == UNION {bad(i) : i \in DOMAIN pm.ps}
  IN IF each # {} THEN each ELSE SeamBad(env, pm, d, sd2)
=============================================================================
