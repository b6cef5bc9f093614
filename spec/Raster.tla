-------------------------------- MODULE Raster ------------------------------
(***************************************************************************)
(* C02: conservative rasterization of one triangle, in exact integer        *)
(* arithmetic.  Triangle vertices are <<x, y, z>> in units of 1/den cell,    *)
(* relative to the minimum corner of the field.                              *)
(***************************************************************************)
EXTENDS Columns

X2(a, b, p) == (b[1] - a[1]) * (p[3] - a[3]) - (p[1] - a[1]) * (b[3] - a[3])
Corners(x, z, den) ==
  {<<den * (x + i), 0, den * (z + j)>> : i \in {0, 1}, j \in {0, 1}}
EdgeOf(t, i) == <<t[i], t[1 + (i % 3)], t[1 + ((i + 1) % 3)]>>   \* a, b, opposite

\* no point of the open column is below the triangle
SeparatedOpen(t, x, z, den) ==
  \/ \A i \in 1..3 : t[i][1] <= den * x
  \/ \A i \in 1..3 : t[i][1] >= den * (x + 1)
  \/ \A i \in 1..3 : t[i][3] <= den * z
  \/ \A i \in 1..3 : t[i][3] >= den * (z + 1)
  \/ \E i \in 1..3 : LET e == EdgeOf(t, i)  s == X2(e[1], e[2], e[3]) IN
       /\ <<e[1][1], e[1][3]>> # <<e[2][1], e[2][3]>>
       /\ \/ s >= 0 /\ \A c \in Corners(x, z, den) : X2(e[1], e[2], c) <= 0
          \/ s <= 0 /\ \A c \in Corners(x, z, den) : X2(e[1], e[2], c) >= 0
\* not even the closed column touches the triangle
SeparatedClosed(t, x, z, den) ==
  \/ \A i \in 1..3 : t[i][1] < den * x
  \/ \A i \in 1..3 : t[i][1] > den * (x + 1)
  \/ \A i \in 1..3 : t[i][3] < den * z
  \/ \A i \in 1..3 : t[i][3] > den * (z + 1)
  \/ \E i \in 1..3 : LET e == EdgeOf(t, i)  s == X2(e[1], e[2], e[3]) IN
       /\ <<e[1][1], e[1][3]>> # <<e[2][1], e[2][3]>>
       /\ \/ s >= 0 /\ \A c \in Corners(x, z, den) : X2(e[1], e[2], c) < 0
          \/ s <= 0 /\ \A c \in Corners(x, z, den) : X2(e[1], e[2], c) > 0

\* zero area in space (all three vertices on one line)
Degenerate(t) ==
  LET u == [k \in 1..3 |-> t[2][k] - t[1][k]]  v == [k \in 1..3 |-> t[3][k] - t[1][k]]
  IN /\ u[2] * v[3] = u[3] * v[2] /\ u[3] * v[1] = u[1] * v[3] /\ u[1] * v[2] = u[2] * v[1]

\* Heights, as <<numerator, denominator, isVertex>> in cells, whose extrema are
\* the exact height range of the triangle over the closed column.
InRange(v, lo, hi) == v >= lo /\ v <= hi
Heights(t, x, z, den) ==
  LET x0 == den * x  x1 == den * (x + 1)  z0 == den * z  z1 == den * (z + 1)
      vert == {<<t[i][2], den, 1>> : i \in {j \in 1..3 : InRange(t[j][1], x0, x1) /\ InRange(t[j][3], z0, z1)}}
      \* crossing of edge a-b with the line coordinate k = c; other coordinate m in lo..hi
      cross(a, b, k, m, c, lo, hi) ==
        IF a[k] = b[k] \/ ~InRange(c, Mn(a[k], b[k]), Mx(a[k], b[k])) THEN {}
        ELSE LET q == IF a[k] < b[k] THEN a ELSE b
                 r == IF a[k] < b[k] THEN b ELSE a
                 d == r[k] - q[k]
                 mm == q[m] * d + (r[m] - q[m]) * (c - q[k])
             IN IF mm >= lo * d /\ mm <= hi * d
                THEN {<<q[2] * d + (r[2] - q[2]) * (c - q[k]), d * den, 0>>} ELSE {}
      edges == UNION {LET e == EdgeOf(t, i) IN
                  cross(e[1], e[2], 1, 3, x0, z0, z1) \cup cross(e[1], e[2], 1, 3, x1, z0, z1)
             \cup cross(e[1], e[2], 3, 1, z0, x0, x1) \cup cross(e[1], e[2], 3, 1, z1, x0, x1) : i \in 1..3}
      A == X2(t[1], t[2], t[3])
      corn == IF A = 0 THEN {} ELSE
        UNION {LET w1 == X2(t[2], t[3], c) * Sgn(A)
                   w2 == X2(t[3], t[1], c) * Sgn(A)
                   w3 == X2(t[1], t[2], c) * Sgn(A)
               IN IF w1 >= 0 /\ w2 >= 0 /\ w3 >= 0
                  THEN {<<w1 * t[1][2] + w2 * t[2][2] + w3 * t[3][2], Abs(A) * den, 0>>} ELSE {}
               : c \in Corners(x, z, den)}
  IN vert \cup edges \cup corn

\* values a floating point evaluation of floor/ceil of q may give; `ex` says
\* that vertex heights are exactly representable
RoundNear(q) == FloorDiv(2 * q[1] + q[2], 2 * q[2])
IsNear(q) == Abs(q[1] - RoundNear(q) * q[2]) <= q[2] \div 1000
Floors(q, ex) == {FloorDiv(q[1], q[2])} \cup
   (IF (q[3] = 1 /\ ex) \/ ~IsNear(q) THEN {} ELSE {RoundNear(q) - 1, RoundNear(q)})
Ceils(q, ex) == {CeilDiv(q[1], q[2])} \cup
   (IF (q[3] = 1 /\ ex) \/ ~IsNear(q) THEN {} ELSE {RoundNear(q), RoundNear(q) + 1})

\* allowed spans <<lo, hi>> over one column; `top` is the field height in 1/den
Bounds(t, x, z, den, top, ex) ==
  LET hs == Heights(t, x, z, den)
      loMin == MinOf({MinOf(Floors(q, ex)) : q \in hs})
      loMax == MinOf({MaxOf(Floors(q, ex)) : q \in hs})
      hiMin == MaxOf({MinOf(Ceils(q, ex)) : q \in hs})
      hiMax == MaxOf({MaxOf(Ceils(q, ex)) : q \in hs})
      capHi == CeilDiv(top, den)
      capHis == IF ex \/ top % den # 0 THEN {capHi} ELSE {capHi, capHi + 1}
  IN {<<lo, Mx(lo + 1, hi)>> : lo \in {Mx(0, v) : v \in loMin..loMax},
                               hi \in UNION {{Mn(v, k) : k \in capHis} : v \in hiMin..hiMax}}
\* the triangle's part over this column lies strictly below / above the field
Below(t, x, z, den, top) == \A q \in Heights(t, x, z, den) : q[1] < 0 /\ ~(IsNear(q) /\ RoundNear(q) = 0)
Above(t, x, z, den, top) ==
  \A q \in Heights(t, x, z, den) : q[1] * den > top * q[2] /\ ~(IsNear(<<q[1] * den - top * q[2], q[2] * den>>) /\ RoundNear(<<q[1] * den - top * q[2], q[2] * den>>) = 0)
\* a horizontal triangle in the bottom or top plane of the field still belongs to it
FlatAtEdge(t, top, ex) == ex /\ t[1][2] \in {0, top} /\ t[2][2] = t[1][2] /\ t[3][2] = t[1][2]
Within(t, x, z, den, top, ex) == FlatAtEdge(t, top, ex) \/
  /\ \E q \in Heights(t, x, z, den) : q[1] > 0 /\ (ex \/ ~IsNear(q))
  /\ \E q \in Heights(t, x, z, den) : q[1] * den < top * q[2] /\ (ex \/ ~IsNear(<<q[1] * den - top * q[2], q[2] * den>>))

RasterBad(w, h, pre, t, den, top, ex, ar, thr, post) ==
  IF Len(post) # Len(pre) THEN {"number of columns"}
  ELSE UNION {
    LET x == ColX(w, c)  z == ColZ(w, c)
        none == post[c] = pre[c]
        touch == ~SeparatedClosed(t, x, z, den)
        must == touch /\ ~SeparatedOpen(t, x, z, den) /\ ~Degenerate(t) /\ Within(t, x, z, den, top, ex)
        out == ~touch \/ Below(t, x, z, den, top) \/ Above(t, x, z, den, top)
        some == \E b \in Bounds(t, x, z, den, top, ex) : post[c] = AddSpan(pre[c], b[1], b[2], ar, thr)
        \* boundary contact only: any part of the touching range
        part == \E b \in Bounds(t, x, z, den, top, ex) :
                  \E lo \in b[1]..b[2], hi \in b[1]..b[2] : lo < hi /\ post[c] = AddSpan(pre[c], lo, hi, ar, thr)
    IN IF out THEN (IF none THEN {} ELSE {"column outside the triangle changed"})
       ELSE IF must THEN (IF some THEN {} ELSE IF none THEN {"covered column missed"} ELSE {"wrong height range"})
       ELSE (IF none \/ some \/ part THEN {} ELSE {"wrong height range at contact"})
    : c \in DOMAIN pre}
=============================================================================
