------------------------------ MODULE MC_Raster -----------------------------
(***************************************************************************)
(* C02 exhaustively over triangles on a lattice: the row/column clipping     *)
(* algorithm (exact, in homogeneous integer coordinates) finds exactly the   *)
(* columns and height ranges that the geometric definition of Raster names.  *)
(***************************************************************************)
EXTENDS Raster, TLC, Json
CONSTANTS W, LatX, LatZ, Ys, Den, Emit
VARIABLES tri, done
vars == <<tri, done>>

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
\* homogeneous point <<x, y, z, d>>, d > 0, lowest terms
Norm(p) ==
  LET g == Gcd(Gcd(Abs(p[1]), Abs(p[2])), Gcd(Abs(p[3]), Abs(p[4])))
      s == IF p[4] < 0 THEN -g ELSE g
  IN <<p[1] \div s, p[2] \div s, p[3] \div s, p[4] \div s>>
DeltaH(p, k, c) == c * p[4] - p[k]
CrossH(a, b, k, c) ==
  LET da == DeltaH(a, k, c)  db == DeltaH(b, k, c)
  IN Norm([i \in 1..4 |-> a[i] * db - b[i] * da])
\* one half-plane division: <<part at or below c, rest>>
RECURSIVE Divide(_, _, _, _, _, _)
Divide(poly, i, k, c, lo, hi) ==
  IF i > Len(poly) THEN <<lo, hi>>
  ELSE LET a == poly[i]  b == poly[IF i = 1 THEN Len(poly) ELSE i - 1]
           da == DeltaH(a, k, c)  db == DeltaH(b, k, c)
       IN IF (da >= 0) # (db >= 0)
          THEN LET x == CrossH(a, b, k, c) IN
               Divide(poly, i + 1, k, c,
                      IF da > 0 THEN lo \o <<x, a>> ELSE Append(lo, x),
                      IF da < 0 THEN hi \o <<x, a>> ELSE Append(hi, x))
          ELSE Divide(poly, i + 1, k, c,
                      IF da >= 0 THEN Append(lo, a) ELSE lo,
                      IF da <= 0 THEN Append(hi, a) ELSE hi)
Split(poly, k, c) == IF poly = <<>> THEN <<<<>>, <<>>>> ELSE Divide(poly, 1, k, c, <<>>, <<>>)
FloorH(n, d) == n \div d
MinCell(poly, k) == MinOf({FloorH(poly[i][k], poly[i][4] * Den) : i \in DOMAIN poly})
MaxCell(poly, k) == MaxOf({FloorH(poly[i][k], poly[i][4] * Den) : i \in DOMAIN poly})
\* pieces = set of <<x, z, polygon>>
RECURSIVE Columns_(_, _, _, _)
Columns_(poly, x, x1, z) ==
  IF x > x1 THEN {}
  ELSE LET s == Split(poly, 1, Den * (x + 1)) IN
       (IF Len(s[1]) >= 3 /\ x >= 0 THEN {<<x, z, s[1]>>} ELSE {}) \cup Columns_(s[2], x + 1, x1, z)
RECURSIVE Rows(_, _, _)
Rows(poly, z, z1) ==
  IF z > z1 THEN {}
  ELSE LET s == Split(poly, 3, Den * (z + 1))
           row == s[1]
       IN (IF Len(row) < 3 \/ z < 0 THEN {}
           ELSE LET a == MinCell(row, 1)  b == MaxCell(row, 1) IN
                IF b < 0 \/ a >= W THEN {} ELSE Columns_(row, Clamp(a, -1, W - 1), Clamp(b, 0, W - 1), z))
          \cup Rows(s[2], z + 1, z1)
Pieces(t) ==
  LET poly == [i \in 1..3 |-> <<t[i][1], t[i][2], t[i][3], 1>>]
      a == MinCell(poly, 3)  b == MaxCell(poly, 3)
      inter == /\ ~(\A i \in 1..3 : t[i][1] < 0) /\ ~(\A i \in 1..3 : t[i][1] > W * Den)
               /\ ~(\A i \in 1..3 : t[i][3] < 0) /\ ~(\A i \in 1..3 : t[i][3] > W * Den)
  IN IF ~inter THEN {} ELSE Rows(poly, Clamp(a, -1, W - 1), Clamp(b, 0, W - 1))

Lt(p, q) == p[1] * q[2] < q[1] * p[2]
Lowest(S) == CHOOSE p \in S : \A q \in S : ~Lt(q, p)
Highest(S) == CHOOSE p \in S : \A q \in S : ~Lt(p, q)
SameQ(p, q) == p[1] * q[2] = q[1] * p[2]

Init == done = FALSE /\ \E a, b, c \in LatX \X LatZ :
           tri = <<<<a[1], Ys[1], a[2]>>, <<b[1], Ys[2], b[2]>>, <<c[1], Ys[3], c[2]>>>>
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tri
        /\ Emit => PrintT("OPS " \o ToJson([id |-> "lattice", ops |->
             <<[a |-> "field", w |-> W, h |-> W, ymax |-> 8 * Den, den |-> Den, cs |-> 1, ch |-> 1, org |-> <<0, 0, 0>>],
               [a |-> "tri", v |-> tri, den |-> Den, org |-> <<0, 0, 0>>, ex |-> 1, ar |-> 1, thr |-> 1]>>]))
Spec == Init /\ [][Next]_vars

ClippingIsExact == ~done \/
  LET P == Force(Pieces(tri)) IN
  \A x, z \in 0..(W - 1) :
    LET here == {p \in P : p[1] = x /\ p[2] = z}
        touch == ~SeparatedClosed(tri, x, z, Den)
        must == touch /\ ~SeparatedOpen(tri, x, z, Den) /\ ~Degenerate(tri)
    IN /\ Cardinality(here) <= 1
       /\ ~touch => here = {}
       /\ must => /\ here # {}
                  /\ LET poly == (CHOOSE p \in here : TRUE)[3]
                         ys == {<<poly[i][2], poly[i][4] * Den>> : i \in DOMAIN poly}
                         hs == {<<q[1], q[2]>> : q \in Heights(tri, x, z, Den)}
                     IN SameQ(Lowest(ys), Lowest(hs)) /\ SameQ(Highest(ys), Highest(hs))
=============================================================================
