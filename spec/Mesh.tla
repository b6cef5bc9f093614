--------------------------------- MODULE Mesh -------------------------------
(***************************************************************************)
(* C03, C22: triangle meshes [vs, is, ar] with 0-based indices.             *)
(***************************************************************************)
EXTENDS Grid

ExtendMesh(m, o) ==
  [vs |-> m.vs \o o.vs,
   is |-> m.is \o [i \in DOMAIN o.is |-> [k \in 1..3 |-> o.is[i][k] + Len(m.vs)]],
   ar |-> m.ar \o o.ar]
MeshOK(m) ==
  /\ Len(m.ar) = Len(m.is)
  /\ \A i \in DOMAIN m.is : \A k \in 1..3 : m.is[i][k] >= 0 /\ m.is[i][k] < Len(m.vs)
\* the corner positions of every triangle, which is what a user sees
TrianglesOf(m) == [i \in DOMAIN m.is |-> <<[k \in 1..3 |-> m.vs[m.is[i][k] + 1]], m.ar[i]>>]
ExtendOK(m, o, post) ==
  /\ MeshOK(post)
  /\ post.vs = m.vs \o o.vs
  /\ TrianglesOf(post) = TrianglesOf(m) \o TrianglesOf(o)

\* ---- C03 ---------------------------------------------------------------------
Normal(a, b, c) ==
  LET u == [k \in 1..3 |-> b[k] - a[k]]  v == [k \in 1..3 |-> c[k] - a[k]]
  IN <<u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1]>>
\* cos2 is the squared cosine of the slope limit in 1/10000; "free" within rounding
SlopeClass(n, cos2) ==
  LET len2 == n[1] * n[1] + n[2] * n[2] + n[3] * n[3]
      y2 == n[2] * n[2]
  IN IF n[2] <= 0 THEN (IF n[2] = 0 /\ cos2 <= 2 THEN "free" ELSE "steep")
     ELSE IF y2 * 10000 > (cos2 + 2) * len2 THEN "flat"
     ELSE IF y2 * 10000 < (cos2 - 2) * len2 THEN "steep" ELSE "free"
SlopeBad(m, cos2, post) ==
  IF post.vs # m.vs \/ post.is # m.is \/ Len(post.ar) # Len(m.ar) THEN {"geometry changed"}
  ELSE UNION {LET n == Normal(m.vs[m.is[i][1] + 1], m.vs[m.is[i][2] + 1], m.vs[m.is[i][3] + 1])
                  s == SlopeClass(n, cos2)
              IN IF s = "flat" /\ post.ar[i] # 255 THEN {"flat triangle not walkable"}
                 ELSE IF s = "steep" /\ post.ar[i] # m.ar[i] THEN {"steep triangle changed"}
                 ELSE IF s = "free" /\ post.ar[i] \notin {255, m.ar[i]} THEN {"foreign area"} ELSE {}
              : i \in DOMAIN m.is}
=============================================================================
