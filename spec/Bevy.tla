-------------------------------- MODULE Bevy --------------------------------
(***************************************************************************)
(* The Bevy side: what enters the navmesh generator and what the editor gets.*)
(*  C23  colliders of static bodies become triangle meshes;                  *)
(*  C24  a scene sent to the editor arrives as it was;                       *)
(*  C25  a Bevy mesh becomes a triangle mesh.                                *)
(* Lengths are in 1/1000, transforms in 1/8.                                 *)
(***************************************************************************)
EXTENDS Mesh

Near3(u, v) == \A k \in 1..3 : Abs(u[k] - v[k]) <= 5

\* ---- C23 ---------------------------------------------------------------------
NoShape == {"segment", "half", "polyline"}
Scale(v) == [k \in 1..3 |-> 1000 * v[k]]
\* pose of a part: rows of a rotation matrix and a translation
Place(q, v) == [k \in 1..3 |-> q.m[3 * k - 2] * v[1] + q.m[3 * k - 1] * v[2] + q.m[3 * k] * v[3] + 1000 * q.t[k]]
PlaceMesh(q, m) == [m EXCEPT !.vs = [i \in DOMAIN m.vs |-> Place(q, m.vs[i])]]
NoMesh == [vs |-> <<>>, is |-> <<>>, ar |-> <<>>]
\* a compound, from its parts and the meshes of its parts on their own (<<>> where there is none)
RECURSIVE Assemble(_, _, _)
Assemble(parts, alone, n) ==
  IF n = 0 THEN NoMesh
  ELSE LET rest == Assemble(parts, alone, n - 1)
       IN IF alone[n] = <<>> THEN rest ELSE ExtendMesh(rest, PlaceMesh(parts[n], alone[n][1]))

SameTri(s, t) == s[2] = t[2] /\ \A k \in 1..3 : Near3(s[1][k], t[1][k])
Matches(m, s) == Cardinality({i \in DOMAIN s : SameTri(s[i], m)})
\* the same triangles in any order
SameTriangles(a, b) ==
  LET s == TrianglesOf(a)  t == TrianglesOf(b)
  IN Len(s) = Len(t)
     /\ \/ \A i \in DOMAIN s : SameTri(s[i], t[i])
        \/ \A i \in DOMAIN s : Matches(s[i], s) = Matches(s[i], t)

Sq(x) == x * x
AboutSq(x2, r) == x2 >= Sq(r - 10) /\ x2 <= Sq(r + 10)
Radial2(v) == Sq(v[1]) + Sq(v[3])
\* the mesh of a primitive at the origin: its corners, or points of its surface reaching all of its extent
PrimBad(s, m) ==
  LET vs == Elems(m.vs)
      used == {m.vs[m.is[i][k] + 1] : i \in DOMAIN m.is, k \in 1..3}
      corners == IF s.s \in {"cuboid", "rcuboid"} THEN {<<a * 500 * s.p[1], b * 500 * s.p[2], c * 500 * s.p[3]>> : a, b, c \in {-1, 1}}
                 ELSE IF s.s \in {"tri", "mesh"} THEN {Scale(s.v[i]) : i \in DOMAIN s.v} ELSE {}
      half == 500 * s.p[2]  r == 1000 * s.p[1]
      OnSurface(v) ==
        CASE s.s = "ball" -> AboutSq(Radial2(v) + Sq(v[2]), r)
          [] s.s = "cylinder" -> Abs(Abs(v[2]) - half) <= 5 /\ (AboutSq(Radial2(v), r) \/ Radial2(v) <= 50)
          [] s.s = "cone" -> \/ Abs(v[2] - half) <= 5 /\ Radial2(v) <= 50
                             \/ Abs(v[2] + half) <= 5 /\ (AboutSq(Radial2(v), r) \/ Radial2(v) <= 50)
          [] s.s = "capsule" -> LET d == IF Abs(v[2]) <= half THEN 0 ELSE Abs(v[2]) - half IN AboutSq(Radial2(v) + Sq(d), r)
      reach == IF s.s = "ball" THEN r ELSE IF s.s = "capsule" THEN half + r ELSE half
  IN IF s.s \in {"tri", "mesh"}
     THEN LET want == IF s.s = "tri" THEN <<<<0, 1, 2>>>> ELSE s.i
          IN IfNot(Len(m.is) = Len(want) /\ \A i \in DOMAIN want : \A k \in 1..3 : Near3(m.vs[m.is[i][k] + 1], Scale(s.v[want[i][k] + 1])),
                   "triangles of a mesh shape")
     ELSE IF s.s \in {"cuboid", "rcuboid"}
     THEN IfNot(Len(m.is) = 12 /\ \A c \in corners : \E v \in used : Near3(v, c), "missing corner of a cuboid")
          \cup IfNot(\A v \in used : \E c \in corners : Near3(v, c), "point outside the corners of a cuboid")
     ELSE IfNot(\A v \in used : OnSurface(v), "point off the surface")
          \cup IfNot(Len(m.is) >= 8, "hardly any triangles")
          \cup IfNot((\E v \in used : v[2] >= reach - reach \div 10) /\ (\E v \in used : v[2] <= 0 - reach + reach \div 10), "extent not reached")

\* meshes of the primitives on their own
AloneBad(s, a) ==
  IF s.s \in NoShape THEN IfNot(a = <<>>, "unsupported shape converted")
  ELSE IF Len(a) # 1 THEN {"no mesh for a supported shape"}
  ELSE IfNot(MeshOK(a[1]), "index out of range or areas missing") \cup IfNot(\A x \in Elems(a[1].ar) : x = 0, "area")
       \cup (IF MeshOK(a[1]) THEN PrimBad(s, a[1]) ELSE {})

Converted(b) == b.k = "static" /\ b.shape.s \notin NoShape
ColliderBad(bodies, post) ==
  LET want == {i \in DOMAIN bodies : Converted(bodies[i])}
      alone == post.alone
      Parts(b) == IF b.shape.s = "compound" THEN b.shape.parts ELSE <<[shape |-> b.shape]>>
      single == UNION {UNION {AloneBad(Parts(bodies[i])[k].shape, alone[i][k]) : k \in DOMAIN Parts(bodies[i])} : i \in DOMAIN bodies}
  IN IF single # {} THEN single
     ELSE IF Len(post.out) # Cardinality(want) \/ \E i \in want : Cardinality({j \in DOMAIN post.out : post.out[j].x = bodies[i].x}) # 1
     THEN {"not one mesh per supported static collider"}
     ELSE UNION {LET j == CHOOSE j \in DOMAIN post.out : post.out[j].x = bodies[i].x
                     m == post.out[j].mesh
                     b == bodies[i]
                 IN IF ~MeshOK(m) THEN {"index out of range or areas missing"}
                    ELSE IF b.shape.s = "compound"
                    THEN IfNot(SameTriangles(m, Assemble(b.shape.parts, alone[i], Len(b.shape.parts))), "a part is not at its pose")
                    ELSE IfNot(SameTriangles(m, alone[i][1][1]), "mesh depends on the other bodies")
                 : i \in want}

\* ---- C24 ---------------------------------------------------------------------
SameMesh(a, b) == a.topo = b.topo /\ a.att = b.att /\ a.ik = b.ik /\ a.ix = b.ix
MissingTexture(t, n) == \E s \in DOMAIN t.tx : t.tx[s] >= n
SameMaterial(a, t, imgs, orig) ==
  /\ a.co = t.co /\ a.fl = t.fl /\ a.ch = t.ch /\ a.bo = t.bo /\ a.en = t.en /\ a.uv = t.uv
  /\ \A s \in DOMAIN t.tx :
       IF t.tx[s] = -1 THEN a.tx[s] = -1
       ELSE /\ a.tx[s] >= 0 /\ a.tx[s] < Len(imgs)
            /\ imgs[a.tx[s] + 1] = orig[t.tx[s] + 1]
Sent(e, x) == e.vis = 1 /\ (x.auto = 1 \/ e.mark = 1) /\ e.m < Len(x.meshes)
MayRefuseScene(x) == x.params = 1 \/ x.backend = 0
SceneBad(x, post) ==
  LET want == {i \in DOMAIN x.ents : Sent(x.ents[i], x)}
  IN IfNot(post.re = 1, "written again it differs")
     \cup IfNot(post.aff = x.aff, "affector meshes changed")
     \cup (IF Len(post.vis) # Cardinality(want) \/ \E i \in want : Cardinality({j \in DOMAIN post.vis : post.vis[j].tf = x.ents[i].tf}) # 1
           THEN {"not one object per visible mesh"}
           ELSE UNION {LET e == x.ents[i]
                           v == post.vis[CHOOSE j \in DOMAIN post.vis : post.vis[j].tf = e.tf]
                       IN (IF v.m < 0 \/ v.m >= Len(post.meshes) THEN {"mesh index out of range"}
                           ELSE IfNot(SameMesh(post.meshes[v.m + 1], x.meshes[e.m + 1]), "another mesh"))
                          \cup (IF e.t = -1 \/ e.t >= Len(x.mats) THEN IfNot(v.t = -1, "material out of nowhere")
                                ELSE IF MissingTexture(x.mats[e.t + 1], Len(x.imgs)) THEN IfNot(v.t = -1, "material without its image")
                                ELSE IF v.t < 0 \/ v.t >= Len(post.mats) THEN {"material index out of range"}
                                ELSE IfNot(SameMaterial(post.mats[v.t + 1], x.mats[e.t + 1], post.imgs, post.orig), "another material"))
                       : i \in want})

\* ---- C25 ---------------------------------------------------------------------
Attribute(m, id) == {k \in DOMAIN m.att : m.att[k][1] = id}
Convertible(m) == m.topo = 3 /\ Attribute(m, 0) # {} /\ m.ik # 0 /\ Len(m.ix) % 3 = 0
BevyMeshBad(m, post) ==
  IF ~Convertible(m) THEN IfNot(post.some = 0, "mesh from no triangle list")
  ELSE IF post.some # 1 THEN {"triangle list refused"}
  ELSE LET p == m.att[CHOOSE k \in Attribute(m, 0) : TRUE][2]
           n == Len(p) \div 3
       IN IfNot(MeshOK(post.mesh), "index out of range or areas missing")
          \cup IfNot(Len(post.mesh.vs) = n /\ \A i \in 1..n : \A k \in 1..3 : Abs(8 * post.mesh.vs[i][k] - 1000 * p[3 * i - 3 + k]) <= 8, "vertices")
          \cup IfNot(Len(post.mesh.is) * 3 = Len(m.ix) /\ \A i \in DOMAIN post.mesh.is : \A k \in 1..3 : post.mesh.is[i][k] = m.ix[3 * i - 3 + k], "indices")
          \cup IfNot(\A a \in Elems(post.mesh.ar) : a = 0, "area")
=============================================================================
