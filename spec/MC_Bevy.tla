------------------------------- MODULE MC_Bevy -------------------------------
(***************************************************************************)
(* Input and editor as state machines, one per Kind:                         *)
(*  slope     C03: every triangle of a lattice is classified;                *)
(*  append    C22: meshes are appended in any sequence;                      *)
(*  compound  C23: a collider's parts are converted one after the other;     *)
(*  editor    C24: entities are entered into the transmission's tables;      *)
(*  bevymesh  C25: a Bevy mesh is converted.                                 *)
(* Behaviours are emitted (OPS) and run on the code.                         *)
(***************************************************************************)
EXTENDS Bevy, Json
CONSTANTS Kind, L, Limits, N, Turns, Shifts, Emit
VARIABLES in,     \* what was chosen at the start
          acc,    \* what was made so far
          k,      \* steps taken
          hist    \* operations so far
vars == <<in, acc, k, hist>>
Out(id, ops) == Emit => PrintT("OPS " \o ToJson([id |-> id, ops |-> ops]))

\* ---- slope --------------------------------------------------------------------------------
Lat3 == L \X L \X L
Tri(a, b, c) == [vs |-> <<a, b, c>>, is |-> <<<<0, 1, 2>>>>, ar |-> <<3>>]
SlopeInits == Kind = "slope" /\ in \in Lat3 \X Limits /\ acc = <<>> /\ k = 0 /\ hist = <<>>
Deg(a, b, c) == Normal(a, b, c) = <<0, 0, 0>>
Turn3(m) == [m EXCEPT !.is = [i \in DOMAIN m.is |-> <<m.is[i][2], m.is[i][3], m.is[i][1]>>]]
Flip3(m) == [m EXCEPT !.is = [i \in DOMAIN m.is |-> <<m.is[i][2], m.is[i][1], m.is[i][3]>>]]
\* all triangles from one corner, as one mesh; classified up to the rounding band
Fan(a) == LET ts == SetToSeq({<<b, c>> \in Lat3 \X Lat3 : ~Deg(a, b, c)})
          IN [vs |-> <<a>> \o [i \in 1..(2 * Len(ts)) |-> ts[(i + 1) \div 2][IF i % 2 = 1 THEN 1 ELSE 2]],
              is |-> [i \in DOMAIN ts |-> <<0, 2 * i - 1, 2 * i>>], ar |-> [i \in DOMAIN ts |-> IF i % 2 = 0 THEN 3 ELSE 0]]
Class(m, i, cos2) == SlopeClass(Normal(m.vs[m.is[i][1] + 1], m.vs[m.is[i][2] + 1], m.vs[m.is[i][3] + 1]), cos2)
SlopeNext ==
  /\ Kind = "slope" /\ k = 0 /\ k' = 1 /\ in' = in
  /\ LET m == Force(Fan(in[1]))
     IN /\ acc' = m
        /\ hist' = <<[a |-> "mesh", m |-> m], [a |-> "slope", deg |-> in[2][1], cos2 |-> in[2][2]]>>
  /\ Out("slope", hist')
\* the class depends on the surface and its winding, not on the corner it is listed from; no surface is flat from both sides
SlopeRule == (Kind = "slope" /\ k = 1) =>
  \A i \in DOMAIN acc.is : LET c == Class(acc, i, in[2][2]) IN
    /\ Class(Turn3(acc), i, in[2][2]) = c
    /\ c = "flat" => Class(Flip3(acc), i, in[2][2]) = "steep"
    \* a steeper limit accepts no less
    /\ c = "flat" => \A q \in Limits : q[2] <= in[2][2] => Class(acc, i, q[2]) = "flat"

\* ---- append -------------------------------------------------------------------------------
Parts0 == <<NoMesh,
  [vs |-> <<<<0, 0, 0>>, <<1, 0, 0>>, <<0, 0, 1>>>>, is |-> <<<<0, 2, 1>>>>, ar |-> <<1>>],
  [vs |-> <<<<5, 5, 5>>>>, is |-> <<>>, ar |-> <<>>],
  [vs |-> <<<<2, 0, 0>>, <<3, 1, 0>>, <<2, 0, 4>>, <<9, 9, 9>>>>, is |-> <<<<3, 0, 2>>, <<1, 1, 0>>>>, ar |-> <<0, 255>>]>>
AppendInits == Kind = "append" /\ in = <<>> /\ acc = NoMesh /\ k = 0 /\ hist = <<[a |-> "mesh", m |-> NoMesh]>>
AppendNext ==
  /\ Kind = "append" /\ k < N /\ k' = k + 1
  /\ \E p \in DOMAIN Parts0 :
       /\ in' = Append(in, p) /\ acc' = ExtendMesh(acc, Parts0[p]) /\ hist' = Append(hist, [a |-> "extend", m |-> Parts0[p]])
  /\ (k' = N => Out("append", hist'))
RECURSIVE All(_)
All(s) == IF s = <<>> THEN <<>> ELSE TrianglesOf(Parts0[s[1]]) \o All(Tail(s))
\* every part is there, as it was, in the order of the appends
AppendOK == Kind = "append" => MeshOK(acc) /\ TrianglesOf(acc) = All(in)
            /\ (in # <<>> => LET last == Parts0[in[Len(in)]] IN SubSeq(acc.vs, Len(acc.vs) - Len(last.vs) + 1, Len(acc.vs)) = last.vs)

\* ---- compound -----------------------------------------------------------------------------
TriShape == [s |-> "tri", v |-> <<<<0, 0, 0>>, <<2, 0, 0>>, <<0, 1, 3>>>>]
Cube == [s |-> "cuboid", p |-> <<2, 4, 6>>]
Shapes == {TriShape, Cube, [s |-> "segment"]}
AloneOf(s) ==
  IF s.s = "tri" THEN <<[vs |-> [i \in DOMAIN s.v |-> Scale(s.v[i])], is |-> <<<<0, 1, 2>>>>, ar |-> <<0>>]>>
  ELSE IF s.s = "segment" THEN <<>>
  ELSE <<[vs |-> [i \in 1..8 |-> <<500 * s.p[1] * (IF i % 2 = 0 THEN 1 ELSE -1), 500 * s.p[2] * (IF (i - 1) \div 4 = 0 THEN 1 ELSE -1),
                                  500 * s.p[3] * (IF ((i - 1) \div 2) % 2 = 0 THEN 1 ELSE -1)>>],
          is |-> [i \in 1..12 |-> <<i % 8, (i + 1) % 8, (i + 2) % 8>>], ar |-> [i \in 1..12 |-> 0]]>>
PartSet == [m : Turns, t : Shifts, shape : Shapes]
CompoundInits == Kind = "compound" /\ (\E n \in 1..N : in \in [1..n -> PartSet]) /\ acc = NoMesh /\ k = 0 /\ hist = <<>>
CompoundNext ==
  /\ Kind = "compound" /\ k < Len(in) /\ k' = k + 1 /\ in' = in /\ hist' = hist
  /\ LET a == AloneOf(in[k + 1].shape) IN acc' = IF a = <<>> THEN acc ELSE ExtendMesh(acc, PlaceMesh(in[k + 1], a[1]))
  /\ (k' = Len(in) => Out("compound", <<[a |-> "collider", bodies |-> <<[k |-> "static", x |-> <<0, 1, 2>>, shape |-> [s |-> "compound", parts |-> in]]>>]>>))
RigidlyPlaced(q, a) == \A i, j \in DOMAIN a.vs :
  LET u == PlaceMesh(q, a).vs
      Len2(x, y) == SumSeq([n \in 1..3 |-> Sq((x[n] - y[n]) \div 500)])
  IN Len2(u[i], u[j]) = Len2(a.vs[i], a.vs[j])
CompoundOK == (Kind = "compound" /\ k = Len(in)) =>
  LET alone == [i \in DOMAIN in |-> AloneOf(in[i].shape)]
      back == [i \in DOMAIN in |-> Len(in) + 1 - i]
      want == [i \in DOMAIN in |-> IF alone[i] = <<>> THEN <<>> ELSE TrianglesOf(PlaceMesh(in[i], alone[i][1]))]
  IN /\ MeshOK(acc) /\ acc = Assemble(in, alone, Len(in))
     \* each part at its own pose, whatever the other parts are
     /\ TrianglesOf(acc) = FlattenSeq(want)
     /\ SameTriangles(acc, Assemble([i \in DOMAIN in |-> in[back[i]]], [i \in DOMAIN in |-> alone[back[i]]], Len(in)))
     /\ \A i \in DOMAIN in : alone[i] # <<>> => RigidlyPlaced(in[i], alone[i][1])
     /\ ColliderBad(<<[k |-> "static", x |-> <<0>>, shape |-> [s |-> "compound", parts |-> in]]>>,
                    [out |-> <<[x |-> <<0>>, mesh |-> acc]>>, alone |-> <<alone>>]) = {}

\* ---- editor -------------------------------------------------------------------------------
Mesh1(n) == [topo |-> 3, att |-> <<<<0, <<0, 0, n, 8, 0, 0, 0, 8, 0>>>>>>, ik |-> 32, ix |-> <<0, 1, 2>>]
Slots == 15
Mat1(n, a, b) == [co |-> <<<<0, n, 1, 2, 8>>, <<1, 0, 0, 0, 8>>, <<2, 1, 1, 1, 8>>, <<1, 0, n, 0, 8>>>>,
               fl |-> [i \in 1..17 |-> i + n], ch |-> [i \in 1..14 |-> (i + n) % 2],
               tx |-> [i \in 1..Slots |-> IF i = 1 THEN a ELSE IF i = Slots THEN b ELSE -1], bo |-> <<1, 0, n, 1>>,
               en |-> <<n, 1, 4, 1, 7, 1, 9>>, uv |-> <<8, 0, 0, 8, n, 0>>]
Img1(n) == [n |-> 16, k |-> n, d |-> <<2, 2, 1, 1, 1, 1, 0, 4>>, s |-> <<>>, view |-> <<>>]
Tf1(n) == <<8, 0, 0, 0, 8, 0, 0, 0, 8, 8 * n, 0, 0>>
\* two images (and a missing one), two meshes (and a missing one), three materials (and none, and a missing one)
MatSet == {<<Mat1(0, a, b), Mat1(1, b, -1), Mat1(0, -1, -1)>> : a \in {-1, 0, 1}, b \in {0, 1, 2}}
EntityKinds == {<<m, t, v, k0>> \in (0..2) \X (-1..3) \X {0, 1} \X {0, 1} : v = 1 \/ k0 = 1}
Ent(i, c) == [m |-> c[1], t |-> c[2], vis |-> c[3], mark |-> c[4], tf |-> Tf1(i)]
Scene(ms, cs, auto) == [a |-> "scene", auto |-> auto, backend |-> 1, params |-> 0, imgs |-> <<Img1(0), Img1(1)>>, meshes |-> <<Mesh1(0), Mesh1(1)>>,
                 mats |-> ms, ents |-> [i \in DOMAIN cs |-> Ent(i - 1, cs[i])], aff |-> <<>>]
\* N entities; the last one varies in everything, the ones before it in mesh and material
EditorInits == Kind = "editor" /\ k = 0 /\ hist = <<>> /\ acc = [vis |-> <<>>, mi |-> <<>>, ti |-> <<>>, ii |-> <<>>]
  /\ \E ms \in MatSet, auto \in {0, 1}, c \in EntityKinds, rest \in [1..(N - 1) -> {<<m, t, 1, 1>> : m \in {0, 1}, t \in {-1, 0, 1}}] :
       in = Scene(ms, [i \in 1..N |-> IF i = N THEN c ELSE rest[i]], auto)
\* the place of x in a table, which grows when x is new
Enter(s, x) == IF \E i \in DOMAIN s : s[i] = x THEN s ELSE Append(s, x)
PlaceOf(s, x) == (CHOOSE i \in DOMAIN s : s[i] = x) - 1
EditorNext ==
  /\ Kind = "editor" /\ k < Len(in.ents) /\ k' = k + 1 /\ in' = in /\ hist' = hist
  /\ LET e == in.ents[k + 1]
         hasMat == e.t >= 0 /\ e.t < Len(in.mats) /\ ~MissingTexture(in.mats[e.t + 1], Len(in.imgs))
         tx == IF hasMat THEN in.mats[e.t + 1].tx ELSE <<>>
         ii == FoldLeft(LAMBDA s, x : IF x = -1 THEN s ELSE Enter(s, x), acc.ii, tx)
         mi == Enter(acc.mi, e.m)
         ti == IF hasMat THEN Enter(acc.ti, e.t) ELSE acc.ti
     IN acc' = IF ~Sent(e, in) THEN acc
               ELSE [vis |-> Append(acc.vis, [tf |-> e.tf, m |-> PlaceOf(mi, e.m), t |-> IF hasMat THEN PlaceOf(ti, e.t) ELSE -1]), mi |-> mi, ti |-> ti, ii |-> ii]
  /\ (k' = Len(in.ents) => Out("editor", <<in>>))
\* what the editor makes of the tables
Received ==
  LET orig == [i \in DOMAIN in.imgs |-> [n |-> in.imgs[i].n, k |-> in.imgs[i].k]]
  IN [re |-> 1, aff |-> in.aff, vis |-> acc.vis, meshes |-> [i \in DOMAIN acc.mi |-> in.meshes[acc.mi[i] + 1]],
      mats |-> [i \in DOMAIN acc.ti |-> LET t == in.mats[acc.ti[i] + 1]
                  IN [t EXCEPT !.tx = [s \in DOMAIN t.tx |-> IF t.tx[s] = -1 THEN -1 ELSE PlaceOf(acc.ii, t.tx[s])]]],
      imgs |-> [i \in DOMAIN acc.ii |-> orig[acc.ii[i] + 1]], orig |-> orig]
EditorOK == Kind = "editor" =>
  \* each object is sent once, and only if something uses it
  /\ Cardinality(Elems(acc.mi)) = Len(acc.mi) /\ Cardinality(Elems(acc.ti)) = Len(acc.ti) /\ Cardinality(Elems(acc.ii)) = Len(acc.ii)
  /\ \A i \in DOMAIN acc.mi : \E j \in DOMAIN acc.vis : acc.vis[j].m = i - 1
  /\ k = Len(in.ents) => SceneBad(in, Received) = {}

\* ---- bevymesh -----------------------------------------------------------------------------
BMesh(topo, as, ik, n) ==
  [topo |-> topo, att |-> (IF 0 \in as THEN <<<<0, <<0, 0, 0, 8, 16, 0, 0, 8, 24>>>>>> ELSE <<>>)
                     \o (IF 1 \in as THEN <<<<1, <<0, 8, 0, 0, 8, 0, 0, 8, 0>>>>>> ELSE <<>>)
                     \o (IF 2 \in as THEN <<<<2, <<0, 1, 2, 3, 4, 5>>>>>> ELSE <<>>),
   ik |-> ik, ix |-> IF ik = 0 THEN <<>> ELSE [i \in 1..n |-> (i * i) % 3]]
BevyInits == Kind = "bevymesh" /\ k = 0 /\ hist = <<>> /\ acc = <<>>
  /\ \E topo \in 0..4, as \in SUBSET {0, 1, 2}, ik \in {0, 16, 32}, n \in 0..N : in = BMesh(topo, as, ik, n)
Convert(m) ==
  IF ~Convertible(m) THEN [some |-> 0, mesh |-> NoMesh]
  ELSE LET p == m.att[CHOOSE q \in Attribute(m, 0) : TRUE][2]
       IN [some |-> 1, mesh |-> [vs |-> [i \in 1..(Len(p) \div 3) |-> [c \in 1..3 |-> 125 * p[3 * i - 3 + c]]],
                                 is |-> [i \in 1..(Len(m.ix) \div 3) |-> [c \in 1..3 |-> m.ix[3 * i - 3 + c]]],
                                 ar |-> [i \in 1..(Len(m.ix) \div 3) |-> 0]]]
BevyNext == Kind = "bevymesh" /\ k = 0 /\ k' = 1 /\ in' = in /\ acc' = Convert(in) /\ hist' = hist
            /\ Out("bevymesh", <<[a |-> "bevymesh", m |-> in]>>)
ConvertOK == (Kind = "bevymesh" /\ k = 1) => BevyMeshBad(in, acc) = {}

Init == SlopeInits \/ AppendInits \/ CompoundInits \/ EditorInits \/ BevyInits
Next == SlopeNext \/ AppendNext \/ CompoundNext \/ EditorNext \/ BevyNext
Spec == Init /\ [][Next]_vars
=============================================================================
