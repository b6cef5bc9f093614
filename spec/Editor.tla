------------------------------- MODULE Editor -------------------------------
(***************************************************************************)
(* C29: a session with the editor.  Scenes are loaded from a running game,   *)
(* navmeshes built from them, and four pictures switched on and off; after   *)
(* every frame the screen shows exactly what is switched on.                 *)
(* o is what can be observed after a step, p what could be before it:        *)
(*   on      pictures switched on            sc      the scene, as in C24     *)
(*   vshow   visual meshes visible           alines  lines of each affector   *)
(*   has,nav the navmesh                     poly, detail  its two pictures   *)
(*   err     an error was reported           ref     the navmesh of the plan  *)
(***************************************************************************)
EXTENDS Bevy

Pictures == {"visual", "affector", "poly", "detail"}
AtStart == {"visual", "detail"}
OnOf(o) == Elems(o.on)
\* a session: what was seen last, and whether the pictures of the navmesh still have their lines (loading a scene may take them)
Unopened == [o |-> [none |-> TRUE], lines |-> TRUE]

\* what the navmesh of a scene is: the plan for an adult, from the metrics of the agent in thousandths
Ceil(a, b) == (a + b - 1) \div b
PlanOf(g) ==
  LET h == Ceil(g.height, g.ch)  c == g.climb \div g.ch  r == Ceil(g.radius, g.cs)
  IN <<<<"slope", g.slope>>, <<"field", g.cs, g.ch>>, <<"raster", c>>, <<"low", c>>, <<"ledge", h, c>>, <<"head", h>>, <<"compact", h, c>>,
       <<"erode", r>>, <<"dist">>, <<"regions", r + 3, g.minside * g.minside, g.mrgside * g.mrgside>>, <<"contours", g.err10, (1000 * g.edge) \div g.cs, 1>>,
       <<"poly", g.nvp>>, <<"detail", g.samples * g.cs, g.sampleerr * g.ch>>>>
Adult == [cs |-> 300, ch |-> 200, height |-> 2000, radius |-> 600, climb |-> 900, slope |-> 45, minside |-> 8, mrgside |-> 20,
          edge |-> 12, err10 |-> 13, nvp |-> 6, samples |-> 6, sampleerr |-> 1]

\* ---- pictures ------------------------------------------------------------------
Segs(strip) == {{strip[i], strip[i + 1]} : i \in 1..(Len(strip) - 1)}
AllSegs(lines) == UNION {Segs(lines[k]) : k \in DOMAIN lines}
Loop(s) == {{s[i], s[IF i = Len(s) THEN 1 ELSE i + 1]} : i \in DOMAIN s}
CornersOf(n, k) == LET c == SelectSeq(n.pm.ps[k], LAMBDA i : i # 65535) IN [i \in DOMAIN c |-> n.pm.vs[c[i] + 1]]
Twice(a, b, c) == (b[1] - a[1]) * (c[3] - a[3]) - (b[3] - a[3]) * (c[1] - a[1])
RECURSIVE TwiceArea(_, _)
TwiceArea(s, i) == IF i >= Len(s) THEN 0 ELSE Twice(s[1], s[i], s[i + 1]) + TwiceArea(s, i + 1)
PolyPicBad(n, pic, lines) ==
  LET P == [k \in DOMAIN n.pm.ps |-> CornersOf(n, k)]
      edges == UNION {Loop(P[k]) : k \in DOMAIN P}
      In(k) == SelectSeq(pic.fill, LAMBDA t : Elems(t) \subseteq Elems(P[k]))
  IN IfNot(AllSegs(pic.lines) = edges \/ (~lines /\ pic.lines = <<>>), "lines are not the polygons")
     \cup IfNot(\A k \in DOMAIN P : LET f == In(k) IN SumSeq([i \in DOMAIN f |-> Abs(Twice(f[i][1], f[i][2], f[i][3]))]) = Abs(TwiceArea(P[k], 2)),
                "a polygon is not filled")
     \cup IfNot(\A i \in DOMAIN pic.fill : \E k \in DOMAIN P : Elems(pic.fill[i]) \subseteq Elems(P[k]), "filled outside the polygons")
SameCorners(a, b) == Elems(a) = Elems(b)
DetailPicBad(n, pic, lines) ==
  LET tri(m, j) == [c \in 1..3 |-> n.dm.vs[m[1] + n.dm.ts[m[3] + j][c] + 1]]
      T == FlattenSeq([k \in DOMAIN n.dm.ms |-> [j \in 1..n.dm.ms[k][4] |-> tri(n.dm.ms[k], j)]])
  IN IfNot(AllSegs(pic.lines) = UNION {Loop(T[i]) : i \in DOMAIN T} \/ (~lines /\ pic.lines = <<>>), "lines are not the detail triangles")
     \cup IfNot(Len(pic.fill) = Len(T) /\ {Elems(pic.fill[i]) : i \in DOMAIN pic.fill} = {Elems(T[i]) : i \in DOMAIN T}, "fill is not the detail triangles")
AffPicBad(m, lines) ==
  IfNot(AllSegs(lines) = UNION {Loop([c \in 1..3 |-> m.vs[m.is[i][c] + 1]]) : i \in DOMAIN m.is}, "lines are not the affector's triangles")

\* after a frame the screen shows what is switched on, and nothing else
ScreenBad(o, lines) ==
  LET on == OnOf(o) IN
  IfNot(\A i \in DOMAIN o.vshow : o.vshow[i] = IF "visual" \in on THEN 1 ELSE 0, "visual meshes")
  \cup (IF "affector" \in on THEN UNION {AffPicBad(o.sc.aff[i].mesh, o.alines[i]) : i \in DOMAIN o.sc.aff}
        ELSE IfNot(\A i \in DOMAIN o.alines : o.alines[i] = <<>>, "affectors drawn"))
  \cup (IF "poly" \in on /\ o.has = 1 THEN IfNot(o.poly.show = 1, "polygons hidden") \cup PolyPicBad(o.nav, o.poly, lines)
        ELSE IfNot(o.poly.show = 0 /\ o.poly.lines = <<>>, "polygons drawn"))
  \cup (IF "detail" \in on /\ o.has = 1 THEN IfNot(o.detail.show = 1, "detail hidden") \cup DetailPicBad(o.nav, o.detail, lines)
        ELSE IfNot(o.detail.show = 0 /\ o.detail.lines = <<>>, "detail drawn"))

\* ---- steps ---------------------------------------------------------------------
SameScene(o, p) == o.sc = p.sc
SameNav(o, p) == o.has = p.has /\ o.nav = p.nav
SameMeshes(o, p) == o.vshow = p.vshow /\ o.alines = p.alines /\ o.detail = p.detail
\* polygons are observed in the grid of the navmesh
SameScreen(o, p) == SameMeshes(o, p) /\ o.poly = p.poly
OpenBad0(o) ==
  IfNot(OnOf(o) = AtStart, "switches at the start")
  \cup IfNot(o.sc.vis = <<>> /\ o.sc.aff = <<>> /\ o.has = 0, "not empty at the start")
Loads(e) == e.srv = 1 /\ ~MayRefuseScene(e.scene)
\* the order of the affectors does not matter
Unordered(x, sc) == [sc EXCEPT !.aff = IF Len(sc.aff) = Len(x.aff) /\ Elems(sc.aff) = Elems(x.aff) THEN x.aff ELSE sc.aff]
FetchBad(e, p, o) ==
  IfNot(o.on = p.on, "switches changed") \cup IfNot(SameNav(o, p), "navmesh changed")
  \cup (IF Loads(e) THEN IfNot(o.err = 0, "error") \cup SceneBad(e.scene, Unordered(e.scene, o.sc))
        ELSE IfNot(o.err = 1, "no error reported") \cup IfNot(SameScene(o, p) /\ SameScreen(o, p), "scene lost on an error"))
NearMesh(a, b) == a.ms = b.ms /\ a.ts = b.ts /\ a.fl = b.fl /\ Len(a.vs) = Len(b.vs) /\ \A i \in DOMAIN a.vs : \A c \in 1..3 : Abs(a.vs[i][c] - b.vs[i][c]) <= 2
\* the frame of the mesh may differ in rounding
NearPoly(a, b) ==
  /\ \A f \in DOMAIN a \ {"lo", "hi"} : a[f] = b[f]
  /\ \A c \in 1..3 : Abs(a.lo[c] - b.lo[c]) <= 2 /\ Abs(a.hi[c] - b.hi[c]) <= 2
MakeBad(e, p, o) ==
  IfNot(e.plan = PlanOf(Adult), "HARNESS: another plan")
  \cup IfNot(o.on = p.on, "switches changed") \cup IfNot(SameScene(o, p), "scene changed")
  \cup IfNot(SameMeshes(o, p) /\ o.poly.show = p.poly.show, "screen changed before the frame")
  \cup (IF o.ref.ok = 1
        THEN IfNot(o.err = 0 /\ o.has = 1, "no navmesh")
             \cup (IF o.has # 1 THEN {} ELSE IfNot(NearPoly(o.nav.pm, o.ref.pm), "not the polygons of the plan") \cup IfNot(NearMesh(o.nav.dm, o.ref.dm), "not the detail of the plan"))
        ELSE IfNot(o.err = 1, "no error reported") \cup IfNot(SameNav(o, p), "navmesh lost on an error"))
ToggleBad(e, p, o) ==
  IfNot(OnOf(o) = (OnOf(p) \ {e.k}) \cup ({e.k} \ OnOf(p)), "another switch") \cup IfNot(SameScene(o, p) /\ SameNav(o, p), "scene or navmesh changed")
FrameBad(p, o, lines) ==
  IfNot(o.on = p.on, "switches changed") \cup IfNot(SameScene(o, p) /\ SameNav(o, p), "scene or navmesh changed") \cup IfNot(o.err = 0, "error")
  \cup ScreenBad(o, lines)
EditorBad(e, ed) ==
  CASE e.a = "eopen" -> OpenBad0(e.post)
    [] e.a = "efetch" -> FetchBad(e, ed.o, e.post)
    [] e.a = "ebuild" -> MakeBad(e, ed.o, e.post)
    [] e.a = "etoggle" -> ToggleBad(e, ed.o, e.post)
    [] e.a = "eframe" -> FrameBad(ed.o, e.post, ed.lines)
EditorOps == {"eopen", "efetch", "ebuild", "etoggle", "eframe"}
EditorAdopt(e, ed) == [o |-> e.post, lines |-> IF e.a \in {"ebuild", "etoggle"} THEN TRUE ELSE IF e.a = "efetch" THEN FALSE ELSE ed.lines]
=============================================================================
