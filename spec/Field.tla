-------------------------------- MODULE Field -------------------------------
(***************************************************************************)
(* Building a field from bounds and filling it from a whole mesh (C27), and  *)
(* where every product of the pipeline lies in the world (C26).              *)
(* Frames [lo, hi, cs, ch] are in quarters of a world unit.                  *)
(***************************************************************************)
EXTENDS Filters

\* ---- bounds of a mesh, all its vertices and nothing more --------------------------
BoundsOf(vs) ==
  IF vs = <<>> THEN <<>>
  ELSE <<[k \in 1..3 |-> MinOf({vs[i][k] : i \in DOMAIN vs})], [k \in 1..3 |-> MaxOf({vs[i][k] : i \in DOMAIN vs})]>>
BoundsBad(vs, post) ==
  IF vs = <<>> \/ post = <<>> THEN IfNot(vs = <<>> /\ post = <<>>, "bounds of nothing")
  ELSE IfNot(\A i \in DOMAIN vs : \A k \in 1..3 : post[1][k] <= vs[i][k] /\ vs[i][k] <= post[2][k], "vertex out of bounds")
       \cup IfNot(\A k \in 1..3 : \A s \in 1..2 : \E i \in DOMAIN vs : vs[i][k] = post[s][k], "bounds not tight")

\* ---- the builder: e quarters cut into cells of cs2 halves, rounded to the nearest number ----
Cells(e, cs2) == Mx(0, (e + cs2) \div (2 * cs2))
SideOK(n) == n <= 65535
BuildBad(lo, hi, cs2, ch2, post) ==
  LET w == Cells(hi[1] - lo[1], cs2)  h == Cells(hi[3] - lo[3], cs2) IN
  IfNot(post.w = w /\ post.h = h, "number of cells")
  \cup IfNot(post.cols = [c \in 1..(w * h) |-> <<>>] /\ post.n = 0, "fresh field is not empty")
  \cup IfNot(post.fr = [lo |-> lo, hi |-> hi, cs |-> 2 * cs2, ch |-> 2 * ch2], "field not at its bounds")

\* ---- a mesh at once --------------------------------------------------------------
\* an item covers the cells x0..x1, z0..z1 from lo to hi (flat ones one voxel)
ItemCells(w, h, t) == {Col(w, x, z) : x \in Mx(t.x0, 0) .. Mn(t.x1, w - 1), z \in Mx(t.z0, 0) .. Mn(t.z1, h - 1)}
Item(w, h, cols, top, t, thr) ==
  IF t.lo > top \/ t.hi < 0 THEN cols
  ELSE LET on == ItemCells(w, h, t) IN
       [c \in DOMAIN cols |-> IF c \in on THEN AddSpan(cols[c], t.lo, Mx(t.hi, t.lo + 1), t.ar, thr) ELSE cols[c]]
Fill(w, h, cols, top, items, thr) == Force(FoldLeft(LAMBDA a, t : Force(Item(w, h, a, top, t, thr)), cols, items))
\* the prescribed order of the filters
Filtered(w, h, cols, hh, c) == Headroom(Ledge(w, h, LowHang(cols, c), hh, c), hh)
Populated(w, h, cols, top, items, hh, c, all) ==
  LET f == Fill(w, h, cols, top, items, c) IN IF all = 1 THEN Filtered(w, h, f, hh, c) ELSE f
PopulateBad(w, h, cols, top, items, hh, c, all, post) ==
  LET f == Fill(w, h, cols, top, items, c) IN
  IfNot(SameGeometry(f, post), "geometry is not that of the triangles")
  \cup IfNot(post = IF all = 1 THEN Filtered(w, h, f, hh, c) ELSE f, "areas")
LowestBad(cols, post) ==
  LET want == [c \in DOMAIN cols |-> LET s == IF cols[c] = <<>> THEN <<>> ELSE cols[c][1] IN <<s, s, s>>] IN
  IfNot(post = want, "lowest span")

\* ---- frames ------------------------------------------------------------------------
\* the open space reaches one agent above the solid field
CompactFrame(f, hh) == [f EXCEPT !.hi[2] = @ + hh * f.ch]
\* without the margin
InnerFrame(f, b) == [f EXCEPT !.lo[1] = @ + b * f.cs, !.lo[3] = @ + b * f.cs, !.hi[1] = @ - b * f.cs, !.hi[3] = @ - b * f.cs]
\* world position of the corner (x, z) of a grid
Place(f, x, y, z) == <<f.lo[1] + x * f.cs, f.lo[2] + y * f.ch, f.lo[3] + z * f.cs>>
CompactFrameBad(fld, hh, c, post) ==
  IfNot(post.w = fld.w /\ post.h = fld.h, "dimensions")
  \cup IfNot(post.wh = hh /\ post.wc = c, "agent")
  \cup IfNot(post.fr = CompactFrame(fld.fr, hh), "compact field moved")
ContourFrameBad(chf, b, e10, post) ==
  IfNot(post.bs = b /\ post.w = Mx(0, chf.w - 2 * b) /\ post.h = Mx(0, chf.h - 2 * b), "dimensions or margin")
  \cup IfNot(post.fr = InnerFrame(chf.fr, b), "contours moved")
  \cup IfNot(post.e10 = e10, "error")
PolyFrameBad(cset, nvp, post) ==
  IfNot(post.fr = cset.fr, "polygons moved")
  \cup IfNot(post.bs = cset.bs /\ post.e10 = cset.e10 /\ post.nvp = nvp, "margin, error or vertices per polygon")
=============================================================================
