-------------------------------- MODULE Recast ------------------------------
(***************************************************************************)
(* The navmesh generator as a state machine: one action per public call.    *)
(* The state is what a user can observe between calls.                      *)
(***************************************************************************)
EXTENDS Raster, Field, Erosion, Volume, Bevy, Detail

VARIABLES fld,    \* [w, h, top, cs2, ch2, fr] : dimensions and frame of the current field
          solid,  \* columns of solid spans
          chf,    \* compact heightfield (geometry, links, areas)
          dfl,    \* distance field [dist, maxd]
          reg,    \* regions [reg, maxr, bs]
          cset,   \* contours [w, h, bs, cs]
          pm,     \* polygon mesh
          dm,     \* detail mesh
          mesh    \* triangle mesh under construction
svars == <<fld, solid, chf, dfl, reg, cset, pm, dm, mesh>>

Nil == [none |-> TRUE]
RInit == fld = Nil /\ solid = <<>> /\ chf = Nil /\ dfl = Nil /\ reg = Nil /\ cset = Nil /\ pm = Nil /\ dm = Nil /\ mesh = [vs |-> <<>>, is |-> <<>>, ar |-> <<>>]

(* Every action is given by the set of its violated clauses for a candidate  *)
(* successor; the action is enabled for exactly the successors with none.    *)

InsertBad(x, z, lo, hi, ar, thr, post) ==
  LET c == Col(fld.w, x, z) IN
  IfNot(DOMAIN post = DOMAIN solid, "columns lost")
  \cup IfNot(\A k \in DOMAIN solid \ {c} : k \in DOMAIN post => post[k] = solid[k], "other column changed")
  \cup IfNot(c \in DOMAIN post /\ Canonical(post[c]), "column not canonical")
  \cup IfNot(c \in DOMAIN post /\ Voxels(post[c]) = Voxels(solid[c]) \cup (lo .. (hi - 1)), "occupancy is not the union")
  \cup IfNot(c \in DOMAIN post /\ post[c] = AddSpan(solid[c], lo, hi, ar, thr), "merged span or area")

LowBad(c, post) ==
  IfNot(SameGeometry(solid, post), "geometry changed")
  \cup IfNot(post = LowHang(solid, c), "low obstacle rule")
LedgeBad(hh, c, post) ==
  IfNot(SameGeometry(solid, post), "geometry changed")
  \cup IfNot(post = Ledge(fld.w, fld.h, solid, hh, c), "ledge rule")
HeadBad(hh, post) ==
  IfNot(SameGeometry(solid, post), "geometry changed")
  \cup IfNot(post = Headroom(solid, hh), "headroom rule")

\* C07: open spaces
OpenBad(hh, c, post) ==
  LET want == ToCompact(fld.w, fld.h, solid, hh, c) IN
  IfNot(post.w = fld.w /\ post.h = fld.h, "dimensions")
  \cup IfNot(post.cnt = want.cnt, "open spans per column")
  \cup IfNot(post.first = want.first, "column index")
  \cup IfNot([i \in DOMAIN post.sp |-> <<post.sp[i][1], post.sp[i][2]>>]
             = [i \in DOMAIN want.sp |-> <<want.sp[i][1], want.sp[i][2]>>], "floor or clearance")
  \cup IfNot(post.ar = want.ar, "areas")
  \cup IfNot(post.wh = hh /\ post.wc = c, "agent parameters")
\* a required link names a layer, or a column has more spans, than can be represented
TooManyLayers(hh, c) ==
  LET want == ToCompact(fld.w, fld.h, solid, hh, c)
  IN \/ \E cl \in DOMAIN want.cnt : want.cnt[cl] > 255
     \/ \E i \in DOMAIN want.sp : \E k \in 3..6 : want.sp[i][k] >= MAXLAYER
\* C08: links
LinkBad(hh, c, post) ==
  LET want == ToCompact(fld.w, fld.h, solid, hh, c) IN
  IF TooManyLayers(hh, c) THEN {"too many layers not reported"}
  ELSE IF ~WellFormed(post) THEN {"link outside the field or column"}
  ELSE IfNot(LinkSound(post, hh, c), "link not traversable")
       \cup IfNot([i \in DOMAIN post.sp |-> SubSeq(post.sp[i], 3, 6)]
                  = [i \in DOMAIN want.sp |-> SubSeq(want.sp[i], 3, 6)], "links")
       \cup IfNot(LinkMutual(post, hh, c), "one-way link")

ErodeBad(r, post) ==
  IfNot(post.same, "other state changed")
  \cup IfNot(post.ar = Erode(chf, r), "eroded spans")
DistBad(post) ==
  LET raw == RawDist(chf) IN
  IfNot(post.same, "other state changed")
  \cup IfNot(post.maxd = MaxDist(raw), "maximum distance")
  \cup IfNot(post.dist = Blur(chf, raw), "distance field")
VolBad(vs, den, lo, hi, ar, post) ==
  IfNot(post.same, "other state changed") \cup MarkBad(chf, vs, den, lo, hi, ar, post.ar)

Surf == Surface(chf, dfl.dist, dfl.maxd)
RegionBad(b, mi, post) == IfNot(post.same, "other state changed") \cup RegionsBad(Surf, b, mi, post)
SizeBad(b, mi, mg, post) == SizesBad(Surf, b, mi, mg, post)

RawContourBad(e, post) == IfNot(post.same, "other state changed") \cup RawBad(Surf, reg.reg, reg.bs, e, post)

DetailSBad(sd2, post) == DetailShapeBad(pm, sd2, post)
DetailHBad(sd2, se8, post) == DetailHeightBad(chf, reg, pm, fld.cs2, fld.ch2, sd2, se8, post)

\* ---- C21: nothing comes out of nothing, and errors have a reason -------------------
NothingWalkable == \A c \in DOMAIN solid : \A i \in DOMAIN solid[c] : ~Walk(solid[c][i][3])
NoRegions == reg = Nil \/ \A i \in DOMAIN reg.reg : reg.reg[i] = 0 \/ reg.reg[i] >= 32768
EmptyBad(e) ==
  CASE e.a = "far" -> IfNot(e.post = [w |-> e.w, h |-> e.h, n |-> e.w * e.h, at |-> <<<<e.x, e.z>>>>], "far cell")
    [] e.a \in {"new", "field"} -> IfNot(\A c \in DOMAIN e.post : e.post[c] = <<>>, "fresh field is not empty")
    [] e.a \in {"low", "ledge", "head"} ->
         IfNot(NothingWalkable => \A c \in DOMAIN e.post : \A i \in DOMAIN e.post[c] : ~Walk(e.post[c][i][3]), "walkable out of nothing")
    [] e.a = "compact" -> IfNot(NothingWalkable => e.post.sp = <<>>, "open spans out of nothing")
    [] e.a \in {"erode", "vol"} -> IfNot(\A i \in DOMAIN chf.ar : chf.ar[i] = 0 => e.post.ar[i] = 0, "walkable out of nothing")
    [] e.a = "dist" -> IfNot(Len(e.post.dist) = Len(chf.sp), "distance field")
    [] e.a = "regions" -> IfNot(\A i \in DOMAIN chf.ar : chf.ar[i] = 0 => e.post.reg[i] = 0, "region out of nothing")
    [] e.a = "contours" -> IfNot(NoRegions => e.post.cs = <<>>, "contour out of nothing")
    [] e.a = "poly" -> IfNot((\A k \in DOMAIN cset.cs : Len(cset.cs[k].vs) < 3) => e.post.ps = <<>> /\ e.post.vs = <<>>, "polygon out of nothing")
    [] e.a = "detail" -> IfNot(pm.ps = <<>> => e.post.ms = <<>> /\ e.post.vs = <<>> /\ e.post.ts = <<>>, "detail out of nothing")
    [] OTHER -> {}
MayRefuse(e) ==
  CASE e.a = "far" -> e.w > 65535 \/ e.h > 65535
    [] e.a = "compact" -> TooManyLayers(e.h, e.c)
    [] e.a = "poly" -> MayFail(cset.cs) \/ AnyFlag(cset.cs)
    [] OTHER -> FALSE
TotalBad(e) ==
  IF e.res \notin {"ok", "err"} THEN {e.res}
  ELSE IfNot("again" \notin DOMAIN e \/ e.again = 1, "not repeatable")
       \cup (IF e.res = "err" THEN IfNot(MayRefuse(e), "unjustified error") ELSE EmptyBad(e))

\* ---- C28: what is saved and loaded is what was there, and the work goes on as if nothing had happened
Has(r, k) == k \in DOMAIN r
SavedBad(what, v) ==
  CASE what = "hf" -> IfNot(v.w = fld.w /\ v.h = fld.h /\ v.cols = solid /\ (fld.fr = Nil \/ v.fr = fld.fr), "loaded field")
    [] what = "chf" -> IfNot(\A k \in DOMAIN chf : v[k] = chf[k], "loaded compact field")
                       \cup IfNot(v.dist = (IF dfl = Nil THEN <<>> ELSE dfl.dist) /\ v.maxd = (IF dfl = Nil THEN 0 ELSE dfl.maxd), "loaded distances")
                       \cup IfNot(IF reg = Nil THEN v.maxr = 0 /\ v.bs = 0 /\ \A i \in DOMAIN v.reg : v.reg[i] = 0
                                  ELSE \A k \in DOMAIN reg : v[k] = reg[k], "loaded regions")
    [] what = "pm" -> IfNot(v = pm, "loaded polygon mesh")
    [] what = "dm" -> IfNot(v = dm, "loaded detail mesh")
    [] OTHER -> IfNot(v = mesh, "loaded mesh")
SaveBad(what, post) ==
  SavedBad(what, post.v)
  \cup IfNot(post.same, "not the value saved")
  \cup IfNot(post.twin, "the loaded state goes on differently")

ExtendBad(o, post) == IfNot(ExtendOK(mesh, o, post), "appended mesh")
=============================================================================
