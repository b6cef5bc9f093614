-------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Validation of behaviours recorded from the implementation against the    *)
(* actions of Recast.  All recorded behaviours are checked in one run: the   *)
(* initial states range over them.  A step whose logged outcome violates a   *)
(* clause of its action is reported (REJECT) and the logged state is adopted,*)
(* so that the rest of the behaviour is still checked.                       *)
(***************************************************************************)
EXTENDS Recast, Editor, World, Json, IOUtils, TLC

CONSTANT Checked          \* names of the actions this run decides
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l, bad, ed, wd    \* ed: the session with the editor; wd: the Bevy world
tvars == <<tr, l, bad, ed, wd, svars>>

Evs == Traces[tr].ev
TInit == tr \in DOMAIN Traces /\ l = 1 /\ bad = {} /\ ed = Unopened /\ wd = NewWorld /\ RInit

StepBad(e) ==
  CASE e.a = "new" \/ e.a = "field" -> IfNot(e.post = [c \in 1..(e.w * e.h) |-> <<>>], "fresh field is not empty")
    [] e.a = "cols" -> IfNot(e.post = e.cols, "HARNESS: columns not adopted")
    [] e.a = "ins" -> InsertBad(e.x, e.z, e.lo, e.hi, e.ar, e.thr, e.post)
    [] e.a = "tri" -> RasterBad(fld.w, fld.h, solid, e.v, e.den, fld.top, e.ex = 1, e.ar, e.thr, e.post)
    [] e.a = "bounds" -> BoundsBad(e.m.vs, e.post)
    [] e.a = "build" -> BuildBad(e.lo, e.hi, e.cs2, e.ch2, e.post)
    [] e.a = "pop" -> PopulateBad(fld.w, fld.h, solid, fld.top, e.items, e.h, e.c, e.all, e.post)
    [] e.a = "lowest" -> LowestBad(solid, e.post)
    [] e.a = "low" -> LowBad(e.c, e.post)
    [] e.a = "ledge" -> LedgeBad(e.h, e.c, e.post)
    [] e.a = "head" -> HeadBad(e.h, e.post)
    [] e.a = "compact" -> (IF "open" \in Checked THEN OpenBad(e.h, e.c, e.post) ELSE {})
                     \cup (IF "link" \in Checked THEN LinkBad(e.h, e.c, e.post) ELSE {})
                     \cup (IF "frame" \in Checked THEN CompactFrameBad(fld, e.h, e.c, e.post) ELSE {})
    [] e.a = "erode" -> ErodeBad(e.r, e.post)
    [] e.a = "vol" -> VolBad(e.v, e.den, e.lo, e.hi, e.ar, e.post)
    [] e.a = "dist" -> DistBad(e.post)
    [] e.a = "regions" -> (IF "sound" \in Checked THEN RegionBad(e.b, e.min, e.post) ELSE {})
                     \cup (IF "sizes" \in Checked THEN SizeBad(e.b, e.min, e.mrg, e.post) ELSE {})
    [] e.a = "contours" -> (IF "raw" \in Checked THEN RawContourBad(e.e10, e.post) ELSE {})
                     \cup (IF "simple" \in Checked THEN ContourBad(e.e10, e.len, e.fl, e.post) ELSE {})
                     \cup (IF "frame" \in Checked THEN ContourFrameBad(chf, IF reg = Nil THEN 0 ELSE reg.bs, e.e10, e.post) ELSE {})
    [] e.a = "cset" -> IfNot(\A k \in DOMAIN e.cs : e.post.cs[k].vs = e.cs[k].vs, "HARNESS: contours not adopted")
    [] e.a = "poly" -> (IF "tile" \in Checked THEN PolyBad(cset, e.nvp, e.post) ELSE {})
                     \cup (IF "adjacent" \in Checked THEN AdjBad(cset, e.post) ELSE {})
                     \cup (IF "border" \in Checked THEN BorderBad(cset, e.nvp, e.post) ELSE {})
                     \cup (IF "frame" \in Checked THEN PolyFrameBad(cset, e.nvp, e.post) ELSE {})
    [] e.a = "detail" -> (IF "shape" \in Checked THEN DetailSBad(e.sd2, e.post) ELSE {})
                     \cup (IF "height" \in Checked THEN DetailHBad(e.sd2, e.se8, e.post) ELSE {})
    [] e.a = "mesh" -> IfNot(e.post = e.m, "HARNESS: mesh not adopted")
    [] e.a = "extend" -> ExtendBad(e.m, e.post)
    [] e.a = "slope" -> SlopeBad(mesh, e.cos2, e.post)
    [] e.a = "save" -> SaveBad(e.what, e.post)
    [] e.a = "collider" -> ColliderBad(e.bodies, e.post)
    [] e.a = "scene" -> SceneBad(e, e.post)
    [] e.a = "bevymesh" -> BevyMeshBad(e.m, e.post)
    [] e.a \in EditorOps -> EditorBad(e, ed)
    [] e.a \in WorldOps -> WorldBad(e, wd)

Verdict(e) ==
  IF "total" \in Checked THEN TotalBad(e)
  ELSE IF e.a = "far" THEN (IF e.res = "ok" THEN EmptyBad(e) ELSE IfNot(e.res = "err" /\ MayRefuse(e), e.res))
  ELSE IF e.a \notin Checked THEN {}
  ELSE IF e.a = "scene" /\ MayRefuseScene(e) THEN IfNot(e.res = "err", "answer without a back end or with parameters")
  ELSE IF e.a = "build" /\ e.res = "err" THEN IfNot(~(SideOK(Cells(e.hi[1] - e.lo[1], e.cs2)) /\ SideOK(Cells(e.hi[3] - e.lo[3], e.cs2))), "unjustified error")
  ELSE IF e.res = "err" /\ e.a = "compact" THEN IfNot(TooManyLayers(e.h, e.c), "unjustified error")
  \* contours that are not simple polygons may be refused
  ELSE IF e.res = "err" /\ e.a = "poly"
    THEN IfNot(MayFail(cset.cs) \/ (IF "border" \in Checked THEN ~AnyFlag(cset.cs) ELSE AnyFlag(cset.cs) \/ "tile" \notin Checked), "unjustified error")
  ELSE IF e.res # "ok" THEN {e.res}
  ELSE StepBad(e)

\* adopt the logged state
SolidOps == {"new", "cols", "ins", "tri", "low", "ledge", "head", "field", "pop"}
\* the frame of a field given by its columns
OfCols(e) == LET cs == IF "cs2" \in DOMAIN e THEN 2 * e.cs2 ELSE 4
                 ch == IF "cs2" \in DOMAIN e THEN 2 * e.ch2 ELSE 4
                 lo == IF "cs2" \in DOMAIN e THEN e.org ELSE <<0, 0, 0>>
             IN [lo |-> lo, hi |-> <<lo[1] + e.w * cs, lo[2] + (IF e.a = "new" THEN e.ymax ELSE 100) * ch, lo[3] + e.h * cs>>, cs |-> cs, ch |-> ch]
Adopt(e) ==
  IF e.res # "ok" THEN UNCHANGED svars ELSE
  /\ fld' = IF e.a \in {"new", "cols"} THEN [w |-> e.w, h |-> e.h, top |-> 0, cs2 |-> IF "cs2" \in DOMAIN e THEN e.cs2 ELSE 2, ch2 |-> IF "ch2" \in DOMAIN e THEN e.ch2 ELSE 2, fr |-> OfCols(e)]
            ELSE IF e.a = "build" THEN [w |-> e.post.w, h |-> e.post.h, top |-> (e.post.fr.hi[2] - e.post.fr.lo[2]) \div e.post.fr.ch, cs2 |-> e.cs2, ch2 |-> e.ch2, fr |-> e.post.fr]
            ELSE IF e.a = "field" THEN [w |-> e.w, h |-> e.h, top |-> e.ymax, cs2 |-> 2, ch2 |-> 2, fr |-> Nil] ELSE fld
  /\ solid' = IF e.a \in SolidOps THEN e.post ELSE IF e.a = "build" THEN e.post.cols ELSE solid
  /\ chf' = CASE e.a = "compact" -> [w |-> e.post.w, h |-> e.post.h, first |-> e.post.first,
                                     cnt |-> e.post.cnt, sp |-> e.post.sp, ar |-> e.post.ar, fr |-> e.post.fr]
              [] e.a \in {"erode", "vol"} -> [chf EXCEPT !.ar = e.post.ar]
              [] OTHER -> chf
  /\ dfl' = IF e.a = "dist" THEN [dist |-> e.post.dist, maxd |-> e.post.maxd] ELSE IF e.a = "compact" THEN Nil ELSE dfl
  /\ reg' = IF e.a = "regions" THEN [reg |-> e.post.reg, maxr |-> e.post.maxr, bs |-> e.post.bs] ELSE IF e.a = "compact" THEN Nil ELSE reg
  /\ cset' = IF e.a \in {"contours", "cset"} THEN [w |-> e.post.w, h |-> e.post.h, bs |-> e.post.bs, cs |-> e.post.cs, fr |-> e.post.fr, e10 |-> e.post.e10] ELSE cset
  /\ pm' = IF e.a = "poly" THEN e.post ELSE pm
  /\ dm' = IF e.a = "detail" THEN [ms |-> e.post.ms, vs |-> e.post.vs, ts |-> e.post.ts, fl |-> e.post.fl] ELSE IF e.a = "compact" THEN Nil ELSE dm
  /\ mesh' = IF e.a \in {"mesh", "extend", "slope"} THEN e.post ELSE mesh

TNext ==
  /\ l <= Len(Evs)
  /\ LET e == Evs[l]  v == Verdict(e) IN
       /\ bad' = v
       /\ (v # {} => PrintT("REJECT " \o ToJson([tr |-> tr, id |-> Traces[tr].id, step |-> l, action |-> e.a, clauses |-> v])))
       /\ Adopt(e)
       /\ ed' = IF e.a \in EditorOps /\ e.res = "ok" THEN EditorAdopt(e, ed) ELSE ed
       /\ wd' = IF e.a \in WorldOps /\ e.res = "ok" THEN WorldNext(wd, e) ELSE wd
  /\ l' = l + 1
  /\ tr' = tr
TSpec == TInit /\ [][TNext]_tvars

\* every behaviour was consumed to its end: one state per event plus the initial ones
AllConsumed == TLCGet("stats").distinct = SumSeq([n \in DOMAIN Traces |-> Len(Traces[n].ev) + 1])
=============================================================================
