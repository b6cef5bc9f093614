---------------------------- MODULE MC_Pipeline ----------------------------
(***************************************************************************)
(* C21: the stages as a state machine over complete behaviours.  Every order *)
(* in which the public calls can be made on a small scene (filters in any    *)
(* order, areas shrunk and marked before or after the distance field, stages *)
(* repeated or left out) up to the detail mesh.  The values of the voxel     *)
(* stages are the specified ones; of the later stages the model keeps whether*)
(* there can be anything at all.  Every behaviour is run on the code.        *)
(***************************************************************************)
EXTENDS Erosion, Volume, TLC, Json
CONSTANTS Scenes,     \* [w, h, cols]
          Height, Climb, Radii, Margins, Optional, Repeats, Emit
VARIABLES scene, solid, chf, dist, have, hist, start
vars == <<scene, solid, chf, dist, have, hist, start>>

None == [none |-> TRUE]
Init == /\ scene \in Scenes /\ solid = scene.cols /\ chf = None /\ dist = <<>>
        /\ have = {"hf"} /\ start = FALSE
        /\ hist = <<[a |-> "cols", w |-> scene.w, h |-> scene.h, cols |-> scene.cols]>>
Begin == ~start /\ start' = TRUE /\ UNCHANGED <<scene, solid, chf, dist, have, hist>>

Count(name) == Cardinality({i \in DOMAIN hist : hist[i].a = name})
May(name) == IF name \in {"cols", "compact", "regions", "contours", "poly", "detail"} THEN Count(name) = 0
             ELSE name \in Optional /\ Count(name) < Repeats
Push(op) == hist' = Append(hist, op) /\ UNCHANGED <<scene, start>>

Filter ==
  /\ "chf" \notin have /\ UNCHANGED <<chf, dist, have>>
  /\ \/ May("low") /\ solid' = LowHang(solid, Climb) /\ Push([a |-> "low", c |-> Climb])
     \/ May("ledge") /\ solid' = Ledge(scene.w, scene.h, solid, Height, Climb) /\ Push([a |-> "ledge", h |-> Height, c |-> Climb])
     \/ May("head") /\ solid' = Headroom(solid, Height) /\ Push([a |-> "head", h |-> Height])
Compaction ==
  /\ May("compact") /\ chf' = ToCompact(scene.w, scene.h, solid, Height, Climb) /\ have' = have \cup {"chf"}
  /\ Push([a |-> "compact", h |-> Height, c |-> Climb]) /\ UNCHANGED <<solid, dist>>
Areas ==
  /\ "chf" \in have /\ "cset" \notin have /\ UNCHANGED <<solid, dist, have>>
  /\ \/ \E r \in Radii : May("erode") /\ chf' = [chf EXCEPT !.ar = Erode(chf, r)] /\ Push([a |-> "erode", r |-> r])
     \/ /\ May("vol")
        \* a volume over the left half of the field: nobody walks there any more
        /\ LET inside(c) == 2 * ColX(scene.w, c) + 1 < scene.w
               co == ColOfSpans(chf)
           IN chf' = [chf EXCEPT !.ar = [i \in DOMAIN chf.ar |-> IF inside(co[i]) /\ chf.sp[i][1] <= 60 THEN 0 ELSE chf.ar[i]]]
        /\ Push([a |-> "vol", den |-> 2, lo |-> -2, hi |-> 120, ar |-> 0,
                 v |-> <<<<-1, -1>>, <<-1, 2 * scene.h + 1>>, <<scene.w, 2 * scene.h + 1>>, <<scene.w, -1>>>>])
Dist ==
  /\ "chf" \in have /\ "cset" \notin have /\ May("dist")
  /\ dist' = Blur(chf, RawDist(chf)) /\ have' = have \cup {"dist"} /\ Push([a |-> "dist"]) /\ UNCHANGED <<solid, chf>>
Late ==
  /\ UNCHANGED <<solid, chf, dist>>
  /\ \/ \E b \in Margins : "dist" \in have /\ May("regions") /\ have' = have \cup {"reg"} /\ Push([a |-> "regions", b |-> b, min |-> 0, mrg |-> 9])
     \* contours of a surface without regions are empty
     \/ "chf" \in have /\ May("contours") /\ have' = have \cup {"cset"} /\ Push([a |-> "contours", e10 |-> 13, len |-> 3, fl |-> 1])
     \/ "cset" \in have /\ May("poly") /\ have' = have \cup {"pm"} /\ Push([a |-> "poly", nvp |-> 6])
     \/ "pm" \in have /\ May("detail") /\ have' = have \cup {"dm"} /\ Push([a |-> "detail", sd2 |-> 2, se8 |-> 8])
\* C28: whatever is there can be saved and loaded at any point, which changes nothing
Save ==
  /\ May("save") /\ UNCHANGED <<solid, chf, dist, have>>
  /\ \E k \in have \cap {"hf", "chf", "pm"} : Push([a |-> "save", what |-> k, form |-> Len(hist) % 3])
Twice(ops) == [i \in DOMAIN ops |-> ops[i] @@ [twice |-> 1]]
Finish ==
  /\ "dm" \in have /\ "end" \notin have /\ have' = have \cup {"end"} /\ UNCHANGED <<scene, solid, chf, dist, hist, start>>
  /\ Emit => PrintT("OPS " \o ToJson([id |-> "pipeline", ops |-> IF "save" \in Optional THEN hist \o [k \in 1..3 |-> [a |-> "save", what |-> <<"dm", "pm", "chf">>[k], form |-> k - 1]] ELSE Twice(hist)]))
Next == Begin \/ (start /\ "dm" \notin have /\ (Filter \/ Compaction \/ Areas \/ Dist \/ Late \/ Save)) \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ---- what any order of calls keeps --------------------------------------------------
Walkable(cols) == \E c \in DOMAIN cols : \E i \in DOMAIN cols[c] : Walk(cols[c][i][3])
TypeOK ==
  /\ SameGeometry(scene.cols, solid)
  /\ "chf" \in have => WellFormed(chf) /\ LinkSound(chf, Height, Climb) /\ LinkMutual(chf, Height, Climb)
  /\ "dist" \in have => Len(dist) = Len(chf.sp)
\* nothing walkable comes out of nothing
NothingFromNothing ==
  /\ ~Walkable(scene.cols) => ~Walkable(solid) /\ ("chf" \in have => chf.sp = <<>>)
  /\ "chf" \in have => Len(chf.sp) = SumSeq([c \in DOMAIN solid |-> Cardinality({i \in DOMAIN solid[c] : Walk(solid[c][i][3])})])
\* a span that stays has an area some span of the scene had
AreasFromScene == "chf" \in have =>
  \A i \in DOMAIN chf.ar : chf.ar[i] = 0 \/ \E c \in DOMAIN scene.cols : \E k \in DOMAIN scene.cols[c] : scene.cols[c][k][3] = chf.ar[i]
\* some call is always possible until the detail mesh is there
NotStuck == start /\ "dm" \notin have => ENABLED Next
\* the distance field reaches every span
Reaches == "dist" \in have => \A i \in DOMAIN dist : dist[i] <= 2 * (scene.w + scene.h + 2)
\* every behaviour comes to its end
Ends == <>("end" \in have)
=============================================================================
