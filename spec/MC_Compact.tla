----------------------------- MODULE MC_Compact -----------------------------
(***************************************************************************)
(* C07, C08 exhaustively: two neighbouring columns, each any canonical       *)
(* column of at most two spans with extents in 0..H, in both orientations.   *)
(***************************************************************************)
EXTENDS Compact, TLC, Json
CONSTANTS H, Heights, Climbs, Emit, MaxSpans
VARIABLES solid, w, chf, p
vars == <<solid, w, chf, p>>

Spans == {s \in (0..H) \X (0..H) \X {0, 1} : s[1] < s[2]}
Cols == {<<>>} \cup {<<s>> : s \in Spans}
     \cup (IF MaxSpans < 2 THEN {} ELSE {<<s, t>> : s \in Spans, t \in Spans} \cap {c \in Spans \X Spans : c[1][2] < c[2][1]})
Nil == [none |-> TRUE]
Init == /\ w \in {1, 2} /\ chf = Nil /\ p = <<0, 0>>
        /\ \E a, b \in Cols : solid = <<a, b>>
Build(h, c) ==
  /\ chf = Nil
  /\ chf' = ToCompact(w, 3 - w, solid, h, c) /\ p' = <<h, c>>
  /\ UNCHANGED <<solid, w>>
  /\ Emit => PrintT("VEC " \o ToJson(
       [ops |-> <<[a |-> "cols", w |-> w, h |-> 3 - w, cols |-> solid], [a |-> "compact", h |-> h, c |-> c]>>,
        exp |-> ToCompact(w, 3 - w, solid, h, c)]))
Next == \E h \in Heights, c \in Climbs : Build(h, c)
Spec == Init /\ [][Next]_vars

Built == chf # Nil
Shape == Built => WellFormed(chf)
\* the open spans are exactly the walkable voxel tops, and their clearance is really free
OpenSpace == Built =>
  LET co == ColOfSpans(chf) IN
  /\ \A i \in DOMAIN chf.sp :
       LET y == chf.sp[i][1]  cl == chf.sp[i][2]  v == Voxels(solid[co[i]]) IN
       /\ y - 1 \in v
       /\ \A k \in y .. (y + Mn(cl, H + 2) - 1) : k \notin v
       /\ cl < 255 => y + cl \in v
  /\ \A c \in DOMAIN solid : \A k \in DOMAIN solid[c] :
       solid[c][k][3] # 0 <=> \E i \in DOMAIN chf.sp : co[i] = c /\ chf.sp[i][1] = solid[c][k][2]
LinksSound == Built => LinkSound(chf, p[1], p[2])
LinksComplete == Built => LinkComplete(chf, p[1], p[2])
LinksMutual == Built => LinkMutual(chf, p[1], p[2])
=============================================================================
