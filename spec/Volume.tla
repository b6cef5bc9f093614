-------------------------------- MODULE Volume ------------------------------
(***************************************************************************)
(* C10: marking the cells inside a convex volume.  Vertices are integers in *)
(* units of 1/den cell (den even, so that cell centres are integral).        *)
(***************************************************************************)
EXTENDS Compact

Cross2(ax, az, bx, bz, px, pz) == (bx - ax) * (pz - az) - (px - ax) * (bz - az)
\* signs of the point against all edges of the footprint
Sides(vs, px, pz) ==
  {Sgn(Cross2(vs[i][1], vs[i][2], vs[1 + (i % Len(vs))][1], vs[1 + (i % Len(vs))][2], px, pz)) : i \in DOMAIN vs}
Inside(vs, px, pz) == Len(vs) >= 3 /\ (Sides(vs, px, pz) = {1} \/ Sides(vs, px, pz) = {-1})
Outside(vs, px, pz) == Len(vs) < 3 \/ {1, -1} \subseteq Sides(vs, px, pz)

\* TRUE / FALSE / "free" when the centre lies exactly on an edge of the footprint
InVolume(chf, vs, den, lo, hi, co, i) ==
  LET px == den * ColX(chf.w, co[i]) + den \div 2
      pz == den * ColZ(chf.w, co[i]) + den \div 2
      y == chf.sp[i][1]
      inY == y >= FloorDiv(lo, den) /\ y <= FloorDiv(hi, den)
      \* a volume whose top is in the voxel layer just below the field
      edgeY == y = 0 /\ hi < 0 /\ hi > -den
  IN IF ~inY /\ ~edgeY THEN "out"
     ELSE IF Outside(vs, px, pz) THEN "out"
     ELSE IF Inside(vs, px, pz) /\ inY THEN "in" ELSE "free"

MarkBad(chf, vs, den, lo, hi, area, post) ==
  LET co == ColOfSpans(chf) IN
  IF Len(post) # Len(chf.ar) THEN {"length"}
  ELSE UNION {LET v == InVolume(chf, vs, den, lo, hi, co, i) IN
     IF ~Walk(chf.ar[i]) THEN (IF post[i] # chf.ar[i] THEN {"unwalkable span relabelled"} ELSE {})
     ELSE IF v = "in" THEN (IF post[i] # area THEN {"span inside not marked"} ELSE {})
     ELSE IF v = "out" THEN (IF post[i] # chf.ar[i] THEN {"span outside marked"} ELSE {})
     ELSE (IF post[i] \notin {area, chf.ar[i]} THEN {"foreign area"} ELSE {}) : i \in DOMAIN post}
=============================================================================
