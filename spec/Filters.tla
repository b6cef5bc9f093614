------------------------------- MODULE Filters ------------------------------
(***************************************************************************)
(* C04-C06: the three filters over a solid heightfield.                     *)
(* solid is a sequence of w*h columns (see Columns).                        *)
(***************************************************************************)
EXTENDS Columns

Floor(col, i) == col[i][2]
Ceil(col, i) == IF i < Len(col) THEN col[i + 1][1] ELSE MAXH
SetArea(s, a) == <<s[1], s[2], a>>

\* ---- C04: low hanging obstacles -------------------------------------------
LowHangColumn(col, climb) ==
  [i \in DOMAIN col |->
     IF i > 1 /\ ~Walk(col[i][3]) /\ Walk(col[i - 1][3])
              /\ col[i][2] - col[i - 1][2] <= climb
     THEN SetArea(col[i], col[i - 1][3]) ELSE col[i]]
LowHang(solid, climb) == Force([c \in DOMAIN solid |-> LowHangColumn(solid[c], climb)])

\* ---- C06: headroom ----------------------------------------------------------
HeadroomColumn(col, height) ==
  [i \in DOMAIN col |->
     IF Ceil(col, i) - Floor(col, i) < height THEN SetArea(col[i], 0) ELSE col[i]]
Headroom(solid, height) == Force([c \in DOMAIN solid |-> HeadroomColumn(solid[c], height)])

\* ---- C05: ledges -------------------------------------------------------------
\* The spaces a neighbour column offers, as <<floor, ceiling>>; the space below
\* its lowest span has no floor at all (a bottomless drop).
Bottomless == -1000000
Spaces(col) ==
  {<<Bottomless, IF col = <<>> THEN MAXH ELSE col[1][1]>>}
    \cup {<<Floor(col, i), Ceil(col, i)>> : i \in DOMAIN col}
\* the agent standing in <<f, c>> fits through the opening to space s
Passable(f, c, s, height) == Mn(c, s[2]) - Mx(f, s[1]) >= height
IsLedge(w, h, solid, x, z, i, height, climb) ==
  LET col == solid[Col(w, x, z)]
      f == Floor(col, i)
      c == Ceil(col, i)
      out == \E d \in Dirs : ~InGrid(w, h, x + DX(d), z + DZ(d))
      nb(d) == Spaces(solid[Col(w, x + DX(d), z + DZ(d))])
      reach(d) == {s \in nb(d) : Passable(f, c, s, height)}
  IN \/ out
     \/ \E d \in Dirs : \E s \in reach(d) : s[1] - f < -climb
     \/ LET fl == {f} \cup UNION {{s[1] : s \in {t \in reach(d) : Abs(t[1] - f) <= climb}} : d \in Dirs}
        IN MaxOf(fl) - MinOf(fl) > climb
Ledge(w, h, solid, height, climb) ==
  Force([c \in DOMAIN solid |->
     [i \in DOMAIN solid[c] |->
        IF Walk(solid[c][i][3]) /\ IsLedge(w, h, solid, ColX(w, c), ColZ(w, c), i, height, climb)
        THEN SetArea(solid[c][i], 0) ELSE solid[c][i]]])

\* what every filter must respect
SameGeometry(a, b) ==
  /\ DOMAIN a = DOMAIN b
  /\ \A c \in DOMAIN a : Len(a[c]) = Len(b[c]) /\
       \A i \in DOMAIN a[c] : a[c][i][1] = b[c][i][1] /\ a[c][i][2] = b[c][i][2]
OnlyRemoves(a, b) ==
  \A c \in DOMAIN a : \A i \in DOMAIN a[c] : b[c][i][3] \in {0, a[c][i][3]}
OnlyAdds(a, b) ==
  \A c \in DOMAIN a : \A i \in DOMAIN a[c] : b[c][i][3] # a[c][i][3] => a[c][i][3] = 0
=============================================================================
