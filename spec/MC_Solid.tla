------------------------------ MODULE MC_Solid ------------------------------
(***************************************************************************)
(* C04-C06 exhaustively: a 3x3 field whose centre column and its four        *)
(* neighbours range over small sets of columns, the filters applied in any   *)
(* order.  Every transition is emitted as a test vector.                     *)
(***************************************************************************)
EXTENDS Filters, TLC, Json
CONSTANTS Centers, Nbs, Heights, Climbs, Steps, Emit, Kinds
VARIABLES solid, orig, n, last
vars == <<solid, orig, n, last>>

W == 3
Init ==
  /\ n = -1 /\ last = "init"
  /\ \E c \in Centers, a, b, d, e \in Nbs :
       solid = <<<<>>, a, <<>>, b, c, d, <<>>, e, <<>>>>
  /\ orig = solid
Out(op, post) ==
  Emit => PrintT("VEC " \o ToJson([ops |-> <<[a |-> "cols", w |-> 3, h |-> 3, cols |-> solid], op>>, exp |-> post]))
Low(c) == /\ "low" \in Kinds /\ solid' = LowHang(solid, c) /\ last' = "low"
          /\ Out([a |-> "low", c |-> c], LowHang(solid, c))
Led(h, c) == /\ "ledge" \in Kinds /\ solid' = Ledge(3, 3, solid, h, c) /\ last' = "ledge"
             /\ Out([a |-> "ledge", h |-> h, c |-> c], Ledge(3, 3, solid, h, c))
Head_(h) == /\ "head" \in Kinds /\ solid' = Headroom(solid, h) /\ last' = "head"
            /\ Out([a |-> "head", h |-> h], Headroom(solid, h))
Start == n = -1 /\ n' = 0 /\ UNCHANGED <<solid, orig, last>>   \* lets TLC evaluate in parallel
Next == \/ Start
        \/ /\ n >= 0 /\ n < Steps /\ n' = n + 1 /\ UNCHANGED orig
           /\ \E h \in Heights, c \in Climbs : Low(c) \/ Led(h, c) \/ Head_(h)
Spec == Init /\ [][Next]_vars

\* no filter ever touches geometry
GeometryKept == SameGeometry(orig, solid)
\* an area can only come from the column itself
AreasLocal == \A c \in DOMAIN solid : \A i \in DOMAIN solid[c] :
                 solid[c][i][3] \in {0} \cup {orig[c][k][3] : k \in DOMAIN orig[c]}
\* each filter is monotone
Monotone == [][/\ last' \in {"ledge", "head"} => OnlyRemoves(solid, solid')
               /\ last' = "low" => OnlyAdds(solid, solid')]_vars
\* after the headroom filter nobody can be left standing under a low ceiling
Stable == n < 0 \/
  /\ \A h \in Heights : Headroom(Headroom(solid, h), h) = Headroom(solid, h)
  \* the areas of other spans never influence whether a span is a ledge
  /\ \A h \in Heights, c \in Climbs :
       LET p == Ledge(3, 3, solid, h, c) IN Ledge(3, 3, p, h, c) = p
  \* the field border is always a ledge
  /\ \A h \in Heights, c \in Climbs : LET p == Ledge(3, 3, solid, h, c) IN
       \A k \in {2, 4, 6, 8} : \A i \in DOMAIN p[k] : p[k][i][3] = 0
  \* a larger climb accepts more obstacles
  /\ \A c1, c2 \in Climbs : c1 <= c2 => OnlyAdds(LowHang(solid, c1), LowHang(solid, c2))
  \* a taller agent fits in fewer places
  /\ \A h1, h2 \in Heights : h1 <= h2 => OnlyRemoves(Headroom(solid, h1), Headroom(solid, h2))
\* the ledge rule, operationally: scan the neighbours as the reference algorithm does
RECURSIVE ScanNb(_, _, _, _, _, _, _)
ScanNb(col, i, f, c, hh, cl, acc) ==
  \* acc = <<drop, lowest, highest>>
  IF i > Len(col) THEN acc
  ELSE IF Mn(c, Ceil(col, i)) - Mx(f, Floor(col, i)) < hh THEN ScanNb(col, i + 1, f, c, hh, cl, acc)
  ELSE LET nf == Floor(col, i)
           d == Mn(acc[1], nf - f)
       IN IF Abs(nf - f) <= cl THEN ScanNb(col, i + 1, f, c, hh, cl, <<d, Mn(acc[2], nf), Mx(acc[3], nf)>>)
          ELSE IF nf - f < -cl THEN <<d, acc[2], acc[3]>>
          ELSE ScanNb(col, i + 1, f, c, hh, cl, <<d, acc[2], acc[3]>>)
RECURSIVE ScanDirs(_, _, _, _, _, _, _, _)
ScanDirs(d, x, z, f, c, hh, cl, acc) ==
  IF d = 4 THEN acc
  ELSE IF ~InGrid(3, 3, x + DX(d), z + DZ(d)) THEN <<-cl - 1, acc[2], acc[3]>>
  ELSE LET col == solid[Col(3, x + DX(d), z + DZ(d))]
           below == IF col = <<>> THEN MAXH ELSE col[1][1]
       IN IF Mn(c, below) - f >= hh THEN <<-cl - 1, acc[2], acc[3]>>
          ELSE ScanDirs(d + 1, x, z, f, c, hh, cl, ScanNb(col, 1, f, c, hh, cl, acc))
ScanLedge(x, z, i, hh, cl) ==
  LET col == solid[Col(3, x, z)]
      f == Floor(col, i)
      r == ScanDirs(0, x, z, f, Ceil(col, i), hh, cl, <<MAXH, f, f>>)
  IN r[1] < -cl \/ r[3] - r[2] > cl
LedgeRuleAgrees == n < 0 \/
  \A h \in Heights, c \in Climbs : \A i \in DOMAIN solid[5] :
     IsLedge(3, 3, solid, 1, 1, i, h, c) = ScanLedge(1, 1, i, h, c)
=============================================================================
