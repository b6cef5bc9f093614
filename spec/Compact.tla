------------------------------- MODULE Compact ------------------------------
(***************************************************************************)
(* C07, C08: the compact heightfield, i.e. the open spaces above walkable   *)
(* spans and the links between neighbouring open spaces.                    *)
(*                                                                           *)
(* chf = [w, h, first, cnt, sp, ar]: per column the 0-based index of its     *)
(* first open span and their number; sp[i] = <<y, clearance, l0, l1, l2, l3>>*)
(* where ld is the layer within the neighbour column in direction d or -1.   *)
(***************************************************************************)
EXTENDS Filters

MAXLAYER == 63     \* number of layers a link can name

OpenOf(col) ==
  LET idx == SelectSeq([i \in DOMAIN col |-> i], LAMBDA i : Walk(col[i][3]))
  IN [k \in DOMAIN idx |-> <<Floor(col, idx[k]), Mn(Ceil(col, idx[k]) - Floor(col, idx[k]), 255), col[idx[k]][3]>>]

\* two open spans <<y, clearance>> let the agent pass
Traversable(a, b, height, climb) ==
  /\ Mn(a[1] + a[2], b[1] + b[2]) - Mx(a[1], b[1]) >= height
  /\ Abs(a[1] - b[1]) <= climb

\* layer of the lowest traversable span of neighbour column nb, or -1
LinkLayer(a, nb, height, climb) ==
  LET ok == {k \in DOMAIN nb : Traversable(a, nb[k], height, climb)}
  IN IF ok = {} THEN -1 ELSE MinOf(ok) - 1

ToCompact(w, h, solid, height, climb) ==
  LET open == Force([c \in 1..(w * h) |-> OpenOf(solid[c])])
      cnt == Force([c \in 1..(w * h) |-> Len(open[c])])
      \* total[c] = number of open spans before column c
      total == FoldLeft(LAMBDA acc, k : Append(acc, acc[Len(acc)] + k), <<0>>, cnt)
      link(c, k, d) ==
        LET x == ColX(w, c) + DX(d)  z == ColZ(w, c) + DZ(d)
        IN IF InGrid(w, h, x, z) THEN LinkLayer(open[c][k], open[Col(w, x, z)], height, climb) ELSE -1
      spansOf(c) == [k \in 1..cnt[c] |->
          <<open[c][k][1], open[c][k][2], link(c, k, 0), link(c, k, 1), link(c, k, 2), link(c, k, 3)>>]
      areasOf(c) == [k \in 1..cnt[c] |-> open[c][k][3]]
  IN Force([w |-> w, h |-> h,
      \* a column without any solid span keeps index 0
      first |-> [c \in 1..(w * h) |-> IF solid[c] = <<>> THEN 0 ELSE total[c]],
      cnt |-> cnt,
      sp |-> FlattenSeq([c \in 1..(w * h) |-> spansOf(c)]),
      ar |-> FlattenSeq([c \in 1..(w * h) |-> areasOf(c)])])

\* ---- navigation -----------------------------------------------------------
\* column of every open span
ColOfSpans(chf) == FlattenSeq([c \in DOMAIN chf.cnt |-> [k \in 1..chf.cnt[c] |-> c]])
WellFormed(chf) ==
  /\ Len(chf.first) = chf.w * chf.h /\ Len(chf.cnt) = chf.w * chf.h
  /\ Len(chf.sp) = Len(chf.ar)
  /\ SumSeq(chf.cnt) = Len(chf.sp)
  /\ \A c \in DOMAIN chf.cnt : chf.cnt[c] > 0 => chf.first[c] >= 0 /\ chf.first[c] + chf.cnt[c] <= Len(chf.sp)
  /\ LET co == ColOfSpans(chf) IN
     \A i \in DOMAIN chf.sp : \A d \in Dirs :
        LET x == ColX(chf.w, co[i]) + DX(d)  z == ColZ(chf.w, co[i]) + DZ(d)  l == chf.sp[i][3 + d]
        IN l # -1 => InGrid(chf.w, chf.h, x, z) /\ l >= 0 /\ l < chf.cnt[Col(chf.w, x, z)]
\* nb[i][d+1] = index of the linked span or 0
Links(chf) ==
  LET co == ColOfSpans(chf) IN
  Force([i \in DOMAIN chf.sp |-> [e \in 1..4 |->
     LET d == e - 1  l == chf.sp[i][3 + d]
         c2 == Col(chf.w, ColX(chf.w, co[i]) + DX(d), ColZ(chf.w, co[i]) + DZ(d))
     IN IF l = -1 THEN 0 ELSE chf.first[c2] + l + 1]])

\* ---- C08 as the user sees it ----------------------------------------------
LinkSound(chf, height, climb) ==
  LET nb == Links(chf) IN
  \A i \in DOMAIN chf.sp : \A e \in 1..4 :
     nb[i][e] # 0 => Traversable(chf.sp[i], chf.sp[nb[i][e]], height, climb)
LinkComplete(chf, height, climb) ==
  LET nb == Links(chf)  co == ColOfSpans(chf) IN
  \A i, j \in DOMAIN chf.sp : \A d \in Dirs :
     (/\ InGrid(chf.w, chf.h, ColX(chf.w, co[i]) + DX(d), ColZ(chf.w, co[i]) + DZ(d))
      /\ co[j] = Col(chf.w, ColX(chf.w, co[i]) + DX(d), ColZ(chf.w, co[i]) + DZ(d))
      /\ Traversable(chf.sp[i], chf.sp[j], height, climb)) => nb[i][d + 1] # 0
\* mutual when the candidate is unique on both sides
LinkMutual(chf, height, climb) ==
  LET nb == Links(chf)  co == ColOfSpans(chf)
      cands(i, c) == {j \in DOMAIN chf.sp : co[j] = c /\ Traversable(chf.sp[i], chf.sp[j], height, climb)}
  IN \A i \in DOMAIN chf.sp : \A e \in 1..4 :
       LET j == nb[i][e] IN
       (j # 0 /\ Cardinality(cands(i, co[j])) = 1 /\ Cardinality(cands(j, co[i])) = 1)
          => nb[j][Opp(e - 1) + 1] = i
=============================================================================
