------------------------------ MODULE MC_Field ------------------------------
(***************************************************************************)
(* C27: every sequence of up to Depth pieces of a mesh poured into a small   *)
(* field, then the filters.  Every mesh is emitted with the field it gives.  *)
(***************************************************************************)
EXTENDS Field, Json
CONSTANTS W, Top, Pieces, Depth, Heights, Climbs, Emit
VARIABLES items, par
vars == <<items, par>>
Init == items = <<>> /\ par \in Heights \X Climbs
Empty == [c \in 1..W |-> <<>>]
Cols(its) == Fill(W, 1, Empty, Top, its, par[2])
Vec(its, all) ==
  [ops |-> <<[a |-> "build", lo |-> <<-3, 5, 2>>, hi |-> <<-3 + 4 * W, 5 + 4 * Top, 6>>, cs2 |-> 2, ch2 |-> 2, ctr |-> 0],
             [a |-> "pop", items |-> its, sh |-> Len(its), h |-> par[1], c |-> par[2], all |-> all]>>,
   exp |-> Populated(W, 1, Empty, Top, its, par[1], par[2], all)]
Next ==
  /\ Len(items) < Depth /\ UNCHANGED par
  /\ \E p \in Pieces :
       /\ items' = Append(items, p)
       /\ Emit => \A all \in {0, 1} : PrintT("VEC " \o ToJson(Vec(items', all)))
Spec == Init /\ [][Next]_vars
\* every column is canonical and holds what was poured into it, in whatever order
Poured == \A c \in 1..W : LET col == Cols(items)[c] IN
  /\ Canonical(col)
  /\ Voxels(col) = UNION {items[i].lo .. (Mx(items[i].hi, items[i].lo + 1) - 1) : i \in {j \in DOMAIN items : c \in ItemCells(W, 1, items[j])}}
\* the filters keep the geometry and what can be walked on afterwards has standing room and no ledge
Clean == LET f == Cols(items)  g == Filtered(W, 1, f, par[1], par[2]) IN
  /\ SameGeometry(f, g)
  /\ \A c \in 1..W : \A i \in DOMAIN g[c] : Walk(g[c][i][3]) => Ceil(g[c], i) - Floor(g[c], i) >= par[1]
  /\ \A c \in 1..W : \A i \in DOMAIN g[c] : ~IsLedge(W, 1, g, ColX(W, c), ColZ(W, c), i, par[1], par[2]) \/ ~Walk(g[c][i][3])
=============================================================================
