----------------------------- MODULE MC_Columns -----------------------------
(***************************************************************************)
(* Every column reachable by insertions with extents in 0..H, and every     *)
(* insertion into it.  `occ` is the abstract state the user sees: the set   *)
(* of solid voxels ever inserted.  Each transition is printed as a test     *)
(* vector and replayed on the implementation.                               *)
(***************************************************************************)
EXTENDS Columns, TLC, Json
CONSTANTS H, Areas, Thrs, Emit
VARIABLES col, occ
vars == <<col, occ>>

Init == col = <<>> /\ occ = {}
Vec(lo, hi, ar, thr) ==
  [ops |-> <<[a |-> "cols", w |-> 1, h |-> 1, cols |-> <<col>>],
             [a |-> "ins", x |-> 0, z |-> 0, lo |-> lo, hi |-> hi, ar |-> ar, thr |-> thr]>>,
   exp |-> <<AddSpan(col, lo, hi, ar, thr)>>]
Insert(lo, hi, ar, thr) ==
  /\ col' = AddSpan(col, lo, hi, ar, thr)
  /\ occ' = occ \cup (lo .. (hi - 1))
  /\ Emit => PrintT("VEC " \o ToJson(Vec(lo, hi, ar, thr)))
Next == \E lo \in 0..(H - 1), hi \in 1..H, ar \in Areas, thr \in Thrs :
           lo < hi /\ Insert(lo, hi, ar, thr)
Spec == Init /\ [][Next]_vars

\* C01 on the design
TypeOK == \A i \in DOMAIN col : col[i] \in (0..H) \X (0..H) \X Areas
IsCanonical == Canonical(col)
UnionExact == Voxels(col) = occ
InsertAlwaysOK ==
  \A lo \in 0..(H - 1), hi \in 1..H, ar \in Areas, thr \in Thrs :
     lo < hi => InsertOK(col, lo, hi, ar, thr, AddSpan(col, lo, hi, ar, thr))
=============================================================================
