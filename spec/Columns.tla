------------------------------ MODULE Columns -------------------------------
(***************************************************************************)
(* C01: one voxel column as a sequence of solid spans <<min, max, area>>,   *)
(* bottom to top, and the insertion of a span with merging.                 *)
(* A span <<a, b, _>> occupies voxels a .. b-1.                              *)
(***************************************************************************)
EXTENDS Grid

MAXH == 65535           \* the open top of the world
Walk(a) == a # 0        \* area 0 is "not walkable"

\* ---- design: the insertion algorithm -----------------------------------
RECURSIVE InsertFrom(_, _, _, _)
InsertFrom(pre, rest, n, thr) ==
  IF rest = <<>> THEN Append(pre, n)
  ELSE LET c == Head(rest) IN
    IF c[1] > n[2] THEN Append(pre, n) \o rest
    ELSE IF c[2] < n[1] THEN InsertFrom(Append(pre, c), Tail(rest), n, thr)
    ELSE LET top == Mx(c[2], n[2])
             ar  == IF Abs(top - c[2]) <= thr THEN Mx(n[3], c[3]) ELSE n[3]
         IN InsertFrom(pre, Tail(rest), <<Mn(c[1], n[1]), top, ar>>, thr)

AddSpan(col, lo, hi, ar, thr) == InsertFrom(<<>>, col, <<lo, hi, ar>>, thr)

\* ---- what the design has to guarantee ------------------------------------
Voxels(col) == UNION {col[i][1] .. (col[i][2] - 1) : i \in DOMAIN col}

Canonical(col) ==
  /\ \A i \in DOMAIN col : col[i][1] < col[i][2]
  /\ \A i \in 1..(Len(col) - 1) : col[i][2] < col[i + 1][1]

\* the spans of col that an insertion of [lo,hi] fuses with
Fused(col, lo, hi) == {i \in DOMAIN col : col[i][1] <= hi /\ col[i][2] >= lo}

InsertOK(col, lo, hi, ar, thr, post) ==
  /\ Canonical(post)
  /\ Voxels(post) = Voxels(col) \cup (lo .. (hi - 1))
  \* spans that do not touch the new one are untouched
  /\ \A i \in DOMAIN col \ Fused(col, lo, hi) : col[i] \in Elems(post)
  \* exactly one span covers the inserted range, and its area is one of the participants'
  /\ \E s \in Elems(post) :
       /\ s[1] <= lo /\ s[2] >= hi
       /\ s[3] \in {ar} \cup {col[i][3] : i \in Fused(col, lo, hi)}
       /\ s[3] >= ar
       \* an area within the threshold of the final top is never lost
       /\ \A i \in Fused(col, lo, hi) : s[2] - col[i][2] <= thr => s[3] >= col[i][3]
       \* an area that is out of reach from the inserted top never wins
       /\ (\A i \in Fused(col, lo, hi) : Mx(hi, col[i][2]) - col[i][2] > thr) => s[3] = ar
  /\ Len(post) = Len(col) - Cardinality(Fused(col, lo, hi)) + 1
=============================================================================
