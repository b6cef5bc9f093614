------------------------------ MODULE MC_Volume -----------------------------
(***************************************************************************)
(* C10 exhaustively over triangles on a coarse lattice around a small field: *)
(* the parity (crossing number) test of the reference algorithm agrees with  *)
(* the half-plane definition of "inside" away from the outline.              *)
(***************************************************************************)
EXTENDS Volume, TLC, Json
CONSTANTS N, Lattice, Den, Emit
VARIABLES tri, done
vars == <<tri, done>>
\* crossing number of a ray in +x direction through the centre, exact
Crosses(a, b, px, pz) ==
  /\ (a[2] > pz) # (b[2] > pz)
  /\ LET d == b[2] - a[2]   \* px < (b.x-a.x)*(pz-a.z)/d + a.x
     IN IF d > 0 THEN (px - a[1]) * d < (b[1] - a[1]) * (pz - a[2])
        ELSE (px - a[1]) * d > (b[1] - a[1]) * (pz - a[2])
Parity(vs, px, pz) ==
  Cardinality({i \in DOMAIN vs : Crosses(vs[1 + (i % Len(vs))], vs[i], px, pz)}) % 2 = 1
Flat == [c \in 1..(N * N) |-> <<<<0, 5, 1>>>>]
Chf == ToCompact(N, N, Flat, 3, 1)
Co == Force(ColOfSpans(Chf))
Pts == Lattice \X Lattice
Init == done = FALSE /\ \E a, b, c \in Pts : tri = <<a, b, c>>
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tri
        /\ Emit => PrintT("OPS " \o ToJson([id |-> "lattice", ops |->
             <<[a |-> "cols", w |-> N, h |-> N, cols |-> Flat], [a |-> "compact", h |-> 3, c |-> 1],
               [a |-> "vol", v |-> tri, den |-> Den, lo |-> 0, hi |-> 6 * Den, ar |-> 7]>>]))
Spec == Init /\ [][Next]_vars
ParityAgrees == ~done \/
  \A i \in DOMAIN Chf.sp :
    LET px == Den * ColX(N, Co[i]) + Den \div 2  pz == Den * ColZ(N, Co[i]) + Den \div 2 IN
    /\ Inside(tri, px, pz) => Parity(tri, px, pz)
    /\ Outside(tri, px, pz) => ~Parity(tri, px, pz)
\* orientation and starting vertex do not matter
Symmetric == ~done \/
  \A i \in DOMAIN Chf.sp :
    LET v(t) == InVolume(Chf, t, Den, 0, 6 * Den, Co, i) IN
    v(tri) = v(<<tri[2], tri[3], tri[1]>>) /\ v(tri) = v(<<tri[3], tri[2], tri[1]>>)
=============================================================================
