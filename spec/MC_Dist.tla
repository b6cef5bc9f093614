------------------------------- MODULE MC_Dist ------------------------------
(***************************************************************************)
(* C09, C11 exhaustively over area masks of a flat N x M surface: the two    *)
(* sweeps compute the chamfer metric, erosion is monotone, the distance      *)
(* field is smooth.                                                          *)
(***************************************************************************)
EXTENDS Erosion, TLC, Json
CONSTANTS N, M, Areas, Ring, Radii, Emit
VARIABLES mask, chf, done
vars == <<mask, chf, done>>

Inner == {c \in 1..(N * M) : Ring = FALSE \/ (ColX(N, c) \in 1..(N - 2) /\ ColZ(N, c) \in 1..(M - 2))}
\* mask 9: the column is empty
SolidOf(m) == [c \in 1..(N * M) |-> IF m[c] = 9 THEN <<>> ELSE <<<<0, 5, m[c]>>>>]
Base == <<[a |-> "cols", w |-> N, h |-> M, cols |-> SolidOf(mask)], [a |-> "compact", h |-> 3, c |-> 1]>>
Init == /\ done = FALSE
        /\ \E f \in [Inner -> Areas] : mask = [c \in 1..(N * M) |-> IF c \in Inner THEN f[c] ELSE 1]
        /\ chf = ToCompact(N, M, SolidOf(mask), 3, 1)
ErodeStep(r) == PrintT("VEC " \o ToJson([ops |-> Base \o <<[a |-> "erode", r |-> r]>>, exp |-> [ar |-> Erode(chf, r), same |-> TRUE]]))
DistStep == LET raw == RawDist(chf) IN
   PrintT("VEC " \o ToJson([ops |-> Base \o <<[a |-> "dist"]>>, exp |-> [dist |-> Blur(chf, raw), maxd |-> MaxDist(raw), same |-> TRUE]]))
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<mask, chf>>
        /\ "erode" \in Emit => \A r \in Radii : ErodeStep(r)
        /\ "dist" \in Emit => DistStep
Spec == Init /\ [][Next]_vars

\* decided in the second state, where TLC works in parallel
Metric == ~done \/ LET nb == Links(chf)  ed == ErodeDist(chf)  rd == RawDist(chf) IN
  /\ ChamferOK(nb, ed, LAMBDA i : ErodeBoundary(nb, chf.ar, i))
  /\ ChamferOK(nb, rd, LAMBDA i : DistBoundary(nb, chf.ar, i))
Monotone == ~done \/ LET e == Force([r \in Radii |-> Erode(chf, r)]) IN
  /\ e[0] = chf.ar
  /\ \A r \in Radii \ {0} : \A i \in DOMAIN chf.ar :
       e[r][i] # 0 => e[r - 1][i] = e[r][i] /\ e[r][i] = chf.ar[i]
FieldShape == ~done \/ LET raw == RawDist(chf)  nb == Links(chf)  d == Blur(chf, raw) IN
  \A i \in DOMAIN raw :
    /\ (d[i] = 0) <=> DistBoundary(nb, chf.ar, i)
    /\ raw[i] <= 2 => d[i] = raw[i]
    /\ d[i] <= MaxDist(raw)
=============================================================================
