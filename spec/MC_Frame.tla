------------------------------ MODULE MC_Frame ------------------------------
(***************************************************************************)
(* C26: the frame handed from stage to stage, for every small field, margin  *)
(* and agent.  A cell keeps its place in the world through all stages.       *)
(* Every behaviour is run on the code.                                       *)
(***************************************************************************)
EXTENDS Field, Json
CONSTANTS Extents, Origins, Scales, Margins, Agents, Emit
VARIABLES stage, fld, frames, par
vars == <<stage, fld, frames, par>>
Stages == <<"built", "compact", "contours", "poly">>
Init == /\ stage = 0 /\ fld = <<>> /\ frames = <<>>
        /\ par \in [e : Extents, o : Origins, s : Scales, b : Margins, hh : Agents]
Hi == <<par.o[1] + par.e[1], par.o[2] + 8 * 2 * par.s[2], par.o[3] + par.e[2]>>
W == Cells(par.e[1], par.s[1])
H == Cells(par.e[2], par.s[1])
Floors == [x0 |-> 0, z0 |-> 0, x1 |-> Mx(W, 2), z1 |-> Mx(H, 2), lo |-> 2, hi |-> 2, ar |-> 1, k |-> 0]
Ops == <<[a |-> "build", lo |-> par.o, hi |-> Hi, cs2 |-> par.s[1], ch2 |-> par.s[2], ctr |-> 0],
         [a |-> "pop", items |-> <<Floors>>, sh |-> 1, h |-> 2, c |-> 1, all |-> 0],
         [a |-> "compact", h |-> par.hh, c |-> 1], [a |-> "dist"], [a |-> "regions", b |-> par.b, min |-> 0, mrg |-> 0],
         [a |-> "contours", e10 |-> 13, len |-> 0, fl |-> 1], [a |-> "poly", nvp |-> 6]>>
Next ==
  /\ stage < 4 /\ stage' = stage + 1 /\ UNCHANGED par
  /\ CASE stage = 0 -> /\ fld' = [w |-> W, h |-> H]
                       /\ frames' = <<[lo |-> par.o, hi |-> Hi, cs |-> 2 * par.s[1], ch |-> 2 * par.s[2]]>>
       [] stage = 1 -> fld' = fld /\ frames' = Append(frames, CompactFrame(frames[1], par.hh))
       [] stage = 2 -> fld' = [w |-> Mx(0, W - 2 * par.b), h |-> Mx(0, H - 2 * par.b)] /\ frames' = Append(frames, InnerFrame(frames[2], par.b))
       [] stage = 3 -> fld' = fld /\ frames' = Append(frames, frames[3])
  /\ (stage' = 4 /\ Emit) => PrintT("OPS " \o ToJson([id |-> "frame", ops |-> Ops]))
Spec == Init /\ [][Next]_vars
\* a point of the grid is at the same place in every frame; the margin shifts its number
SamePlace == \A i \in DOMAIN frames : \A x \in {0, 1, 5}, y \in {0, 3}, z \in {0, 2} :
  LET d == IF i >= 3 THEN par.b ELSE 0 IN Place(frames[i], x - d, y, z - d) = Place(frames[1], x, y, z)
\* a frame ends within half a cell of its last grid line
Ends == \A i \in DOMAIN frames : LET d == IF i >= 3 THEN par.b ELSE 0 IN
  /\ Abs(2 * (frames[i].hi[1] - Place(frames[i], W - 2 * d, 0, 0)[1])) <= frames[i].cs
  /\ Abs(2 * (frames[i].hi[3] - Place(frames[i], 0, 0, H - 2 * d)[3])) <= frames[i].cs
  /\ frames[i].hi[2] - frames[i].lo[2] = (8 + IF i > 1 THEN par.hh ELSE 0) * frames[i].ch
=============================================================================
