----------------------------- MODULE MC_Regions -----------------------------
(***************************************************************************)
(* C12, C13 exhaustively over floor plans: the watershed as a state machine  *)
(* (one level per step), followed by the size rules.  A floor plan is a      *)
(* coarse mask whose columns and rows have the given widths, so that doors,  *)
(* corridors, rooms and islands of several sizes all occur.                  *)
(***************************************************************************)
EXTENDS Regions, Json
CONSTANTS Xs, Zs,        \* widths of the coarse columns and rows
          Areas,         \* area per coarse cell, 0 = obstacle
          Params,        \* set of <<border, min size, merge size>>
          Emit
VARIABLES mask, prm, s, st, phase
vars == <<mask, prm, s, st, phase>>

W == SumSeq(Xs)
H == SumSeq(Zs)
\* coarse index of fine coordinate k
Coarse(ws, k) == MinOf({j \in DOMAIN ws : k < SumSeq(SubSeq(ws, 1, j))})
CX == [x \in 0..(W - 1) |-> Coarse(Xs, x)]
CZ == [z \in 0..(H - 1) |-> Coarse(Zs, z)]
SolidOf(m) == [c \in 1..(W * H) |->
  LET v == m[<<CX[ColX(W, c)], CZ[ColZ(W, c)]>>] IN IF v = 0 THEN <<>> ELSE <<<<0, 5, v>>>>]
SurfaceOf(m) ==
  LET chf == Force(ToCompact(W, H, SolidOf(m), 3, 1))  raw == Force(RawDist(chf))
  IN Surface(chf, Blur(chf, raw), MaxDist(raw))
Ops(m, p) == <<[a |-> "cols", w |-> W, h |-> H, cols |-> SolidOf(m)], [a |-> "compact", h |-> 3, c |-> 1],
               [a |-> "dist"], [a |-> "regions", b |-> p[1], min |-> p[2], mrg |-> p[3]]>>
Nil == [none |-> TRUE]

Init == /\ mask \in [(1..Len(Xs)) \X (1..Len(Zs)) -> Areas]
        /\ prm \in Params
        /\ s = Nil /\ st = Nil /\ phase = "start"
Start == /\ phase = "start" /\ phase' = "level"
         /\ s' = SurfaceOf(mask)
         /\ st' = WStart(s', prm[1])
         /\ (Emit => PrintT("OPS " \o ToJson([id |-> "plan", ops |-> Ops(mask, prm)])))
         /\ UNCHANGED <<mask, prm>>
Level == /\ phase = "level" /\ st.level > 0
         /\ st' = WStep(s, st)
         /\ UNCHANGED <<mask, prm, s, phase>>
Close == /\ phase = "level" /\ st.level = 0 /\ phase' = "closed"
         /\ st' = WFinish(s, st)
         /\ UNCHANGED <<mask, prm, s>>
Sizes == /\ phase = "closed" /\ phase' = "done"
         /\ LET rs0 == Force(BuildRecords(s, st.reg, st.id))
                rs1 == Force(Discard(rs0, prm[2]))
                rs2 == Force(MergeAll(rs1, prm[3]))
                nn == Force(Renumber(rs2))
            IN st' = [reg |-> [i \in 1..s.n |-> IF IsBorder(st.reg[i]) THEN st.reg[i] ELSE nn.map[st.reg[i] + 1]],
                      maxr |-> nn.max, bs |-> prm[1], old |-> st.reg, rs0 |-> rs0, rs1 |-> rs1, rs2 |-> rs2]
         /\ UNCHANGED <<mask, prm, s>>
Next == Start \/ Level \/ Close \/ Sizes
Spec == Init /\ [][Next]_vars

Running == phase \in {"level", "closed"}
Members(reg, r) == {i \in DOMAIN reg : reg[i] = r}
Inner(reg) == {r \in Elems(reg) \ {0} : ~IsBorder(r)}
\* every intermediate partition is already sound
StepSound == Running =>
  /\ \A r \in Inner(st.reg) : ConnectedSet(s.nb, Members(st.reg, r)) /\ r < st.id
  /\ \A r \in Inner(st.reg) : Cardinality({s.ar[i] : i \in Members(st.reg, r)}) = 1
  /\ \A i \in 1..s.n : (~Walk(s.ar[i]) => st.reg[i] = 0) /\ (Walk(s.ar[i]) => (IsBorder(st.reg[i]) <=> InMargin(s, prm[1], i)))
Covered == (phase = "closed" /\ prm[1] = 0 /\ s.maxd > 0) => \A i \in 1..s.n : Walk(s.ar[i]) => st.reg[i] # 0
\* spans are never taken away from a region or moved to another one
Kept == [][phase = "level" /\ phase' \in {"level", "closed"} =>
           \A i \in 1..s.n : st.reg[i] # 0 => st'.reg[i] = st.reg[i]]_vars

Final == phase = "done" => RegionsBad(s, prm[1], prm[2], st) = {}
\* the size rules, stated on the result
Group(rs, k) == Reach(rs, {k}, {k})
Total(rs, g) == SumSeq([j \in DOMAIN rs |-> IF j - 1 \in g THEN rs[j].n ELSE 0])
SmallGone == phase = "done" =>
  \A k \in DOMAIN st.rs0 : (k > 1 /\ st.rs0[k].n > 0) =>
     LET g == Group(st.rs0, k - 1) IN
     (st.rs1[k].id = 0) <=> (Total(st.rs0, g) < prm[2] /\ ~\E q \in g : \E c \in Elems(st.rs0[q + 1].conns) : IsBorder(c))
\* nothing is lost or invented by merging
MergeKeeps == phase = "done" =>
  /\ SumSeq([k \in DOMAIN st.rs1 |-> st.rs1[k].n]) = SumSeq([k \in DOMAIN st.rs2 |-> st.rs2[k].n])
  /\ \A i, j \in 1..s.n : (st.old[i] = st.old[j] /\ ~IsBorder(st.old[i])) => st.reg[i] = st.reg[j]
  /\ \A i \in 1..s.n : st.reg[i] = 0 => (st.old[i] = 0 \/ st.rs1[st.old[i] + 1].id = 0)
\* no merge is left to do
MergeDone == phase = "done" =>
  \A k \in DOMAIN st.rs2 : WantsMerge(st.rs2[k], prm[3]) => LET t == MergeTarget(st.rs2, k) IN t = 0 \/ DoMerge(st.rs2, k, t) = st.rs2
=============================================================================
