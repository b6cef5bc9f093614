----------------------------- MODULE MC_Contours ----------------------------
(***************************************************************************)
(* C14, C15 exhaustively over floor plans (see MC_Regions): boundary walks    *)
(* as a state machine (one edge per step), then the simplification.           *)
(***************************************************************************)
EXTENDS Contours, Json
CONSTANTS Xs, Zs, Areas, Borders, Tols, Lens, Flags, Emit
VARIABLES mask, b, s, reg, done, walk, todo, phase
vars == <<mask, b, s, reg, done, walk, todo, phase>>

W == SumSeq(Xs)
H == SumSeq(Zs)
Coarse(ws, k) == MinOf({j \in DOMAIN ws : k < SumSeq(SubSeq(ws, 1, j))})
CX == [x \in 0..(W - 1) |-> Coarse(Xs, x)]
CZ == [z \in 0..(H - 1) |-> Coarse(Zs, z)]
SolidOf(m) == [c \in 1..(W * H) |->
  LET v == m[<<CX[ColX(W, c)], CZ[ColZ(W, c)]>>] IN IF v = 0 THEN <<>> ELSE <<<<0, 5, v>>>>]
SurfaceOf(m) ==
  LET chf == Force(ToCompact(W, H, SolidOf(m), 3, 1))  raw == Force(RawDist(chf))
  IN Surface(chf, Blur(chf, raw), MaxDist(raw))
Ops == <<[a |-> "cols", w |-> W, h |-> H, cols |-> SolidOf(mask)], [a |-> "compact", h |-> 3, c |-> 1],
         [a |-> "dist"], [a |-> "regions", b |-> b, min |-> 0, mrg |-> 10]>>
       \o [k \in 1..Len(SetToSeq(Tols \X Lens \X Flags)) |->
            LET q == SetToSeq(Tols \X Lens \X Flags)[k] IN [a |-> "contours", e10 |-> q[1], len |-> q[2], fl |-> q[3]]]
Nil == [none |-> TRUE]
Init == /\ mask \in [(1..Len(Xs)) \X (1..Len(Zs)) -> Areas] /\ b \in Borders
        /\ s = Nil /\ reg = <<>> /\ done = <<>> /\ walk = <<>> /\ todo = {} /\ phase = "start"
EdgesOf(sf, rg) == {<<i, d>> \in (1..sf.n) \X Dirs : Edge(sf, rg, i, d)}
Start == /\ phase = "start" /\ phase' = "walk"
         /\ s' = SurfaceOf(mask)
         /\ reg' = Force(FinalRegions(s', b, 0, 10).reg)
         /\ todo' = EdgesOf(s', reg')
         /\ (Emit => PrintT("OPS " \o ToJson([id |-> "plan", ops |-> Ops])))
         /\ UNCHANGED <<mask, b, done, walk>>
First(T) == CHOOSE e \in T : \A f \in T : e[1] < f[1] \/ (e[1] = f[1] /\ e[2] <= f[2])
Begin == /\ phase = "walk" /\ walk = <<>> /\ todo # {}
         /\ walk' = <<First(todo)>> /\ todo' = todo \ {First(todo)}
         /\ UNCHANGED <<mask, b, s, reg, done, phase>>
\* one boundary edge further, or the walk is closed
Step == /\ phase = "walk" /\ walk # <<>>
        /\ LET nx == NextEdge(s, reg, walk[Len(walk)]) IN
           IF nx = walk[1] THEN done' = Append(done, walk) /\ walk' = <<>> /\ UNCHANGED todo
           ELSE walk' = Append(walk, nx) /\ todo' = todo \ {nx} /\ UNCHANGED done
        /\ UNCHANGED <<mask, b, s, reg, phase>>
Finish == /\ phase = "walk" /\ walk = <<>> /\ todo = {} /\ phase' = "done"
          /\ UNCHANGED <<mask, b, s, reg, done, walk, todo>>
Next == Start \/ Begin \/ Step \/ Finish
Spec == Init /\ [][Next]_vars

\* ---- raw contours ----------------------------------------------------------------
\* a walk never takes an edge twice and stays on its region
WalkOK == (phase = "walk" /\ walk # <<>>) =>
  LET nx == NextEdge(s, reg, walk[Len(walk)]) IN
  /\ nx = walk[1] \/ nx \in todo
  /\ reg[nx[1]] = reg[walk[1][1]]
Raw(k) == [j \in DOMAIN done[k] |-> RawVertex(s, reg, 0, done[k][j][1], done[k][j][2])]
UnitSteps == phase = "done" => \A k \in DOMAIN done : LET c == Raw(k) IN
  \A j \in DOMAIN c : LET q == c[1 + (j % Len(c))] IN Abs(c[j][1] - q[1]) + Abs(c[j][3] - q[3]) = 1
\* each region has one outline; outline minus holes is its footprint
Footprint == phase = "done" => \A r \in Elems(reg) \ {0} : IsBorder(r) \/
  LET mine == {k \in DOMAIN done : reg[done[k][1][1]] = r} IN
  /\ Cardinality({k \in mine : Area2(Raw(k)) > 0}) = 1
  /\ SumSeq([k \in DOMAIN done |-> IF k \in mine THEN Area2(Raw(k)) ELSE 0]) = 2 * Cardinality({i \in DOMAIN reg : reg[i] = r})
SameAsLoops == phase = "done" =>
  LET ls == LoopSet(s, reg) IN
  \A k \in DOMAIN done : Len(done[k]) = 4 \/ \E q \in DOMAIN ls : Elems(ls[q]) = Elems(done[k])

\* ---- simplification ----------------------------------------------------------------
RECURSIVE DoSplit(_, _, _, _, _)
DoSplit(raw, p, q, len, fl) ==
  LET n == Gap(raw, p, q)
      cut == len > 0 /\ Splits(After(raw, p), fl) /\ Len2(raw[p], raw[q]) > len * len /\ n > 1
      fwd == raw[q][1] > raw[p][1] \/ (raw[q][1] = raw[p][1] /\ raw[q][3] > raw[p][3])
      k == Wrap(Len(raw), p + IF fwd THEN n \div 2 ELSE (n + 1) \div 2)
  IN IF ~cut THEN {} ELSE {k} \cup DoSplit(raw, p, k, len, fl) \cup DoSplit(raw, k, q, len, fl)
RECURSIVE Refine(_, _, _, _, _, _)
Refine(raw, p, q, e, len, fl) ==
  LET ds == Force(Devs(raw, p, q))  mx == IF Fits(After(raw, p)) THEN MaxDev(ds) ELSE 0
      fwd == raw[q][1] > raw[p][1] \/ (raw[q][1] = raw[p][1] /\ raw[q][3] > raw[p][3])
      top == {t \in DOMAIN ds : ds[t] = mx}
      t0 == IF fwd THEN MinOf(top) ELSE MaxOf(top)
  IN IF 100 * mx > e * e * Len2(raw[p], raw[q])
     THEN LET k == Wrap(Len(raw), p + t0) IN Refine(raw, p, k, e, len, fl) \cup {k} \cup Refine(raw, k, q, e, len, fl)
     ELSE DoSplit(raw, p, q, len, fl)
NextIn(raw, S, a) == CHOOSE q \in S : \A c \in S : Gap(raw, a, q) <= Gap(raw, a, c)
Kept(raw, e, len, fl) ==
  LET an == Anchors(raw) IN an \cup UNION {Refine(raw, a, NextIn(raw, an, a), e, len, fl) : a \in an}
Simple(raw, e, len, fl) ==
  LET kp == Force(Kept(raw, e, len, fl)) IN
  [j \in 1..Cardinality(kp) |->
     LET k == CHOOSE q \in kp : Cardinality({u \in kp : u < q}) = j - 1 IN <<raw[k][1], raw[k][2], raw[k][3], LabelOf(raw, k)>>]
Cases == Tols \X Lens \X Flags
Cs(q) == [k \in DOMAIN done |-> [reg |-> reg[done[k][1][1]], raw |-> Raw(k), vs |-> Simple(Raw(k), q[1], q[2], q[3])]]
\* the deterministic procedure satisfies the relation the implementation is held to
Procedure == phase = "done" => \A q \in Cases : LET cs == Force(Cs(q)) IN
  /\ \A k \in DOMAIN cs : Len(cs[k].vs) < 3 \/ SimpleBad(cs[k], q[1], q[2], q[3]) = {}
  /\ SharedBad(cs) = {}
  /\ \A k \in DOMAIN cs : MustAppear(cs[k].raw, q[1]) => Len(cs[k].vs) >= 3
\* and that relation means what it should: tolerance, region changes, edge length
Meaning == phase = "done" => \A q \in Cases : \A k \in DOMAIN done :
  LET raw == Raw(k)  kp == Force(Kept(raw, q[1], q[2], q[3])) IN
  /\ \A j \in DOMAIN raw : Connected(raw) /\ Change(raw, j) => j \in kp
  /\ \A a \in kp : LET n == NextIn(raw, kp, a)  l2 == Len2(raw[a], raw[n]) IN
       /\ (Fits(After(raw, a)) /\ (q[2] = 0 \/ ~Splits(After(raw, a), q[3]))) => 100 * MaxDev(Devs(raw, a, n)) <= q[1] * q[1] * l2
       /\ (q[2] > 0 /\ Splits(After(raw, a), q[3]) /\ Gap(raw, a, n) > 1) => l2 <= q[2] * q[2]
=============================================================================
