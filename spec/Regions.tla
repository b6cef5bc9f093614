------------------------------- MODULE Regions ------------------------------
(***************************************************************************)
(* C12, C13: partition of the walkable surface into regions.                *)
(*                                                                           *)
(* First part: what every result has to satisfy (C12).                       *)
(* Second part: the watershed, step by step, which yields the partition that *)
(* the size rules are applied to.  Third part: the size rules (C13).          *)
(*                                                                           *)
(* A surface is s = [w, h, n, nb, ar, df, maxd, co]: links, areas, distance  *)
(* field, its maximum and the column of every open span.                     *)
(***************************************************************************)
EXTENDS Erosion

BORDER == 32768
IsBorder(r) == r >= BORDER
Surface(chf, dist, maxd) ==
  Force([w |-> chf.w, h |-> chf.h, n |-> Len(chf.sp), nb |-> Links(chf), ar |-> chf.ar,
         df |-> dist, maxd |-> maxd, co |-> ColOfSpans(chf),
         y |-> [i \in DOMAIN chf.sp |-> chf.sp[i][1]]])

\* ---- border margin -----------------------------------------------------------
InMargin(s, b, i) ==
  LET x == ColX(s.w, s.co[i])  z == ColZ(s.w, s.co[i]) IN
  b > 0 /\ (x < b \/ x >= s.w - b \/ z < b \/ z >= s.h - b)

\* ---- C12 -----------------------------------------------------------------------
\* spans reachable from the span set A within span set S along links
RECURSIVE Grow(_, _, _, _)
Grow(nb, S, seen, frontier) ==
  IF frontier = {} THEN seen
  ELSE LET next == (UNION {{nb[i][e] : e \in 1..4} : i \in frontier} \cap S) \ seen
       IN Grow(nb, S, seen \cup next, next)
\* connected when links are followed in either direction from some member
ConnectedSet(nb, S) ==
  S = {} \/ \E r \in S : Grow(nb, S, {r}, {r}) = S

RegionsBad(s, b, minSize, post) ==
  LET reg == post.reg
      ids == {reg[i] : i \in DOMAIN reg} \ {0}
      inner == {r \in ids : ~IsBorder(r)}
  IN IF Len(reg) # s.n THEN {"length"}
     ELSE (IF post.bs = b THEN {} ELSE {"border size"})
       \cup (IF \A i \in DOMAIN reg : ~Walk(s.ar[i]) => reg[i] = 0 THEN {} ELSE {"unwalkable span in a region"})
       \cup (IF \A i \in DOMAIN reg : Walk(s.ar[i]) => (IsBorder(reg[i]) <=> InMargin(s, b, i)) THEN {} ELSE {"border margin"})
       \cup (IF \A r \in inner : r >= 1 /\ r <= post.maxr THEN {} ELSE {"region id out of range"})
       \cup (IF \A r \in inner : Cardinality({s.ar[i] : i \in {j \in DOMAIN reg : reg[j] = r}}) = 1 THEN {} ELSE {"region mixes areas"})
       \cup (IF \A r \in inner : ConnectedSet(s.nb, {j \in DOMAIN reg : reg[j] = r}) THEN {} ELSE {"region not connected"})
       \cup (IF minSize = 0 /\ b = 0 /\ s.maxd > 0
             THEN (IF \A i \in DOMAIN reg : Walk(s.ar[i]) => reg[i] # 0 THEN {} ELSE {"walkable span without region"})
             ELSE {})

\* ---- the watershed --------------------------------------------------------------
Paint(s, b) ==
  IF b = 0 THEN [i \in 1..s.n |-> 0]
  ELSE LET bw == Mn(b, s.w)  bh == Mn(b, s.h) IN
    [i \in 1..s.n |->
       LET x == ColX(s.w, s.co[i])  z == ColZ(s.w, s.co[i]) IN
       IF ~Walk(s.ar[i]) THEN 0
       ELSE IF z >= s.h - bh THEN BORDER + 4
       ELSE IF z < bh THEN BORDER + 3
       ELSE IF x >= s.w - bw THEN BORDER + 2
       ELSE IF x < bw THEN BORDER + 1 ELSE 0]

NSTACKS == 8
\* unassigned walkable spans of stack k (0-based) when sorting from `level`
StackAt(s, reg, level, k) ==
  SelectSeq([i \in 1..s.n |-> i],
    LAMBDA i : Walk(s.ar[i]) /\ reg[i] = 0 /\ Mx(0, (level \div 2) - (s.df[i] \div 2)) = k)
LiveOnly(stack, reg) == [k \in DOMAIN stack |-> IF stack[k] # 0 /\ reg[stack[k]] # 0 THEN 0 ELSE stack[k]]

\* best neighbouring region of span i: <<region, distance>>
BestNeighbour(s, reg, sd, i) ==
  LET pick(acc, e) ==
        LET a == s.nb[i][e] IN
        IF a = 0 \/ s.ar[a] # s.ar[i] \/ reg[a] = 0 \/ IsBorder(reg[a]) \/ sd[a] + 2 >= acc[2] THEN acc
        ELSE <<reg[a], sd[a] + 2>>
  IN pick(pick(pick(pick(<<0, 65535>>, 1), 2), 3), 4)

RECURSIVE Expand(_, _, _, _, _, _)
Expand(s, reg, sd, stack, level, left) ==
  IF stack = <<>> THEN [reg |-> reg, sd |-> sd, stack |-> stack]
  ELSE
    LET best == Force([k \in DOMAIN stack |-> IF stack[k] = 0 THEN <<0, 0>> ELSE BestNeighbour(s, reg, sd, stack[k])])
        hit == {k \in DOMAIN stack : best[k][1] # 0}
        of == Force([i \in {stack[k] : k \in hit} |-> CHOOSE k \in hit : stack[k] = i])
        reg2 == Force([i \in 1..s.n |-> IF i \in DOMAIN of THEN best[of[i]][1] ELSE reg[i]])
        sd2 == Force([i \in 1..s.n |-> IF i \in DOMAIN of THEN best[of[i]][2] ELSE sd[i]])
        st2 == Force([k \in DOMAIN stack |-> IF k \in hit THEN 0 ELSE stack[k]])
    IN IF hit = {} THEN [reg |-> reg, sd |-> sd, stack |-> stack]
       ELSE IF level > 0 /\ left = 1 THEN [reg |-> reg2, sd |-> sd2, stack |-> st2]
       ELSE Expand(s, reg2, sd2, st2, level, left - 1)

\* another region within the eight-neighbourhood of ci
TouchesOther(s, reg, ci, id) ==
  \E e \in 1..4 :
    LET a == s.nb[ci][e] IN
    /\ a # 0 /\ s.ar[a] = s.ar[ci] /\ ~IsBorder(reg[a])
    /\ \/ reg[a] \notin {0, id}
       \/ LET b == s.nb[a][1 + (e % 4)] IN b # 0 /\ s.ar[b] = s.ar[ci] /\ reg[b] \notin {0, id}
RECURSIVE Flood(_, _, _, _, _, _, _)
Flood(s, reg, sd, level, id, stack, count) ==
  IF stack = <<>> THEN [reg |-> reg, sd |-> sd, count |-> count]
  ELSE LET ci == stack[Len(stack)]  rest == SubSeq(stack, 1, Len(stack) - 1) IN
    IF TouchesOther(s, reg, ci, id)
    THEN Flood(s, Force([reg EXCEPT ![ci] = 0]), sd, level, id, rest, count)
    ELSE LET new == SelectSeq(s.nb[ci], LAMBDA a : a # 0 /\ s.ar[a] = s.ar[ci] /\ s.df[a] >= level /\ reg[a] = 0)
         IN Flood(s, Force([i \in 1..s.n |-> IF i \in Elems(new) THEN id ELSE reg[i]]),
                     Force([i \in 1..s.n |-> IF i \in Elems(new) THEN 0 ELSE sd[i]]),
                     level, id, rest \o new, count + 1)
RECURSIVE FloodAll(_, _, _, _, _, _, _)
FloodAll(s, reg, sd, level, id, stack, k) ==
  IF k > Len(stack) THEN [reg |-> reg, sd |-> sd, id |-> id]
  ELSE LET i == stack[k] IN
    IF i = 0 \/ reg[i] # 0 THEN FloodAll(s, reg, sd, level, id, stack, k + 1)
    ELSE LET f == Flood(s, Force([reg EXCEPT ![i] = id]), Force([sd EXCEPT ![i] = 0]), Mx(0, level - 2), id, <<i>>, 0)
         IN FloodAll(s, f.reg, f.sd, level, IF f.count > 0 THEN id + 1 ELSE id, stack, k + 1)

\* one level of the watershed; st = [reg, sd, id, level, sid, prev]
WStep(s, st) ==
  LET level == Mx(0, st.level - 2)
      sid == (st.sid + 1) % NSTACKS
      base == IF sid = 0 THEN level ELSE st.base     \* level the stacks were sorted from
      \* what sorting puts in stack sid, fixed when the stacks were filled
      fresh == IF sid = 0 THEN [k \in 0..(NSTACKS - 1) |-> StackAt(s, st.reg, level, k)] ELSE st.stacks
      stack0 == IF sid = 0 THEN fresh[0]
                ELSE fresh[sid] \o SelectSeq(st.prev, LAMBDA i : i # 0 /\ st.reg[i] = 0)
      e == Expand(s, st.reg, st.sd, LiveOnly(stack0, st.reg), level, 8)
      f == FloodAll(s, e.reg, e.sd, level, st.id, e.stack, 1)
  IN Force([reg |-> f.reg, sd |-> f.sd, id |-> f.id, level |-> level, sid |-> sid, base |-> base,
            stacks |-> fresh, prev |-> e.stack])
WStart(s, b) ==
  [reg |-> Force(Paint(s, b)), sd |-> [i \in 1..s.n |-> 0], id |-> IF b > 0 THEN 5 ELSE 1,
   level |-> 2 * ((s.maxd + 1) \div 2), sid |-> -1, base |-> 0, stacks |-> <<>>, prev |-> <<>>]
RECURSIVE WLoop(_, _)
WLoop(s, st) == IF st.level = 0 THEN st ELSE WLoop(s, WStep(s, st))
WFinish(s, st) ==
  LET rest == SelectSeq([i \in 1..s.n |-> i], LAMBDA i : Walk(s.ar[i]) /\ st.reg[i] = 0)
      e == Expand(s, st.reg, st.sd, rest, 0, 0)
  IN [reg |-> e.reg, id |-> st.id]
\* the partition before the size rules, and the next free id
Watershed(s, b) == WFinish(s, WLoop(s, WStart(s, b)))

\* ---- C13: the size rules ----------------------------------------------------------
RegAt(s, reg, i, d) == LET a == s.nb[i][d + 1] IN IF a = 0 THEN 0 ELSE reg[a]
SolidEdge(s, reg, i, d) == RegAt(s, reg, i, d) # reg[i]
\* regions met when walking once around the boundary that starts at <<i, d>>
RECURSIVE Around(_, _, _, _, _, _, _)
Around(s, reg, i, d, start, acc, fuel) ==
  LET turn == SolidEdge(s, reg, i, d)
      r == RegAt(s, reg, i, d)
      acc2 == IF turn /\ r # acc[Len(acc)] THEN Append(acc, r) ELSE acc
      i2 == IF turn THEN i ELSE s.nb[i][d + 1]
      d2 == IF turn THEN CW(d) ELSE CCW(d)
  IN IF fuel = 0 \/ <<i2, d2>> = start THEN acc2 ELSE Around(s, reg, i2, d2, start, acc2, fuel - 1)
RECURSIVE DropDup(_, _)
DropDup(c, j) ==
  IF Len(c) <= 1 \/ j > Len(c) THEN c
  ELSE IF c[j] = c[1 + (j % Len(c))]
       THEN DropDup(SubSeq(c, 1, j - 1) \o SubSeq(c, j + 1, Len(c)), j)
       ELSE DropDup(c, j + 1)
Connections(s, reg, i, d) == DropDup(Around(s, reg, i, d, <<i, d>>, <<RegAt(s, reg, i, d)>>, 4 * s.n + 4), 1)

\* region records, rs[r+1] for region id r
BuildRecords(s, reg, maxid) ==
  [k \in 1..(maxid + 1) |->
    LET r == k - 1
        mem == IF r = 0 THEN {} ELSE {i \in 1..s.n : reg[i] = r}
        edge == {i \in mem : \E d \in Dirs : SolidEdge(s, reg, i, d)}
        first == MinOf(edge)
        others == UNION {{reg[j] : j \in {q \in 1..s.n : s.co[q] = s.co[i] /\ q # i}} : i \in mem}
    IN [id |-> r, n |-> Cardinality(mem),
        ar |-> IF mem = {} THEN 0 ELSE IF edge = {} THEN s.ar[MaxOf(mem)] ELSE s.ar[first],
        conns |-> IF edge = {} THEN <<>> ELSE Connections(s, reg, first, MinOf({d \in Dirs : SolidEdge(s, reg, first, d)})),
        floors |-> {f \in others : f # 0 /\ f <= maxid},
        overlap |-> r \in others /\ r # 0]]

\* discard small groups; regions are visited from the lowest id on
RECURSIVE Reach(_, _, _)
Reach(rs, todo, seen) ==
  IF todo = {} THEN seen
  ELSE LET nx == UNION {{c \in Elems(rs[r + 1].conns) : c # 0 /\ ~IsBorder(c)} : r \in todo} \ seen
       IN Reach(rs, nx, seen \cup nx)
Discard(rs, minSize) ==
  LET go(acc, k) ==
        LET r == k - 1 IN
        IF r = 0 \/ rs[k].n = 0 \/ r \in acc.seen THEN acc
        ELSE LET grp == Reach(rs, {r}, acc.seen \cup {r}) \ acc.seen
                 total == SumSeq([j \in 1..Len(rs) |-> IF j - 1 \in grp THEN rs[j].n ELSE 0])
                 border == \E g \in grp : \E c \in Elems(rs[g + 1].conns) : IsBorder(c)
             IN [seen |-> acc.seen \cup grp,
                 dead |-> IF total < minSize /\ ~border THEN acc.dead \cup grp ELSE acc.dead]
      res == FoldLeft(go, [seen |-> {}, dead |-> {}], [k \in 1..Len(rs) |-> k])
  IN [k \in DOMAIN rs |-> IF k - 1 \in res.dead THEN [rs[k] EXCEPT !.id = 0, !.n = 0] ELSE rs[k]]

CanMerge(a, b) ==
  /\ a.ar = b.ar
  /\ Cardinality({k \in DOMAIN a.conns : a.conns[k] = b.id}) <= 1
  /\ b.id \notin a.floors
\* target for region k (1-based), or 0
MergeTarget(rs, k) ==
  LET a == rs[k]
      pick(acc, c) ==
        IF IsBorder(c) THEN acc
        ELSE LET m == rs[c + 1] IN
             IF m.id = 0 \/ m.overlap \/ (acc # 0 /\ m.n >= rs[acc].n) \/ ~CanMerge(a, m) \/ ~CanMerge(m, a)
             THEN acc ELSE m.id + 1
      t == FoldLeft(pick, 0, a.conns)
  IN IF t # 0 /\ t - 1 # a.id THEN t ELSE 0
WantsMerge(a, mergeSize) ==
  a.id # 0 /\ ~a.overlap /\ a.n > 0 /\ ~(a.n > mergeSize /\ 0 \in Elems(a.conns))
PosOf(c, v) == IF v \in Elems(c) THEN MinOf({k \in DOMAIN c : c[k] = v}) ELSE 0
Rotated(c, p) == [k \in 1..(Len(c) - 1) |-> c[1 + ((p - 1 + k) % Len(c))]]
DoMerge(rs, k, t) ==
  LET a == rs[t]  b == rs[k]
      pa == PosOf(a.conns, b.id)  pb == PosOf(b.conns, a.id)
      merged == [a EXCEPT !.conns = DropDup(Rotated(a.conns, pa) \o Rotated(b.conns, pb), 1),
                          !.floors = a.floors \cup b.floors, !.n = a.n + b.n]
      r1 == [rs EXCEPT ![t] = merged, ![k] = [b EXCEPT !.n = 0, !.conns = <<>>]]
      rename(q) == IF q.id = 0 THEN q ELSE
        LET c2 == [j \in DOMAIN q.conns |-> IF q.conns[j] = b.id THEN a.id ELSE q.conns[j]]
        IN [q EXCEPT !.id = IF q.id = b.id THEN a.id ELSE q.id,
                     !.conns = IF b.id \in Elems(q.conns) THEN DropDup(c2, 1) ELSE q.conns,
                     !.floors = {IF f = b.id THEN a.id ELSE f : f \in q.floors}]
  IN IF pa = 0 \/ pb = 0 THEN rs ELSE Force([j \in DOMAIN r1 |-> rename(r1[j])])
\* one round over all regions; merged = whether anything changed
MergeRound(rs, mergeSize) ==
  FoldLeft(LAMBDA acc, k :
     IF ~WantsMerge(acc.rs[k], mergeSize) THEN acc
     ELSE LET t == MergeTarget(acc.rs, k) IN
          IF t = 0 THEN acc
          ELSE LET r2 == DoMerge(acc.rs, k, t) IN [rs |-> r2, merged |-> acc.merged \/ r2 # acc.rs],
     [rs |-> rs, merged |-> FALSE], [k \in 1..Len(rs) |-> k])
RECURSIVE MergeAll(_, _)
MergeAll(rs, mergeSize) ==
  LET m == MergeRound(rs, mergeSize) IN IF m.merged THEN MergeAll(m.rs, mergeSize) ELSE m.rs

\* compact numbering in order of first appearance
Renumber(rs) ==
  LET firsts == SelectSeq([k \in 1..Len(rs) |-> k],
                          LAMBDA k : rs[k].id # 0 /\ \A j \in 1..(k - 1) : rs[j].id # rs[k].id)
      newOf == [v \in {rs[k].id : k \in Elems(firsts)} |-> CHOOSE j \in DOMAIN firsts : rs[firsts[j]].id = v]
  IN [map |-> [k \in DOMAIN rs |-> IF rs[k].id = 0 THEN 0 ELSE newOf[rs[k].id]], max |-> Len(firsts)]

FinalRegions(s, b, minSize, mergeSize) ==
  LET p == Watershed(s, b)
      rs == MergeAll(Force(Discard(Force(BuildRecords(s, p.reg, p.id)), minSize)), mergeSize)
      nn == Renumber(rs)
  IN [reg |-> [i \in 1..s.n |-> IF IsBorder(p.reg[i]) THEN p.reg[i] ELSE nn.map[p.reg[i] + 1]],
      maxr |-> nn.max]
\* two numberings of the same partition
SamePartition(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A i \in DOMAIN a : (a[i] = 0 <=> b[i] = 0) /\ (IsBorder(a[i]) <=> IsBorder(b[i]))
  /\ LET pairs == {<<a[i], b[i]>> : i \in {j \in DOMAIN a : ~IsBorder(a[j])}} IN
     Cardinality(pairs) = Cardinality({q[1] : q \in pairs}) /\ Cardinality(pairs) = Cardinality({q[2] : q \in pairs})
SizesBad(s, b, minSize, mergeSize, post) ==
  LET want == FinalRegions(s, b, minSize, mergeSize) IN
  IF SamePartition(want.reg, post.reg) THEN {} ELSE {"region partition"}
=============================================================================
