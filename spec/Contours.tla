------------------------------ MODULE Contours -----------------------------
(***************************************************************************)
(* C14, C15: raw contours of the regions and their simplification.           *)
(* A surface is s = [w, h, n, nb, ar, co, y] (module Regions) with regions    *)
(* reg, border margin b.  A vertex is <<x, y, z, r>>; r holds the region      *)
(* across the boundary edge that ends in the vertex, plus flags.              *)
(***************************************************************************)
EXTENDS Regions

BORDER_VERTEX == 65536
AREA_BORDER == 131072
Reg16(r) == r % 65536
HasBV(r) == (r \div BORDER_VERTEX) % 2 = 1
HasAB(r) == (r \div AREA_BORDER) % 2 = 1

\* ---- C14: boundary walks -------------------------------------------------------
InnerSpan(reg, i) == reg[i] # 0 /\ ~IsBorder(reg[i])
Edge(s, reg, i, d) == InnerSpan(reg, i) /\ SolidEdge(s, reg, i, d)
\* spans around the corner that ends edge <<i, d>>: own, across, diagonal, along; 0 = none
At(s, i, d) == IF i = 0 THEN 0 ELSE s.nb[i][d + 1]
Corner(s, i, d) ==
  LET a == At(s, i, d)  c == At(s, i, CW(d))
      viaA == At(s, a, CW(d))  viaC == At(s, c, d)
  IN [own |-> i, across |-> a, diag |-> IF viaC # 0 THEN viaC ELSE viaA, along |-> c,
      all |-> {i, a, viaA, c, viaC} \ {0}]
CornerY(s, i, d) == MaxOf({s.y[k] : k \in Corner(s, i, d).all})
\* a removable vertex of the tile edge: two equal exterior spans in a row, then two interior spans of one area
RemovableCorner(s, reg, i, d) ==
  LET c == Corner(s, i, d)
      q == <<c.own, c.across, c.diag, c.along>>
      \* region and area code of a corner position; nothing there and nothing assigned look alike
      code == [k \in 1..4 |-> IF q[k] = 0 THEN <<0, 0>> ELSE <<reg[q[k]], s.ar[q[k]]>>]
      at(k) == code[1 + (k % 4)]
  IN \E k \in 0..3 :
       /\ at(k) = at(k + 1) /\ IsBorder(at(k)[1])
       /\ ~IsBorder(at(k + 2)[1]) /\ ~IsBorder(at(k + 3)[1])
       /\ at(k + 2)[2] = at(k + 3)[2]
       /\ \A j \in 0..3 : at(j) # <<0, 0>>
CornerX(d) == <<0, 1, 1, 0>>[d + 1]
CornerZ(d) == <<1, 1, 0, 0>>[d + 1]
RawVertex(s, reg, b, i, d) ==
  LET a == At(s, i, d) IN
  << Mx(0, ColX(s.w, s.co[i]) + CornerX(d) - b), CornerY(s, i, d), Mx(0, ColZ(s.w, s.co[i]) + CornerZ(d) - b),
     (IF a = 0 THEN 0 ELSE reg[a])
     + (IF RemovableCorner(s, reg, i, d) THEN BORDER_VERTEX ELSE 0)
     + (IF a # 0 /\ s.ar[a] # s.ar[i] THEN AREA_BORDER ELSE 0) >>
\* the boundary edge that follows <<i, d>>
RECURSIVE Settle(_, _, _, _)
Settle(s, reg, i, d) == IF Edge(s, reg, i, d) THEN <<i, d>> ELSE Settle(s, reg, s.nb[i][d + 1], CCW(d))
NextEdge(s, reg, e) == Settle(s, reg, e[1], CW(e[2]))
RECURSIVE LoopFrom(_, _, _, _)
LoopFrom(s, reg, e, acc) ==
  LET nx == NextEdge(s, reg, e) IN IF nx = acc[1] THEN acc ELSE LoopFrom(s, reg, nx, Append(acc, nx))
\* all boundary walks, each from its first edge; lone spans have no polygon
LoopSet(s, reg) ==
  LET lone(i) == \A d \in Dirs : Edge(s, reg, i, d)
      go(acc, i) ==
        LET at(a2, d) == IF ~Edge(s, reg, i, d) \/ <<i, d>> \in a2.seen THEN a2
                         ELSE LET lp == Force(LoopFrom(s, reg, <<i, d>>, <<<<i, d>>>>))
                              IN [seen |-> a2.seen \cup Elems(lp), loops |-> Append(a2.loops, lp)]
        IN IF lone(i) THEN acc ELSE FoldLeft(at, acc, <<0, 1, 2, 3>>)
  IN FoldLeft(go, [seen |-> {}, loops |-> <<>>], [i \in 1..s.n |-> i]).loops
Loops(s, reg, b) ==
  LET ls == Force(LoopSet(s, reg)) IN
  Force([k \in DOMAIN ls |->
     [reg |-> reg[ls[k][1][1]], ar |-> s.ar[ls[k][1][1]],
      raw |-> [j \in DOMAIN ls[k] |-> RawVertex(s, reg, b, ls[k][j][1], ls[k][j][2])]]])

\* equal up to the starting point
SameCycle(a, b) ==
  Len(a) = Len(b) /\ \E k \in 0..(Len(a) - 1) : /\ b[1 + k] = a[1]
                                                /\ \A j \in DOMAIN a : a[j] = b[1 + ((j - 1 + k) % Len(b))]

\* ---- C15: simplification --------------------------------------------------------
\* tolerance e tenths of a cell; distances are exact fractions num / len2 of cells squared
Len2(p, q) == (q[1] - p[1]) * (q[1] - p[1]) + (q[3] - p[3]) * (q[3] - p[3])
DevNum(p, q, v) ==
  LET dx == q[1] - p[1]  dz == q[3] - p[3]  vx == v[1] - p[1]  vz == v[3] - p[3]
      l2 == dx * dx + dz * dz  t == dx * vx + dz * vz  cr == dx * vz - dz * vx
  IN IF t <= 0 THEN (vx * vx + vz * vz) * l2
     ELSE IF t >= l2 THEN Len2(q, v) * l2 ELSE cr * cr
\* floating point leaves values this close undecided
Slack(l2) == 1 + l2 \div 50
Over(num, l2, e) == 100 * num > e * e * l2 + Slack(l2)          \* certainly above the tolerance
Under(num, l2, e) == 100 * num < e * e * l2 - Slack(l2)         \* certainly within

Wrap(n, k) == 1 + ((k - 1) % n)
\* label of the stretch that starts after raw index a
After(raw, a) == raw[Wrap(Len(raw), a + 1)][4]
Change(raw, k) ==
  LET r == raw[k][4]  q == After(raw, k) IN Reg16(r) # Reg16(q) \/ HasAB(r) # HasAB(q)
Connected(raw) == \E k \in DOMAIN raw : Reg16(raw[k][4]) # 0
LowerLeft(raw) == MinOf({k \in DOMAIN raw : \A j \in DOMAIN raw :
    raw[k][1] < raw[j][1] \/ (raw[k][1] = raw[j][1] /\ raw[k][3] <= raw[j][3])})
UpperRight(raw) == MinOf({k \in DOMAIN raw : \A j \in DOMAIN raw :
    raw[k][1] > raw[j][1] \/ (raw[k][1] = raw[j][1] /\ raw[k][3] >= raw[j][3])})
\* the vertices every simplification starts from
Anchors(raw) ==
  LET c == {k \in DOMAIN raw : Change(raw, k)} IN
  IF Connected(raw) /\ c # {} THEN c ELSE {LowerLeft(raw), UpperRight(raw)}
Fits(label) == Reg16(label) = 0 \/ HasAB(label)       \* walls and area borders follow their raw shape
Splits(label, fl) == (fl % 2 = 1 /\ Reg16(label) = 0) \/ ((fl \div 2) % 2 = 1 /\ HasAB(label))

\* steps from raw index a forward to b
Gap(raw, a, b) == LET n == Len(raw) IN IF b > a THEN b - a ELSE b - a + n
\* deviations of the vertices strictly between a and b; the sequence is indexed by steps from a
Devs(raw, a, b) ==
  [t \in 1..(Gap(raw, a, b) - 1) |-> DevNum(raw[a], raw[b], raw[Wrap(Len(raw), a + t)])]
MaxDev(ds) == IF ds = <<>> THEN 0 ELSE MaxOf(Elems(ds))
\* kept: steps from a of the vertices kept strictly between a and b
RECURSIVE SplitOK(_, _, _, _, _, _)
SplitOK(raw, a, b, kept, len, fl) ==
  LET n == Gap(raw, a, b)
      cut == len > 0 /\ Splits(After(raw, a), fl) /\ Len2(raw[a], raw[b]) > len * len /\ n > 1
      fwd == raw[b][1] > raw[a][1] \/ (raw[b][1] = raw[a][1] /\ raw[b][3] > raw[a][3])
      m == IF fwd THEN n \div 2 ELSE (n + 1) \div 2
      k == Wrap(Len(raw), a + m)
  IN IF ~cut THEN kept = {}
     ELSE m \in kept /\ SplitOK(raw, a, k, {t \in kept : t < m}, len, fl)
                     /\ SplitOK(raw, k, b, {t - m : t \in {u \in kept : u > m}}, len, fl)
RECURSIVE StretchOK(_, _, _, _, _, _, _)
StretchOK(raw, a, b, kept, e, len, fl) ==
  LET l2 == Len2(raw[a], raw[b])
      ds == Force(Devs(raw, a, b))
      mx == IF Fits(After(raw, a)) THEN MaxDev(ds) ELSE 0
      maySplit == kept # {} /\ Fits(After(raw, a)) /\ ~Under(mx, l2, e) /\
        \E t \in kept : /\ 100 * (mx - ds[t]) <= Slack(l2)
                        /\ LET k == Wrap(Len(raw), a + t) IN
                           /\ StretchOK(raw, a, k, {u \in kept : u < t}, e, len, fl)
                           /\ StretchOK(raw, k, b, {u - t : u \in {v \in kept : v > t}}, e, len, fl)
  IN maySplit \/ (~Over(mx, l2, e) /\ SplitOK(raw, a, b, kept, len, fl))

\* ways to read the simplified vertices as raw vertices in order (raw indices)
LabelOf(raw, k) ==
  LET q == After(raw, k) IN
  Reg16(q) + (IF HasAB(q) THEN AREA_BORDER ELSE 0) + (IF HasBV(raw[k][4]) THEN BORDER_VERTEX ELSE 0)
Matches(raw, k, v) == raw[k][1] = v[1] /\ raw[k][2] = v[2] /\ raw[k][3] = v[3] /\ LabelOf(raw, k) = v[4]
Readings(raw, vs) ==
  LET n == Len(raw)
      step(acc, v) == UNION {{Append(m, t) : t \in {u \in (m[Len(m)] + 1)..(m[1] + n - 1) : Matches(raw, Wrap(n, u), v)}} : m \in acc}
  IN FoldLeft(step, {<<k>> : k \in {j \in DOMAIN raw : Matches(raw, j, vs[1])}}, SubSeq(vs, 2, Len(vs)))
\* (step numbers may exceed n: they continue past the end of the raw cycle)

Xz(v) == <<v[1], v[3]>>
Repeats(raw) == Cardinality({Xz(raw[k]) : k \in DOMAIN raw}) < Len(raw)
\* a reading m is right when each stretch between anchors is refined as prescribed
ReadingOK(raw, m, e, len, fl) ==
  LET n == Len(raw)
      idx == {Wrap(n, t) : t \in Elems(m)}
      an == Anchors(raw)
      nextAnchor(a) == CHOOSE b \in an : \A c \in an : Gap(raw, a, b) <= Gap(raw, a, c)
  IN /\ an \subseteq idx
     /\ \A a \in an : LET b == nextAnchor(a) IN
          StretchOK(raw, a, b, {Gap(raw, a, k) : k \in {q \in idx \ {a} : Gap(raw, a, q) < Gap(raw, a, b)}}, e, len, fl)
\* coarser test for walks that touch themselves: in order, in tolerance
ReadingNear(raw, m, e, len, fl) ==
  LET n == Len(raw) IN
  \A j \in DOMAIN m :
    LET a == Wrap(n, m[j])  b == Wrap(n, m[1 + (j % Len(m))]) IN
    (Fits(After(raw, a)) /\ (len = 0 \/ ~Splits(After(raw, a), fl))) => LET l2 == Len2(raw[a], raw[b]) IN l2 = 0 \/ ~Over(MaxDev(Force(Devs(raw, a, b))), l2, e)
SimpleBad(c, e, len, fl) ==
  IF Len(c.vs) < 3 THEN {"contour with fewer than three vertices"}
  ELSE LET ms == Force(Readings(c.raw, c.vs)) IN
  IF ms = {} THEN {"not a subsequence of the raw contour"}
  ELSE IF \E m \in ms : ReadingOK(c.raw, m, e, len, fl) THEN {}
  ELSE IF ~Repeats(c.raw) THEN
    LET m == CHOOSE q \in ms : TRUE IN
    IF ~(Anchors(c.raw) \subseteq {Wrap(Len(c.raw), t) : t \in Elems(m)}) THEN {"region change lost"}
    ELSE IF ~ReadingNear(c.raw, m, e, len, fl) THEN {"tolerance exceeded"} ELSE {"refinement"}
  ELSE IF \E m \in ms : ReadingNear(c.raw, m, e, len, fl) THEN {} ELSE {"tolerance exceeded"}

\* shared area borders are simplified alike from both sides
Stretches(c) ==
  LET raw == c.raw  n == Len(raw)  an == Anchors(raw)
      nextAnchor(a) == CHOOSE b \in an : \A q \in an : Gap(raw, a, b) <= Gap(raw, a, q)
      kept == {<<c.vs[j][1], c.vs[j][3]>> : j \in DOMAIN c.vs}
  IN {LET b == nextAnchor(a)
          way == [t \in 1..(Gap(raw, a, b) + 1) |-> Xz(raw[Wrap(n, a + t - 1)])]
      IN [from |-> c.reg, to |-> Reg16(After(raw, a)), way |-> way, kept |-> kept \cap Elems(way)]
      : a \in {k \in an : HasAB(After(raw, k)) /\ ~IsBorder(Reg16(After(raw, k)))}}
SharedBad(cs) ==
  LET simple == Force(SelectSeq(cs, LAMBDA c : ~Repeats(c.raw) /\ Len(c.vs) >= 3))
      all == Force(UNION {Stretches(simple[k]) : k \in DOMAIN simple})
  IN IF \A p, q \in all : (p.from = q.to /\ p.to = q.from /\ Len(p.way) = Len(q.way) /\ p.way = Reverse(q.way)) => p.kept = q.kept
     THEN {} ELSE {"shared border simplified differently"}

\* a walk that certainly keeps three vertices
MustAppear(raw, e) ==
  LET an == Anchors(raw)
      nextAnchor(a) == CHOOSE b \in an : \A q \in an : Gap(raw, a, b) <= Gap(raw, a, q)
  IN Cardinality({Xz(raw[k]) : k \in an}) >= 3
     \/ (~Repeats(raw) /\ \E a \in an : LET b == nextAnchor(a) IN
            Fits(After(raw, a)) /\ Over(MaxDev(Force(Devs(raw, a, b))), Len2(raw[a], raw[b]), e))

\* ---- holes ---------------------------------------------------------------------------
\* twice the enclosed area; outlines positive, holes negative
Area2(c) == SumSeq([j \in DOMAIN c |-> LET p == c[1 + ((j - 2) % Len(c))] IN c[j][1] * p[3] - p[1] * c[j][3]])
Cross(p, q, r) == (q[1] - p[1]) * (r[3] - p[3]) - (r[1] - p[1]) * (q[3] - p[3])
Prev(k, n) == 1 + ((k - 2) % n)
Succ(k, n) == 1 + (k % n)
OnSegment(p, q, r) == Cross(p, q, r) = 0 /\ Mn(p[1], q[1]) <= r[1] /\ r[1] <= Mx(p[1], q[1]) /\ Mn(p[3], q[3]) <= r[3] /\ r[3] <= Mx(p[3], q[3])
Proper(p, q, r, t) == Sgn(Cross(p, q, r)) * Sgn(Cross(p, q, t)) < 0 /\ Sgn(Cross(r, t, p)) * Sgn(Cross(r, t, q)) < 0
Meets(p, q, r, t) == Proper(p, q, r, t) \/ OnSegment(p, q, r) \/ OnSegment(p, q, t) \/ OnSegment(r, t, p) \/ OnSegment(r, t, q)
\* segment p-q runs into an edge of contour c that does not touch its ends
Blocked(p, q, c) ==
  \E k \in DOMAIN c : LET a == c[k]  e == c[Succ(k, Len(c))] IN
    /\ {Xz(a), Xz(e)} \cap {Xz(p), Xz(q)} = {}
    /\ Meets(p, q, a, e)
\* a merged contour is, as a cycle: the outline from one of its vertices back to it, then a hole likewise.
\* Undo(m, raws) = all ways to take the holes with these raw contours out of m again
Rotate(m, k) == [j \in DOMAIN m |-> m[Wrap(Len(m), j + k)]]
RECURSIVE Undo(_, _)
Undo(m, raws) ==
  IF raws = {} THEN {[outline |-> m, holes |-> <<>>, bridges |-> <<>>]}
  ELSE
    LET n == Len(m)
        \* outline from i to i + q, then the hole
        splits == {x \in (1..n) \X (3..(n - 4)) : /\ m[Wrap(n, x[1] + x[2])] = m[x[1]]
                                                 /\ m[Wrap(n, x[1] + x[2] + 1)] = m[Wrap(n, x[1] - 1)]}
        hole(x) == SubSeq(Rotate(m, x[1] - 1), x[2] + 2, n - 1)
        rest(x) == SubSeq(Rotate(m, x[1] - 1), 1, x[2])
        tries == {[x |-> x, r |-> r] : x \in splits, r \in raws}
        fits == {t \in tries : Readings(t.r, hole(t.x)) # {}}
    IN Force(UNION {
         {[outline |-> u.outline,
           holes |-> Append(u.holes, [raw |-> t.r, vs |-> hole(t.x)]),
           bridges |-> Append(u.bridges, <<m[t.x[1]], m[Wrap(n, t.x[1] - 1)]>>)] : u \in Undo(rest(t.x), raws \ {t.r})}
         : t \in fits})
\* the contours before merging; an outline takes all the emptied contours of its region
Merged(cs, r) == {k \in DOMAIN cs : cs[k].reg = r /\ cs[k].vs = <<>>}
Outlines(cs, r) == {k \in DOMAIN cs : cs[k].reg = r /\ cs[k].vs # <<>>}
MergedRegions(cs) == {r \in {cs[k].reg : k \in DOMAIN cs} : Merged(cs, r) # {}}
Separated(cs, r, k, u) ==
  [q \in DOMAIN cs |->
     IF q = k THEN [cs[q] EXCEPT !.vs = u.outline]
     ELSE IF q \in Merged(cs, r) THEN [cs[q] EXCEPT !.vs = (CHOOSE h \in Elems(u.holes) : h.raw = cs[q].raw).vs]
     ELSE cs[q]]
\* all ways to take region r apart
Ways(cs, r) ==
  Force(UNION {{[cs |-> Separated(cs, r, k, u), bridges |-> u.bridges] :
                  u \in {v \in Undo(cs[k].vs, {cs[q].raw : q \in Merged(cs, r)}) : Readings(cs[k].raw, v.outline) # {}}}
               : k \in Outlines(cs, r)})
\* bridges run between outline and hole without crossing any contour of the region
BridgesOK(way, r) ==
  \A j \in DOMAIN way.bridges :
    LET br == way.bridges[j] IN
    /\ \A k \in DOMAIN way.cs : way.cs[k].reg = r => ~Blocked(br[1], br[2], way.cs[k].vs)
    /\ \A q \in DOMAIN way.bridges : q = j \/
         LET b2 == way.bridges[q] IN
         {Xz(br[1]), Xz(br[2])} \cap {Xz(b2[1]), Xz(b2[2])} # {} \/ ~Meets(br[1], br[2], b2[1], b2[2])
\* take all regions apart: [bad, cs]
TakeApart(cs) ==
  LET one(acc, r) ==
        LET ways == Ways(acc.cs, r)  good == {w \in ways : BridgesOK(w, r)} IN
        IF ways = {} THEN [acc EXCEPT !.bad = @ \cup {"hole not joined to its outline"}]
        ELSE IF good = {} THEN [bad |-> acc.bad \cup {"bridge crosses a contour"}, cs |-> (CHOOSE w \in ways : TRUE).cs]
        ELSE [acc EXCEPT !.cs = (CHOOSE w \in good : TRUE).cs]
  IN FoldLeft(one, [bad |-> {}, cs |-> cs], SetToSeq(MergedRegions(cs)))
\* holes only stay apart when their region has no single outline or no bridge exists
LeftApart(cs) ==
  IF \A k \in DOMAIN cs : (cs[k].vs # <<>> /\ Area2(cs[k].vs) < 0 /\ Cardinality(Outlines(cs, cs[k].reg)) = 2) =>
       LET o == cs[CHOOSE q \in Outlines(cs, cs[k].reg) : q # k].vs IN
       Area2(o) <= 0 \/ \A v \in Elems(o) : \A x \in Elems(cs[k].vs) :
         \E q \in DOMAIN cs : cs[q].reg = cs[k].reg /\ Blocked(v, x, cs[q].vs)
  THEN {} ELSE {"hole left apart"}

\* ---- verdicts --------------------------------------------------------------------
RawBad(s, reg, b, e, post) ==
  LET want == Loops(s, reg, b)  got == post.cs
      used(k) == {j \in DOMAIN got : got[j].reg = want[k].reg /\ got[j].ar = want[k].ar /\ SameCycle(want[k].raw, got[j].raw)}
      u == Force([k \in DOMAIN want |-> used(k)])
  IN (IF post.w = Mx(0, s.w - 2 * b) /\ post.h = Mx(0, s.h - 2 * b) /\ post.bs = b THEN {} ELSE {"dimensions"})
     \cup (IF \A j \in DOMAIN got : \E k \in DOMAIN want : j \in u[k] THEN {} ELSE {"contour is not a region boundary"})
     \cup (IF \A k \in DOMAIN want : Cardinality(u[k]) <= 1 \/ \E q \in DOMAIN want \ {k} : u[q] = u[k] THEN {} ELSE {"boundary traced twice"})
     \cup (IF \A k \in DOMAIN want : u[k] # {} \/ ~MustAppear(want[k].raw, e) THEN {} ELSE {"boundary not traced"})
ContourBad(e, len, fl, post) ==
  LET apart == Force(TakeApart(post.cs)) IN
  LeftApart(post.cs) \cup apart.bad
  \cup (IF apart.bad # {} THEN {} ELSE UNION {SimpleBad(apart.cs[k], e, len, fl) : k \in DOMAIN apart.cs} \cup SharedBad(apart.cs))
=============================================================================
