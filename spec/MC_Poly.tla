------------------------------- MODULE MC_Poly -------------------------------
(***************************************************************************)
(* C16, C17, C18 as a state machine: every contour is clipped ear by ear in   *)
(* any order, its triangles are merged in any order until none can be, then   *)
(* superfluous border vertices are removed one by one and the hole is filled   *)
(* the same way.  Contours: all simple polygons with N corners on a lattice,   *)
(* whole or cut in two by a diagonal (Kind "lattice"), or a rectangle cut into *)
(* strips whose cuts end in superfluous vertices (Kind "strips").              *)
(***************************************************************************)
EXTENDS Poly, Json
CONSTANTS Kind, LatX, LatZ, Ns, Nvps, Flags, Emit
VARIABLES cs,      \* contours [reg, ar, vs]
          nvp, todo, rest, lab, ps, done, phase
vars == <<cs, nvp, todo, rest, lab, ps, done, phase>>

Pt(x, z) == <<x, 5, z, 0>>
Lattice == {Pt(x, z) : x \in LatX, z \in LatZ}
Before(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[3] < q[3])
RECURSIVE Seqs(_, _)
\* sequences of n distinct points that start with their least point
Seqs(pre, n) == IF Len(pre) = n THEN {pre}
  ELSE UNION {Seqs(Append(pre, q), n) : q \in {x \in Lattice \ Elems(pre) : Before(pre[1], x)}}
Outlines0 == {c \in UNION {Seqs(<<p>>, n) : p \in Lattice, n \in Ns} : SimpleOutline(c)}
\* proper internal diagonal
Inside(c, j, k) ==
  LET n == Len(c)
      part == SubSeq(c, j, k)  other == SubSeq(c, k, n) \o SubSeq(c, 1, j)
  IN k - j >= 2 /\ k - j <= n - 2 /\ SimpleOutline(part) /\ SimpleOutline(other)
Cuts(c) == {{[reg |-> 1, ar |-> 1, vs |-> c]}} \cup
  {{[reg |-> 1, ar |-> 1, vs |-> SubSeq(c, jk[1], jk[2])], [reg |-> 2, ar |-> 1, vs |-> SubSeq(c, jk[2], Len(c)) \o SubSeq(c, 1, jk[1])]}
   : jk \in {q \in (1..Len(c)) \X (1..Len(c)) : Inside(c, q[1], q[2])}}
BySeq(S) == SetToSortSeq(S, LAMBDA a, b : a.reg < b.reg)
LatticeSets == UNION {{BySeq(S) : S \in Cuts(c)} : c \in Outlines0}
\* strips: cuts run between lines z = min and z = max of LatZ; inner points at the other levels
Lo == MinOf(LatZ)
Hi == MaxOf(LatZ)
Xw == MaxOf(LatX)
CutSet == {c \in [LatZ -> LatX \ {0, Xw}] : TRUE}
Leftof(a, b) == \A z \in LatZ : a[z] < b[z]
Zs == SetToSortSeq(LatZ, <)
Up(c, f) == [j \in DOMAIN Zs |-> <<c[Zs[j]], 5, Zs[j], IF f /\ Zs[j] \in {Lo, Hi} THEN BORDER_VERTEX ELSE 0>>]
Wall(x) == [z \in LatZ |-> x]
Strip(r, a, b, fa, fb, ar) == [reg |-> r, ar |-> ar, vs |-> Up(a, fa) \o Reverse(Up(b, fb))]
StripSets ==
  UNION {
    {<<Strip(1, Wall(0), a, FALSE, f[1], 1), Strip(2, a, Wall(Xw), f[1], FALSE, IF f[1] THEN 1 ELSE 2)>> : a \in CutSet, f \in Flags},
    {<<Strip(1, Wall(0), ab[1], FALSE, f[1], 1), Strip(2, ab[1], ab[2], f[1], f[2], IF f[1] THEN 1 ELSE 2),
       Strip(3, ab[2], Wall(Xw), f[2], FALSE, IF f[1] = f[2] THEN 1 ELSE 2)>>
      : ab \in {q \in CutSet \X CutSet : Leftof(q[1], q[2])}, f \in Flags}}
Sets == IF Kind = "lattice" THEN LatticeSets ELSE StripSets
Ops(c) == <<[a |-> "cset", w |-> MaxOf(LatX), h |-> MaxOf(LatZ), b |-> IF Kind = "lattice" THEN 0 ELSE 1, cs |-> c]>>
          \o [k \in 1..4 |-> [a |-> "poly", nvp |-> <<3, 4, 5, 6>>[k]]]

Init == /\ cs \in Sets /\ nvp \in Nvps
        /\ todo = 1 /\ rest = <<>> /\ lab = <<>> /\ ps = {} /\ done = {} /\ phase = "start"
\* ---- ears --------------------------------------------------------------------------------
InTri(p, a, b, c) == Cross(a, b, p) <= 0 /\ Cross(b, c, p) <= 0 /\ Cross(c, a, p) <= 0
Ear(c, j) ==
  LET n == Len(c)  p == c[Prev(j, n)]  q == c[Succ(j, n)] IN
  /\ Cross(p, c[j], q) < 0
  /\ \A k \in DOMAIN c : Xz(c[k]) \in {Xz(p), Xz(c[j]), Xz(q)} \/ ~InTri(c[k], p, c[j], q)
Canon(c) == LET k == CHOOSE i \in DOMAIN c : \A j \in DOMAIN c : i = j \/ Before(c[i], c[j]) IN Rotate(c, k - 1)
Plain(v) == <<v[1], v[2], v[3], 0>>
\* a polygon: corners, region (0 = several), area
P(c, r, a) == [c |-> Canon([k \in DOMAIN c |-> Plain(c[k])]), r |-> r, a |-> a]
Label(S) == IF Cardinality(S) = 1 THEN CHOOSE r \in S : TRUE ELSE 0
Take == /\ phase \in {"start", "next"} /\ todo <= Len(cs)
        /\ phase' = "clip" /\ rest' = cs[todo].vs /\ lab' = [k \in DOMAIN cs[todo].vs |-> [r |-> cs[todo].reg, a |-> cs[todo].ar]]
        /\ (Emit /\ phase = "start" /\ nvp = MinOf(Nvps) => PrintT("OPS " \o ToJson([id |-> "outline", ops |-> Ops(cs)])))
        /\ UNCHANGED <<cs, nvp, todo, ps, done>>
Clip == /\ phase = "clip" /\ Len(rest) >= 3
        /\ \E j \in DOMAIN rest : LET n == Len(rest)  i == Prev(j, n)  k == Succ(j, n) IN
             /\ Ear(rest, j)
             /\ ps' = ps \cup {P(<<rest[i], rest[j], rest[k]>>, Label({lab[i].r, lab[j].r, lab[k].r}), lab[j].a)}
             /\ rest' = IF n = 3 THEN <<>> ELSE SubSeq(rest, 1, j - 1) \o SubSeq(rest, j + 1, n)
             /\ lab' = IF n = 3 THEN <<>> ELSE SubSeq(lab, 1, j - 1) \o SubSeq(lab, j + 1, n)
        /\ phase' = IF Len(rest) = 3 THEN "merge" ELSE "clip"
        /\ UNCHANGED <<cs, nvp, todo, done>>
\* the union of two polygons over their common edge <<p[j], p[j+1]>>
JoinAt(p, q) == {jk \in (DOMAIN p) \X (DOMAIN q) : p[jk[1]] = q[Succ(jk[2], Len(q))] /\ p[Succ(jk[1], Len(p))] = q[jk[2]]}
Joined(p, q, jk) ==
  Canon([t \in 1..(Len(p) - 1) |-> p[Wrap(Len(p), jk[1] + t)]] \o [t \in 1..(Len(q) - 1) |-> q[Wrap(Len(q), jk[2] + t)]])
Joins == {x \in ps \X ps : x[1] # x[2] /\ Len(x[1].c) + Len(x[2].c) - 2 <= nvp
            /\ \E jk \in JoinAt(x[1].c, x[2].c) : StrictlyConvex(Joined(x[1].c, x[2].c, jk))}
Merge == /\ phase = "merge" /\ nvp > 3
         /\ \E x \in Joins : LET jk == CHOOSE t \in JoinAt(x[1].c, x[2].c) : StrictlyConvex(Joined(x[1].c, x[2].c, t)) IN
              ps' = (ps \ {x[1], x[2]}) \cup {P(Joined(x[1].c, x[2].c, jk), Label({x[1].r, x[2].r}), x[1].a)}
         /\ UNCHANGED <<cs, nvp, todo, rest, lab, done, phase>>
Store == /\ phase = "merge" /\ (nvp = 3 \/ Joins = {})
         /\ done' = done \cup ps /\ ps' = {} /\ todo' = todo + 1
         /\ phase' = IF todo < Len(cs) THEN "next" ELSE "remove"
         /\ UNCHANGED <<cs, nvp, rest, lab>>
\* ---- the mesh so far --------------------------------------------------------------------------
VsOf(D) == SetToSortSeq(UNION {Elems(p.c) : p \in D}, Before)
MeshOf(D) ==
  LET vs == Force(VsOf(D))  q == Force(SetToSeq(D))
      ix(v) == (CHOOSE k \in DOMAIN vs : vs[k] = v) - 1
      pad(s) == s \o [k \in 1..(nvp - Len(s)) |-> NOIDX]
      rows == Force([i \in DOMAIN q |-> [k \in DOMAIN q[i].c |-> ix(q[i].c[k])]])
      has(i, u, v) == \E k \in DOMAIN rows[i] : rows[i][k] = u /\ rows[i][Succ(k, Len(rows[i]))] = v
      bs == IF Kind = "lattice" THEN 0 ELSE 1
      nb(i, k) == LET u == rows[i][k]  v == rows[i][Succ(k, Len(rows[i]))]  o == {j \in DOMAIN rows : has(j, v, u)} IN
                  IF o # {} THEN (CHOOSE j \in o : TRUE) - 1
                  ELSE IF bs > 0 THEN PortalOf(MaxOf(LatX), MaxOf(LatZ), vs[u + 1], vs[v + 1]) ELSE NOIDX
  IN [nvp |-> nvp, bs |-> bs, vs |-> [k \in DOMAIN vs |-> <<vs[k][1], vs[k][2], vs[k][3]>>],
      ps |-> [i \in DOMAIN rows |-> pad(rows[i])], ns |-> [i \in DOMAIN rows |-> pad([k \in DOMAIN rows[i] |-> nb(i, k)])],
      rg |-> [i \in DOMAIN q |-> q[i].r], ar |-> [i \in DOMAIN q |-> q[i].a], fl |-> [i \in DOMAIN q |-> 0]]
FlaggedPts == {Plain(v) : v \in {u \in AllVs(cs) : Flagged(u)}}
CanGo == {v \in FlaggedPts : \E k \in DOMAIN VsOf(done) : VsOf(done)[k] = v /\ Removable(MeshOf(done), k - 1)}
\* the hole a vertex leaves: the edges around it that do not touch it, in a row
RECURSIVE Row(_, _)
Row(path, es) == IF es = {} THEN path
  ELSE LET e == CHOOSE x \in es : x.v = path[Len(path)].u \/ x.u = path[1].v IN
       IF e.v = path[Len(path)].u THEN Row(Append(path, e), es \ {e}) ELSE Row(<<e>> \o path, es \ {e})
Drop == /\ phase = "remove"
          /\ \E v \in CanGo :
               LET fan == {p \in done : v \in Elems(p.c)}
                   es == UNION {{[v |-> p.c[k], u |-> p.c[Succ(k, Len(p.c))], r |-> p.r, a |-> p.a] : k \in {j \in DOMAIN p.c : v \notin {p.c[j], p.c[Succ(j, Len(p.c))]}}} : p \in fan}
                   row == Force(LET e == CHOOSE x \in es : TRUE IN Row(<<e>>, es \ {e}))
                   closed == row[1].v = row[Len(row)].u
               IN /\ done' = done \ fan
                  /\ rest' = [k \in 1..Len(row) |-> row[k].v] \o (IF closed THEN <<>> ELSE <<row[Len(row)].u>>)
                  /\ lab' = [k \in 1..Len(row) |-> [r |-> row[k].r, a |-> row[k].a]] \o (IF closed THEN <<>> ELSE <<[r |-> row[Len(row)].r, a |-> row[Len(row)].a]>>)
          /\ phase' = "clip"
          /\ UNCHANGED <<cs, nvp, todo, ps>>
Finish == /\ phase = "remove" /\ CanGo = {} /\ phase' = "done" /\ UNCHANGED <<cs, nvp, todo, rest, lab, ps, done>>
Next == Take \/ Clip \/ Merge \/ Store \/ Drop \/ Finish
Spec == Init /\ [][Next]_vars

\* ---- what always holds --------------------------------------------------------------------------
Alive == phase = "done" \/ phase = "start" \/ ENABLED Next
\* an ear can always be clipped
EarExists == phase = "clip" => \E j \in DOMAIN rest : Ear(rest, j)
AllConvex == \A p \in ps \cup done : StrictlyConvex(p.c) /\ Len(p.c) <= Mx(3, nvp) /\ Area2(p.c) > 0
\* tiles so far and what is left make up the contours, without the vertices already removed
PolyEdges(D) == Flat([i \in DOMAIN SetToSeq(D) |-> XzEdges(SetToSeq(D)[i].c)])
Gone == {Xz(v) : v \in {u \in FlaggedPts : \A p \in done \cup ps : u \notin Elems(p.c)}}
Tiled == phase \in {"remove", "done"} =>
  Splice(Chain(cs, DOMAIN cs), Gone).net = Net(PolyEdges(done))
Clipping == (phase \in {"clip", "merge"} /\ todo <= Len(cs)) =>
  Net(PolyEdges(ps) \o XzEdges(rest)) = Chain(cs, {todo})
RestSimple == (phase = "clip" /\ Len(rest) > 3) => Proper3(rest)
\* the relations the code is held to accept every mesh built this way
CSet == [w |-> MaxOf(LatX), h |-> MaxOf(LatZ), bs |-> IF Kind = "lattice" THEN 0 ELSE 1, cs |-> cs]
Accepted == phase = "done" => LET m == Force(MeshOf(done)) IN
  PolyBad(CSet, nvp, m) = {} /\ AdjBad(CSet, m) = {} /\ BorderBad(CSet, nvp, m) = {}
Terminates == phase = "remove" => Cardinality(done) <= SumSeq([k \in DOMAIN cs |-> Len(cs[k].vs)])
\* twice the covered area is that of the contours
SameArea == phase = "done" =>
  SumSeq([k \in DOMAIN cs |-> Area2(cs[k].vs)]) = SumSeq([i \in DOMAIN SetToSeq(done) |-> Area2(SetToSeq(done)[i].c)])
=============================================================================
