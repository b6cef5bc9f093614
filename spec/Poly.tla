-------------------------------- MODULE Poly --------------------------------
(***************************************************************************)
(* C16, C17, C18: the polygon mesh of a contour set.                         *)
(* A contour is [reg, ar, vs], vs cyclic <<x, y, z, label>>; a mesh is        *)
(* [nvp, vs, ps, ns, rg, ar, fl, bs] with 0-based vertex indices, unused      *)
(* slots 65535.  On the xz-plane an outline turns so that Cross < 0 at its    *)
(* convex corners.                                                            *)
(***************************************************************************)
EXTENDS Contours

NOIDX == 65535
Arity(p) == LET free == {k \in DOMAIN p : p[k] = NOIDX} IN IF free = {} THEN Len(p) ELSE MinOf(free) - 1
CornersOf(p) == SubSeq(p, 1, Arity(p))
\* cyclic edges of a sequence
Cycle(c) == [k \in DOMAIN c |-> <<c[k], c[Succ(k, Len(c))]>>]
Flat(seqs) == FoldLeft(LAMBDA a, q : a \o q, <<>>, seqs)
Times(seq, e) == Cardinality({k \in DOMAIN seq : seq[k] = e})
\* an oriented chain is the multiset of its directed edges up to opposite pairs
Net(seq) ==
  LET all == Elems(seq) \cup {<<e[2], e[1]>> : e \in Elems(seq)}
      f == Force([e \in all |-> Times(seq, e) - Times(seq, <<e[2], e[1]>>)])
  IN Force([e \in {d \in all : f[d] > 0} |-> f[e]])
Real(cs) == SelectSeq(cs, LAMBDA c : Len(c.vs) >= 3)
Flagged(v) == HasBV(v[4])
AnyFlag(cs) == \E k \in DOMAIN cs : \E j \in DOMAIN cs[k].vs : Flagged(cs[k].vs[j])

\* ---- contours an ear clipper has to manage -----------------------------------------
\* edges meet only in common ends, or are the two ways of a bridge
Spike(c) == \E k \in DOMAIN c : LET p == c[Prev(k, Len(c))]  q == c[Succ(k, Len(c))] IN
  Cross(p, c[k], q) = 0 /\ (c[k][1] - p[1]) * (q[1] - c[k][1]) + (c[k][3] - p[3]) * (q[3] - c[k][3]) <= 0
EdgesClash(p, q, r, t) ==
  IF Xz(p) = Xz(t) /\ Xz(q) = Xz(r) THEN FALSE
  ELSE IF Xz(p) = Xz(r) /\ Xz(q) = Xz(t) THEN TRUE
  ELSE IF {Xz(p), Xz(q)} \cap {Xz(r), Xz(t)} = {} THEN Meets(p, q, r, t)
  ELSE \* one common end: neither may continue along the other
    LET s == IF Xz(p) \in {Xz(r), Xz(t)} THEN p ELSE q
        a == IF Xz(p) = Xz(s) THEN q ELSE p
        b == IF Xz(r) = Xz(s) THEN t ELSE r
    IN Cross(s, a, b) = 0 /\ (a[1] - s[1]) * (b[1] - s[1]) + (a[3] - s[3]) * (b[3] - s[3]) > 0
Proper3(c) ==
  /\ Len(c) >= 3 /\ Area2(c) > 0 /\ ~Spike(c)
  /\ \A j, k \in DOMAIN c : j < k => ~EdgesClash(c[j], c[Succ(j, Len(c))], c[k], c[Succ(k, Len(c))])
\* additionally no position is visited twice, except as the end of a bridge
Bridge(c, k) == \E j \in DOMAIN c : Xz(c[j]) = Xz(c[Succ(k, Len(c))]) /\ Xz(c[Succ(j, Len(c))]) = Xz(c[k])
SimpleOutline(c) ==
  /\ Proper3(c)
  /\ \A j, k \in DOMAIN c : (j # k /\ Xz(c[j]) = Xz(c[k])) =>
       (Bridge(c, j) \/ Bridge(c, Prev(j, Len(c)))) /\ (Bridge(c, k) \/ Bridge(c, Prev(k, Len(c))))

\* ---- C16 ------------------------------------------------------------------------------
ShapeBad(nvp, post) ==
  LET n == Len(post.ps) IN
  (IF post.nvp = nvp /\ Len(post.ns) = n /\ Len(post.rg) = n /\ Len(post.ar) = n /\ Len(post.fl) = n THEN {} ELSE {"list lengths"})
  \cup (IF \A i \in DOMAIN post.ps : Len(post.ps[i]) = nvp THEN {} ELSE {"polygon slots"})
  \cup (IF \A i \in DOMAIN post.ps : LET p == post.ps[i]  k == Arity(p) IN
           /\ k >= 3
           /\ \A j \in DOMAIN p : IF j <= k THEN p[j] < Len(post.vs) ELSE p[j] = NOIDX
        THEN {} ELSE {"malformed polygon"})
  \cup (IF \A i \in DOMAIN post.fl : post.fl[i] = 0 THEN {} ELSE {"flags"})
WeldNear(v, u) == v[1] = u[1] /\ v[3] = u[3] /\ Abs(v[2] - u[2]) <= 2
Close(v, u) == v[1] = u[1] /\ v[3] = u[3] /\ v[2] = u[2]
AllVs(cs) == UNION {Elems(cs[k].vs) : k \in DOMAIN cs}
\* positions that meet are one vertex, or edges there would not be common
UnweldedBad(post) == IF \A i, j \in DOMAIN post.vs : i < j => ~WeldNear(post.vs[i], post.vs[j]) THEN {} ELSE {"vertex not shared"}
VertexBad(cs, post) ==
  LET real == Real(cs)  all == Force(AllVs(real)) IN
  (IF \A i \in DOMAIN post.vs : \E v \in all : Close(v, post.vs[i]) THEN {} ELSE {"vertex from nowhere"})
  \cup UnweldedBad(post)
PolyXZ(post, i) == [j \in 1..Arity(post.ps[i]) |-> LET v == post.vs[post.ps[i][j] + 1] IN v]
Convex(c) == /\ \A k \in DOMAIN c : Cross(c[Prev(k, Len(c))], c[k], c[Succ(k, Len(c))]) <= 0
             /\ Area2(c) > 0
StrictlyConvex(c) == \A k \in DOMAIN c : Cross(c[Prev(k, Len(c))], c[k], c[Succ(k, Len(c))]) < 0
\* a polygon that turns more than once around is not convex: the fan from its first corner never turns back
Fan(c) == \A k \in 2..(Len(c) - 1) : Cross(c[1], c[k], c[k + 1]) <= 0
XzEdges(vs) == Cycle([k \in DOMAIN vs |-> Xz(vs[k])])
Chain(cs, keep) == Net(Flat([k \in DOMAIN cs |-> IF k \in keep THEN SelectSeq(XzEdges(cs[k].vs), LAMBDA e : e[1] # e[2]) ELSE <<>>]))
MeshChain(post, keep) == Net(Flat([i \in DOMAIN post.ps |-> IF i \in keep THEN SelectSeq(XzEdges(PolyXZ(post, i)), LAMBDA e : e[1] # e[2]) ELSE <<>>]))
\* polygons a and b of one contour could still be merged
Mergeable(post, a, b) ==
  LET p == CornersOf(post.ps[a])  q == CornersOf(post.ps[b])  V(i) == post.vs[i + 1] IN
  /\ Len(p) + Len(q) - 2 <= post.nvp
  /\ Cardinality(Elems(p) \cap Elems(q)) = 2
  /\ \E j \in DOMAIN p : \E k \in DOMAIN q :
       /\ p[j] = q[Succ(k, Len(q))] /\ p[Succ(j, Len(p))] = q[k]
       /\ Cross(V(p[Prev(j, Len(p))]), V(p[j]), V(q[Succ(Succ(k, Len(q)), Len(q))])) < 0
       /\ Cross(V(q[Prev(k, Len(q))]), V(q[k]), V(p[Succ(Succ(j, Len(p)), Len(p))])) < 0
TileBad(cs, post) ==
  LET real == Force(Real(cs))
      regs == {real[k].reg : k \in DOMAIN real}
      of(r) == {k \in DOMAIN real : real[k].reg = r}
      ps(r) == {i \in DOMAIN post.ps : post.rg[i] = r}
      good(r) == \A k \in of(r) : Proper3(real[k].vs)
      simple(r) == \A k \in of(r) : SimpleOutline(real[k].vs)
      corners(r) == UNION {Elems(real[k].vs) : k \in of(r)}
  IN (IF \A i \in DOMAIN post.ps : post.rg[i] \in regs /\ \E k \in of(post.rg[i]) : real[k].ar = post.ar[i] THEN {} ELSE {"foreign label"})
     \cup (IF \A i \in DOMAIN post.ps : post.rg[i] \in regs => \A j \in 1..Arity(post.ps[i]) :
                \E v \in corners(post.rg[i]) : WeldNear(v, post.vs[post.ps[i][j] + 1]) THEN {} ELSE {"vertex of another contour"})
     \cup UNION {
       (IF MeshChain(post, ps(r)) = Chain(real, of(r)) THEN {} ELSE {"outline not covered"})
       \cup (IF good(r) => \A i \in ps(r) : LET c == PolyXZ(post, i) IN Convex(c) /\ Fan(c) THEN {} ELSE {"polygon not convex"})
       \cup (IF simple(r) => \A i \in ps(r) : LET c == PolyXZ(post, i) IN StrictlyConvex(c) THEN {} ELSE {"degenerate polygon"})
       \cup (IF (Cardinality(of(r)) = 1 /\ post.nvp > 3) => \A a, b \in ps(r) : a = b \/ ~Mergeable(post, a, b) THEN {} ELSE {"polygons left unmerged"})
       : r \in regs}
MayFail(cs) == LET real == Force(Real(cs)) IN \E k \in DOMAIN real : ~Proper3(real[k].vs)
PolyBad(cset, nvp, post) ==
  LET sb == ShapeBad(nvp, post) IN
  IF sb # {} THEN sb
  ELSE (IF post.bs = cset.bs THEN {} ELSE {"border size"})
       \cup (IF "it" \in DOMAIN post /\ ~(post.pc = Len(post.ps) /\ post.it = [i \in DOMAIN post.ps |-> CornersOf(post.ps[i])]) THEN {"iteration over polygons"} ELSE {})
       \cup VertexBad(cset.cs, post)
       \cup (IF AnyFlag(cset.cs) THEN {} ELSE TileBad(cset.cs, post))

\* ---- C17 ------------------------------------------------------------------------------
DirEdges(post) == UNION {{<<i, j, post.ps[i][j], post.ps[i][Succ(j, Arity(post.ps[i]))]>> : j \in 1..Arity(post.ps[i])} : i \in DOMAIN post.ps}
PORTAL == 32768
PortalOf(w, h, a, b) ==
  IF a[1] = 0 /\ b[1] = 0 THEN PORTAL
  ELSE IF a[3] = h /\ b[3] = h THEN PORTAL + 1
  ELSE IF a[1] = w /\ b[1] = w THEN PORTAL + 2
  ELSE IF a[3] = 0 /\ b[3] = 0 THEN PORTAL + 3 ELSE NOIDX
AdjBad(cset, post) ==
  IF ShapeBad(post.nvp, post) # {} THEN {}
  ELSE
  LET es == Force(DirEdges(post))
      same(u, v) == {e \in es : e[3] = u /\ e[4] = v}
      nb(e) == post.ns[e[1]][e[2]]
      portal(e) == IF post.bs > 0 THEN PortalOf(cset.w, cset.h, post.vs[e[3] + 1], post.vs[e[4] + 1]) ELSE NOIDX
      ok(e) ==
        LET fw == same(e[3], e[4])  bw == same(e[4], e[3]) IN
        IF bw = {} THEN IF nb(e) = portal(e) THEN {} ELSE IF nb(e) < PORTAL THEN {"neighbour without common edge"} ELSE {"portal"}
        ELSE IF Cardinality(fw) = 1 /\ Cardinality(bw) = 1
          THEN LET o == CHOOSE x \in bw : TRUE IN IF o[1] = e[1] \/ nb(e) = o[1] - 1 THEN {} ELSE {"common edge without neighbour"}
        ELSE IF nb(e) >= PORTAL THEN IF nb(e) = portal(e) THEN {} ELSE {"portal"}
        ELSE IF \E o \in bw : o[1] = nb(e) + 1 THEN {} ELSE {"neighbour without common edge"}
  IN (IF \A i \in DOMAIN post.ps : Len(post.ns[i]) = post.nvp /\ \A j \in (Arity(post.ps[i]) + 1)..post.nvp : post.ns[i][j] = NOIDX THEN {} ELSE {"unused slot connected"})
     \cup UnweldedBad(post)
     \cup UNION {ok(e) : e \in es}
     \cup (IF \A e \in es : nb(e) < PORTAL => nb(e) < Len(post.ps) /\
                \E o \in same(e[4], e[3]) : o[1] = nb(e) + 1 /\ nb(o) = e[1] - 1
           THEN {} ELSE {"one-way neighbour"})

\* ---- C18 ------------------------------------------------------------------------------
\* splice the positions rm out of a chain, where they have one edge in and one out
RECURSIVE Splice(_, _)
Splice(net, rm) ==
  IF rm = {} THEN [ok |-> TRUE, net |-> net]
  ELSE
    LET v == CHOOSE q \in rm : TRUE
        in == {e \in DOMAIN net : e[2] = v}  out == {e \in DOMAIN net : e[1] = v}
    IN IF in = {} /\ out = {} THEN Splice(net, rm \ {v})
       ELSE IF Cardinality(in) # 1 \/ Cardinality(out) # 1 THEN [ok |-> FALSE, net |-> net]
       ELSE LET a == CHOOSE e \in in : TRUE  b == CHOOSE e \in out : TRUE  n == <<a[1], b[2]>>
                r == <<n[2], n[1]>>
                rest == [e \in DOMAIN net \ {a, b} |-> net[e]]
                old == IF n \in DOMAIN rest THEN rest[n] ELSE IF r \in DOMAIN rest THEN -rest[r] ELSE 0
                now == old + net[a]
                base == [e \in DOMAIN rest \ {n, r} |-> rest[e]]
            IN IF net[a] # net[b] THEN [ok |-> FALSE, net |-> net]
               ELSE Splice(Force(IF n[1] = n[2] \/ now = 0 THEN base ELSE IF now > 0 THEN base @@ (n :> now) ELSE base @@ (r :> -now)), rm \ {v})
\* a remaining vertex whose removal would leave a proper polygon
Removable(post, v) ==
  LET ps == {i \in DOMAIN post.ps : v \in Elems(CornersOf(post.ps[i]))}
      left == SumSeq([i \in DOMAIN post.ps |-> IF i \in ps THEN Arity(post.ps[i]) - 2 ELSE 0])
      es == {e \in DirEdges(post) : e[3] = v \/ e[4] = v}
      ends == {IF e[3] = v THEN e[4] ELSE e[3] : e \in es}
      open == {u \in ends : Cardinality({e \in es : e[3] = u \/ e[4] = u}) < 2}
  IN left > 2 /\ Cardinality(open) <= 2
BorderBad(cset, nvp, post) ==
  IF ~AnyFlag(cset.cs) \/ ShapeBad(nvp, post) # {} THEN {}
  ELSE
  LET real == Force(Real(cset.cs))
      good == \A k \in DOMAIN real : Proper3(real[k].vs)
      flagged == Force({v \in AllVs(real) : Flagged(v)})
      has(v) == \E i \in DOMAIN post.vs : WeldNear(v, post.vs[i])
      gone == {v \in flagged : ~has(v)}
      rm == {Xz(v) : v \in gone}
      regs == {real[k].reg : k \in DOMAIN real}
      areas == {real[k].ar : k \in DOMAIN real}
      corners == Force([r \in regs |-> UNION {Elems(real[k].vs) : k \in {q \in DOMAIN real : real[q].reg = r}}])
      covered(ks, is) == LET sp == Splice(Chain(real, ks), rm) IN ~sp.ok \/ sp.net = MeshChain(post, is)
      atRegions(i) == {r \in regs : \E v \in corners[r] : \E j \in 1..Arity(post.ps[i]) : WeldNear(v, post.vs[post.ps[i][j] + 1])}
      stacked == \E v, u \in AllVs(real) : Xz(v) = Xz(u) /\ ~WeldNear(v, u) /\ Xz(v) \in rm
      all == Force(Flat([k \in DOMAIN real |-> real[k].vs]))
      first(q) == MinOf({n \in DOMAIN all : Xz(all[n]) = q})
      single(q) == \A n, m \in DOMAIN all : (Xz(all[n]) = q /\ Xz(all[m]) = q) => WeldNear(all[n], all[m])
  IN (IF \A v \in AllVs(real) : Flagged(v) \/ (\E u \in flagged : WeldNear(u, v)) \/ has(v) THEN {} ELSE {"ordinary vertex removed"})
     \cup (IF stacked \/ covered(DOMAIN real, DOMAIN post.ps) THEN {} ELSE {"surface changed"})
     \cup (IF \A i \in DOMAIN post.ps : post.rg[i] \in regs \cup {0} /\ post.ar[i] \in areas THEN {} ELSE {"foreign label"})
     \cup (IF stacked \/ \A a \in areas : covered({k \in DOMAIN real : real[k].ar = a}, {i \in DOMAIN post.ps : post.ar[i] = a}) THEN {} ELSE {"area changed"})
     \cup (IF \A i \in DOMAIN post.ps : post.rg[i] \in regs => \A j \in 1..Arity(post.ps[i]) :
                \E v \in corners[post.rg[i]] : WeldNear(v, post.vs[post.ps[i][j] + 1]) THEN {} ELSE {"vertex of another region"})
     \cup (IF \A i \in DOMAIN post.ps : post.rg[i] = 0 => Cardinality(atRegions(i)) >= 2 THEN {} ELSE {"region label lost"})
     \* an untouched region keeps its tiling
     \cup (IF \A r \in regs : (\E v \in gone : \E u \in corners[r] : WeldNear(v, u)) \/
                MeshChain(post, {i \in DOMAIN post.ps : post.rg[i] = r}) = Chain(real, {k \in DOMAIN real : real[k].reg = r})
           THEN {} ELSE {"untouched region changed"})
     \cup (IF good => \A i \in DOMAIN post.ps : LET c == PolyXZ(post, i) IN Convex(c) /\ Fan(c) THEN {} ELSE {"polygon not convex"})
     \* superfluous vertices that stay could not be removed: they are considered in the order of the contours,
     \* so one is judged where nothing considered later was removed
     \cup (IF \A i \in DOMAIN post.vs :
                ((\E v \in flagged : WeldNear(v, post.vs[i])) /\
                 (gone = {} \/ (~stacked /\ single(Xz(post.vs[i])) /\ \A g \in rm : first(g) < first(Xz(post.vs[i])))))
                => ~Removable(post, i - 1)
           THEN {} ELSE {"superfluous vertex kept"})
=============================================================================
