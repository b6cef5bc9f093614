------------------------------- MODULE MC_World ------------------------------
(***************************************************************************)
(* A back end that keeps its list of affectors up to date, operation by       *)
(* operation, agrees with the affectors of the world at every moment.         *)
(* Histories are emitted (OPS) and run on the code.                           *)
(***************************************************************************)
EXTENDS World, Json, TLC
CONSTANTS N, Emit
VARIABLES wd, list, hist     \* list: affectors of both kinds, kept incrementally: [id, by, tf, mesh or shape]
vars == <<wd, list, hist>>

Tf(c, k, x) == <<c[1] * k, 0, (0 - c[2]) * k, 0, k, 0, c[2] * k, 0, c[1] * k, 8 * x, 0, 8>>
Places == {Tf(<<1, 0>>, 8, 1), Tf(<<0, 1>>, 16, -2)}
Flat(n) == [topo |-> 3, att |-> <<<<0, <<0, 0, n, 8, 0, 0, 0, 8, 0>>>>>>, ik |-> 32, ix |-> <<0, 1, 2>>]
Line == [topo |-> 1, att |-> <<<<0, <<0, 0, 1, 8, 0, 0>>>>>>, ik |-> 0, ix |-> <<>>]
None == [s |-> "none"]
Box == [s |-> "cuboid", p |-> <<2, 4, 2>>]
Spawn(id, par, m, shape) == [a |-> "wspawn", id |-> id, par |-> par, tf |-> Tf(<<0, -1>>, 8, id), m |-> m, kind |-> "static", shape |-> shape]
\* a parent with a mesh, its child with a collider and a mesh that may not be there
Begin == <<[a |-> "wopen"], [a |-> "wasset", k |-> 0, m |-> Flat(1)], Spawn(0, -1, 0, None), Spawn(1, 0, 1, Box)>>
Ids == {e.id : e \in wd.ents}
Leaf(id) == ~\E e \in wd.ents : e.par = id
Ops == {[a |-> "wback", b |-> b, n |-> 3] : b \in {"mesh", "avian", "fixed"}}
  \cup {[a |-> "wasset", k |-> k, m |-> m] : k \in {0, 1}, m \in {Flat(2), Line}} \cup {[a |-> "wdrop", k |-> 0]}
  \cup {[a |-> "wmove", id |-> i, tf |-> t] : i \in Ids \cap {0}, t \in Places}
  \cup {[a |-> "wmesh", id |-> i, m |-> m] : i \in Ids \cap {1}, m \in {-1, 0}}
  \cup {[a |-> "wkind", id |-> i, kind |-> k] : i \in Ids \cap {1}, k \in {"dynamic", "none"}}
  \cup {[a |-> "wgone", id |-> i] : i \in {j \in Ids : Leaf(j)}}
  \cup {Spawn(2, p, 0, Box) : p \in (Ids \cap {0}) \ {j \in Ids : 2 \in Ids}}

\* both kinds of entries of one entity
Entries(w, e) == (IF e \in MeshAffectors(w) THEN {[id |-> e.id, by |-> "mesh", tf |-> Global(w.ents, e), what |-> AssetOf(w, e.m)]} ELSE {})
            \cup (IF e \in ColliderAffectors(w) THEN {[id |-> e.id, by |-> "avian", tf |-> Global(w.ents, e), what |-> e.shape]} ELSE {})
Below(w, id) == {e \in w.ents : e.id = id \/ e.par = id}
\* only the entities an operation can concern are looked at again
Touched(w, o) == CASE o.a \in {"wasset", "wdrop"} -> {e \in w.ents : e.m = o.k}
                   [] o.a = "wmove" -> Below(w, o.id)
                   [] o.a \in {"wspawn", "wmesh", "wkind"} -> {e \in w.ents : e.id = o.id}
                   [] OTHER -> {}
Renew(o, w) == LET t == Touched(w, o)  gone == {e.id : e \in t} \cup (IF o.a = "wgone" THEN {o.id} ELSE {})
               IN {x \in list : x.id \notin gone} \cup UNION {Entries(w, e) : e \in t}
RECURSIVE Play(_, _)
Play(w, s) == IF s = <<>> THEN w ELSE Play(WorldNext(w, s[1]), Tail(s))
Ask == [a |-> "wask"]
Init == /\ wd = Play(NewWorld, Begin) /\ list = UNION {Entries(wd, e) : e \in wd.ents} /\ hist = <<>>
Next == /\ Len(hist) < N
        /\ \E o \in Ops : /\ wd' = WorldNext(wd, o) /\ list' = Renew(o, wd') /\ hist' = Append(hist, o)
        \* asked at the end and once in between
        /\ (Len(hist') = N /\ Emit => PrintT("OPS " \o ToJson([id |-> "world",
              ops |-> Begin \o SubSeq(hist', 1, N - 1) \o <<Ask, hist'[N], Ask, [a |-> "wback", b |-> "mesh", n |-> 0], Ask, [a |-> "wback", b |-> "avian", n |-> 0], Ask>>])))
Spec == Init /\ [][Next]_vars
UpToDate == list = UNION {Entries(wd, e) : e \in wd.ents}
\* nothing is an affector twice, and nothing that is not there
Sound == /\ \A x, y \in list : x.id = y.id /\ x.by = y.by => x = y
         /\ \A x \in list : x.id \in Ids
MatrixOK == \A p, q \in Places : \A r \in Places : MulTf(MulTf(p, q), r) = MulTf(p, MulTf(q, r))
=============================================================================
