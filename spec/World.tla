-------------------------------- MODULE World -------------------------------
(***************************************************************************)
(* C30: the affectors of a Bevy world.  Entities come, go, move (also with    *)
(* their parents), change their meshes and bodies; mesh assets are loaded,    *)
(* replaced and dropped; back ends replace each other.  Whoever asks the back *)
(* end gets the affectors of the world as it is then.                         *)
(* wd: the back end, the loaded meshes, the entities, the navmeshes requested.*)
(***************************************************************************)
EXTENDS Bevy

NewWorld == [back |-> [b |-> "none", n |-> 0], assets |-> {}, ents |-> {}, gen |-> 0]
\* transforms in eighths: three columns and a translation
MulTf(p, c) == [i \in 1..12 |-> LET j == (i - 1) \div 3  r == ((i - 1) % 3) + 1
                               IN (p[r] * c[3 * j + 1] + p[r + 3] * c[3 * j + 2] + p[r + 6] * c[3 * j + 3]) \div 8 + (IF j = 3 THEN p[r + 9] ELSE 0)]
EntOf(ents, id) == CHOOSE e \in ents : e.id = id
RECURSIVE Global(_, _)
Global(ents, e) == IF e.par < 0 THEN e.tf ELSE MulTf(Global(ents, EntOf(ents, e.par)), e.tf)

\* the world after an operation
Fresh(e) == [id |-> e.id, par |-> e.par, tf |-> e.tf, m |-> e.m, shape |-> e.shape, kind |-> e.kind]
Alter(wd, id, F(_)) == [wd EXCEPT !.ents = {IF x.id = id THEN F(x) ELSE x : x \in wd.ents}]
WorldNext(wd, e) ==
  CASE e.a = "wopen" -> NewWorld
    [] e.a = "wback" -> [wd EXCEPT !.back = [b |-> e.b, n |-> e.n]]
    [] e.a = "wasset" -> [wd EXCEPT !.assets = {x \in wd.assets : x.k # e.k} \cup {[k |-> e.k, m |-> e.m]}]
    [] e.a = "wdrop" -> [wd EXCEPT !.assets = {x \in wd.assets : x.k # e.k}]
    [] e.a = "wspawn" -> [wd EXCEPT !.ents = wd.ents \cup {Fresh(e)}]
    [] e.a = "wmove" -> Alter(wd, e.id, LAMBDA x : [x EXCEPT !.tf = e.tf])
    [] e.a = "wmesh" -> Alter(wd, e.id, LAMBDA x : [x EXCEPT !.m = e.m])
    [] e.a = "wkind" -> Alter(wd, e.id, LAMBDA x : [x EXCEPT !.kind = e.kind])
    [] e.a = "wgone" -> [wd EXCEPT !.ents = {x \in wd.ents : x.id # e.id}]
    [] e.a = "wgen" -> [wd EXCEPT !.gen = wd.gen + 1]
    [] OTHER -> wd

\* who is an affector now
Loaded(wd, k) == \E x \in wd.assets : x.k = k
AssetOf(wd, k) == (CHOOSE x \in wd.assets : x.k = k).m
MeshAffectors(wd) == {e \in wd.ents : e.m >= 0 /\ Loaded(wd, e.m) /\ Convertible(AssetOf(wd, e.m))}
ColliderAffectors(wd) == {e \in wd.ents : e.shape.s \notin NoShape \cup {"none"} /\ e.kind = "static"}
\* entries of both kinds can be paired up: an entry's kind is what Same cannot tell apart
Paired(out, want, Same(_, _)) ==
  /\ Len(out) = Cardinality(want)
  /\ \A i \in DOMAIN out : LET like == {e \in want : Same(out[i], e)}
                               twins == {j \in DOMAIN out : \E e \in like : Same(out[j], e)}
                           IN like # {} /\ Cardinality(twins) = Cardinality({f \in want : \E j \in twins : Same(out[j], f)})
AskBad(wd, post) ==
  IF wd.back.b = "none" THEN IfNot(post.has = 0, "a back end out of nowhere")
  ELSE IF post.has = 0 THEN {"no back end"}
  ELSE CASE wd.back.b = "fixed" -> IfNot(post.out = <<[tf |-> <<8, 0, 0, 0, 8, 0, 0, 0, 8, 8 * wd.back.n, 0, 0>>, mesh |-> NoMesh]>>, "not the back end set last")
         [] wd.back.b = "mesh" -> IfNot(Paired(post.out, MeshAffectors(wd),
               LAMBDA o, e : o.tf = Global(wd.ents, e) /\ BevyMeshBad(AssetOf(wd, e.m), [some |-> 1, mesh |-> o.mesh]) = {}), "not the meshes of the world")
         [] wd.back.b = "avian" -> IfNot(Paired(post.out, ColliderAffectors(wd),
               LAMBDA o, e : o.tf = Global(wd.ents, e) /\ MeshOK(o.mesh) /\ PrimBad(e.shape, o.mesh) = {}), "not the colliders of the world")
WorldOps == {"wopen", "wback", "wasset", "wdrop", "wspawn", "wmove", "wmesh", "wkind", "wgone", "wgen", "wask"}
WorldBad(e, wd) ==
  CASE e.a = "wask" -> AskBad(wd, e.post)
    [] e.a = "wgen" -> IfNot(e.post = wd.gen, "a handle given before")
    [] OTHER -> {}
=============================================================================
