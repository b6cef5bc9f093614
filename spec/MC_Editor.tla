------------------------------ MODULE MC_Editor ------------------------------
(***************************************************************************)
(* The editor as a state machine: pictures are redrawn only when something   *)
(* they depend on has changed since the last frame.  Whatever the session,   *)
(* every step satisfies EditorBad, which says nothing about changes: after a *)
(* frame the screen shows what is switched on.  Sessions are emitted (OPS)   *)
(* and run on the code.                                                      *)
(***************************************************************************)
EXTENDS Editor, Json
CONSTANTS N, Emit
VARIABLES on, sc, seen, drawn, nav, poly, det,     \* switches, scene, its visuals and affectors on the screen, navmesh and its pictures
          togg, navch, newsc,                      \* changed since the last frame
          ed, last, hist
vars == <<on, sc, seen, drawn, nav, poly, det, togg, navch, newsc, ed, last, hist>>

Id(k) == <<8, 0, 0, 0, 8, 0, 0, 0, 8, 8 * k, 0, 0>>
Square(n, y) == [vs |-> <<<<0, y, 0>>, <<n, y, 0>>, <<n, y, n>>, <<0, y, n>>>>, is |-> <<<<0, 2, 1>>, <<0, 3, 2>>>>, ar |-> <<0, 0>>]
Floor(k, n, y) == [tf |-> Id(k), mesh |-> Square(n, y)]
Seen(n) == [topo |-> 3, att |-> <<<<0, <<0, 0, n, 8, 0, 0, 0, 8, 0>>>>>>, ik |-> 32, ix |-> <<0, 1, 2>>]
SceneOf(ents, aff) == [auto |-> 1, backend |-> 1, params |-> 0, imgs |-> <<>>, mats |-> <<>>, meshes |-> <<Seen(1), Seen(2)>>,
  ents |-> [i \in DOMAIN ents |-> [m |-> ents[i], t |-> -1, vis |-> 1, mark |-> 0, tf |-> Id(i)]], aff |-> aff]
\* a large floor and a mesh to look at; a floor too small to stand on; nothing to walk on
Scenes == <<SceneOf(<<0>>, <<Floor(0, 8925, 0)>>), SceneOf(<<1, 0>>, <<Floor(0, 7425, 200), Floor(1, 675, 1300)>>), SceneOf(<<1>>, <<>>)>>

\* a navmesh of the large scenes; of what the plan really makes, the conformance run has the real one
NavOf(k) == [pm |-> [nvp |-> 6, vs |-> <<<<0, k, 0>>, <<0, k, 9>>, <<9, k, 9>>, <<9, k, 0>>>>, ps |-> <<<<0, 1, 2, 3, 65535, 65535>>>>,
                     lo |-> <<0, 0, 0>>, hi |-> <<9, 9, 9>>],
             dm |-> [ms |-> <<<<0, 4, 0, 2>>>>, vs |-> <<<<0, k, 0>>, <<0, k, 9>>, <<9, k, 9>>, <<9, k, 0>>>>, ts |-> <<<<0, 1, 2>>, <<0, 2, 3>>>>, fl |-> <<5, 5>>]]
NoNav == [pm |-> 0, dm |-> 0]
Closed(s) == s \o <<s[1]>>
Lines(ts) == [i \in DOMAIN ts |-> Closed(ts[i])]
Q(k) == NavOf(k).pm.vs
Hidden == [show |-> 0, lines |-> <<>>, fill |-> <<>>]
PolyPic(k) == [show |-> 1, lines |-> <<Closed(Q(k))>>, fill |-> <<<<Q(k)[1], Q(k)[2], Q(k)[3]>>, <<Q(k)[1], Q(k)[3], Q(k)[4]>>>>]
DetPic(k) == [show |-> 1, lines |-> Lines(PolyPic(k).fill), fill |-> PolyPic(k).fill]
TriLines(m) == Lines([i \in DOMAIN m.is |-> [c \in 1..3 |-> m.vs[m.is[i][c] + 1]]])

\* what can be observed
NoScene == SceneOf(<<>>, <<>>)
X(s) == IF s = 0 THEN NoScene ELSE Scenes[s]
ScOf(s) == LET x == X(s) IN [re |-> 1, aff |-> x.aff, vis |-> [i \in DOMAIN x.ents |-> [tf |-> x.ents[i].tf, m |-> x.ents[i].m, t |-> -1]],
                             meshes |-> x.meshes, mats |-> <<>>, imgs |-> <<>>, orig |-> <<>>]
Obs(err, ref) == [on |-> SetToSeq(on'), sc |-> ScOf(sc'), vshow |-> [i \in DOMAIN X(sc').ents |-> IF seen' THEN 1 ELSE 0],
             alines |-> [i \in DOMAIN X(sc').aff |-> IF drawn' THEN TriLines(X(sc').aff[i].mesh) ELSE <<>>],
             has |-> IF nav' = 0 THEN 0 ELSE 1, nav |-> IF nav' = 0 THEN NoNav ELSE NavOf(nav'), poly |-> poly', detail |-> det', err |-> err, ref |-> ref]

Step(op, o) == /\ last' = [op |-> op, post |-> o, ed |-> ed]
               /\ ed' = EditorAdopt([a |-> op.a, post |-> o], ed)
               /\ hist' = Append(hist, op)
               /\ (Len(hist') = N + 2 /\ Emit => PrintT("OPS " \o ToJson([id |-> "session", ops |-> hist' \o <<[a |-> "eframe"]>>])))
None == [ok |-> -1]
Init == /\ on = AtStart /\ sc = 0 /\ seen = TRUE /\ drawn = FALSE /\ nav = 0 /\ poly = Hidden /\ det = Hidden
        /\ togg = TRUE /\ navch = FALSE /\ newsc = FALSE /\ last = <<>>
        /\ hist = <<[a |-> "eopen"], [a |-> "eframe"]>>
        /\ ed = [o |-> [on |-> SetToSeq(AtStart), sc |-> ScOf(0), vshow |-> <<>>, alines |-> <<>>, has |-> 0, nav |-> NoNav, poly |-> Hidden, detail |-> Hidden,
                        err |-> 0, ref |-> None], lines |-> TRUE]
Load(s) == /\ sc' = s /\ seen' = TRUE /\ drawn' = FALSE /\ newsc' = TRUE
           /\ poly' = [poly EXCEPT !.lines = <<>>] /\ det' = [det EXCEPT !.lines = <<>>]
           /\ UNCHANGED <<on, nav, togg, navch>>
           /\ Step([a |-> "efetch", srv |-> 1, scene |-> Scenes[s]], Obs(0, None))
Refused == /\ UNCHANGED <<on, sc, seen, drawn, nav, poly, det, togg, navch, newsc>>
           /\ Step([a |-> "efetch", srv |-> 2, scene |-> Scenes[1]], Obs(1, None))
Build == /\ UNCHANGED <<on, sc, seen, drawn, poly, det, togg, newsc>>
         /\ IF X(sc).aff # <<>> THEN nav' = sc /\ navch' = TRUE ELSE UNCHANGED <<nav, navch>>
         /\ LET op == [a |-> "ebuild", plan |-> PlanOf(Adult)]
            IN IF X(sc).aff # <<>> THEN Step(op, Obs(0, [ok |-> 1, pm |-> NavOf(sc).pm, dm |-> NavOf(sc).dm])) ELSE Step(op, Obs(1, [ok |-> 0]))
Toggle(k) == /\ on' = (on \ {k}) \cup ({k} \ on) /\ togg' = TRUE
             /\ UNCHANGED <<sc, seen, drawn, nav, poly, det, navch, newsc>>
             /\ Step([a |-> "etoggle", k |-> k], Obs(0, None))
Frame == /\ seen' = IF togg \/ newsc THEN "visual" \in on ELSE seen
         /\ drawn' = IF togg \/ newsc THEN "affector" \in on ELSE drawn
         /\ poly' = IF "poly" \in on /\ nav # 0 /\ (navch \/ togg) THEN PolyPic(nav)
                    ELSE IF "poly" \notin on /\ togg THEN [poly EXCEPT !.show = 0, !.lines = <<>>] ELSE poly
         /\ det' = IF "detail" \in on /\ nav # 0 /\ (navch \/ togg) THEN DetPic(nav)
                   ELSE IF "detail" \notin on /\ togg THEN [det EXCEPT !.show = 0, !.lines = <<>>] ELSE det
         /\ togg' = FALSE /\ navch' = FALSE /\ newsc' = FALSE
         /\ UNCHANGED <<on, sc, nav>>
         /\ Step([a |-> "eframe"], Obs(0, None))
\* only the last step may be one that changes nothing
Next == Len(hist) < N + 2 /\ (\/ \E s \in DOMAIN Scenes : Load(s)
                              \/ Refused \/ Build \/ \E k \in Pictures : Toggle(k)
                              \/ (hist[Len(hist)].a # "eframe" /\ Len(hist) < N + 1 /\ Frame))
Spec == Init /\ [][Next]_vars
\* the change-driven editor shows what is switched on
SessionOK == last # <<>> => EditorBad(last.op @@ [post |-> last.post], last.ed) = {}
\* also at any moment: one more frame would show it
NextFrame == LET s == IF togg \/ newsc THEN "visual" \in on ELSE seen  d == IF togg \/ newsc THEN "affector" \in on ELSE drawn
             IN /\ sc # 0 => (s <=> "visual" \in on)
                /\ sc # 0 => (d <=> "affector" \in on)
                /\ (nav # 0 /\ "poly" \in on) => (togg \/ navch \/ poly.fill = PolyPic(nav).fill)
                /\ (nav # 0 /\ "detail" \in on) => (togg \/ navch \/ det.fill = DetPic(nav).fill)
=============================================================================
