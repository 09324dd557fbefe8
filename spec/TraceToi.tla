------------------------------ MODULE TraceToi ------------------------------
(* Recorded fast bodies among thin walls judged against Toi (C16).           *)
(* History: which fixtures are walls (segments), inner radii of bodies, and  *)
(* whether the last step may have been left unfinished by sub-stepping (half;*)
(* then at: event of the last certainly complete state, mixed: bodies that   *)
(* met other moving bodies since).                                           *)
EXTENDS Toi, FiniteSets, TLC, Json, IOUtils

Tr == ndJsonDeserialize(IOEnv.TRACE)
Clauses == [C16 |-> {"c16_panic", "c16_side", "c16_still", "c16_free", "c16_slide", "c16_together"}]
Sel == Clauses[IOEnv.PROP]

VARIABLES l, g
NewGhost(a) == [ok |-> TRUE, cont |-> a.cont = 1, sub |-> a.sub, dis |-> a.dis > 0, half |-> FALSE, at |-> 0, mixed |-> {}, walls |-> <<>>, ir |-> <<>>, round |-> <<>>]

Values(s) == UNION {{s.B[b].hp[i] : i \in 1..3} \cup {s.B[b].hv[i] : i \in 1..3} : b \in DOMAIN s.B}
Sane(s) == \A v \in Values(s) : FAbs(v) < 8000000

Posts(e) == {i \in DOMAIN e.ev : e.ev[i].e = "post"}
Between(s, x) == {s.F[x.fa].b, s.F[x.fb].b}
Met(s, e, b) == UNION {Between(s, e.ev[i]) : i \in {i \in Posts(e) : b \in Between(s, e.ev[i])}} \ {b}
\* bodies in touch before the step
Held(s, b) == UNION {Between(s, s.C[i]) : i \in {i \in DOMAIN s.C : s.C[i].t /\ b \in Between(s, s.C[i])}} \ {b}
Hits(e, b, s) == {e.ev[i].fa : i \in {i \in Posts(e) : b \in Between(s, e.ev[i])}} \cup {e.ev[i].fb : i \in {i \in Posts(e) : b \in Between(s, e.ev[i])}}

Runners(gh, s) == {b \in DOMAIN s.B : b \in DOMAIN gh.ir}
\* the wall fixture stops body b
Stops(gh, s, f, b) ==
    LET w == s.F[f].b IN
    /\ w # b /\ ~s.F[f].se /\ s.F[f].mask # 0 /\ ~gh.dis
    /\ s.B[w].ty # 2 \/ s.B[b].bu \/ s.B[w].bu
\* nothing but this wall's body interferes
Only(s, s2, e, b, w) == \A x \in Met(s, e, b) \cup Held(s, b) \cup Held(s2, b) : x = w \/ s.B[x].ty = 0
\* the limit of sub-steps for one contact and step was not reached
Within(s, e, b) == Cardinality({i \in DOMAIN e.ev : e.ev[i].e = "pre" /\ b \in Between(s, e.ev[i])}) < 8
Free(s, s2, e, b) == s.B[b].aw /\ s2.B[b].aw /\ s.B[b].ty # 0 /\ Met(s, e, b) = {}
Still(s, s2) == \A b \in DOMAIN s.B : Stalled(s.B[b], s2.B[b]) /\ s.B[b].vb = s2.B[b].vb
\* after this call no step is left unfinished
Done(gh, s, e) == ~gh.sub \/ Still(s, e.s)
Mixing(s, e) == {b \in DOMAIN s.B : \E x \in Met(s, e, b) \cup Held(s, b) \cup Held(e.s, b) : s.B[x].ty = 2}

Holds(n, gh, s, e) ==
    LET s2 == e.s  step == e.op = "step" /\ e.a.dt > 0  dt == IF step THEN e.a.dt ELSE 0 IN
    CASE n = "c16_panic" -> e.r = "ok"
      [] n = "c16_side" -> (step /\ gh.cont /\ Done(gh, s, e)) => LET s0 == IF gh.half THEN Tr[gh.at].s ELSE s IN
            \A f \in DOMAIN gh.walls : \A b \in Runners(gh, s) :
                (Stops(gh, s, f, b) /\ b \notin gh.mixed /\ Within(s, e, b) /\ Only(s, s2, e, b, s.F[f].b) /\ (s.B[s.F[f].b].ty # 0 => Only(s, s2, e, s.F[f].b, b))) =>
                \A i \in DOMAIN gh.walls[f].w :
                    StaysOn(Seen(s0.B[s.F[f].b], gh.walls[f].w[i], s0.B[b].wc), Seen(s2.B[s.F[f].b], gh.walls[f].w[i], s2.B[b].wc), gh.ir[b], gh.walls[f].one)
      [] n = "c16_still" -> step => \A b \in DOMAIN s.B : s.B[b].ty = 0 => Stalled(s.B[b], s2.B[b])
      [] n = "c16_free" -> step => \A b \in DOMAIN s.B : Free(s, s2, e, b) =>
            (Carried(s.B[b], s2.B[b], dt) \/ (gh.half /\ Stalled(s.B[b], s2.B[b])))
      [] n = "c16_together" -> step =>   \* either the whole world is in a new step or none of it
            LET S == {b \in DOMAIN s.B : Free(s, s2, e, b) /\ FAbs(s2.B[b].hv[1]) + FAbs(s2.B[b].hv[2]) > 16384} IN
            \A a, b \in S : Stalled(s.B[a], s2.B[a]) <=> Stalled(s.B[b], s2.B[b])
      [] n = "c16_slide" -> (step /\ ~gh.half /\ ~gh.sub) =>
            \A b \in Runners(gh, s) : LET H == Hits(e, b, s) \cap DOMAIN gh.walls IN
                (gh.round[b] /\ s.B[b].aw /\ s2.B[b].aw /\ Cardinality(H) = 1 /\ Met(s, e, b) \cap {x \in DOMAIN s.B : s.B[x].ty # 0} = {}) =>
                LET f == CHOOSE f \in H : TRUE IN
                (s.F[f].fr = 0 /\ Len(gh.walls[f].w) = 1
                 /\ FAbs((s2.B[b].hv[1] * dt) \div 1024) < 20000 /\ FAbs((s2.B[b].hv[2] * dt) \div 1024) < 20000) =>
                Slid(s.B[b], s2.B[b], Seen(s.B[s.F[f].b], gh.walls[f].w[1], s.B[b].wc).u, dt)

After(gh, s, e) ==
    CASE e.op = "create_fixture" /\ e.a.w # <<>> -> [gh EXCEPT !.walls = (e.a.id :> [w |-> e.a.w, one |-> e.a.one]) @@ @]
      [] e.op = "create_body" /\ "ir" \in DOMAIN e.a -> [gh EXCEPT !.ir = (e.a.id :> e.a.ir) @@ @, !.round = (e.a.id :> e.a.round) @@ @]
      [] e.op = "set_continuous" -> [gh EXCEPT !.cont = e.a.v]
      [] e.op = "set_sub_stepping" -> [gh EXCEPT !.sub = e.a.v]
      [] e.op = "step" /\ e.a.dt > 0 /\ gh.cont ->
            IF Done(gh, s, e) THEN [gh EXCEPT !.half = gh.sub, !.at = l + 1, !.mixed = {}]
            ELSE [gh EXCEPT !.half = TRUE, !.at = IF gh.half THEN @ ELSE l, !.mixed = @ \cup Mixing(s, e)]
      \* without continuous collision every step completes, unless an unfinished one holds up the world
      [] e.op = "step" /\ e.a.dt > 0 /\ gh.half /\ ~Still(s, e.s) -> [gh EXCEPT !.half = FALSE, !.mixed = {}]
      [] OTHER -> gh

Init == TLCSet(1, 0) /\ l = 1 /\ g = NewGhost(Tr[1].a)
Next ==
    /\ l < Len(Tr)
    /\ LET e == Tr[l + 1] IN
       IF e.op = "New" THEN l' = l + 1 /\ g' = NewGhost(e.a)
       ELSE IF ~g.ok THEN l' = l + 1 /\ g' = g
       ELSE LET bad == IF e.r # "ok" THEN Sel \cap {"c16_panic"} ELSE IF ~Sane(e.s) THEN {} ELSE {n \in Sel : ~Holds(n, g, Tr[l].s, e)}
            IN  IF bad = {} THEN l' = l + 1 /\ g' = [After(g, Tr[l].s, e) EXCEPT !.ok = e.r = "ok" /\ Sane(e.s)]
                ELSE /\ PrintT(<<"VIOL", l + 1, bad>>) /\ TLCSet(1, TLCGet(1) + 1)
                     /\ l' = l + 1 /\ g' = [g EXCEPT !.ok = FALSE]

Spec == Init /\ [][Next]_<<l, g>>
Accepted == TLCGet("stats").diameter = Len(Tr) /\ TLCGet(1) = 0
=============================================================================
