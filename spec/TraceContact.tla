---------------------------- MODULE TraceContact ----------------------------
(* Recorded histories of colliding bodies judged against Contact. History    *)
(* carried along: the coefficients of each contact, the impulses left in     *)
(* each manifold and the depth of each contact in the step before.           *)
EXTENDS Contact, FiniteSets, Json, IOUtils

Tr == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP

Clauses ==
    [C14 |-> {"c14_panic", "c14_impulse", "c14_centre", "c14_turn", "c14_linear", "c14_angular"},
     C15 |-> {"c15_panic", "c15_finite", "c15_pull", "c15_slick", "c15_coef", "c15_normal", "c15_friction", "c15_deeper", "c15_recover", "c15_rest"},
     C04 |-> {"c04_carry", "c04_old"}]
Sel == Clauses[PROP]

VARIABLES l, g
\* co: coefficients, m: manifolds, sp: depths in the previous step, n: steps done, at: places of bodies in a tower
NewGhost(a) == [ok |-> TRUE, gx |-> a.gx, gy |-> a.gy, cont |-> a.cont = 1, tower |-> a.kind = 2, co |-> <<>>, m |-> <<>>, sp |-> <<>>, n |-> 0,
                at |-> <<>>]

Values(s) == UNION {{s.B[b].hp[i] : i \in 1..3} \cup {s.B[b].hv[i] : i \in 1..3} : b \in DOMAIN s.B}
Impulses(e) == UNION {IF e.ev[i].e = "post" THEN {e.ev[i].ni[j] : j \in DOMAIN e.ev[i].ni} \cup {e.ev[i].ti[j] : j \in DOMAIN e.ev[i].ti}
                      ELSE IF e.ev[i].e = "pre" THEN {e.ev[i].wi[j][1] : j \in DOMAIN e.ev[i].wi} ELSE {} : i \in DOMAIN e.ev}
Sane(e) == (\A v \in Values(e.s) : FAbs(v) < 5000000) /\ (\A v \in Impulses(e) : FAbs(v) < 5000000)
Finite(s) == \A v \in Values(s) : v # -1073741825

---------------------------------------------------------------------------
Idx(e, kind, k) == {i \in DOMAIN e.ev : e.ev[i].e = kind /\ e.ev[i].k = k}
Last(S) == CHOOSE i \in S : \A j \in S : j <= i
Keys(e, kind) == {e.ev[i].k : i \in {i \in DOMAIN e.ev : e.ev[i].e = kind}}
Pre(e, k) == e.ev[Last(Idx(e, "pre", k))]
Post(e, k) == e.ev[Last(Idx(e, "post", k))]
Solved(e) == Keys(e, "post") \cap Keys(e, "pre")
Ct(s) == [k \in {s.C[i].k : i \in DOMAIN s.C} |-> LET i == CHOOSE i \in DOMAIN s.C : s.C[i].k = k IN s.C[i]]
Coef(c) == [fr |-> c.fr, re |-> c.re, rt |-> c.rt, ts |-> c.ts]

RECURSIVE SumGiven(_, _, _, _)
SumGiven(K, s, e, b) ==
    IF K = {} THEN NoImpulse
    ELSE LET k == CHOOSE k \in K : TRUE  p == Pre(e, k)  q == Post(e, k) IN
         Add(IF s.F[p.fb].b = b THEN Given(p, q, s.B[b].wc, 1) ELSE Given(p, q, s.B[b].wc, -1), SumGiven(K \ {k}, s, e, b))
Of(s, e, b) == {k \in Solved(e) : s.F[Pre(e, k).fa].b = b \/ s.F[Pre(e, k).fb].b = b}
\* contacts of a sleeping body that is woken by another contact may be solved as they are, without an update
Reported(s, e, b) == \A k \in Keys(e, "post") \ Solved(e) : s.F[Post(e, k).fa].b # b /\ s.F[Post(e, k).fb].b # b
Jointed(s, b) == \E j \in DOMAIN s.J : s.J[j].a = b \/ s.J[j].b = b
Speed(b) == FAbs(b.hv[1]) + FAbs(b.hv[2]) + FAbs(b.hv[3])
\* both bodies of a contact are in reach of the arithmetic and stay awake
Clean(s, s2, e, k, dt) ==
    \A f \in {Pre(e, k).fa, Pre(e, k).fb} :
        LET b == s.F[f].b IN /\ s.B[b].ty = 2 => s2.B[b].aw
                             /\ Uncut(s.B[b], dt) /\ Uncut(s2.B[b], dt)
\* the contact is the only thing acting on its bodies
Alone(s, e, k) ==
    \A f \in {Pre(e, k).fa, Pre(e, k).fb} : LET b == s.F[f].b IN s.B[b].ty = 2 => (Of(s, e, b) = {k} /\ Reported(s, e, b) /\ ~Jointed(s, b))

\* the whole island is clean: bodies reached through contacts
Quiet(s, s2, dt) == \A b \in DOMAIN s.B : Uncut(s.B[b], dt) /\ Uncut(s2.B[b], dt)
NoJoints(s) == DOMAIN s.J = {}
MinSep(p) == LET S == {p.sp[i] : i \in DOMAIN p.sp} IN CHOOSE x \in S : \A y \in S : x <= y

\* the contact survived the event: it kept touching all along
Kept(pre, e, k) == e.op # "step" \/ (Ct(pre)[k].t /\ Idx(e, "end", k) = {} /\ Idx(e, "begin", k) = {})
\* coefficients a contact may have after the event
Wanted(gh, pre, e, k) ==
    LET c == Ct(e.s)[k]  fresh == Mixed(e.s.F[c.fa], e.s.F[c.fb]) IN
    IF k \notin DOMAIN gh.co THEN {fresh}
    ELSE IF e.op = "contact_set" /\ e.a.c = k THEN {CoefSet(gh.co[k], e.a.m, e.a.v)}
    ELSE IF e.op = "contact_reset" /\ e.a.c = k THEN {[gh.co[k] EXCEPT ![e.a.m] = fresh[e.a.m]]}
    ELSE IF Kept(pre, e, k) THEN {gh.co[k]} ELSE {gh.co[k], fresh}

---------------------------------------------------------------------------
Holds(n, gh, pre, e) ==
    LET a == e.a  op == e.op  post == e.s
        step == op = "step"
        dt == IF step THEN a.dt ELSE 0
        run == step /\ dt > 0
        exact == run /\ ~gh.cont
        \* a few more iterations lead to the same velocities
        sure == exact /\ a.vi >= 200 /\ e.cv <= 8 /\ Quiet(pre, post, dt)
        Solid == IF exact THEN {k \in Solved(e) : Clean(pre, post, e, k, dt)} ELSE {}
        A(k) == pre.F[Pre(e, k).fa].b
        B(k) == pre.F[Pre(e, k).fb].b
        vel0(b) == IF pre.B[b].ty = 2 THEN Free(pre.B[b], gh.gx, gh.gy, dt) ELSE pre.B[b].hv
        tol(k) == 40 + (Speed(pre.B[A(k)]) + Speed(pre.B[B(k)]) + Speed(post.B[A(k)]) + Speed(post.B[B(k)])) \div 512
        tn(q) == 16 + SumSeq([i \in 1..q.n |-> FAbs(q.ni[i])]) \div 512
    IN
    CASE n \in {"c14_panic", "c15_panic"} -> e.r = "ok"
      [] e.r # "ok" -> TRUE
      [] n \in {"c14_impulse", "c14_centre", "c14_turn", "c14_linear", "c14_angular"} /\ ~exact -> TRUE
      [] n = "c14_impulse" ->
            \A b \in DOMAIN pre.B :
               (pre.B[b].ty = 2 /\ post.B[b].aw /\ Uncut(pre.B[b], dt) /\ Uncut(post.B[b], dt) /\ ~Jointed(pre, b) /\ Reported(pre, e, b)) =>
                  Driven(pre.B[b], post.B[b], SumGiven(Of(pre, e, b), pre, e, b), gh.gx, gh.gy, dt)
      [] n = "c14_linear" ->
            Closed(pre, post, dt) =>
               \A i \in 1..2 : FAbs(Total(pre.B, LAMBDA b : Gain(pre, post, gh.gx, gh.gy, b, i, dt))) <= 40 + Total(pre.B, LAMBDA b : Slack(pre, post, b))
      [] n = "c14_centre" -> Closed(pre, post, dt) => Centred(pre, post, dt)
      [] n = "c14_turn" -> Closed(pre, post, dt) => Unturned(pre, post, dt, 0)
      [] n = "c14_angular" ->
            (Closed(pre, post, dt) /\ NoJoints(pre) /\ \A b \in DOMAIN pre.B : Turnable(pre.B[b])) =>
               LET turn(b) == VCross(pre.B[b].wc, <<Gain(pre, post, gh.gx, gh.gy, b, 1, dt), Gain(pre, post, gh.gx, gh.gy, b, 2, dt)>>)
                              + Gain(pre, post, gh.gx, gh.gy, b, 3, dt)
               IN FAbs(Total(pre.B, turn)) <= 60 + Total(pre.B, LAMBDA b : Slack(pre, post, b) + Q(VLen(pre.B[b].wc), Slack(pre, post, b)))
      [] n = "c15_finite" -> Finite(post)
      [] n = "c15_pull" -> \A k \in Keys(e, "post") : \A i \in 1..Post(e, k).n : Post(e, k).ni[i] >= 0
      [] n = "c15_slick" ->
            \A k \in Keys(e, "post") : (k \in DOMAIN gh.co /\ gh.co[k].fr = 0) => \A i \in 1..Post(e, k).n : FAbs(Post(e, k).ti[i]) <= 1
      [] n = "c15_coef" -> \A k \in DOMAIN Ct(post) : \E c \in Wanted(gh, pre, e, k) : SameCoef(Coef(Ct(post)[k]), c)
      [] n = "c15_normal" ->
            (sure /\ NoJoints(pre)) => \A k \in Solid : k \in DOMAIN gh.co =>
               LET p == Pre(e, k)  q == Post(e, k)  X == pre.B[A(k)]  Y == pre.B[B(k)] IN
               \A i \in 1..q.n :
                  LET vn == VDot(RelAt(X, Y, vel0(A(k)), vel0(B(k)), p.pt[i]), p.nr)
                      vn2 == VDot(RelAt(X, Y, post.B[A(k)].hv, post.B[B(k)].hv, p.pt[i]), p.nr)
                  IN NormalOk(vn2, q.ni[i], Bounce(vn, gh.co[k], tol(k)), tol(k), tn(q))
      [] n = "c15_friction" ->
            (sure /\ NoJoints(pre)) => \A k \in Solid : k \in DOMAIN gh.co =>
               LET p == Pre(e, k)  q == Post(e, k)  X == pre.B[A(k)]  Y == pre.B[B(k)] IN
               \A i \in 1..q.n :
                  LET vt2 == VDot(RelAt(X, Y, post.B[A(k)].hv, post.B[B(k)].hv, p.pt[i]), Tangent(p.nr)) - gh.co[k].ts * 64
                  IN FrictionOk(vt2, q.ti[i], q.ni[i], gh.co[k].fr, tol(k), tn(q))
      [] n = "c15_deeper" ->
            \* a contact that was solved in the step before has not become deeper
            step => \A k \in Keys(e, "pre") \cap DOMAIN gh.sp : Pre(e, k).id = gh.sp[k].id => MinSep(Pre(e, k)) >= FMin(gh.sp[k].d, -246) - 60 - gh.sp[k].t
      [] n = "c15_recover" ->
            step => \A k \in Keys(e, "pre") \cap DOMAIN gh.sp :
               LET d == gh.sp[k].d IN (d < -500 /\ d > -4000 /\ Pre(e, k).id = gh.sp[k].id) => MinSep(Pre(e, k)) >= d + (-d - 82) \div 10 - gh.sp[k].t
      [] n = "c15_rest" ->
            gh.tower => /\ \A k \in Keys(e, "pre") : MinSep(Pre(e, k)) > -500
                        /\ (step /\ gh.n >= 60) => \A b \in DOMAIN gh.at :
                              /\ \A i \in 1..3 : FAbs(post.B[b].hv[i]) < 1600
                              /\ \A i \in 1..3 : FAbs(post.B[b].hp[i] - gh.at[b][i]) < 3000
      [] n = "c04_carry" ->
            \* points that persist keep their impulses, new ones start without
            \A i \in DOMAIN e.ev : e.ev[i].e = "pre" =>
               LET p == e.ev[i] IN \A j \in DOMAIN p.id :
                  LET S == {m \in DOMAIN p.oid : p.oid[m] = p.id[j]} IN
                  IF S = {} THEN p.wi[j] = <<0, 0>> ELSE \E m \in S : p.wi[j] = p.ow[m]
      [] n = "c04_old" ->
            \* the previous manifold is the one of the last update, with the impulses of the last solution
            (step /\ ~gh.cont) => \A k \in Keys(e, "pre") :
               LET p == Pre(e, k) IN (Len(p.oid) > 0 /\ k \in DOMAIN gh.m) => p.oid = gh.m[k].id /\ p.ow = gh.m[k].w
      [] OTHER -> Assert(FALSE, <<"unknown clause", n>>)

---------------------------------------------------------------------------
Moves == {"step", "set_transform"}
GhostAfter(gh, pre, e) ==
    LET C == Ct(e.s)
        pick(k) == LET W == Wanted(gh, pre, e, k) IN
                   IF \E c \in W : SameCoef(Coef(C[k]), c) THEN CHOOSE c \in W : SameCoef(Coef(C[k]), c) ELSE Coef(C[k])
        run == e.op = "step" /\ e.a.dt > 0
        again(k) == LET q == Post(e, k) IN [gh.m[k] EXCEPT !.w = [i \in DOMAIN gh.m[k].w |-> IF i <= q.n THEN <<q.ni[i], q.ti[i]>> ELSE gh.m[k].w[i]]]
        left(k) == IF k \notin Keys(e, "pre") THEN again(k) ELSE LET p == Pre(e, k) IN
                   [id |-> p.id, w |-> IF k \in Keys(e, "post")
                                       THEN LET q == Post(e, k) IN [i \in DOMAIN p.wi |-> IF i <= q.n THEN <<q.ni[i], q.ti[i]>> ELSE p.wi[i]]
                                       ELSE p.wi]
        M == IF e.op = "step" THEN (Keys(e, "pre") \cup (Keys(e, "post") \cap DOMAIN gh.m)) \cap DOMAIN C ELSE {}
        \* slack for turning and sliding during the step
        turn(k) == LET t(f) == LET b == e.s.B[pre.F[f].b]  w == Times(b.hv[3], e.a.dt)  v == Times(VLen(b.hv), e.a.dt) IN
                               2 * Q(w, w) + Q(FAbs(w), v) + v \div 8 + FAbs(w) \div 8
                   IN t(Pre(e, k).fa) + t(Pre(e, k).fb)
        D == IF run /\ ~gh.cont /\ e.a.pi >= 3 /\ e.a.vi >= 200 /\ e.cv <= 8 THEN {k \in Solved(e) : Clean(pre, e.s, e, k, e.a.dt) /\ Alone(pre, e, k)} ELSE {}
    IN  [gh EXCEPT !.co = [k \in DOMAIN C |-> pick(k)],
                   !.m = [k \in (DOMAIN gh.m \cap DOMAIN C) \cup M |-> IF k \in M THEN left(k) ELSE gh.m[k]],
                   !.sp = IF e.op = "step" THEN [k \in D |-> [d |-> MinSep(Pre(e, k)), t |-> turn(k), id |-> Pre(e, k).id]]
                          ELSE IF e.op = "set_transform" THEN <<>> ELSE gh.sp,
                   !.n = IF run THEN gh.n + 1 ELSE gh.n,
                   !.at = IF gh.tower /\ e.op = "create_body" /\ e.a.ty = 2 THEN (e.a.id :> e.s.B[e.a.id].hp) @@ gh.at ELSE gh.at]

Init == TLCSet(1, 0) /\ l = 1 /\ g = NewGhost(Tr[1].a)

Next ==
    /\ l < Len(Tr)
    /\ LET e == Tr[l + 1]  pre == Tr[l].s IN
       IF e.op = "New"
       THEN l' = l + 1 /\ g' = NewGhost(e.a)
       ELSE IF ~g.ok
       THEN l' = l + 1 /\ g' = g
       ELSE LET bad == IF e.r = "ok" /\ ~Sane(e) THEN IF Finite(e.s) THEN {} ELSE Sel \cap {"c15_finite"}
                       ELSE {n \in Sel : ~Holds(n, g, pre, e)} IN
            /\ IF bad = {} THEN TRUE ELSE PrintT(<<"VIOL", l + 1, bad>>) /\ TLCSet(1, TLCGet(1) + 1)
            /\ l' = l + 1
            /\ g' = IF bad # {} \/ e.r # "ok" \/ ~Sane(e) THEN [g EXCEPT !.ok = FALSE] ELSE GhostAfter(g, pre, e)

Spec == Init /\ [][Next]_<<l, g>>
Accepted == TLCGet("stats").diameter = Len(Tr) /\ TLCGet(1) = 0
=============================================================================
