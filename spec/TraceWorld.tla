----------------------------- MODULE TraceWorld -----------------------------
(* Judges recorded executions of the library against the rules in World.     *)
(*                                                                           *)
(* The trace is a sequence of events [op, a, r, ev, s]: a call with its      *)
(* arguments, its outcome, the callbacks delivered during it and the         *)
(* complete observable state after it. "New" starts a fresh world. Each      *)
(* property owns clauses (the set Sel selects them); an event is accepted if *)
(* every selected clause holds for the transition. History that the library  *)
(* does not expose is kept in the ghost g by the specification itself.       *)
EXTENDS World, Json, IOUtils

Tr == ndJsonDeserialize(IOEnv.TRACE)
Clauses == [
    C01 |-> {"c01_bodies", "c01_contacts", "c01_fixtures", "c01_joints", "c01_panic", "c01_proxies", "c01_refs"},
    C02 |-> {"c02_api", "c02_boxes", "c02_fat", "c02_keep", "c02_must", "c02_only", "c02_panic", "c02_unique"},
    C03 |-> {"c03_alternate", "c03_api", "c03_birth", "c03_fold", "c03_new", "c03_np", "c03_panic", "c03_truth"},
    C04 |-> {"c04_enabled", "c04_free", "c04_panic", "c04_post", "c04_postmust", "c04_pre", "c04_premust"},
    C05 |-> {"c05_data", "c05_event", "c05_must", "c05_no", "c05_panic"},
    C06 |-> {"c06_must", "c06_no", "c06_panic"},
    C07 |-> {"c07_bye", "c07_exact", "c07_others", "c07_panic", "c07_refs"},
    C08 |-> {"c08_absent", "c08_contacts", "c08_flags", "c08_joint", "c08_move", "c08_panic", "c08_present", "c08_restore", "c08_same", "c08_still", "c08_type"},
    C09 |-> {"c09_fall", "c09_idle", "c09_must", "c09_panic", "c09_still", "c09_touch", "c09_uniform", "c09_wake"},
    C10 |-> {"c10_allow", "c10_awake", "c10_ignored", "c10_panic", "c10_static", "c10_velocity", "c10_zero"}]
Sel == IF IOEnv.PROP \in DOMAIN Clauses THEN Clauses[IOEnv.PROP] ELSE UNION {Clauses[p] : p \in DOMAIN Clauses}

VARIABLES l, g

Has(r, k) == k \in DOMAIN r
Arg(a, k, d) == IF k \in DOMAIN a THEN a[k] ELSE d

---------------------------------------------------------------------------
(* Ghost state.                                                              *)

NewGhost(a) ==
    [B |-> <<>>, F |-> <<>>, J |-> <<>>, dc |-> {}, fresh |-> {}, pend |-> {}, rest |-> <<>>, rl |-> <<>>,
     ft |-> {}, gx |-> Arg(a, "gx", 0), gy |-> Arg(a, "gy", 0), cf |-> Arg(a, "cf", 0),
     cont |-> a.cont = 1, sub |-> Arg(a, "sub", FALSE), dis |-> Arg(a, "dis", 0), ok |-> TRUE]

Ext(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]

WellFormed(pre, e) ==
    LET s == e.s IN
    /\ \A f \in DOMAIN s.F : s.F[f].b \in DOMAIN s.B
    /\ \A j \in DOMAIN s.J : s.J[j].a \in DOMAIN s.B /\ s.J[j].b \in DOMAIN s.B
    /\ \A i \in DOMAIN s.C : LET c == s.C[i] IN
          /\ c.fa \in DOMAIN s.F /\ c.fb \in DOMAIN s.F
          /\ c.ia \in 0..(s.F[c.fa].nc - 1) /\ c.ib \in 0..(s.F[c.fb].nc - 1)
    /\ \A i \in DOMAIN e.ev : e.ev[i].e \in {"begin", "end", "pre", "post"} =>
          {e.ev[i].fa, e.ev[i].fb} \subseteq (DOMAIN pre.F \cup DOMAIN s.F)

HighSpeed(b) == b.v[1] * b.v[1] + b.v[2] * b.v[2] > 144 \/ Abs(b.v[3]) > 37
Clamp(x) == IF x > 20000 THEN 20000 ELSE IF x < -20000 THEN -20000 ELSE x
Fast(b) == LET x == Clamp(b.v[1])  y == Clamp(b.v[2]) IN x * x + y * y > 144 \/ Abs(b.v[3]) > 37
Slow(b) == LET x == Clamp(b.v[1])  y == Clamp(b.v[2]) IN x * x + y * y < 81 /\ Abs(b.v[3]) < 32

InContact(s, b) == \E i \in DOMAIN s.C : b \in ContactBodies(s, s.C[i])
Jointed(s, b) == \E j \in DOMAIN s.J : b \in {s.J[j].a, s.J[j].b}
Lone(s, b) == ~InContact(s, b) /\ ~Jointed(s, b)

LocalOps == {"set_transform", "set_linear_velocity", "set_angular_velocity", "set_awake", "set_bullet",
             "set_linear_damping", "set_gravity_scale", "create_body"} \cup ForceOps

GhostAfter(gh, pre, e) ==
    LET a == e.a  op == e.op  post == e.s
        dt == IF op = "step" THEN a.dt ELSE 0
        nb == CASE op = "create_body" -> Ext(gh.B, a.id, [ty |-> a.ty, en |-> Arg(a, "en", TRUE)])
                [] op = "destroy_body" -> Without(gh.B, {a.b})
                [] op = "set_enabled" -> [gh.B EXCEPT ![a.b].en = a.v]
                [] op = "set_type" -> [gh.B EXCEPT ![a.b].ty = a.v]
                [] OTHER -> gh.B
        nf == CASE op = "create_fixture" ->
                     Ext(gh.F, a.id, [b |-> a.b, cat |-> Arg(a, "cat", 1), mask |-> Arg(a, "mask", 65535), grp |-> Arg(a, "grp", 0)])
                [] op = "destroy_fixture" -> Without(gh.F, {a.f})
                [] op = "destroy_body" -> Without(gh.F, {f \in DOMAIN gh.F : gh.F[f].b = a.b})
                [] op = "set_filter" -> [gh.F EXCEPT ![a.f] = [b |-> gh.F[a.f].b, cat |-> a.cat, mask |-> a.mask, grp |-> a.grp]]
                [] OTHER -> gh.F
        deadJ == CASE op = "destroy_joint" -> {a.j}
                   [] op = "destroy_body" -> {j \in DOMAIN gh.J : a.b \in {gh.J[j].a, gh.J[j].b}}
                   [] OTHER -> {}
        nj == CASE op = "create_joint" -> Ext(gh.J, a.id, [a |-> a.a, b |-> a.b, cc |-> a.cc, ty |-> a.jt])
                [] OTHER -> Without(gh.J, deadJ)
        freed == {{gh.J[j].a, gh.J[j].b} : j \in {x \in deadJ : ~gh.J[x].cc}}
        newdc == IF freed = {} THEN {}
                 ELSE UNION {{{x, y} : x \in {z \in Children(pre) : pre.F[z[1]].b \in q},
                                       y \in {z \in Children(pre) : pre.F[z[1]].b \in q}} : q \in freed}
        changed(x) == \/ x[1] \notin DOMAIN post.F \/ x[1] \notin DOMAIN pre.F
                      \/ post.F[x[1]].bb # pre.F[x[1]].bb
        dc1 == gh.dc \cup newdc
        dc2 == IF op = "shift_origin" \/ dc1 = {} THEN dc1 ELSE {q \in dc1 : \A x \in q : ~changed(x)}
        done == op = "step" /\ dt > 0
        pend2 == IF done THEN {}
                 ELSE IF op \in {"set_enabled", "set_type"} THEN gh.pend \cup {a.b} ELSE gh.pend
        \* fixtures placed since the last step: new, enabled with their body, or moved out of their stored box
        fresh2 == IF op \in {"step", "shift_origin"} THEN IF op = "step" THEN {} ELSE gh.fresh
                  ELSE {f \in DOMAIN post.F : \/ f \in gh.fresh \/ f \notin DOMAIN pre.F
                                              \/ post.F[f].bb # pre.F[f].bb
                                              \/ (post.B[post.F[f].b].en /\ ~pre.B[post.F[f].b].en)}
        rest2 == [b \in DOMAIN post.B |->
                    LET old == IF b \in DOMAIN gh.rest THEN gh.rest[b] ELSE 0 IN
                    IF ~post.B[b].aw THEN 0
                    ELSE IF done THEN (IF Fast(post.B[b]) THEN 0 ELSE old + dt)
                    ELSE IF b \in DOMAIN pre.B /\ ~pre.B[b].aw THEN 0 ELSE old]
        rl2 == [b \in DOMAIN post.B |->
                    LET old == IF b \in DOMAIN gh.rl THEN gh.rl[b] ELSE 0 IN
                    IF op = "step"
                    THEN IF dt = 0 THEN old
                         ELSE IF /\ b \in DOMAIN pre.B /\ pre.B[b].aw /\ post.B[b].aw /\ pre.B[b].en /\ pre.B[b].ty # 0
                                 /\ pre.B[b].sl /\ pre.as /\ Slow(post.B[b]) /\ Lone(pre, b) /\ Lone(post, b)
                              THEN old + dt ELSE 0
                    ELSE IF op \in LocalOps /\ Arg(a, "b", "") # b THEN old ELSE 0]
        ft2 == IF done THEN {} ELSE IF op \in ForceOps THEN gh.ft \cup {a.b} ELSE gh.ft
    IN  [gh EXCEPT !.B = nb, !.F = nf, !.J = nj, !.dc = dc2, !.fresh = fresh2, !.pend = pend2, !.rest = rest2, !.rl = rl2, !.ft = ft2,
                   !.gx = IF op = "set_gravity" THEN a.x ELSE @, !.gy = IF op = "set_gravity" THEN a.y ELSE @,
                   !.ok = gh.ok /\ e.r = "ok" /\ WellFormed(pre, e)]

---------------------------------------------------------------------------
(* Callback history of one call.                                             *)

Evs(e, kinds) == {i \in DOMAIN e.ev : e.ev[i].e \in kinds}
EvOf(e, k, kinds) == {i \in DOMAIN e.ev : e.ev[i].e \in kinds /\ e.ev[i].k = k}
LastOr(S, d) == IF S = {} THEN d ELSE SetMax(S)

WasTouching(pre, k) == k \in Keys(pre) /\ CMap(pre)[k].t

(* Touching state of contact k just before callback number i.                *)
TouchAt(pre, e, k, i) ==
    LET p == {j \in EvOf(e, k, {"begin", "end"}) : j < i}
    IN  IF p = {} THEN WasTouching(pre, k) ELSE e.ev[SetMax(p)].e = "begin"

FixOf(pre, post, f) == IF f \in DOMAIN pre.F THEN pre.F[f] ELSE post.F[f]
EvSolid(pre, post, x) == ~FixOf(pre, post, x.fa).se /\ ~FixOf(pre, post, x.fb).se
EvBodies(pre, post, x) == {FixOf(pre, post, x.fa).b, FixOf(pre, post, x.fb).b}

Vanished(pre, post) == {c \in Range(pre.C) : c.k \notin Keys(post)}

(* Bodies that callbacks or vanished contacts of this call may have woken.   *)
Stirred(pre, e) ==
    UNION ({EvBodies(pre, e.s, e.ev[i]) : i \in Evs(e, {"begin", "end"})}
           \cup {ContactBodies(pre, c) : c \in Vanished(pre, e.s)})

---------------------------------------------------------------------------
(* Clauses. gh is the ghost before, gn the ghost after the event.            *)

Perm(q, S) == Len(q) = Cardinality(S) /\ Range(q) = S

SumNc(s, S) == LET RECURSIVE sum(_)
                   sum(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE y \in T : TRUE IN s.F[x].nc + sum(T \ {x})
               IN sum(S)

OwnOps(n) ==
    CASE n = "c02_panic" -> {"step"}
      [] n = "c03_panic" -> {"step", "destroy_body", "destroy_fixture", "set_enabled", "set_type", "set_sensor"}
      [] n = "c04_panic" -> {"step"}
      [] n = "c05_panic" -> {"set_filter", "refilter", "step"}
      [] n = "c06_panic" -> {"create_joint", "destroy_joint", "step"}
      [] n = "c07_panic" -> {"destroy_body", "destroy_fixture", "destroy_joint"}
      [] n = "c08_panic" -> {"set_enabled", "set_type"}
      [] n = "c09_panic" -> {"step"}
      [] n = "c10_panic" -> {"set_awake", "set_linear_velocity", "set_angular_velocity", "set_sleeping_allowed",
                             "set_allow_sleeping", "set_sensor", "joint_set"} \cup ForceOps
      [] OTHER -> {}

PlainBody(gh, pre, post, e, b) ==
    LET x == pre.B[b] IN
    /\ b \in DOMAIN post.B /\ x.ty = 2 /\ x.en /\ x.aw /\ post.B[b].aw /\ x.ms
    /\ b \notin gh.ft /\ x.ld = 0
    /\ Abs(x.v[1]) < 30000 /\ Abs(x.v[2]) < 30000

\* gains exactly gravity * scale * dt (velocities are in 1/1024 m/s)
FreeVelocity(gh, pre, post, e, b) ==
    LET x == pre.B[b]
        dv(c) == (((gh[c] * x.gs) \div 256) * 4 * e.a.dt) \div 1024
    IN  /\ Abs(post.B[b].v[1] - x.v[1] - dv("gx")) <= 2
        /\ Abs(post.B[b].v[2] - x.v[2] - dv("gy")) <= 2

\* body b received no solved contact in this step
Unsolved(pre, post, e, b) == \A i \in Evs(e, {"post"}) : b \notin EvBodies(pre, post, e.ev[i])

Holds(n, gh, gn, pre, e) ==
    LET post == e.s  a == e.a  op == e.op
        step == op = "step"
        dt == IF step THEN a.dt ELSE 0
        strict == ~gh.cont                      \* no time-of-impact sub-steps
        cm == CMap(post)  pm == CMap(pre)
        live == DOMAIN gn.B
    IN
    CASE n = "c01_panic" -> e.r = "ok" /\ ~post.lk
      [] n \in {"c02_panic", "c03_panic", "c04_panic", "c05_panic", "c06_panic", "c07_panic", "c08_panic", "c09_panic", "c10_panic"} ->
            (op \in OwnOps(n) \/ (n = "c08_panic" /\ step /\ (gh.pend # {} \/ \E b \in DOMAIN gh.B : ~gh.B[b].en))) => e.r = "ok"
      [] e.r # "ok" -> TRUE
      [] n = "c01_refs" -> WellFormed(pre, e)
      [] n = "c07_refs" -> op \in {"destroy_body", "destroy_fixture", "destroy_joint"} => WellFormed(pre, e)
      [] ~WellFormed(pre, e) -> TRUE
      \* --- C01: object graph -------------------------------------------------
      [] n = "c01_bodies" -> Perm(post.bl, live) /\ post.n[1] = Cardinality(live)
      [] n = "c01_joints" ->
            /\ Perm(post.jl, DOMAIN gn.J) /\ post.n[2] = Cardinality(DOMAIN gn.J)
            /\ \A j \in DOMAIN gn.J : j \in DOMAIN post.J /\ post.J[j].a = gn.J[j].a /\ post.J[j].b = gn.J[j].b /\ post.J[j].cc = gn.J[j].cc
            /\ \A b \in live : post.B[b].jn = Cardinality({j \in DOMAIN gn.J : gn.J[j].a = b \/ gn.J[j].b = b})
      [] n = "c01_fixtures" ->
            /\ \A f \in DOMAIN gn.F : post.F[f].b = gn.F[f].b
            /\ \A b \in live : Perm(post.B[b].fl, {f \in DOMAIN gn.F : gn.F[f].b = b})
      [] n = "c01_contacts" ->
            /\ post.n[3] = Len(post.C)
            /\ Cardinality(Keys(post)) = Len(post.C)
            /\ \A b \in live :
                 Perm(post.B[b].cl, {<<c.k, IF BodyOf(post, c.fa) = b THEN BodyOf(post, c.fb) ELSE BodyOf(post, c.fa)>> :
                                      c \in {x \in Range(post.C) : b \in ContactBodies(post, x)}})
      [] n = "c01_proxies" -> post.n[4] = SumNc(post, {f \in DOMAIN gn.F : post.B[gn.F[f].b].en})
      \* --- C02: contacts <=> eligible overlapping pairs -----------------------
      [] n = "c02_unique" -> Cardinality({PairOf(c) : c \in Range(post.C)}) = Len(post.C)
      [] n = "c02_must" -> (dt > 0 /\ post.fat /\ ~gh.sub) => MissingPairs(post, gh.cf) \subseteq gn.dc
      [] n = "c02_only" -> step => \A c \in Range(post.C) : Eligible(post, gh.cf, Blocked(post), c.fa, c.fb)
      [] n = "c02_boxes" ->
            (step /\ strict /\ post.fat /\ pre.fat) =>
              \A c \in Range(post.C) :
                 \/ FatMeet(pre, c.fa, c.ia, c.fb, c.ib) \/ FatMeet(post, c.fa, c.ia, c.fb, c.ib)
                 \/ (c.k \in Keys(pre) /\ ~PairActive(pre, c))
      [] n = "c02_fat" -> post.fat => \A f \in DOMAIN post.F : post.B[post.F[f].b].en => FatHolds(post, f)
      [] n = "c02_api" ->
            ~step => Keys(post) = Keys(pre) \ ContactsDropped(pre, op, a)
      [] n = "c02_keep" ->
            (step /\ strict /\ pre.fat) =>
              \A c \in Range(pre.C) : (FatMeet(pre, c.fa, c.ia, c.fb, c.ib) /\ Eligible(pre, gh.cf, Blocked(pre), c.fa, c.fb))
                                        => c.k \in Keys(post)
      \* --- C03: touching and begin/end ---------------------------------------
      [] n = "c03_alternate" ->
            \A i \in Evs(e, {"begin", "end"}) : LET t == TouchAt(pre, e, e.ev[i].k, i) IN
               IF e.ev[i].e = "begin" THEN ~t ELSE t
      [] n = "c03_fold" ->
            LET ks == Keys(pre) \cup Keys(post) \cup {e.ev[i].k : i \in Evs(e, {"begin", "end"})} IN
            \A k \in ks : TouchAt(pre, e, k, Len(e.ev) + 1) = (k \in Keys(post) /\ cm[k].t)
      [] n = "c03_api" -> (~step) => Evs(e, {"begin"}) = {}
      [] n = "c03_truth" ->
            (step /\ strict /\ pre.fat) =>
              LET bl == Blocked(pre) IN
              \A c \in Range(pre.C) : (MustUpdate(pre, gh.cf, bl, c) /\ c.k \in Keys(post)) =>
                 LET q == Geo3(pre, c)  t == cm[c.k].t IN
                 /\ q = "no" => ~t
                 /\ (q = "yes" /\ ~OneSided(pre, c)) => t
      [] n = "c03_new" ->
            (step /\ strict /\ pre.fat) =>
              \A c \in Range(post.C) : (c.k \notin Keys(pre) /\ c.t) => Geo3(pre, c) # "no"
      [] n = "c03_birth" ->   \* what was placed before a step takes part in that step
            (step /\ strict /\ pre.fat /\ gh.fresh # {}) =>
              \A q \in {q \in MissingPairs(pre, gh.cf) \ gh.dc : \E x \in q : x[1] \in gh.fresh} :
                 LET x == CHOOSE x \in q : TRUE  y == CHOOSE y \in q : y # x
                     c == [fa |-> x[1], ia |-> x[2], fb |-> y[1], ib |-> y[2]] IN
                 (PairActive(pre, c) /\ ~OneSided(pre, c) /\ Geo3(pre, c) = "yes") =>
                    \E d \in Range(post.C) : PairOf(d) = q /\ d.t
      [] n = "c03_np" ->
            step => \A c \in Range(post.C) : /\ (c.t /\ Solid(post, c) /\ PairActive(pre, c)) => c.np > 0
                                             /\ (c.np > 0 /\ Solid(post, c)) => c.t
      \* --- C04: pre-solve, post-solve, disabling ------------------------------
      [] n = "c04_pre" ->
            \A i \in Evs(e, {"pre"}) : LET x == e.ev[i] IN
               /\ step
               /\ TouchAt(pre, e, x.k, i) /\ x.t /\ x.en
               /\ EvSolid(pre, post, x)
               /\ strict => LET bs == EvBodies(pre, post, x) IN
                               (\E b \in bs : Active(pre, b)) \/ bs \cap Stirred(pre, e) # {}
      [] n = "c04_premust" ->
            (step /\ strict /\ pre.fat) =>
              LET bl == Blocked(pre) IN
              /\ \A c \in Range(pre.C) :
                   (MustUpdate(pre, gh.cf, bl, c) /\ c.k \in Keys(post) /\ cm[c.k].t /\ Solid(pre, c))
                      => Cardinality(EvOf(e, c.k, {"pre"})) = 1
              /\ \A c \in Range(post.C) : Cardinality(EvOf(e, c.k, {"pre"})) <= 1
      [] n = "c04_post" ->
            \A i \in Evs(e, {"post"}) : LET x == e.ev[i]
                                            ps == {j \in EvOf(e, x.k, {"pre"}) : j < i} IN
               /\ dt > 0
               /\ EvSolid(pre, post, x)
               /\ TouchAt(pre, e, x.k, i)
               /\ x.n > 0 /\ x.n <= x.np
               /\ IF ps = {} THEN x.k \in Keys(pre) /\ pm[x.k].en ELSE ~e.ev[SetMax(ps)].dis
      [] n = "c04_postmust" ->
            (dt > 0 /\ strict) =>
              \A c \in Range(post.C) : LET m == Cardinality(EvOf(e, c.k, {"post"})) IN
                 /\ m <= 1
                 /\ (c.t /\ c.en /\ Solid(post, c) /\ PairActive(pre, c) /\ c.k \in Keys(pre)) => m = 1
      [] n = "c04_enabled" ->
            (step /\ strict) =>
              \A c \in Range(post.C) : LET ps == EvOf(e, c.k, {"pre"}) IN
                 IF ps # {} THEN c.en = ~e.ev[SetMax(ps)].dis
                 ELSE IF c.k \in Keys(pre) THEN c.en \/ ~pm[c.k].en ELSE c.en
      [] n = "c04_free" ->
            dt > 0 => \A b \in DOMAIN pre.B :
               (PlainBody(gh, pre, post, e, b) /\ ~Jointed(pre, b) /\ Unsolved(pre, post, e, b) /\ ~gh.sub)
                   => FreeVelocity(gh, pre, post, e, b)
      \* --- C05: filtering ------------------------------------------------------
      [] n = "c05_data" -> \A f \in DOMAIN gn.F : post.F[f].cat = gn.F[f].cat /\ post.F[f].mask = gn.F[f].mask /\ post.F[f].grp = gn.F[f].grp
      [] n = "c05_no" -> step => \A c \in Range(post.C) : FilterOK(gh.cf, post.F[c.fa], post.F[c.fb])
      [] n = "c05_must" -> (dt > 0 /\ post.fat /\ ~gh.sub) => MissingPairs(post, gh.cf) \subseteq gn.dc
      [] n = "c05_event" -> step => \A i \in Evs(e, {"begin", "pre", "post"}) :
               FilterOK(gh.cf, FixOf(pre, post, e.ev[i].fa), FixOf(pre, post, e.ev[i].fb))
      \* --- C06: collide_connected ----------------------------------------------
      [] n = "c06_no" ->
            step => LET bl == {{gn.J[j].a, gn.J[j].b} : j \in {x \in DOMAIN gn.J : ~gn.J[x].cc}} IN
               /\ \A c \in Range(post.C) : ContactBodies(post, c) \notin bl
               /\ \A i \in Evs(e, {"begin", "pre", "post"}) : EvBodies(pre, post, e.ev[i]) \notin bl
      [] n = "c06_must" -> (dt > 0 /\ post.fat /\ ~gh.sub) => MissingPairs(post, gh.cf) \subseteq gn.dc
      \* --- C07: destruction ----------------------------------------------------
      [] n = "c07_bye" ->
            /\ Evs(e, {"byej", "byef"}) # {} => op = "destroy_body"
            /\ LET js == {j \in DOMAIN gh.J : op = "destroy_body" /\ a.b \in {gh.J[j].a, gh.J[j].b}}
                   fs == {f \in DOMAIN gh.F : op = "destroy_body" /\ gh.F[f].b = a.b}
               IN /\ {e.ev[i].k : i \in Evs(e, {"byej"})} = js /\ Cardinality(Evs(e, {"byej"})) = Cardinality(js)
                  /\ {e.ev[i].k : i \in Evs(e, {"byef"})} = fs /\ Cardinality(Evs(e, {"byef"})) = Cardinality(fs)
      [] n = "c07_exact" ->
            op \in {"destroy_body", "destroy_fixture", "destroy_joint"} =>
              /\ Range(post.bl) = live /\ Range(post.jl) = DOMAIN gn.J
              /\ \A b \in live : Range(post.B[b].fl) = {f \in DOMAIN gn.F : gn.F[f].b = b}
              /\ \A b \in live : post.B[b].jn = Cardinality({j \in DOMAIN gn.J : gn.J[j].a = b \/ gn.J[j].b = b})
              /\ Keys(post) = Keys(pre) \ ContactsDropped(pre, op, a)
              /\ Len(post.C) = Cardinality(Keys(post))
              /\ post.n[4] = SumNc(post, {f \in DOMAIN gn.F : post.B[gn.F[f].b].en})
      [] n = "c07_others" ->
            op \in {"destroy_body", "destroy_fixture", "destroy_joint"} =>
              /\ \A b \in live : (op = "destroy_fixture" /\ gh.F[a.f].b = b) \/
                    (post.B[b].pb = pre.B[b].pb /\ post.B[b].vb = pre.B[b].vb /\ post.B[b].ty = pre.B[b].ty /\ post.B[b].en = pre.B[b].en)
              /\ \A f \in DOMAIN gn.F : post.F[f] = pre.F[f]
              /\ \A j \in DOMAIN gn.J : post.J[j].a = pre.J[j].a /\ post.J[j].b = pre.J[j].b /\ post.J[j].cc = pre.J[j].cc /\ post.J[j].ty = pre.J[j].ty
              /\ \A k \in Keys(post) : k \in Keys(pre) /\ cm[k] = pm[k]
      \* --- C08: enabling and type ----------------------------------------------
      [] n = "c08_flags" -> \A b \in live : post.B[b].en = gn.B[b].en /\ post.B[b].ty = gn.B[b].ty
      [] n = "c08_absent" ->
            \A b \in {x \in live : ~gn.B[x].en} :
               /\ \A c \in Range(post.C) : b \notin ContactBodies(post, c)
               /\ post.fat => \A f \in {x \in DOMAIN gn.F : gn.F[x].b = b} : post.F[f].bb = <<>>
               /\ \A i \in Evs(e, {"begin", "pre", "post"}) : b \notin EvBodies(pre, post, e.ev[i])
      [] n = "c08_present" ->
            post.fat => \A f \in {x \in DOMAIN gn.F : gn.B[gn.F[x].b].en} : Len(post.F[f].bb) = post.F[f].nc
      [] n = "c08_still" ->
            step => \A b \in {x \in live : ~gn.B[x].en} : post.B[b].pb = pre.B[b].pb /\ post.B[b].vb = pre.B[b].vb
      [] n = "c08_contacts" -> op \in {"set_enabled", "set_type"} => Keys(post) = Keys(pre) \ ContactsDropped(pre, op, a)
      [] n = "c08_same" ->
            ((op = "set_enabled" /\ gh.B[a.b].en = a.v) \/ (op = "set_type" /\ gh.B[a.b].ty = a.v)) =>
              post.B = pre.B /\ post.F = pre.F /\ Range(post.C) = Range(pre.C) /\ post.n = pre.n /\ e.ev = <<>>
      [] n = "c08_restore" ->
            (dt > 0 /\ post.fat /\ ~gh.sub) =>
              \A q \in MissingPairs(post, gh.cf) \ gn.dc : \A x \in q : post.F[x[1]].b \notin gh.pend
      [] n = "c08_type" ->
            (op = "set_type" /\ gh.B[a.b].ty # a.v) =>
              /\ post.B[a.b].aw = (a.v # 0)
              /\ a.v = 0 => post.B[a.b].vz
              /\ post.B[a.b].pb = pre.B[a.b].pb
              /\ a.v # 2 => ~post.B[a.b].ms
      [] n = "c08_joint" ->
            dt > 0 => \A b \in DOMAIN pre.B :
               (/\ PlainBody(gh, pre, post, e, b) /\ Jointed(pre, b)
                /\ \A j \in DOMAIN gh.J : gh.J[j].ty # "gear" /\ (b \in {gh.J[j].a, gh.J[j].b} => (~gh.B[gh.J[j].a].en \/ ~gh.B[gh.J[j].b].en))
                /\ Unsolved(pre, post, e, b) /\ ~gh.sub)
                   => FreeVelocity(gh, pre, post, e, b)
      [] n = "c08_move" ->
            op \in {"set_enabled", "set_type"} => \A b \in live : post.B[b].pb = pre.B[b].pb
      \* --- C09: islands sleep and wake together ---------------------------------
      [] n = "c09_uniform" ->
            (dt > 0 /\ strict) =>
              LET lk == SolidLinks(post) \cup JointLinks(post) IN
              \A q \in lk : LET m == q \cap Movers(post) IN \A x, y \in m : post.B[x].aw = post.B[y].aw
      [] n = "c09_fall" ->
            (dt > 0 /\ strict) =>
              \A b \in {x \in Movers(post) : x \in DOMAIN pre.B /\ pre.B[x].aw /\ ~post.B[x].aw} :
                /\ pre.as /\ post.B[b].vz
                /\ \A m \in Component(post, b) :
                     /\ ~post.B[m].aw => post.B[m].vz
                     /\ post.B[m].sl
                     /\ gh.rest[m] + dt >= 512
      [] n = "c09_must" ->
            (dt > 0 /\ strict) => \A b \in DOMAIN post.B : gn.rl[b] < 512
      [] n = "c09_still" ->
            step => \A b \in DOMAIN pre.B : (~pre.B[b].aw /\ ~post.B[b].aw) => post.B[b].pb = pre.B[b].pb /\ post.B[b].vb = pre.B[b].vb
      [] n = "c09_wake" ->
            (step /\ strict) =>
              LET seeds == {x \in Movers(pre) : pre.B[x].aw} \cup Stirred(pre, e)
                  reach == Grow(seeds \cap Movers(post), SolidLinks(post) \cup JointLinks(post), Movers(post))
              IN  \A b \in DOMAIN pre.B : (~pre.B[b].aw /\ post.B[b].aw) => b \in reach
      [] n = "c09_touch" ->   \* a change of touch wakes both
            step => \A i \in Evs(e, {"begin", "end"}) :
               (e.ev[i].k \in Keys(post) /\ EvSolid(pre, post, e.ev[i])) =>
                  \A b \in EvBodies(pre, post, e.ev[i]) : post.B[b].ty # 0 => post.B[b].aw
      [] n = "c09_idle" ->
            (step /\ dt = 0) => \A b \in DOMAIN pre.B : (~pre.B[b].aw /\ post.B[b].aw) => b \in Stirred(pre, e)
      \* --- C10: wake-ups outside of a step ---------------------------------------
      [] n = "c10_awake" ->
            ~step => LET w == AwakeAfter(pre, op, a, DOMAIN post.B) IN \A b \in DOMAIN post.B : post.B[b].aw = w[b]
      [] n = "c10_zero" -> (op = "set_awake" /\ ~a.v /\ pre.B[a.b].ty # 0) => post.B[a.b].vz
      [] n = "c10_ignored" ->
            (op \in ForceOps /\ (pre.B[a.b].ty # 2 \/ (~pre.B[a.b].aw /\ ~a.wake))) => post.B[a.b].vb = pre.B[a.b].vb
      [] n = "c10_static" -> \A b \in DOMAIN post.B : post.B[b].ty = 0 => ~post.B[b].aw
      [] n = "c10_velocity" ->
            /\ (op \in {"set_linear_velocity", "set_angular_velocity"} /\ pre.B[a.b].ty = 0) => post.B[a.b].vb = pre.B[a.b].vb
            /\ op = "set_linear_velocity" /\ pre.B[a.b].ty # 0 => post.B[a.b].v = <<4 * a.x, 4 * a.y, pre.B[a.b].v[3]>>
            /\ op = "set_angular_velocity" /\ pre.B[a.b].ty # 0 => post.B[a.b].v = <<pre.B[a.b].v[1], pre.B[a.b].v[2], 4 * a.w>>
      [] n = "c10_allow" ->
            /\ op = "set_allow_sleeping" => post.as = a.v
            /\ op = "set_sleeping_allowed" => post.B[a.b].sl = a.v
            /\ (step /\ ~pre.as) => \A b \in DOMAIN pre.B : pre.B[b].aw => post.B[b].aw
      [] OTHER -> Assert(FALSE, <<"unknown clause", n>>)

---------------------------------------------------------------------------
Init == TLCSet(1, 0) /\ l = 1 /\ g = NewGhost(Tr[1].a)

Next ==
    /\ l < Len(Tr)
    /\ LET e == Tr[l + 1]  pre == Tr[l].s IN
       IF e.op = "New"
       THEN l' = l + 1 /\ g' = NewGhost(e.a)
       ELSE IF ~g.ok
       THEN l' = l + 1 /\ g' = g
       ELSE LET gn == GhostAfter(g, pre, e)
                bad == {n \in Sel : ~Holds(n, g, gn, pre, e)}
            IN  IF bad = {} THEN l' = l + 1 /\ g' = gn
                ELSE /\ PrintT(<<"VIOL", l + 1, bad>>) /\ TLCSet(1, TLCGet(1) + 1)
                     /\ l' = l + 1 /\ g' = [g EXCEPT !.ok = FALSE]  \* rest of this trace is not judged

Spec == Init /\ [][Next]_<<l, g>>
Accepted == TLCGet("stats").diameter = Len(Tr) /\ TLCGet(1) = 0
=============================================================================
