----------------------------- MODULE TraceMotion ----------------------------
(* Judges recorded histories of bodies that never collide against Motion:    *)
(* C11 integration, C12 forces and impulses, C13 mass data.                  *)
(* Ghost: fixtures with shape and density, the mass data last computed, the  *)
(* forces accumulated, gravity and the auto-clear setting.                   *)
EXTENDS Motion, FiniteSets, TLC, Json, IOUtils

Tr == ndJsonDeserialize(IOEnv.TRACE)
Clauses == [
    C11 |-> {"c11_panic", "c11_velocity", "c11_position", "c11_static", "c11_kinematic", "c11_zero", "c11_frame", "c11_rotation", "c11_asleep", "c11_quiet", "c11_transform"},
    C12 |-> {"c12_panic", "c12_step", "c12_impulse", "c12_deferred", "c12_ignored"},
    C13 |-> {"c13_panic", "c13_mass", "c13_centre", "c13_inertia", "c13_origin", "c13_velocity"}]
Sel == IF IOEnv.PROP \in DOMAIN Clauses THEN Clauses[IOEnv.PROP] ELSE UNION {Clauses[p] : p \in DOMAIN Clauses}

VARIABLES l, g

Arg(a, k, d) == IF k \in DOMAIN a THEN a[k] ELSE d
Ext(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]

ForceOps == {"apply_force", "apply_force_to_center", "apply_torque"}
ImpulseOps == {"apply_linear_impulse", "apply_linear_impulse_to_center", "apply_angular_impulse"}
MassOps == {"create_fixture", "destroy_fixture", "set_type", "set_fixed_rotation", "reset_mass_data", "set_mass_data"}

NewGhost(a) == [F |-> <<>>, M |-> <<>>, P |-> <<>>, gx |-> Arg(a, "gx", 0), gy |-> Arg(a, "gy", 0),
                acf |-> Arg(a, "acf", TRUE), ok |-> TRUE]

SetToSeq(S) == LET RECURSIVE q(_)
                   q(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : TRUE IN <<x>> \o q(T \ {x})
               IN q(S)
Parts(F, b) == LET s == SetToSeq({f \in DOMAIN F : F[f].b = b}) IN [i \in DOMAIN s |-> ShapeMass(F[s[i]].sh, F[s[i]].de)]

\* a force or impulse call has an effect
Takes(b, a) == b.ty = 2 /\ (b.aw \/ a.wake)
P3(a) == <<a.px * 64, a.py * 64>>

GhostAfter(gh, pre, e) ==
    LET a == e.a  op == e.op  post == e.s
        F2 == CASE op = "create_fixture" -> Ext(gh.F, a.id, [b |-> a.b, sh |-> a.sh, de |-> a.de])
                [] op = "destroy_fixture" -> Without(gh.F, {a.f})
                [] op = "destroy_body" -> Without(gh.F, {f \in DOMAIN gh.F : gh.F[f].b = a.b})
                [] op = "set_density" -> [gh.F EXCEPT ![a.f].de = a.v]
                [] OTHER -> gh.F
        reset(b) == ResetMass(post.B[b].ty, post.B[b].fr, Parts(F2, b))
        M2 == CASE op = "create_body" -> Ext(gh.M, a.id, Massless)
                [] op = "destroy_body" -> Without(gh.M, {a.b})
                [] op = "create_fixture" -> IF a.de > 0 THEN [gh.M EXCEPT ![a.b] = reset(a.b)] ELSE gh.M
                [] op = "destroy_fixture" -> LET b == gh.F[a.f].b IN [gh.M EXCEPT ![b] = reset(b)]
                [] op = "set_type" -> IF pre.B[a.b].ty = a.v THEN gh.M ELSE [gh.M EXCEPT ![a.b] = reset(a.b)]
                [] op = "set_fixed_rotation" -> IF pre.B[a.b].fr = a.v THEN gh.M ELSE [gh.M EXCEPT ![a.b] = reset(a.b)]
                [] op = "reset_mass_data" -> [gh.M EXCEPT ![a.b] = reset(a.b)]
                [] op = "set_mass_data" -> IF pre.B[a.b].ty # 2 THEN gh.M
                                           ELSE [gh.M EXCEPT ![a.b] = OverrideMass(pre.B[a.b].fr, a)]
                [] OTHER -> gh.M
        zero == <<0, 0, 0>>
        add(b, f) == [gh.P EXCEPT ![b] = <<@[1] + f[1], @[2] + f[2], @[3] + f[3]>>]
        cleared(T) == [b \in DOMAIN gh.P |-> IF b \in T THEN zero ELSE gh.P[b]]
        P2 == CASE op = "create_body" -> Ext(gh.P, a.id, zero)
                [] op = "destroy_body" -> Without(gh.P, {a.b})
                [] op = "apply_force" -> IF Takes(pre.B[a.b], a)
                                         THEN add(a.b, <<a.x, a.y, Moment(P3(a), pre.B[a.b].wc, <<a.x, a.y>>)>>) ELSE gh.P
                [] op = "apply_force_to_center" -> IF Takes(pre.B[a.b], a) THEN add(a.b, <<a.x, a.y, 0>>) ELSE gh.P
                [] op = "apply_torque" -> IF Takes(pre.B[a.b], a) THEN add(a.b, <<0, 0, a.t * 64>>) ELSE gh.P
                [] op = "clear_forces" -> cleared(DOMAIN gh.P)
                [] op = "set_type" -> IF pre.B[a.b].ty = a.v THEN gh.P ELSE cleared({a.b})
                [] op = "set_awake" -> IF ~a.v /\ pre.B[a.b].ty # 0 THEN cleared({a.b}) ELSE gh.P
                [] op = "step" -> IF gh.acf THEN cleared(DOMAIN gh.P) ELSE cleared({b \in DOMAIN gh.P : pre.B[b].aw /\ ~post.B[b].aw})
                [] OTHER -> gh.P
    IN  [gh EXCEPT !.F = F2, !.M = M2, !.P = P2,
                   !.gx = IF op = "set_gravity" THEN a.x ELSE @, !.gy = IF op = "set_gravity" THEN a.y ELSE @,
                   !.acf = IF op = "set_auto_clear" THEN a.v ELSE @, !.ok = gh.ok /\ e.r = "ok"]

---------------------------------------------------------------------------
Sane(b) == \A x \in {b.hp[1], b.hp[2], b.hv[1], b.hv[2], b.hv[3], b.wc[1], b.wc[2]} : FAbs(x) < 8000000
AllSane(s) == \A b \in DOMAIN s.B : Sane(s.B[b]) /\ FAbs(s.B[b].hp[3]) < 20000000

\* angular response can be predicted accurately
Measurable(b, M) == ~M.rot \/ ICentre(b) > 1500

Vel(gh, pre, b, dt) ==
    Accelerated(pre.B[b], gh.M[b].rot, gh.P[b], gh.gx, gh.gy, dt)

Simulated(b) == b.aw /\ b.en /\ b.ty # 0

VelOK(gh, pre, post, b, dt) ==
    LET v == Limited(Vel(gh, pre, b, dt), dt)  h == post.B[b].hv  p == pre.B[b] IN
    /\ \A i \in 1..2 : NearRel(h[i], v[i], 10 + FAbs(v[i] - p.hv[i]) \div 256, 4096)
    /\ Measurable(p, gh.M[b]) => NearRel(h[3], v[3], 12 + FAbs(v[3] - p.hv[3]) \div 200, 2048)

Holds(n, gh, gn, pre, e) ==
    LET post == e.s  a == e.a  op == e.op
        step == op = "step"
        dt == IF step THEN a.dt ELSE 0
        both == DOMAIN pre.B \cap DOMAIN post.B
    IN
    CASE n = "c11_panic" -> op \in {"step", "set_transform", "create_body"} => e.r = "ok"
      [] n = "c12_panic" -> op \in ForceOps \cup ImpulseOps \cup {"clear_forces", "step"} => e.r = "ok"
      [] n = "c13_panic" -> op \in MassOps => e.r = "ok"
      [] e.r # "ok" -> TRUE
      [] n = "c11_zero" -> (step /\ dt = 0) => \A b \in both : post.B[b].pb = pre.B[b].pb /\ post.B[b].vb = pre.B[b].vb
      [] n = "c11_static" -> step => \A b \in both : pre.B[b].ty = 0 => (post.B[b].pb = pre.B[b].pb /\ post.B[b].vz)
      [] n = "c11_asleep" -> step => \A b \in both : (~pre.B[b].aw \/ ~pre.B[b].en) => (post.B[b].pb = pre.B[b].pb /\ post.B[b].vb = pre.B[b].vb)
      [] ~(AllSane(pre) /\ AllSane(post)) -> ~AllSane(pre) \/ n \notin {"c11_velocity", "c12_step", "c13_velocity"}
      [] n = "c11_velocity" ->
            dt > 0 => \A b \in both : Simulated(pre.B[b]) =>
               IF post.B[b].aw THEN VelOK(gh, pre, post, b, dt) ELSE post.B[b].vz
      [] n = "c11_kinematic" ->
            dt > 0 => \A b \in both : (Simulated(pre.B[b]) /\ pre.B[b].ty = 1 /\ post.B[b].aw) =>
               \A i \in 1..3 : LET v == Limited(pre.B[b].hv, dt) IN NearRel(post.B[b].hv[i], v[i], 3, 4096)
      [] n = "c11_position" ->
            dt > 0 => \A b \in both : Simulated(pre.B[b]) =>
               LET v == IF post.B[b].aw THEN post.B[b].hv ELSE Limited(Vel(gh, pre, b, dt), dt)
                   m == Moved(pre.B[b], v, dt)
               IN  /\ Near(post.B[b].wc[1], m[1], 8) /\ Near(post.B[b].wc[2], m[2], 8)
                   /\ (post.B[b].aw \/ Measurable(pre.B[b], gh.M[b])) => Near(post.B[b].hp[3], m[3], 8)
      [] n = "c11_frame" ->
            \A b \in both : LET r == Rot(post.B[b].q, post.B[b].lc) IN
               Near(post.B[b].wc[1], post.B[b].hp[1] + r[1], 8) /\ Near(post.B[b].wc[2], post.B[b].hp[2] + r[2], 8)
      [] n = "c11_rotation" ->
            \A b \in both : LET x == post.B[b] IN
               FAbs(x.hp[3]) < 3000000 => (Near(x.q[1], Cos(x.hp[3]), 8 + FAbs(x.hp[3]) \div 100000) /\ Near(x.q[2], Sin(x.hp[3]), 8 + FAbs(x.hp[3]) \div 100000))
      [] n = "c11_transform" ->
            op = "set_transform" => LET x == post.B[a.b] IN
               /\ Near(x.hp[1], a.x * 64, 1) /\ Near(x.hp[2], a.y * 64, 1) /\ Near(x.hp[3], a.ang * 64, 1)
               /\ x.vb = pre.B[a.b].vb
      [] n = "c11_quiet" ->
            \* calls move nothing and leave velocities alone unless they are meant to
            (~step /\ op # "shift_origin") =>
              \A b \in both :
                 /\ (op # "set_transform" \/ a.b # b) => post.B[b].pb = pre.B[b].pb
                 /\ (op \notin ImpulseOps \cup MassOps \cup {"set_linear_velocity", "set_angular_velocity", "set_awake"}) => post.B[b].vb = pre.B[b].vb
                 /\ Arg(a, "b", "") \notin {b, ""} => post.B[b].vb = pre.B[b].vb
      \* --- C12 -----------------------------------------------------------------
      [] n = "c12_step" ->
            dt > 0 => \A b \in both : (Simulated(pre.B[b]) /\ post.B[b].aw) => VelOK(gh, pre, post, b, dt)
      [] n = "c12_deferred" -> op \in ForceOps \cup {"clear_forces", "set_auto_clear"} => \A b \in both : post.B[b].vb = pre.B[b].vb
      [] n = "c12_ignored" ->
            (op \in ImpulseOps /\ ~Takes(pre.B[a.b], a)) => post.B[a.b].vb = pre.B[a.b].vb
      [] n = "c12_impulse" ->
            (op \in ImpulseOps /\ Takes(pre.B[a.b], a)) =>
              LET b == pre.B[a.b]  h == post.B[a.b].hv
                  J == IF op = "apply_angular_impulse" THEN <<0, 0>> ELSE <<a.x, a.y>>
                  L == CASE op = "apply_angular_impulse" -> a.t * 64
                         [] op = "apply_linear_impulse" -> Moment(P3(a), b.wc, J)
                         [] OTHER -> 0
                  dv(c) == IF b.m = 0 THEN 0 ELSE DivSh(c, b.m, 24)
                  dw == IF gh.M[a.b].rot /\ Measurable(b, gh.M[a.b]) THEN DivSh(L, ICentre(b), 18) ELSE 0
              IN  /\ \A i \in 1..2 : NearRel(h[i], b.hv[i] + dv(J[i]), 4 + FAbs(dv(J[i])) \div 256, 8192)
                  /\ Measurable(b, gh.M[a.b]) => NearRel(h[3], b.hv[3] + dw, 4 + FAbs(dw) \div 200, 4096)
      \* --- C13 -----------------------------------------------------------------
      [] n = "c13_mass" -> \A b \in DOMAIN gn.M : LET x == post.B[b]  M == gn.M[b] IN
               NearRel(x.m, M.m, 16, 4096) /\ x.mdm = x.m /\ (x.m > 0) = (M.m > 0)
      [] n = "c13_centre" -> \A b \in DOMAIN gn.M : LET x == post.B[b]  M == gn.M[b] IN
               \A i \in 1..2 : Near(x.lc[i], M.c[i], 8) /\ x.mdc[i] = x.lc[i]
      [] n = "c13_inertia" -> \A b \in DOMAIN gn.M : LET x == post.B[b]  M == gn.M[b] IN
               NearRel(x.I, M.i, 32 + x.m \div 6000, 2048) /\ NearRel(x.mdi, x.I, 2, 100000)
      [] n = "c13_origin" -> (op \in MassOps \cup {"set_density"}) => \A b \in both : post.B[b].pb = pre.B[b].pb
      [] n = "c13_velocity" ->
            op \in MassOps \cup {"set_density"} =>
              \A b \in both :
                 IF b # (IF op \in {"destroy_fixture", "set_density"} THEN gh.F[a.f].b ELSE a.b)
                 THEN post.B[b].vb = pre.B[b].vb
                 ELSE LET x == pre.B[b]  y == post.B[b]
                          w == IF op = "set_fixed_rotation" /\ pre.B[b].fr # a.v THEN 0 ELSE x.hv[3]
                          d == IF y.ty = 2 THEN <<y.wc[1] - x.wc[1], y.wc[2] - x.wc[2]>> ELSE <<0, 0>>
                      IN  y.ty = 0 \/
                          (/\ NearRel(y.hv[1], x.hv[1] - Q(w, d[2]), 6 + FAbs(w) \div 8192, 1024)
                           /\ NearRel(y.hv[2], x.hv[2] + Q(w, d[1]), 6 + FAbs(w) \div 8192, 1024)
                           /\ y.hv[3] = w)
      [] OTHER -> Assert(FALSE, <<"unknown clause", n>>)

---------------------------------------------------------------------------
Init == TLCSet(1, 0) /\ l = 1 /\ g = NewGhost(Tr[1].a)

Next ==
    /\ l < Len(Tr)
    /\ LET e == Tr[l + 1]  pre == Tr[l].s IN
       IF e.op = "New"
       THEN l' = l + 1 /\ g' = NewGhost(e.a)
       ELSE IF ~g.ok
       THEN l' = l + 1 /\ g' = g
       ELSE IF e.r # "ok"
       THEN LET bad == {n \in Sel : ~Holds(n, g, g, pre, e)} IN
            /\ IF bad = {} THEN TRUE ELSE PrintT(<<"VIOL", l + 1, bad>>) /\ TLCSet(1, TLCGet(1) + 1)
            /\ l' = l + 1 /\ g' = [g EXCEPT !.ok = FALSE]
       ELSE LET gn == GhostAfter(g, pre, e)
                bad == {n \in Sel : ~Holds(n, g, gn, pre, e)}
            IN  IF bad = {} THEN l' = l + 1 /\ g' = gn
                ELSE /\ PrintT(<<"VIOL", l + 1, bad>>) /\ TLCSet(1, TLCGet(1) + 1)
                     /\ l' = l + 1 /\ g' = [g EXCEPT !.ok = FALSE]

Spec == Init /\ [][Next]_<<l, g>>
Accepted == TLCGet("stats").diameter = Len(Tr) /\ TLCGet(1) = 0
=============================================================================
