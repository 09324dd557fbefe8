------------------------------- MODULE World --------------------------------
(* The rules of a simulated world, as operators over its observable state.   *)
(*                                                                           *)
(* A state s is a record                                                     *)
(*   B : body id -> [ty, en, aw, sl, bu, fr, p, v, ...]                      *)
(*         ty 0 static, 1 kinematic, 2 dynamic; en enabled; aw awake;        *)
(*         sl sleeping allowed                                               *)
(*   F : fixture id -> [b, se, cat, mask, grp, k, os, q, nc, bb, vs, rad]    *)
(*         k 0 circle, 1 edge, 2 polygon, 3 chain; nc number of children;    *)
(*         bb stored (fattened) box per child; vs world points per child     *)
(*   J : joint id -> [a, b, cc, ty]                                          *)
(*   C : sequence of contacts [k, fa, ia, fb, ib, t, en, np]                 *)
(*   as : world allows sleeping                                              *)
(* The same operators serve the exhaustive models (MC modules) and the trace *)
(* specifications that judge recorded executions of the library.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bitwise, Geom

Range(q) == {q[i] : i \in DOMAIN q}
Keys(s) == {s.C[i].k : i \in DOMAIN s.C}
CMap(s) == [k \in Keys(s) |-> CHOOSE c \in Range(s.C) : c.k = k]

---------------------------------------------------------------------------
(* Who may collide (collision filtering, joints, body types).                *)

DefaultFilter(f, g) ==
    IF f.grp = g.grp /\ f.grp # 0 THEN f.grp > 0
    ELSE (f.mask & g.cat) # 0 /\ (f.cat & g.mask) # 0

\* the harness's user filter: fixture numbers summing to a multiple of three
ModFilter(f, g) == (f.q + g.q) % 3 # 0

FilterOK(cf, f, g) == IF cf = 1 THEN ModFilter(f, g) ELSE DefaultFilter(f, g)

HasRoutine(f, g) == ~(f.k \in {1, 3} /\ g.k \in {1, 3})

\* unordered body pairs connected by a joint that forbids collision
Blocked(s) == {{s.J[j].a, s.J[j].b} : j \in {x \in DOMAIN s.J : ~s.J[x].cc}}

BodiesMayCollide(s, blocked, a, b) ==
    /\ a # b
    /\ s.B[a].en /\ s.B[b].en
    /\ s.B[a].ty = 2 \/ s.B[b].ty = 2
    /\ {a, b} \notin blocked

Eligible(s, cf, blocked, fa, fb) ==
    LET f == s.F[fa]  g == s.F[fb] IN
    /\ BodiesMayCollide(s, blocked, f.b, g.b)
    /\ HasRoutine(f, g)
    /\ FilterOK(cf, f, g)

---------------------------------------------------------------------------
(* Contacts and stored boxes.                                                *)

BoxesMeet(a, b) == a[1] <= b[3] /\ b[1] <= a[3] /\ a[2] <= b[4] /\ b[2] <= a[4]

HasBox(s, f, i) == f \in DOMAIN s.F /\ i + 1 <= Len(s.F[f].bb)
FatMeet(s, fa, ia, fb, ib) ==
    HasBox(s, fa, ia) /\ HasBox(s, fb, ib) /\ BoxesMeet(s.F[fa].bb[ia + 1], s.F[fb].bb[ib + 1])

\* the stored boxes of a fixture hold its shape where its body is now
FatHolds(s, f) ==
    LET x == s.F[f] IN
    \A i \in DOMAIN x.bx :
       /\ i \in DOMAIN x.vs
       /\ \A p \in Range(x.vs[i]) :
            /\ x.bx[i][1] <= p[1] - x.rad + 2 /\ p[1] + x.rad <= x.bx[i][3] + 2
            /\ x.bx[i][2] <= p[2] - x.rad + 2 /\ p[2] + x.rad <= x.bx[i][4] + 2

\* unordered pairs of children as sets of <<fixture, child>>
PairOf(c) == {<<c.fa, c.ia>>, <<c.fb, c.ib>>}
Children(s) == UNION {{<<f, i>> : i \in 0..(s.F[f].nc - 1)} : f \in DOMAIN s.F}

(* Pairs that must have a contact after a completed step but have none.      *)
MissingPairs(s, cf) ==
    LET blocked == Blocked(s)
        have == {PairOf(s.C[i]) : i \in DOMAIN s.C}
        fp == {{f, g} : f, g \in DOMAIN s.F}
        el == {q \in fp : Cardinality(q) = 2 /\
                 LET f == CHOOSE x \in q : TRUE  g == CHOOSE x \in q : x # f
                 IN  Eligible(s, cf, blocked, f, g)}
    IN  UNION {LET f == CHOOSE x \in q : TRUE  g == CHOOSE x \in q : x # f
               IN {{<<f, i>>, <<g, j>>} : <<i, j>> \in
                     {ij \in (0..(s.F[f].nc - 1)) \X (0..(s.F[g].nc - 1)) :
                        /\ FatMeet(s, f, ij[1], g, ij[2])
                        /\ {<<f, ij[1]>>, <<g, ij[2]>>} \notin have}} : q \in el}

BodyOf(s, f) == s.F[f].b
ContactBodies(s, c) == {BodyOf(s, c.fa), BodyOf(s, c.fb)}
Solid(s, c) == ~s.F[c.fa].se /\ ~s.F[c.fb].se

\* an awake body that moves
Active(s, b) == s.B[b].aw /\ s.B[b].ty # 0
PairActive(s, c) == Active(s, BodyOf(s, c.fa)) \/ Active(s, BodyOf(s, c.fb))

(* A contact that the next step re-evaluates and keeps.                      *)
MustUpdate(s, cf, blocked, c) ==
    /\ PairActive(s, c)
    /\ Eligible(s, cf, blocked, c.fa, c.fb)
    /\ FatMeet(s, c.fa, c.ia, c.fb, c.ib)

ChildShape(s, f, i) == [v |-> s.F[f].vs[i + 1], r |-> s.F[f].rad]
Geo3(s, c) == Overlap3(ChildShape(s, c.fa, c.ia), ChildShape(s, c.fb, c.ib), 8, 10)
OneSided(s, c) == s.F[c.fa].os \/ s.F[c.fb].os

---------------------------------------------------------------------------
(* Effects of calls outside of a step.                                       *)

ContactsOfBody(s, b) == {k \in Keys(s) : b \in ContactBodies(s, CMap(s)[k])}

(* Contacts destroyed by a call.                                             *)
ContactsDropped(s, op, a) ==
    LET of(b) == {s.C[i].k : i \in {x \in DOMAIN s.C : b \in ContactBodies(s, s.C[x])}} IN
    CASE op = "destroy_body" -> of(a.b)
      [] op = "destroy_fixture" -> {s.C[i].k : i \in {x \in DOMAIN s.C : a.f \in {s.C[x].fa, s.C[x].fb}}}
      [] op = "set_enabled" /\ ~a.v /\ s.B[a.b].en -> of(a.b)
      [] op = "set_type" /\ a.v # s.B[a.b].ty -> of(a.b)
      [] OTHER -> {}

JointsDropped(s, op, a) ==
    CASE op = "destroy_body" -> {j \in DOMAIN s.J : a.b \in {s.J[j].a, s.J[j].b}}
      [] op = "destroy_joint" -> {a.j}
      [] OTHER -> {}

FixturesDropped(s, op, a) ==
    CASE op = "destroy_body" -> {f \in DOMAIN s.F : s.F[f].b = a.b}
      [] op = "destroy_fixture" -> {a.f}
      [] OTHER -> {}

(* Joint setters that wake the attached bodies, when the value changes.      *)
JointSetWakes(s, a) ==
    LET j == s.J[a.j]  x == j.x
        both == {j.a, j.b} IN
    IF j.ty \in {"revolute", "prismatic", "wheel"}
    THEN CASE a.m = "enable_limit" -> IF x.enable_limit # a.v THEN both ELSE {}
           [] a.m = "enable_motor" -> IF x.enable_motor # a.v THEN both ELSE {}
           [] a.m = "motor_speed" -> IF x.motor_speed # a.v THEN both ELSE {}
           [] a.m = "max_motor" -> IF x.max_motor # a.v THEN both ELSE {}
           [] a.m = "limits" -> IF x.lo # a.lo \/ x.hi # a.hi THEN both ELSE {}
           [] OTHER -> {}
    ELSE IF j.ty = "motor"
    THEN CASE a.m = "linear_offset" -> IF x.linear_offset # <<4 * a.x, 4 * a.y>> THEN both ELSE {}
           [] a.m = "angular_offset" -> IF x.angular_offset # a.v THEN both ELSE {}
           [] OTHER -> {}
    ELSE IF j.ty = "mouse"
    THEN IF a.m = "target" /\ x.target # <<4 * a.x, 4 * a.y>> THEN {j.b} ELSE {}
    ELSE {}

ForceOps == {"apply_force", "apply_force_to_center", "apply_torque",
             "apply_linear_impulse", "apply_linear_impulse_to_center", "apply_angular_impulse"}

(* Bodies a call asks to wake (static ones stay as they are).                *)
WakeSet(s, op, a) ==
    LET lost == {s.C[i] : i \in {x \in DOMAIN s.C : s.C[x].k \in ContactsDropped(s, op, a)}}
        byContact == UNION {ContactBodies(s, c) : c \in {d \in lost : d.np > 0 /\ Solid(s, d)}}
        byJoint == UNION {{s.J[j].a, s.J[j].b} : j \in JointsDropped(s, op, a)}
        direct ==
            CASE op = "set_awake" -> IF a.v THEN {a.b} ELSE {}
              [] op = "set_linear_velocity" -> IF a.x # 0 \/ a.y # 0 THEN {a.b} ELSE {}
              [] op = "set_angular_velocity" -> IF a.w # 0 THEN {a.b} ELSE {}
              [] op \in ForceOps -> IF a.wake /\ s.B[a.b].ty = 2 THEN {a.b} ELSE {}
              [] op = "set_sleeping_allowed" -> IF a.v THEN {} ELSE {a.b}
              [] op = "set_sensor" -> IF a.v # s.F[a.f].se THEN {s.F[a.f].b} ELSE {}
              [] op = "set_allow_sleeping" -> IF ~a.v /\ s.as THEN DOMAIN s.B ELSE {}
              [] op = "joint_set" -> JointSetWakes(s, a)
              [] OTHER -> {}
    IN  byContact \cup byJoint \cup direct

(* The awake flag of every surviving body after a call outside of a step.    *)
AwakeAfter(s, op, a, live) ==
    LET w == WakeSet(s, op, a) IN
    [b \in live |->
        IF b \notin DOMAIN s.B THEN a.ty # 0 /\ (IF "aw" \in DOMAIN a THEN a.aw ELSE TRUE)
        ELSE IF op = "set_type" /\ a.b = b /\ a.v # s.B[b].ty THEN a.v # 0
        ELSE IF s.B[b].ty = 0 THEN s.B[b].aw
        ELSE IF op = "set_awake" /\ a.b = b THEN a.v
        ELSE IF b \in w THEN TRUE ELSE s.B[b].aw]

---------------------------------------------------------------------------
(* Islands: closure of solid touching enabled contacts and joints over       *)
(* bodies that are not static.                                               *)

Movers(s) == {b \in DOMAIN s.B : s.B[b].en /\ s.B[b].ty # 0}

SolidLinks(s) ==
    {ContactBodies(s, s.C[i]) : i \in {x \in DOMAIN s.C : s.C[x].t /\ s.C[x].en /\ Solid(s, s.C[x])}}
JointLinks(s) ==
    {{s.J[j].a, s.J[j].b} : j \in {x \in DOMAIN s.J : s.B[s.J[x].a].en /\ s.B[s.J[x].b].en}}

RECURSIVE Grow(_, _, _)
Grow(set, links, all) ==
    LET more == UNION {l \cap all : l \in {x \in links : x \cap set # {}}} \cup set
    IN  IF more = set THEN set ELSE Grow(more, links, all)

Component(s, b) == Grow({b}, SolidLinks(s) \cup JointLinks(s), Movers(s))
Components(s) == {Component(s, b) : b \in Movers(s)}

=============================================================================
