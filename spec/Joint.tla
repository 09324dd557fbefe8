-------------------------------- MODULE Joint -------------------------------
(* Joints between bodies that do not collide: settings, readings, and the    *)
(* laws a step has to satisfy. A joint record j has the bodies j.a, j.b, its *)
(* settings j.x (256 per unit, points 1024) and fine readings j.h (2^14):    *)
(* local anchors la, lb, local axis ax, coordinate c with rate s (length,    *)
(* angle or translation), second coordinate c2, s2, world anchors aa, ab,    *)
(* impulse fi, angular impulse ti and motor impulse mi of the last step.     *)
EXTENDS Motion, TLC

VAdd(p, q) == <<p[1] + q[1], p[2] + q[2]>>
VSub(p, q) == <<p[1] - q[1], p[2] - q[2]>>
VDot(p, q) == Q(p[1], q[1]) + Q(p[2], q[2])
VCross(p, q) == Q(p[1], q[2]) - Q(p[2], q[1])
VLen(p) == Hypot(p[1], p[2])
VUnit(p) == LET n == VLen(p) IN IF n = 0 THEN <<0, 0>> ELSE <<DivSh(p[1], n, 14), DivSh(p[2], n, 14)>>
Perp(u) == <<-u[2], u[1]>>
Times(x, dt) == (x * dt) \div 1024       \* over the time dt

World(b, p) == VAdd(<<b.hp[1], b.hp[2]>>, Rot(b.q, p))
Arm(b, p) == VSub(p, b.wc)               \* from the centre of mass to world point p
\* velocity hv of the material point at arm r
AtArm(hv, r) == <<hv[1] - Q(hv[3], r[2]), hv[2] + Q(hv[3], r[1])>>

HasAnchors == {"distance", "revolute", "prismatic", "wheel", "weld", "friction"}

\* world points at which the joint acts on its bodies
Anchors(s, j) ==
    LET A == s.B[j.a]  B == s.B[j.b] IN
    CASE j.ty \in HasAnchors -> <<World(A, j.h.la), World(B, j.h.lb)>>
      [] j.ty = "motor" -> <<World(A, j.h.la), <<B.hp[1], B.hp[2]>>>>
      [] OTHER -> <<j.h.aa, j.h.ab>>
Axis(s, j) == Rot(s.B[j.a].q, j.h.ax)

---------------------------------------------------------------------------
(* Settings *)
Fields(ty) ==
    CASE ty = "distance" -> {"length", "min_length", "max_length", "stiffness", "damping"}
      [] ty = "friction" -> {"max_force", "max_torque"}
      [] ty = "gear" -> {"ratio"}
      [] ty = "mouse" -> {"target", "max_force", "stiffness", "damping"}
      [] ty = "motor" -> {"linear_offset", "angular_offset", "max_force", "max_torque", "correction"}
      [] ty = "pulley" -> {"ga", "gb", "length_a", "length_b", "ratio"}
      [] ty = "weld" -> {"stiffness", "damping"}
      [] ty = "wheel" -> {"enable_limit", "lo", "hi", "enable_motor", "motor_speed", "max_motor", "stiffness", "damping"}
      [] OTHER -> {"enable_limit", "lo", "hi", "enable_motor", "motor_speed", "max_motor"}
Fixed(ty) ==   \* chosen at creation for good
    CASE ty \in {"revolute", "weld"} -> {"la", "lb", "ref"}
      [] ty = "prismatic" -> {"la", "lb", "ref", "axis"}
      [] ty = "wheel" -> {"la", "lb", "axis"}
      [] ty \in {"distance", "friction"} -> {"la", "lb"}
      [] OTHER -> {}

Dist2(a) == Hypot(a.x2 - a.x, a.y2 - a.y)
\* settings after creation from the definition a; slop 0.005 m = 1/256
Defined(a, s, x) ==
    LET A == s.B[a.a]  B == s.B[a.b]
        opt(k, d) == IF k \in DOMAIN a THEN a[k] ELSE d
        motorlimit == [enable_limit |-> opt("el", FALSE), lo |-> opt("lo", 0), hi |-> opt("hi", 0), enable_motor |-> opt("em", FALSE),
                       motor_speed |-> opt("ms", 0), max_motor |-> opt("mt", 0)]
        spring == [stiffness |-> opt("k", 0), damping |-> opt("d", 0)]
    IN
    CASE a.jt = "distance" ->
           LET lo == FMax(1, opt("lo", Dist2(a))) IN
           [length |-> FMax(1, opt("len", Dist2(a))), min_length |-> lo, max_length |-> FMax(lo, opt("hi", Dist2(a)))] @@ spring
      [] a.jt = "friction" -> [max_force |-> a.mf, max_torque |-> a.mt]
      [] a.jt = "gear" -> [ratio |-> a.ratio]
      [] a.jt = "mouse" -> [target |-> <<4 * a.x, 4 * a.y>>, max_force |-> a.mf] @@ spring
      [] a.jt = "motor" ->
           LET d == RotT(A.q, <<B.hp[1] - A.hp[1], B.hp[2] - A.hp[2]>>) IN
           [linear_offset |-> <<d[1] \div 16, d[2] \div 16>>, angular_offset |-> (B.hp[3] - A.hp[3]) \div 64,
            max_force |-> a.mf, max_torque |-> a.mt, correction |-> opt("cfac", 77)]
      [] a.jt = "pulley" ->
           [ga |-> <<4 * a.gx, 4 * a.gy>>, gb |-> <<4 * a.gx2, 4 * a.gy2>>, ratio |-> a.ratio,
            length_a |-> 4 * Hypot(a.gx - a.x, a.gy - a.y), length_b |-> 4 * Hypot(a.gx2 - a.x2, a.gy2 - a.y2)]
      [] a.jt = "weld" -> spring
      [] a.jt = "wheel" -> motorlimit @@ spring
      [] OTHER -> motorlimit

\* settings after a setter
SetTo(x, a) ==
    CASE a.m = "limits" -> [x EXCEPT !.lo = a.lo, !.hi = a.hi]
      [] a.m \in {"target", "linear_offset"} -> [x EXCEPT ![a.m] = <<4 * a.x, 4 * a.y>>]
      [] a.m = "length" -> [x EXCEPT !.length = FMax(1, a.v)]
      [] a.m = "min_length" -> [x EXCEPT !.min_length = FMin(FMax(1, a.v), x.max_length)]
      [] a.m = "max_length" -> [x EXCEPT !.max_length = FMax(a.v, x.min_length)]
      [] OTHER -> [x EXCEPT ![a.m] = a.v]

\* bodies woken by a setter that changes something
Waking == {"enable_limit", "limits", "enable_motor", "motor_speed", "max_motor", "linear_offset", "angular_offset"}
Woken(j, a) ==
    IF SetTo(j.x, a) = j.x THEN {}
    ELSE IF a.m \in Waking THEN {j.a, j.b}
    ELSE IF a.m = "target" THEN {j.b}
    ELSE {}

NearVal(x, y, tol) ==   \* a number, a flag or a point
    IF x \in BOOLEAN THEN x = y ELSE Near(x, y, tol)
NearField(f, x, y) ==
    IF f \in {"target", "linear_offset", "ga", "gb"} THEN Near(x[1], y[1], 2) /\ Near(x[2], y[2], 2)
    ELSE IF f \in {"enable_limit", "enable_motor"} THEN x = y
    ELSE Near(x, y, IF f \in {"length_a", "length_b"} THEN 6 ELSE IF f \in {"length", "min_length", "max_length", "angular_offset"} THEN 2 ELSE 0)

---------------------------------------------------------------------------
(* Readings *)
Gap(s, j) == LET p == Anchors(s, j) IN VSub(p[2], p[1])
Turn(s, j) == s.B[j.b].hp[3] - s.B[j.a].hp[3]
Spin(s, j) == s.B[j.b].hv[3] - s.B[j.a].hv[3]

\* rate of the translation along the axis: of anchor b relative to the frame of body a, with velocities from s2
AxisRate(s, s2, j, u) ==
    LET A == s.B[j.a]  B == s.B[j.b]  p == Anchors(s, j)
        va == AtArm(s2.B[j.a].hv, Arm(A, p[2]))       \* of the point of a under anchor b
        vb == AtArm(s2.B[j.b].hv, Arm(B, p[2]))
    IN  VDot(VSub(vb, va), u)
\* relative velocity of the two anchors
AnchorRate(s, s2, j) ==
    LET p == Anchors(s, j) IN VSub(AtArm(s2.B[j.b].hv, Arm(s.B[j.b], p[2])), AtArm(s2.B[j.a].hv, Arm(s.B[j.a], p[1])))

ReadingsOk(s, j) ==
    LET p == Anchors(s, j)  h == j.h  d == Gap(s, j)
        near2(x, y, t) == Near(x[1], y[1], t) /\ Near(x[2], y[2], t)
        big == FMax(FAbs(s.B[j.a].hp[3]), FAbs(s.B[j.b].hp[3])) \div 4096
        w == FAbs(s.B[j.a].hv[3]) + FAbs(s.B[j.b].hv[3])
        far == VLen(d) \div 2048
        fast == 40 + w \div 512 + Q(w, far)
    IN
    /\ j.ty \in HasAnchors => near2(h.aa, p[1], 12) /\ near2(h.ab, p[2], 12)
    /\ CASE j.ty = "distance" -> Near(h.c, VLen(d), 24 + far)
         [] j.ty = "revolute" -> Near(h.c, Turn(s, j) - h.ref, 6 + big) /\ Near(h.s, Spin(s, j), 6)
         [] j.ty = "prismatic" -> Near(h.c, VDot(d, Axis(s, j)), 24 + far) /\ Near(h.s, AxisRate(s, s, j, Axis(s, j)), fast)
         [] j.ty = "wheel" -> /\ Near(h.c, VDot(d, Axis(s, j)), 24 + far) /\ Near(h.s, AxisRate(s, s, j, Axis(s, j)), fast)
                              /\ Near(h.c2, Turn(s, j), 6 + big) /\ Near(h.s2, Spin(s, j), 6)
         [] j.ty = "motor" -> near2(h.aa, <<s.B[j.a].hp[1], s.B[j.a].hp[2]>>, 4) /\ near2(h.ab, <<s.B[j.b].hp[1], s.B[j.b].hp[2]>>, 4)
         [] j.ty = "mouse" -> near2(h.aa, h.la, 4)
         [] j.ty = "pulley" -> Near(h.c, VLen(VSub(h.aa, h.la)), 24) /\ Near(h.c2, VLen(VSub(h.ab, h.lb)), 24)
         [] OTHER -> TRUE

---------------------------------------------------------------------------
(* Steps. s before, s2 after, dt in 1/1024 s.                                *)
Free(b, gx, gy, dt) == Accelerated(b, FALSE, <<0, 0, 0>>, gx, gy, dt)
Turnable(b) == b.ty = 2 /\ ~b.fr /\ ICentre(b) > 0

\* body b got the impulse J at arm and the angular impulse T on top of its free motion
Kicked(b, b2, J, arm, T, gx, gy, dt) ==
    LET v == Free(b, gx, gy, dt)
        dv(i) == DivSh(J[i], b.m, 18)
        dw == DivSh(T + VCross(arm, J), ICentre(b), 18)
        unit == DivSh(One + VLen(arm), ICentre(b), 5)     \* from one unit of impulse
    IN  /\ \A i \in 1..2 : NearRel(b2.hv[i], v[i] + dv(i), 16 + FAbs(dv(i)) \div 256, 2048)
        /\ IF Turnable(b)
           THEN ICentre(b) > 1500 => NearRel(b2.hv[3], v[3] + dw, 24 + 2 * unit + FAbs(dw) \div 128 + Q(unit, VLen(J) * 4), 512)
           ELSE NearRel(b2.hv[3], v[3], 8, 2048)

\* impulse that joint j reports, and what it does to its bodies
ReactionOk(s, s2, k, gx, gy, dt) ==
    LET j == s.J[k]  h == s2.J[k].h
        A == s.B[j.a]  B == s.B[j.b]  p == Anchors(s, j)
        neg(v) == <<-v[1], -v[2]>>
    IN
    IF j.ty = "pulley"
    THEN LET ua == VUnit(VSub(p[1], j.h.la))  ub == VUnit(VSub(p[2], j.h.lb))
             n == VDot(h.fi, ub)
             ja == <<-Q(n, ua[1]), -Q(n, ua[2])>>  jb == <<-Q(Q(j.x.ratio * 64, n), ub[1]), -Q(Q(j.x.ratio * 64, n), ub[2])>>
         IN  (VLen(VSub(p[1], j.h.la)) > 1000 /\ VLen(VSub(p[2], j.h.lb)) > 1000) =>
               /\ A.ty = 2 => Kicked(A, s2.B[j.a], ja, Arm(A, p[1]), 0, gx, gy, dt)
               /\ B.ty = 2 => Kicked(B, s2.B[j.b], jb, Arm(B, p[2]), 0, gx, gy, dt)
    ELSE IF j.ty = "mouse"
    THEN /\ B.ty = 2 => LET v == Free(B, gx, gy, dt) IN
                        \A i \in 1..2 : LET dv == DivSh(h.fi[i], B.m, 18) IN NearRel(s2.B[j.b].hv[i], v[i] + dv, 16 + FAbs(dv) \div 256, 2048)
         /\ A.ty = 2 => Kicked(A, s2.B[j.a], <<0, 0>>, <<0, 0>>, 0, gx, gy, dt)
    ELSE LET pa == IF j.ty \in {"prismatic", "wheel"} THEN p[2] ELSE p[1] IN
         /\ B.ty = 2 => Kicked(B, s2.B[j.b], h.fi, Arm(B, p[2]), h.ti, gx, gy, dt)
         /\ A.ty = 2 => Kicked(A, s2.B[j.a], neg(h.fi), Arm(A, pa), -h.ti, gx, gy, dt)

\* implicit spring, strength k and damping d in 1/256: impulse for the error C and its rate at the end of the step
Spring(k, d, C, rate, dt) ==
    LET c == C + Times(rate, dt) IN -Times(MulSh(k * 64, c, 14) + MulSh(d * 64, rate, 14), dt)

\* rates at which a coordinate c reaches its bounds within the step (not receding when it is beyond)
LoRate(c, lo, dt) == -((FMax(0, c - lo) * 256) \div dt) * 4
HiRate(c, hi, dt) == ((FMax(0, hi - c) * 256) \div dt) * 4

\* an impulse beyond the given one comes from the bound that is reached
Bounded(rate, S, given, lo, hi, tr, ts) ==
    /\ rate >= lo - tr /\ rate <= hi + tr
    /\ S - given > ts => rate <= lo + tr
    /\ given - S > ts => rate >= hi - tr
---------------------------------------------------------------------------
(* Momentum *)
Dynamic(s, b) == s.B[b].ty = 2
\* no velocity was cut at its limit
Uncut(b, dt) == /\ FAbs(Times(b.hv[1], dt)) < 20000 /\ FAbs(Times(b.hv[2], dt)) < 20000 /\ FAbs(Times(b.hv[3], dt)) < 25000
RECURSIVE TotalOver(_, _)
TotalOver(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + TotalOver(S \ {x}, f)
Total(r, f(_)) == TotalOver(DOMAIN r, [x \in DOMAIN r |-> f(x)])
\* all bodies are free and in motion
Closed(s, s2, dt) ==
    /\ \A b \in DOMAIN s.B : Dynamic(s, b) /\ s2.B[b].aw /\ Uncut(s.B[b], dt) /\ Uncut(s2.B[b], dt)
    /\ \A k \in DOMAIN s.J : FAbs(s.J[k].h.ti) < 4000000 /\ FAbs(s2.J[k].h.ti) < 4000000
\* momentum gained beyond that of free motion, in direction i (3: turning)
Gain(s, s2, gx, gy, b, i, dt) ==
    LET x == s.B[b]  d == s2.B[b].hv[i] - Free(x, gx, gy, dt)[i] IN
    IF i < 3 THEN MulSh(d, x.m, 18) ELSE IF Turnable(x) THEN MulSh(d, ICentre(x), 18) ELSE 0
\* how far body b was put beside the way given by its velocity, times its mass
Shoved(s, s2, b, i, dt) == MulSh(s2.B[b].wc[i] - s.B[b].wc[i] - Times(s2.B[b].hv[i], dt), s.B[b].m, 18)
\* correcting positions leaves the common centre of mass where it is
Centred(s, s2, dt) ==
    \A i \in 1..2 : FAbs(Total(s.B, LAMBDA b : Shoved(s, s2, b, i, dt))) <=
                     Total(s.B, LAMBDA b : 2 + MulSh(8 + (FAbs(s2.B[b].hv[i]) + FAbs(s2.B[b].wc[i])) \div 32768, s.B[b].m, 18))
\* and turns nothing as a whole; leak: by how much opposite pushes miss each other
Unturned(s, s2, dt, leak) ==
    LET o == s2.B[CHOOSE b \in DOMAIN s.B : TRUE].wc
        shove(b) == <<Shoved(s, s2, b, 1, dt), Shoved(s, s2, b, 2, dt)>>
        off(b) == VSub(s2.B[b].wc, o)
        spin(b) == s2.B[b].hp[3] - s.B[b].hp[3] - Times(s2.B[b].hv[3], dt)
        wrung(b) == VCross(off(b), shove(b)) + (IF Turnable(s.B[b]) THEN MulSh(spin(b), ICentre(s.B[b]), 18) ELSE 0)
        most == Total(s.B, LAMBDA b : VLen(shove(b)))
        way == Total(s.B, LAMBDA b : FMax(FAbs(s2.B[b].wc[1] - s.B[b].wc[1] - Times(s2.B[b].hv[1], dt)), FAbs(s2.B[b].wc[2] - s.B[b].wc[2] - Times(s2.B[b].hv[2], dt))))
        slack(b) == LET n == MulSh(12 + (FAbs(s2.B[b].hv[1]) + FAbs(s2.B[b].hv[2]) + FAbs(s2.B[b].wc[1]) + FAbs(s2.B[b].wc[2])) \div 32768, s.B[b].m, 18) + 3 IN
                    4 + Q(n, VLen(off(b))) + MulSh(8 + (FAbs(s2.B[b].hp[3]) + FAbs(s2.B[b].hv[3])) \div 16384, s.B[b].I, 18)
    IN (\A b \in DOMAIN s.B : Turnable(s.B[b]) /\ FAbs(spin(b)) < 3000 /\ VLen(off(b)) < 400000 /\ VLen(shove(b)) < 1000000) =>
         FAbs(Total(s.B, wrung)) <= 20 + Total(s.B, slack) + 2 * Q(most, way + leak)
Slack(s, s2, b) ==
    LET v(h) == FMax(FAbs(h[1]), FMax(FAbs(h[2]), FAbs(h[3]))) IN 4 + MulSh(v(s.B[b].hv) + v(s2.B[b].hv) + 16384, s.B[b].m + s.B[b].I, 18) \div 2048

=============================================================================
