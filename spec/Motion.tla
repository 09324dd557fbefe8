------------------------------- MODULE Motion -------------------------------
(* Mass data of bodies, forces, and the motion of bodies without constraint. *)
(* Positions, velocities, angles, torques: 2^14 per unit; masses and         *)
(* inertias: 2^18; forces and shape coordinates: 256; time: 1024.            *)
EXTENDS Fix

---------------------------------------------------------------------------
(* Mass of one shape with density de: [m, x, y, i] with x, y the first       *)
(* moments and i the inertia about the body origin.                          *)

NoMass == [m |-> 0, x |-> 0, y |-> 0, i |-> 0]

CircleMass(r, x, y, de) ==
    LET m == MulSh(de * r * r, 205887, 22) IN
    [m |-> m, x |-> MulSh(m, x * 64, 14), y |-> MulSh(m, y * 64, 14),
     i |-> MulSh(m, (r * r) \div 2 + x * x + y * y, 16)]

PolyMass(v, de) ==
    LET n == Len(v)
        nx(i) == v[(i % n) + 1]
        cr(i) == v[i][1] * nx(i)[2] - v[i][2] * nx(i)[1]
        qd(i) == LET a == v[i]  b == nx(i) IN
                 a[1] * a[1] + a[1] * b[1] + b[1] * b[1] + a[2] * a[2] + a[2] * b[2] + b[2] * b[2]
        RECURSIVE sum(_, _)
        sum(f, i) == IF i = 0 THEN 0 ELSE f[i] + sum(f, i - 1)
        S(op(_)) == sum([i \in 1..n |-> op(i)], n)
        A2 == S(cr)
        tx(i) == (cr(i) * (v[i][1] + nx(i)[1])) \div 8
        ty(i) == (cr(i) * (v[i][2] + nx(i)[2])) \div 8
        ti(i) == MulSh(cr(i), qd(i), 14)
    IN  [m |-> (de * A2) \div 128,
         x |-> (MulSh(S(tx), de * 8, 14)) \div 6,
         y |-> (MulSh(S(ty), de * 8, 14)) \div 6,
         i |-> (MulSh(S(ti), de * 64, 14)) \div 12]

BoxPts(s) == LET X == s.x  Y == s.y IN
    << <<X - s.hx, Y - s.hy>>, <<X + s.hx, Y - s.hy>>, <<X + s.hx, Y + s.hy>>, <<X - s.hx, Y + s.hy>> >>

ShapeMass(s, de) ==
    IF de = 0 THEN NoMass
    ELSE IF s.k = "c" THEN CircleMass(s.r, s.x, s.y, de)
    ELSE IF s.k = "b" THEN PolyMass(BoxPts(s), de)
    ELSE IF s.k = "p" THEN PolyMass(s.v, de)
    ELSE NoMass

RECURSIVE SumMass(_)
SumMass(S) ==   \* S: a sequence of [m, x, y, i]
    IF S = <<>> THEN NoMass
    ELSE LET a == Head(S)  b == SumMass(Tail(S)) IN [m |-> a.m + b.m, x |-> a.x + b.x, y |-> a.y + b.y, i |-> a.i + b.i]

(* Mass data of a body: m, centre c, inertia about the origin as reported i, *)
(* rot: whether it has rotational inertia at all.                            *)
Massless == [m |-> 0, c |-> <<0, 0>>, i |-> 0, rot |-> FALSE]
CC(m, c) == MulSh(m, Q(c[1], c[1]) + Q(c[2], c[2]), 14)

ResetMass(ty, fixedRot, parts) ==
    IF ty # 2 THEN Massless
    ELSE LET t == SumMass(parts) IN
         IF t.m = 0 THEN Massless
         ELSE LET c == <<DivSh(t.x, t.m, 14), DivSh(t.y, t.m, 14)>>
                  rot == ~fixedRot /\ t.i > 0
              IN  [m |-> t.m, c |-> c, i |-> IF rot THEN t.i ELSE CC(t.m, c), rot |-> rot]

OverrideMass(fixedRot, a) ==   \* a.m, a.x, a.y, a.i in 1/256
    LET m == IF a.m <= 0 THEN 262144 ELSE a.m * 1024
        c == <<a.x * 64, a.y * 64>>
        rot == ~fixedRot /\ a.i > 0
    IN  [m |-> m, c |-> c, i |-> IF rot THEN a.i * 1024 ELSE CC(m, c), rot |-> rot]

---------------------------------------------------------------------------
(* One step of a body without contacts or joints.                            *)

\* moment of a force f (1/256) at world point p (2^14) about centre c, in 2^14
Moment(p, c, f) == ((p[1] - c[1]) * f[2] - (p[2] - c[2]) * f[1]) \div 256

Damped(v, d, dt) == LET D == 262144 + dt * d IN DivSh(v, D, 18)

\* inertia about the centre of mass
ICentre(b) == b.I - CC(b.m, b.lc)

\* velocity after forces and damping
Accelerated(b, rot, f, gx, gy, dt) ==
    IF b.ty # 2 THEN b.hv
    ELSE LET gain(gc, fc) == IF b.m = 0 THEN 0 ELSE (b.gs * gc * dt) \div 4096 + DivSh(fc * dt, b.m, 14)
             gw == IF rot THEN DivSh(f[3] * dt, ICentre(b), 8) ELSE 0
         IN  << Damped(b.hv[1] + gain(gx, f[1]), b.ld, dt), Damped(b.hv[2] + gain(gy, f[2]), b.ld, dt),
                Damped(b.hv[3] + gw, b.ad, dt) >>

\* no body moves by more than 2 m or 90 degrees per step
Limited(v, dt) ==
    LET t == Hypot((v[1] * dt) \div 1024, (v[2] * dt) \div 1024)
        r == FAbs((v[3] * dt) \div 1024)
        lim(x) == IF t > 32768 THEN MulSh(DivSh(x, t, 14), 32768, 14) ELSE x
    IN  << lim(v[1]), lim(v[2]), IF r > HalfPi THEN (IF v[3] > 0 THEN 1 ELSE -1) * ((HalfPi * 1024) \div dt) ELSE v[3] >>

Moved(b, v, dt) == << b.wc[1] + (v[1] * dt) \div 1024, b.wc[2] + (v[2] * dt) \div 1024, b.hp[3] + (v[3] * dt) \div 1024 >>
=============================================================================
