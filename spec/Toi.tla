-------------------------------- MODULE Toi ---------------------------------
(* Continuous collision: where the centre of a body is with respect to a     *)
(* thin wall before and after a step. Scales as in Motion.                   *)
EXTENDS Motion

\* a wall segment seg = <<x1, y1, x2, y2>> (1/256, body frame) on body w, seen from point c:
\* d distance to its line (positive to the left of its direction), t place along it, len its length
Seen(w, seg, c) ==
    LET o == <<w.hp[1], w.hp[2]>>
        r1 == Rot(w.q, <<seg[1] * 64, seg[2] * 64>>)
        r2 == Rot(w.q, <<seg[3] * 64, seg[4] * 64>>)
        a == <<o[1] + r1[1], o[2] + r1[2]>>
        e == <<r2[1] - r1[1], r2[2] - r1[2]>>
        L == Hypot(e[1], e[2])
        u == <<DivSh(e[1], L, 14), DivSh(e[2], L, 14)>>
        v == <<c[1] - a[1], c[2] - a[2]>>
    IN  [d |-> Q(u[1], v[2]) - Q(u[2], v[1]), t |-> Q(u[1], v[1]) + Q(u[2], v[2]), len |-> L, u |-> u]

Margin == 5000
Beside(x) == x.t > Margin /\ x.t < x.len - Margin

\* a body of inner radius ir (1/256) that was clearly on one side is still on that side; x, y: Seen before and after
StaysOn(x, y, ir, one) ==
    (Beside(x) /\ Beside(y) /\ FAbs(x.d) > ir * 38 /\ (one => x.d < 0)) =>
        IF x.d > 0 THEN y.d > 0 ELSE y.d < 0

\* displacement of the centre by a velocity within dt
Carried(b, b2, dt) ==
    LET tol == 24 + (FAbs(b2.hv[1]) + FAbs(b2.hv[2])) \div 16384 IN
    /\ Near(b2.wc[1], b.wc[1] + (b2.hv[1] * dt) \div 1024, tol)
    /\ Near(b2.wc[2], b.wc[2] + (b2.hv[2] * dt) \div 1024, tol)
Stalled(b, b2) == b2.pb = b.pb
\* without friction a round body keeps its speed along a wall with direction u through an impact
Slid(b, b2, u, dt) ==
    LET along(x, y) == Q(u[1], x) + Q(u[2], y) IN
    Near(along(b2.wc[1] - b.wc[1], b2.wc[2] - b.wc[2]), along((b2.hv[1] * dt) \div 1024, (b2.hv[2] * dt) \div 1024), 60)
=============================================================================
