------------------------------- MODULE Contact ------------------------------
(* What touching bodies do to each other in a step: impulses at the points   *)
(* of contact, friction, bounce and the coefficients of a pair.              *)
(* A report p (pre-solve) of a contact has its normal nr from fixture fa to  *)
(* fb, points pt and separations sp (2^14), feature ids id and impulses wi   *)
(* of the points, and those of the manifold before (oid, ow); a report q     *)
(* (post-solve) has the number n of solved points with impulses ni, ti.      *)
EXTENDS Joint

---------------------------------------------------------------------------
(* Coefficients of a pair (4096 per unit), from the materials (256).         *)
Mixed(f, g) ==
    [fr |-> FSqrt(f.fr * 16 * g.fr * 16), re |-> FMax(f.re, g.re) * 16, rt |-> FMin(f.rt, g.rt) * 16, ts |-> 0]
SameCoef(c, d) == Near(c.fr, d.fr, 2) /\ Near(c.re, d.re, 1) /\ Near(c.rt, d.rt, 1) /\ c.ts = d.ts
CoefSet(c, m, v) == [c EXCEPT ![m] = IF m = "ts" THEN v ELSE 16 * v]

---------------------------------------------------------------------------
(* Impulses *)
Tangent(n) == <<n[2], -n[1]>>
\* on the body of fb; the body of fa gets the opposite
PointImpulse(p, q, i) ==
    LET t == Tangent(p.nr) IN <<Q(q.ni[i], p.nr[1]) + Q(q.ti[i], t[1]), Q(q.ni[i], p.nr[2]) + Q(q.ti[i], t[2])>>

RECURSIVE SumSeq(_)
SumSeq(S) == IF S = <<>> THEN 0 ELSE Head(S) + SumSeq(Tail(S))

\* what a contact gives to the body with centre wc, sign 1 for fb: linear, moment and total strength
Given(p, q, wc, sign) ==
    LET J(i) == PointImpulse(p, q, i)
        T(i) == VCross(VSub(p.pt[i], wc), J(i))
        R(i) == VLen(VSub(p.pt[i], wc))
        N == 1..q.n
    IN  [x |-> sign * SumSeq([i \in N |-> J(i)[1]]), y |-> sign * SumSeq([i \in N |-> J(i)[2]]), t |-> sign * SumSeq([i \in N |-> T(i)]),
         s |-> SumSeq([i \in N |-> FAbs(q.ni[i]) + FAbs(q.ti[i]) + 8]),
         r |-> SumSeq([i \in N |-> Q(FAbs(q.ni[i]) + FAbs(q.ti[i]) + 8, R(i)) + FAbs(q.ni[i]) + FAbs(q.ti[i]) + 8])]
NoImpulse == [x |-> 0, y |-> 0, t |-> 0, s |-> 0, r |-> 0]
Add(u, v) == [f \in DOMAIN u |-> u[f] + v[f]]

\* body b became b2 through the given impulses on top of its free motion
Driven(b, b2, g, gx, gy, dt) ==
    LET v == Free(b, gx, gy, dt)
        tol == 16 + DivSh(4 + g.s \div 2048, b.m, 18)
    IN  /\ Near(b2.hv[1], v[1] + DivSh(g.x, b.m, 18), tol + FAbs(v[1]) \div 2048)
        /\ Near(b2.hv[2], v[2] + DivSh(g.y, b.m, 18), tol + FAbs(v[2]) \div 2048)
        /\ IF Turnable(b)
           THEN ICentre(b) > 1500 => Near(b2.hv[3], v[3] + DivSh(g.t, ICentre(b), 18),
                                          24 + DivSh(4 + g.r \div 1024, ICentre(b), 18) + FAbs(v[3]) \div 512)
           ELSE NearRel(b2.hv[3], v[3], 8, 2048)

---------------------------------------------------------------------------
(* Velocities at the points of contact *)
\* of the body of fb relative to the body of fa, at the i-th point, for given velocities
RelAt(A, B, va, vb, pt) == VSub(AtArm(vb, VSub(pt, B.wc)), AtArm(va, VSub(pt, A.wc)))

\* speeds of separation allowed after an impact with approach rate vn < 0 (negative: approaching); c: coefficients
Bounce(vn, c, margin) ==
    LET e == MulSh(c.re * 4, FAbs(vn), 14)  th == c.rt * 4 IN
    IF vn < -th - margin THEN {e}
    ELSE IF vn < -th + margin THEN {0, e}
    ELSE {0}

\* complementarity at a solved point: no approach beyond the bounce, no push while separating faster
NormalOk(vn2, ni, bounces, tv, tn) ==
    \E u \in bounces : vn2 >= u - tv /\ (ni > tn => vn2 <= u + tv)
\* friction: sticking below the bound of the cone, opposing the slip on it
FrictionOk(vt2, ti, ni, fr, tv, tn) ==
    LET max == MulSh(fr * 4, ni, 14) IN
    /\ FAbs(ti) <= max + tn
    /\ ti < max - tn => vt2 >= -tv
    /\ ti > tn - max => vt2 <= tv
=============================================================================
