-------------------------------- MODULE Rope --------------------------------
(* A rope as a mass-point chain solved by position corrections. Positions    *)
(* and displacements per step at scale 2^16, inverse masses 2^16, settings   *)
(* 1/256, time 1/1024. A rope is a record                                    *)
(*   b bind positions, w inverse masses, g gravity, t tuning,                *)
(*   u displacement of each point in the last step, h its length,            *)
(*   rest lengths and bending data derived from the bind positions.          *)
(* Working state of a step: [p, q, lb, ls, ok]: points, points before the    *)
(* step, accumulated multipliers of bend and stretch constraints (2^24), and *)
(* whether the arithmetic has stayed within its range.                       *)
EXTENDS Fix

M(a, b) == MulSh(a, b, 16)
Div(a, b) == DivSh(a, b, 16)
Unit == 65536
Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Sub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Scale(k, a) == <<M(k, a[1]), M(k, a[2])>>
Neg(a) == <<-a[1], -a[2]>>
Skew(a) == <<-a[2], a[1]>>
Dot(a, b) == M(a[1], b[1]) + M(a[2], b[2])
Cross(a, b) == M(a[1], b[2]) - M(a[2], b[1])
Norm(a) == LET m == FMax(FAbs(a[1]), FAbs(a[2])) IN
    IF m = 0 THEN 0 ELSE LET x == DivSh(a[1], m, 14) y == DivSh(a[2], m, 14) IN
    \* one Newton step brings the 14-bit square root to full precision
    LET r == MulSh(m, FSqrt(x * x + y * y), 14) IN IF r < 4096 THEN r ELSE (r + Div(Dot(a, a), r)) \div 2
Dir(a, l) == <<Div(a[1], l), Div(a[2], l)>>
Min(a, b) == IF a < b THEN a ELSE b

AtanS(t) ==      \* |t| <= 0.4143
    LET s == M(t, t)
        u1 == Unit \div 9 - s \div 11
        u2 == Unit \div 7 - M(s, u1)
        u3 == Unit \div 5 - M(s, u2)
        u4 == Unit \div 3 - M(s, u3)
    IN  M(t, Unit - M(s, u4))
Atan01(t) == IF t > 27146 THEN 51472 + AtanS(Div(t - Unit, t + Unit)) ELSE AtanS(t)
Atan2(y, x) ==
    LET ax == FAbs(x) ay == FAbs(y)
        r == IF ax >= ay THEN (IF ax = 0 THEN 0 ELSE Atan01(Div(ay, ax))) ELSE 102944 - Atan01(Div(ax, ay))
        s == IF x < 0 THEN 205887 - r ELSE r
    IN  IF y < 0 THEN -s ELSE s
ExpM(x) ==       \* e^-x for 0 <= x <= 1
    LET t(k, r) == Unit - M(x, r) \div k IN t(1, t(2, t(3, t(4, t(5, t(6, t(7, Unit)))))))

(* Angle per step of a frequency: 2 pi hz dt.                                *)
Turn(hz, dt) == MulSh(hz * dt, 25736, 14)

(* ----- definition -------------------------------------------------------- *)
Points(d) == [i \in DOMAIN d.v |-> <<d.v[i][1] * 256, d.v[i][2] * 256>>]
Weights(d) == [i \in DOMAIN d.v |-> IF d.v[i][3] = 0 THEN 0 ELSE DivSh(Unit, d.v[i][3], 8)]
At(a) == <<a[1] * 256, a[2] * 256>>
Inv2(l) == Div(Unit, M(l, l))
Rope(d) ==
    LET b == Points(d) w == Weights(d) n == Len(b)
        len(i) == Norm(Sub(b[i + 1], b[i]))
        flat(i) ==    \* inverse effective mass of the straightened corner, 2^12
            LET j2 == Div(Unit, len(i)) + Div(Unit, len(i + 1)) IN
            (M(w[i], Inv2(len(i))) + M(w[i + 1], M(j2, j2)) + M(w[i + 2], Inv2(len(i + 1)))) \div 16
        corner(i) ==  \* inverse effective mass of the corner as defined, 2^12
            LET e1 == Sub(b[i + 1], b[i]) e2 == Sub(b[i + 2], b[i + 1])
                j1 == Scale(Inv2(len(i)), Skew(e1)) j3 == Scale(Inv2(len(i + 1)), Skew(e2))
                j2 == Neg(Add(j1, j3))
            IN  (M(w[i], Dot(j1, j1)) + M(w[i + 1], Dot(j2, j2)) + M(w[i + 2], Dot(j3, j3))) \div 16
        part(i) == LET r == Sub(b[i + 2], b[i]) IN
            <<Div(Dot(Sub(b[i + 2], b[i + 1]), r), Dot(r, r)), Div(Dot(Sub(b[i + 1], b[i]), r), Dot(r, r))>>
    IN  [b |-> b, w |-> w, g |-> At(d.g), t |-> d.t, u |-> [i \in DOMAIN b |-> <<0, 0>>], h |-> 16,
         len |-> [i \in 1..(n - 1) |-> len(i)], flat |-> [i \in 1..(n - 2) |-> flat(i)],
         corner |-> [i \in 1..(n - 2) |-> corner(i)],
         part |-> [i \in 1..(n - 2) |-> IF Norm(Sub(b[i + 2], b[i])) < 3000 THEN <<0, 0>> ELSE part(i)],
         good |-> \A i \in 1..(n - 2) : Norm(Sub(b[i + 2], b[i])) >= 6000]

(* ----- corners: angle, its gradient and inverse mass --------------------- *)
Short == 16384   \* a quarter of a metre: corners with shorter sides are not predicted
Corner(R, p, i) ==
    LET d1 == Sub(p[i + 1], p[i]) d2 == Sub(p[i + 2], p[i + 1])
        n1 == Norm(d1) n2 == Norm(d2)
        a == Cross(d1, d2) c == Dot(d1, d2)
        l1 == IF R.t.iso THEN R.len[i] ELSE n1
        l2 == IF R.t.iso THEN R.len[i + 1] ELSE n2
        ok == n1 >= Short /\ n2 >= Short /\ n1 < 400000 /\ n2 < 400000 /\ (c > 0 \/ FAbs(a) * 4 > -c)
    IN  IF ~ok THEN [ok |-> FALSE]
        ELSE LET j1 == Scale(Inv2(l1), Skew(d1)) j3 == Scale(Inv2(l2), Skew(d2)) j2 == Neg(Add(j1, j3))
                 own == (M(R.w[i], Dot(j1, j1)) + M(R.w[i + 1], Dot(j2, j2)) + M(R.w[i + 2], Dot(j3, j3))) \div 16
             IN  [ok |-> TRUE, j |-> <<j1, j2, j3>>, angle |-> Atan2(a, c), sum |-> IF R.t.fem THEN R.corner[i] ELSE own]
\* k (2^24) times the gradient, weighted by the inverse masses, added to the three points
Push(R, p, i, k, j) == [m \in DOMAIN p |-> IF m \in i..(i + 2)
    THEN LET f == MulSh(R.w[m], k, 16) IN Add(p[m], <<MulSh(j[m - i + 1][1], f, 24), MulSh(j[m - i + 1][2], f, 24)>>) ELSE p[m]]

(* bending as a spring on the velocities: displacement per step              *)
RECURSIVE Spring(_, _, _, _, _)
Spring(R, p, u, i, dt) ==
    IF i > Len(p) - 2 THEN [u |-> u, ok |-> TRUE]
    ELSE LET c == Corner(R, p, i) IN
         IF R.w[i] + R.w[i + 1] + R.w[i + 2] = 0 THEN Spring(R, p, u, i + 1, dt)
         ELSE IF ~c.ok \/ c.sum < 400 THEN [u |-> u, ok |-> FALSE]
         ELSE LET W == Turn(R.t.bh, dt)
                  rate == Dot(c.j[1], u[i]) + Dot(c.j[2], u[i + 1]) + Dot(c.j[3], u[i + 2])
                  b == M(M(W, W), c.angle) + M(MulSh(W, R.t.bd * 512, 16), rate)
              IN  IF FAbs(b) > 2000000 THEN [u |-> u, ok |-> FALSE]
                  ELSE Spring(R, p, Push(R, u, i, -DivSh(b, c.sum, 20), c.j), i + 1, dt)

RECURSIVE BendAngle(_, _, _, _)
BendAngle(R, st, i, dt) ==      \* position based, with (xpbd) or without compliance
    IF ~st.ok \/ i > Len(st.p) - 2 THEN st
    ELSE LET c == Corner(R, st.p, i) IN
         IF R.w[i] + R.w[i + 1] + R.w[i + 2] = 0 THEN BendAngle(R, st, i + 1, dt)
         ELSE IF ~c.ok \/ c.sum < 400 THEN [st EXCEPT !.ok = FALSE]
         ELSE IF R.t.bm = 1
         THEN BendAngle(R, [st EXCEPT !.p = Push(R, @, i, -DivSh(MulSh(c.angle, R.t.bs * 256, 16), c.sum, 20), c.j)], i + 1, dt)
         ELSE LET W == Turn(R.t.bh, dt)
                  alpha == DivSh(R.flat[i], M(W, W), 16)
                  sigma == Div(R.t.bd * 512, W)
                  rate == Dot(c.j[1], Sub(st.p[i], st.q[i])) + Dot(c.j[2], Sub(st.p[i + 1], st.q[i + 1])) + Dot(c.j[3], Sub(st.p[i + 2], st.q[i + 2]))
                  b == c.angle + MulSh(alpha, st.lb[i], 20) + M(sigma, rate)
                  sum == c.sum + M(sigma, c.sum) + alpha
                  k == -DivSh(b, sum, 20)
              IN  IF alpha > 16000000 \/ sum > 30000000 \/ FAbs(b) > 2000000 THEN [st EXCEPT !.ok = FALSE]
                  ELSE BendAngle(R, [st EXCEPT !.p = Push(R, @, i, k, c.j), !.lb[i] = @ + k], i + 1, dt)

\* moves two points along their line by the given share of the missing length
Pull(R, p, i, j, k, rest) ==
    LET d == Sub(p[j], p[i]) l == Norm(d) e == Dir(d, l) sum == R.w[i] + R.w[j]
        m == M(k, rest - l)
    IN  [p EXCEPT ![i] = Sub(@, Scale(M(Div(R.w[i], sum), m), e)), ![j] = Add(@, Scale(M(Div(R.w[j], sum), m), e))]
RECURSIVE BendDistance(_, _, _)
BendDistance(R, st, i) ==
    IF ~st.ok \/ i > Len(st.p) - 2 THEN st
    ELSE IF R.w[i] + R.w[i + 2] = 0 THEN BendDistance(R, st, i + 1)
    ELSE IF Norm(Sub(st.p[i], st.p[i + 2])) < 6000 THEN [st EXCEPT !.ok = FALSE]
    ELSE BendDistance(R, [st EXCEPT !.p = Pull(R, @, i, i + 2, R.t.bs * 256, R.len[i] + R.len[i + 1])], i + 1)

RECURSIVE BendHeight(_, _, _)
BendHeight(R, st, i) ==
    IF i > Len(st.p) - 2 THEN st
    ELSE LET a1 == R.part[i][1] a2 == R.part[i][2]
             d == Sub(Add(Scale(a1, st.p[i]), Scale(a2, st.p[i + 2])), st.p[i + 1])
             sum == M(R.w[i], M(a1, a1)) + R.w[i + 1] + M(R.w[i + 2], M(a2, a2))
             f(w, a) == Scale(M(-Div(M(w, a), sum), R.t.bs * 256), d)
         IN  IF R.w[i] + R.w[i + 1] + R.w[i + 2] = 0 THEN BendHeight(R, st, i + 1)
             ELSE IF sum < 600 THEN [st EXCEPT !.ok = FALSE]
             ELSE BendHeight(R, [st EXCEPT !.p = [@ EXCEPT ![i] = Add(@, f(R.w[i], a1)), ![i + 1] = Add(@, f(R.w[i + 1], -Unit)),
                                                         ![i + 2] = Add(@, f(R.w[i + 2], a2))]], i + 1)
RECURSIVE BendTriangle(_, _, _)
BendTriangle(R, st, i) ==
    IF i > Len(st.p) - 2 THEN st
    ELSE LET x == st.p[i] y == st.p[i + 1] z == st.p[i + 2]
             \* twice the height over the middle of the base
             d == <<(2 * y[1] - x[1] - z[1]) \div 3, (2 * y[2] - x[2] - z[2]) \div 3>>
             W == R.w[i] + R.w[i + 2] + 2 * R.w[i + 1]
             f(w, k) == Scale(k * M(Div(w, W), R.t.bs * 256), d)
         IN  IF W = 0 THEN BendTriangle(R, st, i + 1)
             ELSE BendTriangle(R, [st EXCEPT !.p = [@ EXCEPT ![i] = Add(@, f(R.w[i], 2)), ![i + 1] = Sub(@, f(R.w[i + 1], 4)),
                                                           ![i + 2] = Add(@, f(R.w[i + 2], 2))]], i + 1)

RECURSIVE Stretch(_, _, _, _)
Stretch(R, st, i, dt) ==
    IF ~st.ok \/ i >= Len(st.p) THEN st
    ELSE IF R.w[i] + R.w[i + 1] = 0 THEN Stretch(R, st, i + 1, dt)
    ELSE LET d == Sub(st.p[i + 1], st.p[i]) l == Norm(d) IN
         IF l < 6000 THEN [st EXCEPT !.ok = FALSE]
         ELSE IF R.t.sm = 0 THEN Stretch(R, [st EXCEPT !.p = Pull(R, @, i, i + 1, R.t.ss * 256, R.len[i])], i + 1, dt)
         ELSE LET e == Dir(d, l) W == Turn(R.t.sh, dt)
                  sum0 == (R.w[i] + R.w[i + 1]) \div 16
                  alpha == DivSh(sum0, M(W, W), 16)
                  sigma == Div(R.t.sd * 512, W)
                  rate == Dot(e, Sub(Sub(st.p[i + 1], st.q[i + 1]), Sub(st.p[i], st.q[i])))
                  b == l - R.len[i] + MulSh(alpha, st.ls[i], 20) + M(sigma, rate)
                  k == -DivSh(b, sum0 + M(sigma, sum0) + alpha, 20)
                  f(w) == MulSh(w, k, 24)
              IN  IF FAbs(b) > 2000000 THEN [st EXCEPT !.ok = FALSE]
                  ELSE Stretch(R, [st EXCEPT !.p[i] = Sub(@, Scale(f(R.w[i]), e)), !.p[i + 1] = Add(@, Scale(f(R.w[i + 1]), e)),
                                             !.ls[i] = @ + k], i + 1, dt)

Inside(st) == \A i \in DOMAIN st.p : \A k \in {1, 2} : FAbs(st.p[i][k]) < 4000000
RECURSIVE Iterate(_, _, _, _)
Iterate(R, st, n, dt) ==
    IF n = 0 \/ ~st.ok THEN st
    ELSE IF ~Inside(st) THEN [st EXCEPT !.ok = FALSE]
    ELSE LET bent == CASE R.t.bm = 0 -> st
                       [] R.t.bm \in {1, 2} -> BendAngle(R, st, 1, dt)
                       [] R.t.bm = 3 -> BendDistance(R, st, 1)
                       [] R.t.bm = 4 -> BendHeight(R, st, 1)
                       [] OTHER -> BendTriangle(R, st, 1)
         IN  Iterate(R, Stretch(R, bent, 1, dt), n - 1, dt)

(* The whole step: R the rope, p its points, a the arguments.                *)
Begin(R, p, a) ==
    LET damp == ExpM((R.t.dm * a.dt) \div 4)
        fall(k) == MulSh(R.g[k], a.dt * a.dt, 20)
    IN  [i \in DOMAIN p |-> IF R.w[i] = 0 THEN Sub(Add(R.b[i], At(a.at)), p[i])
            ELSE LET s(k) == M((R.u[i][k] * a.dt) \div R.h, damp) + fall(k) IN <<s(1), s(2)>>]
Step(R, p, a) ==
    LET u0 == Begin(R, p, a)
        n == Len(p)
        bent == IF R.t.bm = 0 THEN Spring(R, p, u0, 1, a.dt) ELSE [u |-> u0, ok |-> TRUE]
    IN  Iterate(R, [p |-> [i \in DOMAIN p |-> Add(p[i], bent.u[i])], q |-> p, lb |-> [i \in 1..(n - 2) |-> 0], ls |-> [i \in 1..(n - 1) |-> 0],
                    ok |-> bent.ok /\ R.good], a.it, a.dt)
=============================================================================
