----------------------------- MODULE TraceJoint -----------------------------
(* Recorded histories of jointed bodies that never collide, judged against   *)
(* Joint. The state is the one recorded; the history carried along is the    *)
(* constant of each gear.                                                    *)
EXTENDS Joint, FiniteSets, Json, IOUtils

Tr == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP
Has(f, k) == k \in DOMAIN f

\* values within the range of the arithmetic; the recorder writes NaN as -2^30 - 1
Values(s) == UNION {{s.B[b].hp[i] : i \in 1..3} \cup {s.B[b].hv[i] : i \in 1..3} : b \in DOMAIN s.B}
             \cup UNION {{s.J[k].h.fi[1], s.J[k].h.fi[2]} : k \in DOMAIN s.J}
Sane(s) == /\ \A v \in Values(s) : FAbs(v) < 10000000
           /\ \A b \in DOMAIN s.B : FAbs(s.B[b].hp[1]) < 1600000 /\ FAbs(s.B[b].hp[2]) < 1600000
Finite(s) == \A v \in Values(s) : v # -1073741825

Clauses ==
    [C17 |-> {"c17_finite", "c17_panic", "c17_still", "c17_rigid", "c17_spring", "c17_limit", "c17_motor", "c17_friction", "c17_follow", "c17_gear",
              "c17_hold", "c17_settle", "c17_range", "c17_slack", "c17_reaction"},
     C18 |-> {"c18_panic", "c18_define", "c18_place", "c18_set", "c18_frame", "c18_wake", "c18_read"},
     C14 |-> {"c14_panic", "c14_centre", "c14_turn", "c14_linear", "c14_angular"}]
Sel == Clauses[PROP]

VARIABLES l, g
\* ok: still judged; gc: constants of gears; gx, gy: gravity
NewGhost(a) == [ok |-> TRUE, gc |-> <<>>, gx |-> a.gx, gy |-> a.gy]

\* joints that alone act on their bodies
Alone(s, k) ==
    LET j == s.J[k] IN
    /\ j.ty # "gear"
    /\ \A o \in DOMAIN s.J : o = k \/ (\A b \in {s.J[o].a, s.J[o].b} \cap {j.a, j.b} : ~Dynamic(s, b))
\* joints judged in a step from s to s2
Worked(s, s2, dt) ==
    {k \in DOMAIN s.J \cap DOMAIN s2.J :
        /\ Alone(s, k)
        /\ \A b \in {s.J[k].a, s.J[k].b} : /\ (Dynamic(s, b) => s2.B[b].aw) /\ Uncut(s2.B[b], dt) /\ Uncut(s.B[b], dt)
        /\ \E b \in {s.J[k].a, s.J[k].b} : Dynamic(s, b)
        \* no torque has piled up against bodies that cannot turn
        /\ FAbs(s.J[k].h.ti) < 4000000 /\ FAbs(s2.J[k].h.ti) < 4000000}

Turns(s, j) == Turnable(s.B[j.a]) \/ Turnable(s.B[j.b])
Rigid(j) == j.x.min_length = j.x.max_length
\* tolerance for velocities, growing with the speeds in play
Speed(s, j) == LET v(b) == FAbs(s.B[b].hv[1]) + FAbs(s.B[b].hv[2]) + FAbs(s.B[b].hv[3]) IN v(j.a) + v(j.b)
TolV(s, s2, j) == 24 + (Speed(s, j) + Speed(s2, j)) \div 1024
Reach(s, j) == LET p == Anchors(s, j) IN One + VLen(Arm(s.B[j.a], p[1])) + VLen(Arm(s.B[j.b], p[2])) + VLen(Gap(s, j))

\* how far a joint is from its constraint
Error(s, j, x) ==
    LET d == Gap(s, j)  h == j.h IN
    IF x = "turn"
    THEN IF Turns(s, j) /\ (j.ty = "prismatic" \/ (j.ty = "weld" /\ j.x.stiffness = 0)) THEN FAbs(Turn(s, j) - h.ref) ELSE 0
    ELSE CASE j.ty \in {"revolute", "weld"} -> VLen(d)
           [] j.ty \in {"prismatic", "wheel"} -> FAbs(VDot(d, Perp(Axis(s, j))))
           [] j.ty = "distance" -> IF h.c < 400 THEN -1 ELSE FMax(0, FMax(j.x.min_length * 64 - h.c, h.c - j.x.max_length * 64))
           [] j.ty = "pulley" -> IF h.c < 8000 \/ h.c2 < 8000 THEN -1 ELSE FAbs(h.c + Q(j.x.ratio * 64, h.c2) - j.x.length_a * 16 - Q(j.x.ratio * 64, j.x.length_b * 16))
           [] OTHER -> 0
Beyond(j) == IF j.x.enable_limit THEN FMax(0, FMax(j.x.lo * 64 - j.h.c, j.h.c - j.x.hi * 64)) ELSE 0
Calm(s, j, dt) == \A b \in {j.a, j.b} : FAbs(Times(s.B[b].hv[3], dt)) < 2000

MotorOk(s, s2, k, rate, lo, hi, dt, tr) ==
    LET j == s.J[k]  mi == s2.J[k].h.mi  max == Times(j.x.max_motor * 64, dt)  ts == 4 + max \div 512 IN
    IF ~j.x.enable_motor THEN FAbs(mi) <= 1
    ELSE /\ FAbs(mi) <= max + ts
         /\ mi < max - ts => (rate >= j.x.motor_speed * 64 - tr \/ (j.x.enable_limit /\ rate >= hi - tr))
         /\ mi > ts - max => (rate <= j.x.motor_speed * 64 + tr \/ (j.x.enable_limit /\ rate <= lo + tr))

Holds(n, gh, pre, e) ==
    LET a == e.a  op == e.op  post == e.s
        step == op = "step"
        dt == IF step THEN a.dt ELSE 0
        run == step /\ dt > 0
        W == IF run THEN Worked(pre, post, dt) ELSE {}
        sure == run /\ a.vi >= 400
        both == DOMAIN pre.J \cap DOMAIN post.J
        U(ty) == {k \in W : pre.J[k].ty = ty}
        near2(x, y, t) == Near(x[1], y[1], t) /\ Near(x[2], y[2], t)
    IN
    CASE n \in {"c17_panic", "c18_panic", "c14_panic"} -> e.r = "ok" \/ (n = "c18_panic") # (op \in {"create_joint", "joint_set"})
      [] e.r # "ok" \/ n = "c17_finite" -> TRUE
      [] n = "c17_still" -> (step /\ dt = 0) => \A b \in DOMAIN post.B : post.B[b].pb = pre.B[b].pb /\ post.B[b].vb = pre.B[b].vb
      [] n = "c17_rigid" ->
            \A k \in W : LET j == pre.J[k]  r == AnchorRate(pre, post, j)  u == Axis(pre, j)  t == TolV(pre, post, j) + Reach(pre, j) \div 2048  d == Gap(pre, j)
                             spin == FAbs(Spin(post, j)) <= t \/ ~Turns(pre, j) IN
               CASE j.ty = "revolute" -> near2(r, <<0, 0>>, t)
                 [] j.ty = "weld" -> near2(r, <<0, 0>>, t) /\ (j.x.stiffness = 0 => spin)
                 [] j.ty = "prismatic" -> FAbs(AxisRate(pre, post, j, Perp(u))) <= t /\ spin
                 [] j.ty = "wheel" -> FAbs(AxisRate(pre, post, j, Perp(u))) <= t
                 [] j.ty = "distance" -> (Rigid(j) /\ VLen(d) > 400) => FAbs(VDot(r, VUnit(d))) <= t
                 [] j.ty = "pulley" ->
                      LET p == Anchors(pre, j)  da == VSub(p[1], j.h.la)  db == VSub(p[2], j.h.lb)
                          va == AtArm(post.B[j.a].hv, Arm(pre.B[j.a], p[1]))  vb == AtArm(post.B[j.b].hv, Arm(pre.B[j.b], p[2]))
                      IN (VLen(da) > 1000 /\ VLen(db) > 1000) =>
                            FAbs(VDot(va, VUnit(da)) + Q(j.x.ratio * 64, VDot(vb, VUnit(db)))) <= t * 2
                 [] OTHER -> TRUE
      [] n = "c17_spring" ->
            \A k \in W : LET j == pre.J[k]  x == j.x  h == post.J[k].h  t == TolV(pre, post, j) IN
               CASE j.ty = "distance" ->
                      LET d == Gap(pre, j)  u == VUnit(d)  c == VLen(d)  r == VDot(AnchorRate(pre, post, j), u)
                          given == IF x.stiffness > 0 THEN Spring(x.stiffness, x.damping, c - x.length * 64, r, dt) ELSE 0
                          lo == LoRate(c, x.min_length * 64, dt)  hi == HiRate(c, x.max_length * 64, dt)
                          ts == 24 + Times(Times(x.stiffness, dt) * 12, 64) + FAbs(given) \div 256
                          tr == t + 131072 \div dt
                      IN (c > 400 /\ x.max_length - x.min_length > 3 /\ sure) => Bounded(r, VDot(h.fi, u), given, lo, hi, tr, ts)
                 [] j.ty = "weld" ->
                      LET w == Spin(post, j)  C == Turn(pre, j) - j.h.ref
                          given == Spring(x.stiffness, x.damping, C, w, dt)
                      IN (x.stiffness > 0 /\ sure /\ Turns(pre, j)) => NearRel(h.ti, given, 12 + Times(x.stiffness, dt), 64)
                 [] j.ty = "wheel" ->
                      LET u == Axis(pre, j)  c == VDot(Gap(pre, j), u)  r == AxisRate(pre, post, j, u)
                          given == IF x.stiffness > 0 THEN Spring(x.stiffness, x.damping, c, r, dt) ELSE 0
                          lo == LoRate(c, x.lo * 64, dt)  hi == HiRate(c, x.hi * 64, dt)
                          ts == 24 + Times(x.stiffness, dt) + FAbs(given) \div 64 + VLen(h.fi) \div 2048  tr == t + 8192 \div dt
                          S == VDot(h.fi, u)
                      IN sure => IF x.enable_limit THEN Bounded(r, S, given, lo, hi, tr, ts) ELSE Near(S, given, ts)
                 [] j.ty = "mouse" ->
                      LET p == Anchors(pre, j)  B == pre.B[j.b]  v == AtArm(post.B[j.b].hv, Arm(B, p[2]))
                          C == VSub(p[2], j.h.la)  max == Times(x.max_force * 64, dt)
                          given(i) == Spring(x.stiffness, x.damping, C[i], v[i], dt)
                      IN /\ VLen(h.fi) <= max + 4 + max \div 256
                         /\ (VLen(h.fi) < max - 4 - max \div 256 /\ x.stiffness + x.damping > 0) =>
                              \A i \in 1..2 : Near(h.fi[i], given(i), 24 + Times(x.stiffness, dt) + (FAbs(given(1)) + FAbs(given(2))) \div 64)
                 [] OTHER -> TRUE
      [] n = "c17_limit" ->
            \* impulses along the axis beyond those of the motor come from a bound that is reached
            \A k \in U("revolute") \cup U("prismatic") :
               LET j == pre.J[k]  x == j.x  h == post.J[k].h  t == TolV(pre, post, j)
                   u == Axis(pre, j)
                   turn == j.ty = "revolute"
                   c == IF turn THEN Turn(pre, j) - j.h.ref ELSE VDot(Gap(pre, j), u)
                   r == IF turn THEN Spin(post, j) ELSE AxisRate(pre, post, j, u)
                   S == IF turn THEN h.ti ELSE VDot(h.fi, u)
                   ts == 12 + (FAbs(S) + FAbs(h.mi)) \div 256 + VLen(h.fi) \div 2048
               IN (sure /\ (turn => Turns(pre, j)) /\ (~turn => Reach(pre, j) < 130000)) =>
                    IF x.enable_limit THEN Bounded(r, S, h.mi, LoRate(c, x.lo * 64, dt), HiRate(c, x.hi * 64, dt), t + 8192 \div dt, ts)
                    ELSE Near(S, h.mi, ts)
      [] n = "c17_motor" ->
            \A k \in U("revolute") \cup U("prismatic") \cup U("wheel") :
               LET j == pre.J[k]  x == j.x  u == Axis(pre, j)  t == TolV(pre, post, j) + 8192 \div dt
                   turn == j.ty = "revolute"
                   c == IF turn THEN Turn(pre, j) - j.h.ref ELSE VDot(Gap(pre, j), u)
                   r == IF j.ty = "prismatic" THEN AxisRate(pre, post, j, u) ELSE Spin(post, j)
                   max == Times(x.max_motor * 64, dt)
               IN /\ FAbs(post.J[k].h.mi) <= (IF x.enable_motor THEN max ELSE 0) + 4 + max \div 512
                  /\ (sure /\ (j.ty = "prismatic" \/ Turns(pre, j))) =>
                        IF j.ty = "wheel" THEN MotorOk([pre EXCEPT !.J[k].x.enable_limit = FALSE], post, k, r, 0, 0, dt, t)
                        ELSE MotorOk(pre, post, k, r, LoRate(c, x.lo * 64, dt), HiRate(c, x.hi * 64, dt), dt, t)
      [] n = "c17_friction" ->
            \A k \in U("friction") :
               LET j == pre.J[k]  h == post.J[k].h  r == AnchorRate(pre, post, j)  w == Spin(post, j)  t == TolV(pre, post, j)
                   mf == Times(j.x.max_force * 64, dt)  mt == Times(j.x.max_torque * 64, dt)
                   tf == 4 + mf \div 256  tt == 4 + mt \div 256
               IN /\ VLen(h.fi) <= mf + tf /\ FAbs(h.ti) <= mt + tt
                  /\ sure => /\ VLen(h.fi) < mf - tf => near2(r, <<0, 0>>, t)
                             /\ VDot(h.fi, r) <= 24 + Q(VLen(h.fi), t)
                  /\ (sure /\ Turns(pre, j)) => /\ FAbs(h.ti) < mt - tt => FAbs(w) <= t
                                                /\ Q(h.ti, w) <= 24 + Q(FAbs(h.ti), t)
      [] n = "c17_follow" ->
            \A k \in U("motor") :
               LET j == pre.J[k]  x == j.x  h == post.J[k].h  t == TolV(pre, post, j)
                   r == AnchorRate(pre, post, j)  w == Spin(post, j)  C == Gap(pre, j)  D == Turn(pre, j) - j.h.ref
                   pull(c) == ((MulSh(x.correction * 64, c, 14) * 16) \div dt) * 64
                   mf == Times(x.max_force * 64, dt)  mt == Times(x.max_torque * 64, dt)
                   tf == 4 + mf \div 256  tt == 4 + mt \div 256
               IN /\ VLen(h.fi) <= mf + tf /\ FAbs(h.ti) <= mt + tt
                  /\ sure => (VLen(h.fi) < mf - tf => near2(r, <<-pull(C[1]), -pull(C[2])>>, t + 1200))
                  /\ (sure /\ Turns(pre, j)) => (FAbs(h.ti) < mt - tt => Near(w, -pull(D), t + 1200))
      [] n = "c17_gear" ->
            \* geared coordinates change together, and keep their sum
            \A k \in DOMAIN gh.gc :
               LET c == gh.gc[k]  j == pre.J[k]  B1 == pre.J[c.g1].b  B2 == pre.J[c.g2].b
                   sum(s) == s.J[c.g1].h.c + Q(s.J[k].x.ratio * 64, s.J[c.g2].h.c) - c.sum
                   \* measured where the step began, as the frames may turn
                   of(q) == LET i == pre.J[q] IN IF i.ty = "prismatic" THEN AxisRate(pre, post, i, Axis(pre, i)) ELSE Spin(post, i)
                   rate == of(c.g1) + Q(j.x.ratio * 64, of(c.g2))
                   fine(b) == post.B[b].aw /\ Turnable(pre.B[b]) /\ Uncut(pre.B[b], dt) /\ Uncut(post.B[b], dt)
                   slow(b) == FAbs(Times(post.B[b].hv[3], dt)) < 1600
               IN (run /\ a.vi >= 2000 /\ {k, c.g1, c.g2} \subseteq both /\ (\A q \in {c.g1, c.g2} : Error(pre, pre.J[q], "gap") <= 90 /\ Error(pre, pre.J[q], "turn") <= 90) /\ ~pre.J[c.g1].x.enable_limit /\ ~pre.J[c.g2].x.enable_limit /\ fine(B1) /\ fine(B2)) =>
                    /\ FAbs(rate) <= TolV(pre, post, j) + 200 + (FAbs(post.J[c.g1].h.s) + FAbs(post.J[c.g2].h.s)) \div 64
                    /\ (c.ratio = j.x.ratio /\ FAbs(sum(pre)) < 300 /\ slow(B1) /\ slow(B2)) => FAbs(sum(post)) < 1000
      [] n = "c17_hold" ->
            sure => \A k \in W : LET j == pre.J[k] IN
               \A x \in {"gap", "turn"} : (Error(pre, j, x) \in 0..90 /\ Calm(post, j, dt)
                                         /\ (j.ty \in {"revolute", "prismatic", "wheel"} => Beyond(j) <= 90)) => Error(post, post.J[k], x) <= 328
      [] n = "c17_settle" ->
            \* an error that is there goes within a step
            (sure /\ a.pi >= 8) => \A k \in W : LET j == pre.J[k] IN
               (/\ \A x \in {"gap", "turn"} : Error(pre, j, x) \in 0..1600
                /\ Calm(post, j, dt)
                /\ (j.ty \in {"revolute", "prismatic", "wheel"} => Beyond(j) <= 1600)) =>
                  /\ \A x \in {"gap", "turn"} : Error(post, post.J[k], x) <= (IF x = "gap" THEN 140 ELSE 620)
                  /\ j.ty \in {"prismatic", "wheel"} => Beyond(post.J[k]) <= (IF j.ty = "wheel" THEN 400 ELSE 164)
      [] n = "c17_range" ->
            (sure /\ a.pi > 0) => \A k \in U("revolute") \cup U("prismatic") \cup U("wheel") : LET j == pre.J[k] IN
               (Beyond(j) = 0 /\ (j.ty = "wheel" => a.pi >= 8) /\ Error(pre, j, "gap") <= 164 /\ Error(pre, j, "turn") <= 164 /\ Calm(post, j, dt) /\ (j.ty = "revolute" => Turns(pre, j))) => Beyond(post.J[k]) <= (IF j.ty = "revolute" THEN 328 ELSE 164)
      [] n = "c17_slack" ->
            \* what is switched off does not push
            \A k \in U("revolute") \cup U("prismatic") \cup U("wheel") :
              LET j == pre.J[k]  h == post.J[k].h
                  still == FAbs(VDot(h.fi, Axis(pre, j))) <= 8 + VLen(h.fi) \div 512 IN
              CASE j.ty = "revolute" -> (~j.x.enable_limit /\ ~j.x.enable_motor) => FAbs(h.ti) <= 2
                [] j.ty = "prismatic" -> (~j.x.enable_limit /\ ~j.x.enable_motor) => still
                [] OTHER -> (~j.x.enable_motor => FAbs(h.ti) <= 2) /\ ((~j.x.enable_limit /\ j.x.stiffness = 0) => still)
      [] n = "c17_reaction" -> \A k \in W : ReactionOk(pre, post, k, gh.gx, gh.gy, dt)
      \* --- C18 -----------------------------------------------------------------
      [] n = "c18_define" ->
            op = "create_joint" =>
              LET j == post.J[a.id]  d == Defined(a, pre, j.x) IN
              /\ j.ty = a.jt /\ j.a = a.a /\ j.b = a.b
              /\ DOMAIN d = Fields(a.jt)
              /\ \A f \in Fields(a.jt) : NearField(f, j.x[f], d[f])
      [] n = "c18_place" ->
            op = "create_joint" =>
              LET j == post.J[a.id]  h == j.h  pt(x, y) == <<x * 64, y * 64>>
                  ua == IF "ax" \in DOMAIN a THEN <<(a.ax * One) \div 5, (a.ay * One) \div 5>> ELSE <<0, 0>>
              IN
              CASE a.jt \in {"distance", "pulley"} -> near2(h.aa, pt(a.x, a.y), 16) /\ near2(h.ab, pt(a.x2, a.y2), 16)
                [] a.jt \in {"revolute", "weld", "friction"} -> near2(h.aa, pt(a.x, a.y), 16) /\ near2(h.ab, pt(a.x, a.y), 16) /\ FAbs(h.c) <= 4
                [] a.jt \in {"prismatic", "wheel"} -> near2(h.aa, pt(a.x, a.y), 16) /\ near2(h.ab, pt(a.x, a.y), 16)
                                                     /\ near2(Axis(post, j), ua, 16) /\ FAbs(h.c) <= 24
                [] a.jt = "mouse" -> near2(h.aa, pt(a.x, a.y), 16) /\ near2(h.ab, pt(a.x, a.y), 16)
                [] OTHER -> TRUE
      [] n = "c18_set" ->
            op = "joint_set" =>
              LET j == pre.J[a.j]  want == SetTo(j.x, a)  x == post.J[a.j].x IN
              \A f \in Fields(j.ty) \cup Fixed(j.ty) : IF want[f] = j.x[f] THEN x[f] = j.x[f] ELSE NearField(f, x[f], want[f])
      [] n = "c18_frame" ->
            \A k \in both : LET j == pre.J[k]  x == post.J[k].x  y == j.x
                                shifted == op = "shift_origin" IN
              /\ post.J[k].a = j.a /\ post.J[k].b = j.b /\ post.J[k].ty = j.ty
              /\ (op # "joint_set" \/ a.j # k) =>
                    \A f \in Fields(j.ty) \cup Fixed(j.ty) :
                       IF shifted /\ f \in {"target", "ga", "gb"} THEN near2(x[f], <<y[f][1] - 4 * a.x, y[f][2] - 4 * a.y>>, 1)
                       ELSE x[f] = y[f]
              /\ (op = "joint_set" /\ a.j = k) => \A f \in Fixed(j.ty) : x[f] = y[f]
      [] n = "c18_wake" ->
            op = "joint_set" =>
              \A b \in DOMAIN pre.B : post.B[b].aw = (pre.B[b].aw \/ (b \in Woken(pre.J[a.j], a) /\ pre.B[b].ty # 0))
      [] n = "c18_read" -> \A k \in DOMAIN post.J : ReadingsOk(post, post.J[k])
      \* --- C14 -----------------------------------------------------------------
      [] n = "c14_linear" -> (run /\ Closed(pre, post, dt) /\ ~\E k \in both : pre.J[k].ty \in {"mouse", "pulley"}) =>
            \A i \in 1..2 : FAbs(Total(pre.B, LAMBDA b : Gain(pre, post, gh.gx, gh.gy, b, i, dt))) <= 40 + Total(pre.B, LAMBDA b : Slack(pre, post, b)) 
      [] n = "c14_centre" -> (run /\ Closed(pre, post, dt) /\ ~\E k \in both : pre.J[k].ty = "pulley") => Centred(pre, post, dt)
      [] n = "c14_turn" -> (run /\ Closed(pre, post, dt) /\ ~\E k \in both : pre.J[k].ty \in {"pulley", "gear"}) =>
            Unturned(pre, post, dt, Total(pre.J, LAMBDA k : IF pre.J[k].ty \in {"revolute", "weld"} THEN VLen(Gap(pre, pre.J[k])) + VLen(Gap(post, post.J[k])) ELSE 0))
      [] n = "c14_angular" -> (run /\ Closed(pre, post, dt) /\ (\A b \in DOMAIN pre.B : Turnable(pre.B[b])) /\ ~\E k \in both : pre.J[k].ty \in {"mouse", "pulley", "gear", "friction", "motor"}) =>
            LET turn(b) == VCross(pre.B[b].wc, <<Gain(pre, post, gh.gx, gh.gy, b, 1, dt), Gain(pre, post, gh.gx, gh.gy, b, 2, dt)>>) + Gain(pre, post, gh.gx, gh.gy, b, 3, dt)
                leak(k) == IF pre.J[k].ty \in {"revolute", "weld"} THEN Q(VLen(Gap(pre, pre.J[k])), VLen(post.J[k].h.fi)) ELSE 0
            IN FAbs(Total(pre.B, turn)) <= 60 + Total(pre.J, leak) + Total(pre.B, LAMBDA b : Slack(pre, post, b) + Q(VLen(pre.B[b].wc), Slack(pre, post, b)))
      [] OTHER -> Assert(FALSE, <<"unknown clause", n>>)

---------------------------------------------------------------------------
GhostAfter(gh, pre, e) ==
    IF e.op = "create_joint" /\ e.a.jt = "gear"
    THEN LET J == e.s.J  r == J[e.a.id].x.ratio IN
         [gh EXCEPT !.gc = (e.a.id :> [g1 |-> e.a.g1, g2 |-> e.a.g2, ratio |-> r,
                                       sum |-> J[e.a.g1].h.c + Q(r * 64, J[e.a.g2].h.c)]) @@ gh.gc]
    ELSE IF e.op = "destroy_joint" /\ e.a.j \in DOMAIN gh.gc
    THEN [gh EXCEPT !.gc = [k \in DOMAIN gh.gc \ {e.a.j} |-> gh.gc[k]]]
    ELSE gh
Init == TLCSet(1, 0) /\ l = 1 /\ g = NewGhost(Tr[1].a)

Next ==
    /\ l < Len(Tr)
    /\ LET e == Tr[l + 1]  pre == Tr[l].s IN
       IF e.op = "New"
       THEN l' = l + 1 /\ g' = NewGhost(e.a)
       ELSE IF ~g.ok
       THEN l' = l + 1 /\ g' = g
       ELSE LET bad == IF e.r = "ok" /\ ~Sane(e.s) THEN IF Finite(e.s) THEN {} ELSE Sel \cap {"c17_finite"}
                       ELSE {n \in Sel : ~Holds(n, g, pre, e)} IN
            /\ IF bad = {} THEN TRUE ELSE PrintT(<<"VIOL", l + 1, bad>>) /\ TLCSet(1, TLCGet(1) + 1)
            /\ l' = l + 1
            /\ g' = IF bad # {} \/ e.r # "ok" \/ ~Sane(e.s) THEN [g EXCEPT !.ok = FALSE] ELSE GhostAfter(g, pre, e)

Spec == Init /\ [][Next]_<<l, g>>
Accepted == TLCGet("stats").diameter = Len(Tr) /\ TLCGet(1) = 0
=============================================================================
