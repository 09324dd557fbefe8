------------------------------ MODULE TraceGeo ------------------------------
(* Shapes (C21), pairs of shapes (C22: distance, overlap, cast, time of      *)
(* impact; C23: manifolds) judged against exact geometry. The state is what  *)
(* the shapes A and B are: the definition given last (ghost) and the         *)
(* description read back (s).                                                *)
EXTENDS Ray, Convex, Motion, TLC, Json, IOUtils

Tr == ndJsonDeserialize(IOEnv.TRACE)
Clauses ==
  [C21 |-> {"c21_panic", "c21_make", "c21_hull", "c21_kids", "c21_centre", "c21_point", "c21_ray", "c21_box", "c21_mass", "c21_boxes", "c21_same"},
   C22 |-> {"c22_panic", "c22_dist", "c22_witness", "c22_overlap", "c22_cast", "c22_toi"},
   C23 |-> {"c23_panic", "c23_count", "c23_empty", "c23_apart", "c23_normal", "c23_points", "c23_depth", "c23_ids", "c23_features", "c23_same", "c23_states", "c23_sym", "c23_onesided", "c23_clip"}]
Sel == Clauses[IOEnv.PROP]
VARIABLES l, g     \* g: [ok, def: definition per slot, ids: of the last manifold, n: its points]

Pairs(v) == {v[i] : i \in DOMAIN v}
NearP(p, q, t) == Near(p[1], q[1], t) /\ Near(p[2], q[2], t)
Tick(x) == x \div 8                       \* radius read back (1/16384) in units
Unit14(e) == LET k == 20000 \div Max2(1, Max2(Abs(e[1]), Abs(e[2])))  L == Hypot(k * e[1], k * e[2]) IN <<DivSh(k * e[1], L, 14), DivSh(k * e[2], L, 14)>>
Out14(v, i) == Unit14(<<Nxt(v, i)[2] - v[i][2], v[i][1] - Nxt(v, i)[1]>>)   \* outward normal of face i

---------------------------------------------------------------------------
(* C21 *)
IsPoly(sh) == sh.k \in {"p", "b", "a"}
IsChain(sh) == sh.k \in {"n", "l"}
ChainPts(sh) == IF sh.k = "l" THEN Append(sh.v, sh.v[1]) ELSE sh.v

Corners(sh) ==   \* of a box, exact or turned
    LET c == << <<-sh.hx, -sh.hy>>, <<sh.hx, -sh.hy>>, <<sh.hx, sh.hy>>, <<-sh.hx, sh.hy>> >> IN
    IF sh.k = "b" THEN c
    ELSE [i \in 1..4 |-> LET w == Rot(<<Cos(sh.ang), Sin(sh.ang)>>, <<c[i][1] * 4, c[i][2] * 4>>) IN <<sh.x + w[1] \div 4, sh.y + w[2] \div 4>>]

MadeOk(sh, d) ==
    CASE sh.k = "c" -> d.k = 0 /\ d.ty = 0 /\ d.n = 1 /\ d.kids[1].v = << <<sh.x, sh.y>> >> /\ d.r8 = 8 * sh.r
      [] sh.k = "e" -> d.k = 1 /\ d.ty = 1 /\ d.n = 1 /\ d.kids[1].v = sh.v /\ ~d.kids[1].os /\ d.r8 = 164
      [] sh.k = "o" -> d.k = 1 /\ d.n = 1 /\ d.kids[1].v = <<sh.v[2], sh.v[3]>> /\ d.kids[1].gh = <<sh.v[1], sh.v[4]>> /\ d.kids[1].os /\ d.r8 = 164
      [] IsPoly(sh) -> d.k = 2 /\ d.ty = 2 /\ d.n = 1 /\ d.r8 = 164 /\ d.valid
      [] OTHER -> d.k = 3 /\ d.ty = 3 /\ d.r8 = 164

HullOk(sh, d) ==
    IsPoly(sh) =>
      LET v == d.kids[1].v  nm == d.kids[1].nm IN
      /\ Len(nm) = Len(v)
      /\ \A i \in DOMAIN v : NearP(nm[i], Out14(v, i), IF sh.k = "a" THEN 40 + 32768 \div Len2D(v[i], Nxt(v, i)) ELSE 24)
      /\ IF sh.k = "p" THEN IsHull(v, sh.v, 0)
         ELSE Len(v) = 4 /\ \E r \in 0..3 : \A i \in 1..4 : NearP(v[i], Corners(sh)[((i + r - 1) % 4) + 1], IF sh.k = "b" THEN 0 ELSE 2)

KidsOk(sh, d) ==
    IsChain(sh) =>
      LET p == ChainPts(sh)  n == Len(p) - 1 IN
      /\ d.n = n
      /\ \A i \in 1..n : LET k == d.kids[i] IN
           /\ k.os /\ k.v = <<p[i], p[i + 1]>>
           /\ k.gh[1] = (IF i > 1 THEN p[i - 1] ELSE IF sh.k = "l" THEN p[n] ELSE sh.prev)
           /\ k.gh[2] = (IF i < n THEN p[i + 2] ELSE IF sh.k = "l" THEN p[2] ELSE sh.next)

Eighth(v) == [i \in DOMAIN v |-> <<v[i][1] \div 8, v[i][2] \div 8>>]
\* mass per density de of a shape in the frame of Motion
MassOf(sh, d, de) ==
    IF sh.k = "c" THEN ShapeMass([k |-> "c", r |-> sh.r \div 8, x |-> sh.x \div 8, y |-> sh.y \div 8], de)
    ELSE IF sh.k = "p" \/ sh.k = "b" THEN ShapeMass([k |-> "p", v |-> Eighth(d.kids[1].v)], de)
    ELSE IF sh.k = "a" THEN
         LET b == ShapeMass([k |-> "b", x |-> 0, y |-> 0, hx |-> sh.hx \div 8, hy |-> sh.hy \div 8], de)
             x == sh.x * 8  y == sh.y * 8
         IN  [m |-> b.m, x |-> MulSh(b.m, x, 14), y |-> MulSh(b.m, y, 14), i |-> b.i + MulSh(b.m, Q(x, x) + Q(y, y), 14)]
    ELSE NoMass
CentreOf(sh, d) == LET t == MassOf(sh, d, 256) IN <<DivSh(t.x, t.m, 14), DivSh(t.y, t.m, 14)>>

CentreOk(sh, d) == IsPoly(sh) => LET c == CentreOf(sh, d) IN NearP(<<8 * d.cen[1], 8 * d.cen[2]>>, c, 24)

MassOk(sh, d, a, ret) ==
    LET t == MassOf(sh, d, a.de) IN
    /\ NearRel(ret.m, t.m, 64, 4096)
    /\ NearRel(ret.i, t.i, 96, 2048)
    /\ CASE sh.k = "c" -> NearP(ret.c, <<8 * sh.x, 8 * sh.y>>, 2)
         [] sh.k \in {"e", "o"} -> LET v == d.kids[1].v IN NearP(ret.c, <<4 * (v[1][1] + v[2][1]), 4 * (v[1][2] + v[2][2])>>, 2)
         [] IsPoly(sh) -> NearP(ret.c, CentreOf(sh, d), 24)
         [] OTHER -> ret.c = <<0, 0>>

Child(d, i, x) ==   \* placed child for Ray
    [k |-> d.k, os |-> d.kids[i].os, v |-> Placed(x, d.kids[i].v), r |-> Tick(d.r8)]

RayOk(d, a, ret) ==
    LET ch == Child(d, a.ca + 1, a.xa)
        p == <<a.x1, a.y1>>  dir == <<a.x2 - a.x1, a.y2 - a.y1>>
        L == Len2(dir)
        t == SureHit(ch, p, dir)
        slack == 4 + (16384 * 24) \div L
    IN  /\ ret.hit => /\ ret.f >= 0 /\ ret.f <= a.mf + 1
                      /\ RealHit(ch, p, dir, Along(p, dir, ret.f), ret.n)
        /\ (t >= 0 /\ t + slack < a.mf) => ret.hit
        /\ (t >= 0 /\ ret.hit /\ ch.k # 2) => ret.f <= t + slack

BoxOk(d, a, ret) ==
    LET b == Box(Placed(a.xa, d.kids[a.ca + 1].v))  r == d.r8 IN
    /\ Near(8 * ret.b[1], 8 * b.lx - r, 12) /\ Near(8 * ret.b[2], 8 * b.ly - r, 12)
    /\ Near(8 * ret.b[3], 8 * b.ux + r, 12) /\ Near(8 * ret.b[4], 8 * b.uy + r, 12)

BoxesOk(a, ret) ==
    LET p == a.p  q == a.q
        mn(x, y) == IF x < y THEN x ELSE y
        mx(x, y) == IF x > y THEN x ELSE y
        u == <<mn(p[1], q[1]), mn(p[2], q[2]), mx(p[3], q[3]), mx(p[4], q[4])>>
        \* entry and exit of the ray in the box, per axis, as fractions 2^14
        o == <<a.x1, a.y1>>  e == <<a.x2 - a.x1, a.y2 - a.y1>>
        lo(i) == IF e[i] = 0 THEN -65536 ELSE Frac((IF e[i] > 0 THEN p[i] ELSE p[i + 2]) - o[i], e[i])
        hi(i) == IF e[i] = 0 THEN 65536 ELSE Frac((IF e[i] > 0 THEN p[i + 2] ELSE p[i]) - o[i], e[i])
        within(i) == e[i] # 0 \/ (p[i] <= o[i] /\ o[i] <= p[i + 2])
        t0 == mx(lo(1), lo(2))  t1 == mn(hi(1), hi(2))
        ax == IF lo(1) > lo(2) THEN 1 ELSE 2
        ok(m) == within(1) /\ within(2) /\ t0 + m <= t1 /\ t0 >= m /\ t0 + m <= a.mf
    IN  /\ ret.valid
        /\ NearP(ret.cen, <<(p[1] + p[3]) \div 2, (p[2] + p[4]) \div 2>>, 1)
        /\ NearP(ret.ext, <<(p[3] - p[1]) \div 2, (p[4] - p[2]) \div 2>>, 1)
        /\ ret.per = 2 * ((p[3] - p[1]) + (p[4] - p[2]))
        /\ ret.comb = u /\ ret.comb2 = u
        /\ ret.cont <=> (p[1] <= q[1] /\ p[2] <= q[2] /\ q[3] <= p[3] /\ q[4] <= p[4])
        /\ ret.meet <=> (p[1] <= q[3] /\ q[1] <= p[3] /\ p[2] <= q[4] /\ q[2] <= p[4])
        /\ ok(8) => ret.hit
        /\ ret.hit => /\ ok(-8) /\ Near(ret.f, t0, 8)
                      /\ (Abs(lo(1) - lo(2)) > 16 /\ p[1] < p[3] /\ p[2] < p[4]) => ret.n = [i \in 1..2 |-> IF i = ax THEN (IF e[i] > 0 THEN -16384 ELSE 16384) ELSE 0]

---------------------------------------------------------------------------
(* C22 *)
Core(s, slot, child, x) == Placed(x, s[slot].kids[child + 1].v)
RSum(s) == (s.A.r8 + s.B.r8 + 4) \div 8

DistOk(s, a, ret) ==
    LET D == Dist(Core(s, "A", a.ca, a.xa), Core(s, "B", a.cb, a.xb))
        want == IF a.rad THEN Max2(0, D - RSum(s)) ELSE D
    IN  Near(ret.d, want, 3)

WitnessOk(s, a, ret) ==
    LET A == Core(s, "A", a.ca, a.xa)  B == Core(s, "B", a.cb, a.xb)
        ra == IF a.rad THEN Tick(s.A.r8) ELSE 0
        rb == IF a.rad THEN Tick(s.B.r8) ELSE 0
    IN  /\ ret.d > 0 => PtDist(ret.pa, A) <= ra + 4 /\ PtDist(ret.pb, B) <= rb + 4    \* met halfway when the skins overlap
        /\ Near(Len2D(ret.pa, ret.pb), ret.d, 4)
        /\ ret.it <= 20
        /\ ~a.rad => PtDist(ret.pa, A) <= 4 /\ PtDist(ret.pb, B) <= 4

OverlapOk(s, a, ret) ==
    LET D == Dist(Core(s, "A", a.ca, a.xa), Core(s, "B", a.cb, a.xb)) IN
    (D < RSum(s) - 2 => ret.y) /\ (D > RSum(s) + 2 => ~ret.y)

Skin == 21      \* polygon skin radius 0.01 m (20.48)
Sigma(s) == LET R == (Max2(s.A.r8, 164) + Max2(s.B.r8, 164)) \div 8 IN Max2(Skin, R - Skin)

CastOk(s, a, ret) ==
    LET A == Core(s, "A", a.ca, a.xa)  B == Core(s, "B", a.cb, a.xb)
        at(f) == Dist(A, Shifted(B, MulSh(a.tx, f, 14), MulSh(a.ty, f, 14)))
        sg == Sigma(s)
        start == at(0)
    IN  IF ret.hit
        THEN LET d == at(ret.f) IN
             /\ ret.f >= 0 /\ ret.f <= 16384
             /\ ret.f > 0 => d >= sg - 4      \* shapes that overlap from the start may be reported at 0
             /\ d <= sg + 10
             /\ ret.f > 0 => Near(Hypot(ret.n[1], ret.n[2]), 16384, 64)
             /\ ret.f > 0 => Near(PtDist(ret.p, A), Max2(s.A.r8, 164) \div 8, 14)
             /\ ret.f > 0 => \A k \in 1..7 : at((k * ret.f) \div 8) >= sg - 4
        ELSE start <= sg + 10 \/ \A k \in 1..16 : at(1024 * k) >= sg - 4

Target(s) == LET R == (s.A.r8 + s.B.r8) \div 8 IN Max2(10, R - 31)

ToiOk(s, a, ret) ==
    LET va == s.A.kids[a.ca + 1].v  vb == s.B.kids[a.cb + 1].v
        at(t) == Dist(Swept(a.sa, va, t), Swept(a.sb, vb, t))
        tg == Target(s)
        turns == a.sa.a0 # a.sa.a1 \/ a.sb.a0 # a.sb.a1
        clear(t) == at(t) >= tg - 7
    IN  CASE ret.st = "touching" ->
               /\ ret.t >= 0 /\ ret.t <= a.tm + 1
               /\ at(ret.t) <= tg + 8
               /\ ret.t > 0 => clear(ret.t)
               /\ (ret.t > 0 /\ ~turns) => \A k \in 0..7 : clear((k * ret.t) \div 8)
               /\ ret.t > 0 => at(0) > tg - 7
          [] ret.st = "separated" ->
               /\ Near(ret.t, a.tm, 1)
               /\ clear(a.tm)
               /\ ~turns => \A k \in 0..11 : clear((k * a.tm) \div 12)
          [] ret.st = "overlapped" -> ret.t = 0 /\ at(0) <= 2
          [] ret.st = "failed" -> turns
          [] OTHER -> FALSE

---------------------------------------------------------------------------
(* C23 *)
Manifold(s, a, m) ==   \* the geometry of one manifold event
    LET A == Core(s, "A", a.ca, a.xa)  B == Core(s, "B", 0, a.xb) IN
    [A |-> A, B |-> B, R |-> RSum(s), ra |-> Tick(s.A.r8), rb |-> Tick(s.B.r8), D |-> Dist(A, B),
     round |-> s.B.k = 0, ka |-> s.A.k,
     sat |-> IF s.B.k = 0 THEN (IF Len(A) = 1 THEN 0 ELSE FacesSep(A, B)) ELSE IF s.A.k = 0 THEN 0 ELSE Max2(FacesSep(A, B), FacesSep(B, A))]

One1(s, a) == s.A.kids[a.ca + 1].os
Neg(n) == <<-n[1], -n[2]>>

\* the normals a one-sided edge p..q may push a polygon along: those between its
\* own and, where the corner is convex, that of the neighbour (a tenth beyond)
Gauss(p, q, gh, n, tol) ==
    LET e == Unit14(<<q[1] - p[1], q[2] - p[2]>>)
        e0 == Unit14(<<p[1] - gh[1][1], p[2] - gh[1][2]>>)
        e2 == Unit14(<<gh[2][1] - q[1], gh[2][2] - q[2]>>)
        crs(u, w) == Q(u[1], w[2]) - Q(u[2], w[1])
        dot(u, w) == Q(u[1], w[1]) + Q(u[2], w[2])
        right(u) == <<u[2], -u[1]>>
        side == dot(n, e)
    IN  IF side < -tol THEN crs(e0, e) >= -tol /\ crs(n, right(e0)) <= 1638 + tol
        ELSE IF side > tol THEN crs(e, e2) >= -tol /\ crs(right(e2), n) <= 1638 + tol
        ELSE TRUE
\* certainly one of them
GaussIn(p, q, gh, n) ==
    LET e == Unit14(<<q[1] - p[1], q[2] - p[2]>>)
        e0 == Unit14(<<p[1] - gh[1][1], p[2] - gh[1][2]>>)
        e2 == Unit14(<<gh[2][1] - q[1], gh[2][2] - q[2]>>)
        crs(u, w) == Q(u[1], w[2]) - Q(u[2], w[1])
        right(u) == <<u[2], -u[1]>>
    IN  /\ crs(e0, e) > 100 /\ crs(e, e2) > 100
        /\ crs(n, right(e0)) <= 1500 /\ crs(right(e2), n) <= 1500

\* a one-sided edge leaves to its neighbours what is in front of them
OneSidedEmptyOk(s, a, m) ==
    LET k == s.A.kids[a.ca + 1]
        x == Manifold(s, a, m)
        p == x.A[1]  q == x.A[2]
        e == <<q[1] - p[1], q[2] - p[2]>>
        gh == Placed(a.xa, k.gh)
        c == IF x.round THEN x.B[1] ELSE Placed(a.xb, <<s.B.cen>>)[1]
        over(u, w) == OverLen(Cross(u[1], u[2], -w[2], w[1]), w[1], w[2])      \* extent of u along w
        off == OverLen(Cross(c[1] - p[1], c[2] - p[2], e[1], e[2]), e[1], e[2])
        first == /\ over(<<c[1] - p[1], c[2] - p[2]>>, e) <= 4
                 /\ over(<<c[1] - p[1], c[2] - p[2]>>, <<p[1] - gh[1][1], p[2] - gh[1][2]>>) <= 4
        last == /\ over(<<c[1] - q[1], c[2] - q[2]>>, e) >= -4
                /\ over(<<c[1] - q[1], c[2] - q[2]>>, <<gh[2][1] - q[1], gh[2][2] - q[2]>>) >= -4
        front == FaceSep(x.A, 1, x.B)
    IN  \/ off <= 4
        \/ IF x.round THEN x.D >= x.R - 3 \/ first \/ last
           ELSE LET backs == FaceSep(x.A, 2, x.B)
                    faces == FacesSep(x.B, x.A)
                    best == {i \in DOMAIN x.B : FaceSep(x.B, i, x.A) >= faces - 4}
                IN  /\ front < Max2(backs, faces) + 4 \/ front >= -40
                    /\ \/ faces < Max2(front, backs) + 4 + (FAbs(front - x.R) \div 30)
                       \/ faces >= -40
                       \/ \E i \in best : ~GaussIn(p, q, gh, Neg(Out14(x.B, i)))

EmptyOk(s, a, m) ==
    (m.n = 0) =>
      LET x == Manifold(s, a, m) IN
      IF One1(s, a) THEN OneSidedEmptyOk(s, a, m)
      ELSE IF x.round THEN x.D >= x.R - 3
      ELSE x.sat >= (IF s.A.k = 2 THEN -4 ELSE -40) 

ApartOk(s, a, m) ==
    m.n > 0 => LET x == Manifold(s, a, m) IN IF x.round THEN x.D <= x.R + 3 ELSE x.D <= x.R + x.R \div 2 + 3

CountOk(s, m) ==
    /\ m.n \in 0..2 /\ (s.B.k = 0 => m.n <= 1)
    /\ m.n > 0 => Near(Hypot(m.nrm[1], m.nrm[2]), 16384, 32)
    /\ \A i \in 1..m.n : m.sep[i] <= 2

\* the normal is a direction of least penetration
NormalOk(s, a, m) ==
    (m.n > 0) =>
      LET x == Manifold(s, a, m)
          A == x.A  B == x.B
          tol == IF s.A.k = 2 THEN 4 ELSE 5 + Abs(x.sat - x.R) \div 40
          faceA == \E i \in DOMAIN A : NearP(m.nrm, Out14(A, i), 60) /\ FaceSep(A, i, B) >= x.sat - tol
          faceB == \E i \in DOMAIN B : NearP(m.nrm, Neg(Out14(B, i)), 60) /\ FaceSep(B, i, A) >= x.sat - tol
      IN  IF ~x.round THEN (One1(s, a) \/ (Len(A) > 1 /\ faceA) \/ faceB)
          ELSE IF x.D > 40
          THEN \* from the closest point of A towards the centre
               LET c == B[1]
                   q == <<c[1] - MulSh(m.nrm[1], x.D, 14), c[2] - MulSh(m.nrm[2], x.D, 14)>>
               IN  PtDist(q, A) <= 4
          ELSE Len(A) > 2 /\ x.sat < -2 => faceA

PointsOk(s, a, m) ==
    \A i \in 1..m.n :
      LET x == Manifold(s, a, m)
          h(k) == MulSh(m.nrm[k], m.sep[i], 14) \div 2
          ca == <<m.pt[i][1] - h(1), m.pt[i][2] - h(2)>>
          cb == <<m.pt[i][1] + h(1), m.pt[i][2] + h(2)>>
          ext == IF x.round THEN 0 ELSE x.R
      IN  /\ PtDist(ca, x.A) <= x.ra + ext + 4
          /\ PtDist(cb, x.B) <= x.rb + ext + 4

\* the deepest point is found with its true depth
DepthOk(s, a, m) ==
    m.n > 0 =>
      LET x == Manifold(s, a, m)
          deepest == SetMin({m.sep[i] : i \in 1..m.n})
          along(v, n) == {Q(w[1], n[1]) + Q(w[2], n[2]) : w \in Pairs(v)}
          pen == SetMin(along(x.B, m.nrm)) - SetMax(along(x.A, m.nrm)) - x.R
      IN  IF x.round
          THEN (x.D > 4 => Near(m.sep[1], x.D - x.R, 4)) /\ ((x.D <= 0 /\ Len(x.A) > 2 /\ x.sat < -2) => Near(m.sep[1], x.sat - x.R, 4))
          ELSE deepest >= pen - 4

IdsOk(s, m) == (m.n = 2 /\ s.A.k = 2) => m.id[1] # m.id[2]

\* an id names a vertex of one polygon and a face of the other; the point lies where that vertex is
EdgeCircleIdOk(s, a, m) ==   \* first end, second end or face of the edge
    LET x == Manifold(s, a, m)  p == x.A[1]  c == x.B[1]
        e == <<x.A[2][1] - p[1], x.A[2][2] - p[2]>>
        al == OverLen((c[1] - p[1]) * e[1] + (c[2] - p[2]) * e[2], e[1], e[2])
        L == Hypot(e[1], e[2])
    IN  /\ al < -4 => m.id[1] = <<0, 0, 0, 0>>
        /\ al > L + 4 => m.id[1] = <<1, 0, 0, 0>>
        /\ (al > 4 /\ al < L - 4) => m.id[1] = <<0, 0, 1, 0>>
FeaturesOk(s, a, m) ==
    IF s.B.k = 0 THEN (m.n > 0 /\ s.A.k \in {1, 3}) => EdgeCircleIdOk(s, a, m) ELSE
    (m.n > 0 /\ s.A.k = 2 /\ s.B.k = 2) =>
      LET x == Manifold(s, a, m)
          t == <<-m.nrm[2], m.nrm[1]>>
          beside(p, v) == Abs(Q(p[1] - v[1], t[1]) + Q(p[2] - v[2], t[2])) <= x.R + 6
      IN  \A i \in 1..m.n : LET id == m.id[i] IN
          /\ {id[3], id[4]} = {0, 1} /\ id[1] < Len(x.A) /\ id[2] < Len(x.B)
          /\ IF id[3] = 0 THEN beside(m.pt[i], x.A[id[1] + 1]) ELSE beside(m.pt[i], x.B[id[2] + 1])

\* moving both shapes together keeps the contact and its ids
SameOk(gh, a, m) == (a.same /\ gh.n >= 0 /\ \A i \in 1..gh.n : gh.sep[i] < -6) => (m.n >= gh.n /\ \A i \in 1..gh.n : \E k \in 1..m.n : m.id[k] = gh.ids[i])

StatesOk(gh, ret) ==
    LET m == ret.m
        old == IF gh.n < 0 THEN 0 ELSE gh.n
        inNew(id) == \E k \in 1..m.n : m.id[k] = id
        inOld(id) == \E k \in 1..old : gh.ids[k] = id
    IN  /\ \A i \in 1..2 : ret.s1[i] = (IF i > old THEN "null" ELSE IF inNew(gh.ids[i]) THEN "persist" ELSE "remove")
        /\ \A i \in 1..2 : ret.s2[i] = (IF i > m.n THEN "null" ELSE IF inOld(m.id[i]) THEN "persist" ELSE "add")

SymOk(ret) ==
    ret.back.n >= 0 =>
      LET deep(m) == SetMin({m.sep[i] : i \in 1..m.n}) IN
      /\ (ret.m.n > 0 /\ deep(ret.m) < -6) => ret.back.n > 0
      /\ (ret.back.n > 0 /\ deep(ret.back) < -6) => ret.m.n > 0
      /\ (ret.m.n > 0 /\ ret.back.n > 0 /\ NearP(ret.m.nrm, Neg(ret.back.nrm), 60)) => Near(deep(ret.m), deep(ret.back), 4)
      /\ (ret.m.n > 0 /\ ret.back.n > 0) => Near(deep(ret.m), deep(ret.back), 40)

OneSidedOk(s, a, m) ==
    LET k == s.A.kids[a.ca + 1] IN
    (m.n > 0 /\ k.os) =>
      LET x == Manifold(s, a, m)
          p == x.A[1]  q == x.A[2]
          e == <<q[1] - p[1], q[2] - p[2]>>
          front == Unit14(<<e[2], -e[1]>>)
          c == IF x.round THEN x.B[1] ELSE Placed(a.xb, <<s.B.cen>>)[1]
          off == OverLen(Cross(c[1] - p[1], c[2] - p[2], e[1], e[2]), e[1], e[2])
          gh == Placed(a.xa, k.gh)
          flat == /\ Cross(p[1] - gh[1][1], p[2] - gh[1][2], e[1], e[2]) = 0 /\ Cross(gh[2][1] - q[1], gh[2][2] - q[2], e[1], e[2]) = 0
                  /\ (p[1] - gh[1][1]) * e[1] + (p[2] - gh[1][2]) * e[2] > 0 /\ (gh[2][1] - q[1]) * e[1] + (gh[2][2] - q[2]) * e[2] > 0
      IN  /\ off >= -3
          /\ x.round \/ Gauss(p, q, gh, m.nrm, 80)
          /\ (flat /\ FaceSep(x.A, 1, x.B) > FaceSep(x.A, 2, x.B) + 4) => Q(m.nrm[1], front[1]) + Q(m.nrm[2], front[2]) >= (IF x.round THEN 16300 ELSE 16200)

ClipOk(a, ret) ==
    LET d(p) == (a.nx * p[1] + a.ny * p[2]) - 5 * a.off       \* five times the distance
        d1 == d(a.v[1])  d2 == d(a.v[2])
        in(x) == x < 0
    IN  /\ \A i \in 1..ret.n : d(ret.v[i]) <= 8 /\ PtSeg(ret.v[i], a.v[1], a.v[2]) <= 2
        /\ (d1 < 0 /\ d2 < 0) => Pairs(ret.v) = Pairs(a.v)
        /\ (d1 > 0 /\ d2 > 0) => ret.n = 0
        /\ (d1 < 0 /\ d2 > 0) => ret.n = 2 /\ (\E i \in 1..2 : ret.v[i] = a.v[1]) /\ (\E i \in 1..2 : Abs(d(ret.v[i])) <= 8)
        /\ (d1 > 0 /\ d2 < 0) => ret.n = 2 /\ (\E i \in 1..2 : ret.v[i] = a.v[2]) /\ (\E i \in 1..2 : Abs(d(ret.v[i])) <= 8)

---------------------------------------------------------------------------
Holds(n, gh, pre, e) ==
    LET a == e.a  s == e.s  is(op) == e.op = op IN
    CASE n \in {"c21_panic", "c22_panic", "c23_panic"} -> e.r = "ok"
      [] n = "c21_make" -> is("make") => MadeOk(a.sh, s[a.slot])
      [] n = "c21_hull" -> is("make") => HullOk(a.sh, s[a.slot])
      [] n = "c21_kids" -> is("make") => KidsOk(a.sh, s[a.slot])
      [] n = "c21_centre" -> is("make") => CentreOk(a.sh, s[a.slot])
      [] n = "c21_point" -> is("test_point") =>
            LET d == s.A  ps == {Inside3(Child(d, i, a.xa), <<a.x, a.y>>) : i \in 1..d.n} IN
            ("yes" \in ps => e.ret.in) /\ (ps = {"no"} => ~e.ret.in)
      [] n = "c21_ray" -> is("ray") => RayOk(s.A, a, e.ret)
      [] n = "c21_box" -> is("aabb") => BoxOk(s.A, a, e.ret)
      [] n = "c21_mass" -> is("mass") => MassOk(gh.def.A, s.A, a, e.ret)
      [] n = "c21_boxes" -> is("boxes") => BoxesOk(a, e.ret)
      [] n = "c21_same" -> ~is("make") => s = pre
      [] n = "c22_dist" -> is("dist") => DistOk(s, a, e.ret)
      [] n = "c22_witness" -> is("dist") => WitnessOk(s, a, e.ret)
      [] n = "c22_overlap" -> is("overlap") => OverlapOk(s, a, e.ret)
      [] n = "c22_cast" -> is("cast") => CastOk(s, a, e.ret)
      [] n = "c22_toi" -> is("toi") => ToiOk(s, a, e.ret)
      [] n = "c23_clip" -> is("clip") => ClipOk(a, e.ret)
      [] n = "c23_count" -> is("manifold") => CountOk(s, e.ret.m)
      [] n = "c23_empty" -> is("manifold") => EmptyOk(s, a, e.ret.m)
      [] n = "c23_apart" -> is("manifold") => ApartOk(s, a, e.ret.m)
      [] n = "c23_normal" -> is("manifold") => NormalOk(s, a, e.ret.m)
      [] n = "c23_points" -> is("manifold") => PointsOk(s, a, e.ret.m)
      [] n = "c23_depth" -> is("manifold") => DepthOk(s, a, e.ret.m)
      [] n = "c23_ids" -> is("manifold") => IdsOk(s, e.ret.m)
      [] n = "c23_features" -> is("manifold") => FeaturesOk(s, a, e.ret.m)
      [] n = "c23_same" -> is("manifold") => SameOk(gh, a, e.ret.m)
      [] n = "c23_states" -> is("manifold") => StatesOk(gh, e.ret)
      [] n = "c23_sym" -> is("manifold") => SymOk(e.ret)
      [] n = "c23_onesided" -> is("manifold") => OneSidedOk(s, a, e.ret.m)
      [] OTHER -> Assert(FALSE, <<"unknown clause", n>>)

After(gh, e) ==
    CASE e.op = "make" -> [gh EXCEPT !.def = (e.a.slot :> e.a.sh) @@ @, !.n = -1]
      [] e.op = "manifold" /\ e.r = "ok" -> [gh EXCEPT !.n = e.ret.m.n, !.ids = e.ret.m.id, !.sep = e.ret.m.sep]
      [] OTHER -> gh
Fresh == [ok |-> TRUE, def |-> [none |-> 0], ids |-> <<>>, sep |-> <<>>, n |-> -1]

Init == TLCSet(1, 0) /\ l = 1 /\ g = Fresh

Next ==
    /\ l < Len(Tr)
    /\ LET e == Tr[l + 1]  pre == Tr[l].s IN
       IF e.op = "New" THEN l' = l + 1 /\ g' = Fresh
       ELSE IF ~g.ok THEN l' = l + 1 /\ g' = g
       ELSE LET bad == IF e.r = "ok" THEN {n \in Sel : ~Holds(n, g, pre, e)} ELSE {n \in Sel : n \in {"c21_panic", "c22_panic", "c23_panic"}}
            IN  IF bad = {} THEN l' = l + 1 /\ g' = After(g, e)
                ELSE /\ PrintT(<<"VIOL", l + 1, bad>>) /\ TLCSet(1, TLCGet(1) + 1)
                     /\ l' = l + 1 /\ g' = [g EXCEPT !.ok = FALSE]

Spec == Init /\ [][Next]_<<l, g>>
Accepted == TLCGet("stats").diameter = Len(Tr) /\ TLCGet(1) = 0
=============================================================================
