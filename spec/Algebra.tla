------------------------------- MODULE Algebra ------------------------------
(* What the mathematics of the library means, in integers. Arguments are     *)
(* x[..] in sixteenths (angles and fractions in 1/256, matrices and vectors  *)
(* of three in whole numbers); results o[..] carry the scale named with each *)
(* operator. Exact where the arithmetic is exact, otherwise with a tolerance *)
(* above rounding.                                                           *)
EXTENDS Fix

V(x, i) == <<x[i], x[i + 1]>>
V3(x, i) == <<x[i], x[i + 1], x[i + 2]>>
Add2(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Sub2(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Sc2(s, a) == <<s * a[1], s * a[2]>>
Dot2(a, b) == a[1] * b[1] + a[2] * b[2]
Cross2(a, b) == a[1] * b[2] - a[2] * b[1]
Min2(a, b) == <<FMin(a[1], b[1]), FMin(a[2], b[2])>>
Max2(a, b) == <<FMax(a[1], b[1]), FMax(a[2], b[2])>>
Abs2(a) == <<FAbs(a[1]), FAbs(a[2])>>
B01(c) == IF c THEN 1 ELSE 0

NearSeq(a, b, tol) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Near(a[i], b[i], tol)
Part(o, i, n) == SubSeq(o, i, i + n - 1)

---------------------------------------------------------------------------
(* Vectors.                                                                  *)
Vec2(x) == LET a == V(x, 1)  b == V(x, 3)  s == x[5] IN
    Add2(a, b) \o Sub2(a, b) \o <<-a[1], -a[2]>> \o Sc2(s, a) \o <<-a[2], a[1]>> \o <<Dot2(a, b), Cross2(a, b)>>
    \o <<s * a[2], -s * a[1]>> \o <<-s * a[2], s * a[1]>> \o <<Dot2(a, a), Dot2(Sub2(a, b), Sub2(a, b))>>
    \o Min2(a, b) \o Max2(a, b) \o Abs2(a) \o Add2(a, b) \o Sub2(a, b) \o Sc2(s, a) \o a \o b

\* length and distance at 2^10; a unit vector at 2^14, a null vector is left alone
LenOk(x, o) == LET a == V(x, 1)  d == Sub2(a, V(x, 3))  l == Hypot(64 * a[1], 64 * a[2]) IN
    /\ Near(o[1], l, 12) /\ Near(o[2], Hypot(64 * d[1], 64 * d[2]), 12) /\ Near(o[3], l, 12)
    /\ IF a = <<0, 0>> THEN o[4] = 0 /\ o[5] = 0
       ELSE \A k \in {1, 2} : Near(MulSh(o[3 + k], l, 14), 64 * a[k], 12)

Clamp(a, lo, hi) == FMax(lo, FMin(a, hi))
Order(x) == LET a == V(x, 1)  lo == V(x, 3)  hi == V(x, 5) IN
    <<Clamp(a[1], lo[1], hi[1]), Clamp(a[2], lo[2], hi[2]), Clamp(a[1], lo[1], hi[1]), FMin(a[1], a[2]), FMax(a[1], a[2]), FAbs(a[1]),
      Clamp(a[1], lo[1], hi[1]), FAbs(a[2]), a[2], a[1], B01(a = lo), B01(a # lo)>>
Valid(x) == <<B01(x[1] > 2), B01(x[1] > 2 /\ x[2] > 2)>>

Dot3(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross3(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Map3(f) == <<f[1], f[2], f[3]>>
Vec3(x) == LET a == V3(x, 1)  b == V3(x, 4)  s == x[7] IN
    Map3([i \in 1..3 |-> a[i] + b[i]]) \o Map3([i \in 1..3 |-> a[i] - b[i]]) \o Map3([i \in 1..3 |-> -a[i]])
    \o Map3([i \in 1..3 |-> s * a[i]]) \o <<Dot3(a, b)>> \o Cross3(a, b) \o Map3([i \in 1..3 |-> s * (a[i] + b[i]) - a[i]])

---------------------------------------------------------------------------
(* Matrices are sequences of columns.                                        *)
Mul2(m, v) == Add2(Sc2(v[1], m[1]), Sc2(v[2], m[2]))
MulT2(m, v) == <<Dot2(m[1], v), Dot2(m[2], v)>>
Flat2(m) == m[1] \o m[2]
\* r (at 4096) is n / d, or nothing if there is no inverse
Quot(r, n, d) == IF d = 0 THEN r = 0 ELSE Near(r * d, 4096 * n, FAbs(d) + FAbs(n) \div 64)

Mat22Ok(x, o) ==
    LET m == <<V(x, 1), V(x, 3)>>  n == <<V(x, 5), V(x, 7)>>  v == V(x, 9)
        d == Cross2(m[1], m[2])
    IN  /\ Part(o, 1, 2) = Mul2(m, v) /\ Part(o, 3, 2) = MulT2(m, v)
        /\ Part(o, 5, 4) = Flat2(<<Mul2(m, n[1]), Mul2(m, n[2])>>)
        /\ Part(o, 9, 4) = Flat2(<<MulT2(m, n[1]), MulT2(m, n[2])>>)
        /\ Part(o, 13, 4) = Flat2(<<Add2(m[1], n[1]), Add2(m[2], n[2])>>)
        /\ Part(o, 17, 4) = Flat2(<<Abs2(m[1]), Abs2(m[2])>>)
        /\ Quot(o[21], Cross2(v, m[2]), d) /\ Quot(o[22], Cross2(m[1], v), d)
        /\ Quot(o[23], m[2][2], d) /\ Quot(o[24], -m[1][2], d) /\ Quot(o[25], -m[2][1], d) /\ Quot(o[26], m[1][1], d)

Mat33Ok(x, o) ==
    LET m == <<V3(x, 1), V3(x, 4), V3(x, 7)>>  v == V3(x, 10)  w == V(x, 10)
        m2 == <<V(x, 1), V(x, 4)>>
        d == Dot3(m[1], Cross3(m[2], m[3]))  d2 == Cross2(m2[1], m2[2])
    IN  /\ Part(o, 1, 3) = Map3([i \in 1..3 |-> v[1] * m[1][i] + v[2] * m[2][i] + v[3] * m[3][i]])
        /\ Part(o, 4, 2) = Mul2(m2, w)
        /\ Quot(o[6], Dot3(v, Cross3(m[2], m[3])), d) /\ Quot(o[7], Dot3(m[1], Cross3(v, m[3])), d)
        /\ Quot(o[8], Dot3(m[1], Cross3(m[2], v)), d)
        /\ Quot(o[9], Cross2(w, m2[2]), d2) /\ Quot(o[10], Cross2(m2[1], w), d2)
        /\ Quot(o[11], m2[2][2], d2) /\ Quot(o[12], -m2[1][2], d2) /\ o[13] = 0
        /\ Quot(o[14], -m2[2][1], d2) /\ Quot(o[15], m2[1][1], d2) /\ o[16] = 0
        /\ Part(o, 17, 3) = <<0, 0, 0>>

\* the inverse of a symmetric matrix: rows of cofactors over the determinant
Sym33Ok(x, o) ==
    LET m == <<V3(x, 1), V3(x, 4), V3(x, 7)>>
        d == Dot3(m[1], Cross3(m[2], m[3]))
        c == <<Cross3(m[2], m[3]), Cross3(m[3], m[1]), Cross3(m[1], m[2])>>
    IN  \A i, j \in 1..3 : Quot(o[3 * (i - 1) + j], c[i][j], d)

---------------------------------------------------------------------------
(* Rotations <<cos, sin>> and transforms. Angles come at 1/256, points at    *)
(* 1/16; results at 2^14 and 2^10.                                           *)
Angle(a) == <<Cos(64 * a), Sin(64 * a)>>
Comp(q, r) == <<Q(q[1], r[1]) - Q(q[2], r[2]), Q(q[2], r[1]) + Q(q[1], r[2])>>
CompT(q, r) == <<Q(q[1], r[1]) + Q(q[2], r[2]), Q(q[1], r[2]) - Q(q[2], r[1])>>
Up(v) == Sc2(64, v)

\* 6e-4 over the whole range of the polynomial
RotTol == 10
RotOk(x, o) ==
    LET q == V(o, 1)  r == V(o, 3)  w == Up(V(x, 3)) IN
    /\ NearSeq(q, Angle(x[1]), RotTol) /\ NearSeq(r, Angle(x[2]), RotTol)
    /\ LET d == Reduce(64 * x[1] - o[5]) IN Near(d, 0, 6) /\ Near(o[5], 0, Pi + 1)
    /\ Part(o, 6, 2) = q /\ Part(o, 8, 2) = <<-q[2], q[1]>>
    /\ NearSeq(Part(o, 10, 2), Comp(q, r), 4) /\ NearSeq(Part(o, 12, 2), CompT(q, r), 4)
    /\ NearSeq(Part(o, 14, 2), Rot(q, w), 6) /\ NearSeq(Part(o, 16, 2), RotT(q, w), 6)

XfOk(x, o) ==
    LET p == Up(V(x, 1))  r == Up(V(x, 4))  w == Up(V(x, 7))  q == V(o, 1)  u == V(o, 3) IN
    /\ NearSeq(q, Angle(x[3]), RotTol) /\ NearSeq(u, Angle(x[6]), RotTol)
    /\ NearSeq(Part(o, 5, 2), Add2(Rot(q, w), p), 6) /\ NearSeq(Part(o, 7, 2), RotT(q, Sub2(w, p)), 6)
    /\ NearSeq(Part(o, 9, 2), Add2(Rot(q, r), p), 6) /\ NearSeq(Part(o, 11, 2), Comp(q, u), 4)
    /\ NearSeq(Part(o, 13, 2), RotT(q, Sub2(r, p)), 6) /\ NearSeq(Part(o, 15, 2), CompT(q, u), 4)
    /\ Part(o, 17, 2) = w

\* a sweep: lc, c0, c, a0, a, alpha0; asked at beta and advanced to alpha
Lerp(a, b, t) == a + ((b - a) * t) \div 256
SweepOk(x, o) ==
    LET lc == Up(V(x, 1))  c0 == Up(V(x, 3))  c == Up(V(x, 5))
        at == <<Lerp(c0[1], c[1], x[10]), Lerp(c0[2], c[2], x[10])>>
        q == V(o, 3)
        an == 64 * x[7] + ((x[8] - x[7]) * x[10]) \div 4
        n == x[11] - x[9]  d == 256 - x[9]
        Adv(s, t) == s + ((t - s) * n) \div d
    IN  /\ NearSeq(q, <<Cos(an), Sin(an)>>, RotTol + 4)
        /\ NearSeq(Part(o, 1, 2), Sub2(at, Rot(q, lc)), 8)
        /\ NearSeq(Part(o, 5, 2), <<Adv(c0[1], c[1]), Adv(c0[2], c[2])>>, 3)
        /\ Near(o[7], Adv(4 * x[7], 4 * x[8]), 3) /\ o[8] = 4 * x[11]
        /\ Part(o, 9, 2) = c /\ o[11] = 4 * x[8] /\ Part(o, 12, 2) = lc
        \* normalised: the first angle within a turn (documented as -pi..pi, in fact 0..2 pi), both moved by the same whole number of turns
        /\ o[14] >= -(Pi + 4) /\ o[14] <= 2 * Pi + 4
        /\ Near(Reduce(64 * x[7] - o[14]), 0, 10)
        /\ Near(o[15] - o[14], 64 * (x[8] - x[7]), 8)
        /\ Part(o, 16, 2) = c0 /\ Part(o, 18, 2) = c

---------------------------------------------------------------------------
(* Whole numbers, boxes, mixing rules.                                       *)
Pow2s == {2 ^ k : k \in 0..30}
Pow2Ok(x, o) == o[1] \in Pow2s /\ o[1] > x[1] /\ (x[1] > 0 => o[1] <= 2 * x[1]) /\ o[2] = B01(x[1] \in Pow2s)

Aabb(x) ==
    LET lo == V(x, 1)  hi == V(x, 3)  l2 == V(x, 5)  h2 == V(x, 7)
        Le(a, b) == a[1] <= b[1] /\ a[2] <= b[2]
    IN  Add2(lo, hi) \o Sub2(hi, lo) \o <<2 * (hi[1] - lo[1] + hi[2] - lo[2])>>
        \o Min2(lo, l2) \o Max2(hi, h2) \o Min2(lo, l2) \o Max2(hi, h2)
        \o <<B01(Le(lo, l2) /\ Le(h2, hi)), B01(Le(l2, lo) /\ Le(hi, h2)), B01(Le(lo, h2) /\ Le(l2, hi)), 1, B01(Le(l2, lo))>>

\* A ray p + t d against a box: the entry is the last crossing of a near side. Fractions as <<n, d>> with d > 0.
Frac(n, d) == IF d < 0 THEN <<-n, -d>> ELSE <<n, d>>
LtF(a, b) == a[1] * b[2] < b[1] * a[2]
EqF(a, b) == a[1] * b[2] = b[1] * a[2]
BoxRayOk(x, o) ==
    LET lo == V(x, 1)  hi == V(x, 3)  p == V(x, 5)  d == Sub2(V(x, 7), p)
        axes == {k \in {1, 2} : d[k] # 0}
        In(k) == IF d[k] > 0 THEN Frac(lo[k] - p[k], d[k]) ELSE Frac(hi[k] - p[k], d[k])
        Out(k) == IF d[k] > 0 THEN Frac(hi[k] - p[k], d[k]) ELSE Frac(lo[k] - p[k], d[k])
        free == \E k \in {1, 2} : d[k] = 0 /\ (p[k] < lo[k] \/ p[k] > hi[k])
        k1 == IF axes = {} THEN 0 ELSE CHOOSE k \in axes : \A j \in axes : ~LtF(In(k), In(j))
        \* decided by rounding: through a corner, or entered exactly at the end
        close == \/ \E j, k \in axes : j # k /\ (EqF(In(j), In(k)) \/ EqF(In(j), Out(k)))
                 \/ (axes # {} /\ EqF(In(k1), <<x[9], 256>>))
        hit == /\ axes # {} /\ ~free
               /\ \A j \in axes : ~LtF(Out(j), In(k1))
               /\ In(k1)[1] >= 0 /\ ~LtF(<<x[9], 256>>, In(k1))
    IN  close \/ IF ~hit THEN o[1] = 0
                 ELSE /\ o[1] = 1
                      /\ Near(o[2] * In(k1)[2], 16384 * In(k1)[1], 2 * In(k1)[2])
                      /\ (o[2 + k1] = (IF d[k1] > 0 THEN -1 ELSE 1) \/ (lo[k1] = hi[k1] /\ o[2 + k1] \in {-1, 1}))   \* a flat box has no sides
                      /\ o[5 - k1] = 0

\* x: direction, then the points; any point that lies furthest along it
SupportOk(x, o) ==
    LET n == (Len(x) - 2) \div 2  d == V(x, 1)  Pt(i) == V(x, 3 + 2 * i) IN
    /\ o[1] \in 0..(n - 1) /\ o[4] = n /\ o[5] = 8
    /\ \A i \in 0..(n - 1) : Dot2(Pt(i), d) <= Dot2(Pt(o[1]), d) /\ V(o, 6 + 2 * i) = Pt(i)
    /\ V(o, 2) = Pt(o[1])
Colour(x) == <<x[1], x[2], x[3], 256>> \o x \o <<x[3], x[2], x[1], x[4]>> \o <<x[4], x[3], x[2], x[1]>>

MixOk(x, o) == /\ Near(o[1], 64 * FSqrt(x[1] * x[2]), 70) /\ Near(MulSh(o[1], o[1], 14), (x[1] * x[2]) \div 4, 2 + o[1] \div 4096)
               /\ o[2] = FMax(x[1], x[2]) /\ o[3] = FMin(x[1], x[2])

---------------------------------------------------------------------------
(* A body: position p, angle, local centre c, velocity v of the centre,      *)
(* angular velocity w.                                                       *)
ConvOk(x, o) ==
    LET p == Up(V(x, 1))  q == V(o, 1)  c == Up(V(x, 4))  v == Up(V(x, 6))  w == x[8]  pt == Up(V(x, 9))
        wc == Add2(Rot(q, c), p)
        At(r) == <<v[1] - (w * (r[2] - wc[2])) \div 16, v[2] + (w * (r[1] - wc[1])) \div 16>>
    IN  /\ NearSeq(q, Angle(x[3]), RotTol)
        /\ NearSeq(Part(o, 3, 2), Add2(Rot(q, pt), p), 6) /\ NearSeq(Part(o, 5, 2), RotT(q, Sub2(pt, p)), 6)
        /\ NearSeq(Part(o, 7, 2), Rot(q, pt), 6) /\ NearSeq(Part(o, 9, 2), RotT(q, pt), 6)
        /\ Part(o, 11, 2) = V(x, 4) /\ NearSeq(Part(o, 13, 2), wc, 6)
        /\ NearSeq(Part(o, 15, 2), At(pt), 60)
        /\ NearSeq(Part(o, 17, 2), At(Add2(Rot(q, pt), p)), 90)

\* Spring of frequency f and damping ratio z between masses a and b (0 for none): k = m (2 pi f)^2, c = 2 m z (2 pi f)
Reduced(a, b) == IF a > 0 /\ b > 0 THEN DivSh(a * b, a + b, 10) ELSE 1024 * FMax(a, b)      \* 2^10
SpringOk(k, c, m, f, z) ==
    LET w == (6434 * f) \div 16       \* 2^10
        mw == MulSh(m, w, 14)         \* 2^6
    IN  /\ NearRel(k, MulSh(mw * 4, w, 14) , 12, 60)
        /\ NearRel(c, (mw * 2 * z) \div 64, 12, 60)
StiffOk(x, o) ==
    LET ia == IF x[1] = 0 THEN 0 ELSE x[2]  ib == IF x[3] = 0 THEN 0 ELSE x[4] IN
    /\ SpringOk(o[1], o[2], Reduced(x[1], x[3]), x[5], x[6])
    /\ SpringOk(o[3], o[4], Reduced(ia, ib), x[5], x[6])
=============================================================================
