------------------------------- MODULE Convex -------------------------------
(* Distances of convex sets of points in integers of 1/2048 m. A set is the  *)
(* sequence of its vertices: one point, a segment, or a polygon in counter-  *)
(* clockwise order. Results are exact up to one unit.                        *)
EXTENDS Geom, Fix

Len2D(a, b) == Hypot(a[1] - b[1], a[2] - b[2])

\* c divided by the length of (ex, ey)
OverLen(c, ex, ey) == LET k == 20000 \div Max2(1, Max2(Abs(ex), Abs(ey))) IN (c * k) \div Hypot(k * ex, k * ey)

PtSeg(p, a, b) ==
    LET ex == b[1] - a[1]  ey == b[2] - a[2]
        px == p[1] - a[1]  py == p[2] - a[2]
        d == px * ex + py * ey
    IN  IF d <= 0 THEN Len2D(p, a)
        ELSE IF d >= ex * ex + ey * ey THEN Len2D(p, b)
        ELSE OverLen(Abs(Cross(ex, ey, px, py)), ex, ey)

\* signed distance of the points of w beyond edge i of v along its outward normal
FaceSep(v, i, w) ==
    LET a == v[i]  b == Nxt(v, i)
        ex == b[1] - a[1]  ey == b[2] - a[2]
        c == {Cross(w[k][1] - a[1], w[k][2] - a[2], ex, ey) : k \in DOMAIN w}
    IN  OverLen(SetMin(c), ex, ey)
FacesSep(v, w) == SetMax({FaceSep(v, i, w) : i \in 1..Len(v)})

PtDist(p, v) ==
    IF Len(v) = 1 THEN Len2D(p, v[1])
    ELSE IF Len(v) > 2 /\ FacesSep(v, <<p>>) < 0 THEN 0
    ELSE SetMin({PtSeg(p, v[i], Nxt(v, i)) : i \in 1..(IF Len(v) = 2 THEN 1 ELSE Len(v))})

Crossing(v, w) ==   \* two segments
    LET s(a, b, p) == Cross(b[1] - a[1], b[2] - a[2], p[1] - a[1], p[2] - a[2]) IN
    /\ (s(v[1], v[2], w[1]) > 0) # (s(v[1], v[2], w[2]) > 0)
    /\ (s(w[1], w[2], v[1]) > 0) # (s(w[1], w[2], v[2]) > 0)

Meeting(v, w) ==
    IF Len(v) = 2 /\ Len(w) = 2 THEN Crossing(v, w)
    ELSE FacesSep(v, w) < 0 /\ FacesSep(w, v) < 0

Dist(v, w) ==
    IF Len(v) = 1 THEN PtDist(v[1], w)
    ELSE IF Len(w) = 1 THEN PtDist(w[1], v)
    ELSE IF Meeting(v, w) THEN 0
    ELSE SetMin({PtDist(v[i], w) : i \in DOMAIN v} \cup {PtDist(w[i], v) : i \in DOMAIN w})

\* vertices placed by x: position x.x, x.y, rotation with cosine x.c / 5 and sine x.s / 5
Placed(x, v) == [i \in DOMAIN v |-> << x.x + (x.c * v[i][1] - x.s * v[i][2]) \div 5, x.y + (x.s * v[i][1] + x.c * v[i][2]) \div 5 >>]
Shifted(v, dx, dy) == [i \in DOMAIN v |-> << v[i][1] + dx, v[i][2] + dy >>]

\* vertices at fraction t (2^14) of a sweep
Swept(s, v, t) ==
    LET at(p, q) == p + MulSh(q - p, t, 14)
        a == at(s.a0, s.a1)
        q == << Cos(a), Sin(a) >>
        cx == at(s.x0, s.x1)  cy == at(s.y0, s.y1)
    IN  [i \in DOMAIN v |-> LET w == Rot(q, << (v[i][1] - s.lx) * 4, (v[i][2] - s.ly) * 4 >>) IN << cx + w[1] \div 4, cy + w[2] \div 4 >>]

\* v is the strictly convex hull, counter-clockwise, of the points ps up to slack units
IsHull(v, ps, slack) ==
    LET n == Len(v) IN
    /\ n >= 3 /\ n <= 8
    /\ \A i \in 1..n : \E k \in DOMAIN ps : v[i] = ps[k]
    /\ \A i \in 1..n : LET a == v[i]  b == Nxt(v, i)  c == v[((i + 1) % n) + 1] IN Cross(b[1] - a[1], b[2] - a[2], c[1] - b[1], c[2] - b[2]) > 0
    /\ \A k \in DOMAIN ps : FacesSep(v, <<ps[k]>>) <= slack
=============================================================================
