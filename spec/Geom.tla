-------------------------------- MODULE Geom --------------------------------
(* Exact integer geometry used by several specifications. Points are pairs   *)
(* of integers (1/256 m). A convex shape is a record [v |-> <<points>>,      *)
(* r |-> skin radius] whose points are in counter-clockwise order; one point *)
(* is a disc, two points are a segment.                                      *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

RECURSIVE SqrtNewton(_, _)
SqrtNewton(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE SqrtNewton(n, y)
ISqrt(n) == IF n < 2 THEN n
            ELSE SqrtNewton(n, IF n < 65536 THEN 256 ELSE IF n < 16777216 THEN 4096 ELSE 46340)

\* 16 * sqrt(n)
Sqrt16(n) == IF n < 8000000 THEN ISqrt(256 * n) ELSE 16 * ISqrt(n)

Cross(ax, ay, bx, by) == ax * by - ay * bx

SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S) == CHOOSE x \in S : \A y \in S : y >= x

Box(v) == [lx |-> SetMin({v[i][1] : i \in DOMAIN v}), ux |-> SetMax({v[i][1] : i \in DOMAIN v}),
           ly |-> SetMin({v[i][2] : i \in DOMAIN v}), uy |-> SetMax({v[i][2] : i \in DOMAIN v})]

BoxGap(a, b) == Max2(Max2(a.lx - b.ux, b.lx - a.ux), Max2(a.ly - b.uy, b.ly - a.uy))

Nxt(v, i) == IF i = Len(v) THEN v[1] ELSE v[i + 1]

(* Signed distance (in 1/256 m) of the points of w beyond the edge i of v    *)
(* along its outward normal: positive if all of w lies outside.              *)
EdgeSep(v, i, w) ==
    LET a == v[i]  b == Nxt(v, i)
        ex == b[1] - a[1]  ey == b[2] - a[2]
        L == Sqrt16(ex * ex + ey * ey)
        c == {Cross(w[k][1] - a[1], w[k][2] - a[2], ex, ey) : k \in DOMAIN w}
    IN  IF L = 0 THEN -1000000 ELSE (SetMin(c) * 16) \div L

\* largest separation over the edge normals of v; a segment has two normals
AxisSep(v, w) ==
    IF Len(v) < 2 THEN -1000000 ELSE SetMax({EdgeSep(v, i, w) : i \in 1..Len(v)})

\* distance of a point to a segment
PointSeg(p, a, b) ==
    LET ex == b[1] - a[1]  ey == b[2] - a[2]
        px == p[1] - a[1]  py == p[2] - a[2]
        l2 == ex * ex + ey * ey
        d == px * ex + py * ey
    IN  IF d <= 0 THEN Sqrt16(px * px + py * py) \div 16
        ELSE IF d >= l2 THEN Sqrt16((p[1] - b[1]) * (p[1] - b[1]) + (p[2] - b[2]) * (p[2] - b[2])) \div 16
        ELSE (16 * Abs(Cross(ex, ey, px, py))) \div Sqrt16(l2)

PointPolyDist(p, v) ==
    IF Len(v) = 1 THEN Sqrt16((p[1] - v[1][1]) * (p[1] - v[1][1]) + (p[2] - v[1][2]) * (p[2] - v[1][2])) \div 16
    ELSE IF Len(v) > 2 /\ AxisSep(v, <<p>>) <= 0 THEN 0
    ELSE SetMin({PointSeg(p, v[i], Nxt(v, i)) : i \in 1..Len(v)})

(* Three-valued overlap of two convex shapes: "yes" (deeper than pen), "no"  *)
(* (farther apart than gap), "maybe" in between.                             *)
Overlap3(A, B, pen, gap) ==
    LET R == A.r + B.r IN
    IF BoxGap(Box(A.v), Box(B.v)) > R + gap THEN "no"
    ELSE IF Len(A.v) = 1 \/ Len(B.v) = 1
    THEN LET d == IF Len(A.v) = 1 THEN PointPolyDist(A.v[1], B.v) ELSE PointPolyDist(B.v[1], A.v)
         IN  IF d > R + gap THEN "no" ELSE IF d < R - pen THEN "yes" ELSE "maybe"
    ELSE LET s == Max2(AxisSep(A.v, B.v), AxisSep(B.v, A.v))
         IN  IF s > R + gap THEN "no" ELSE IF s < -pen THEN "yes" ELSE "maybe"
=============================================================================
