-------------------------------- MODULE Ray ---------------------------------
(* Rays and points against placed convex children, in integers of 1/512 m.   *)
(* A child is [k, os, v, r]: k 0 disc (v[1], radius r), 1 segment, 2 convex  *)
(* polygon (counter-clockwise), 3 segment of a chain; os: hit from the front *)
(* only. Fractions and unit vectors have scale 2^14. Every judgement leaves  *)
(* a margin M for the rounding of the recorded coordinates.                    *)
EXTENDS Geom, Fix

CONSTANT M
Sub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2]
CrossV(a, b) == a[1] * b[2] - a[2] * b[1]
Len2(a) == Hypot(a[1], a[2])
NormalOf(v, i) == LET e == Sub(Nxt(v, i), v[i]) IN <<e[2], -e[1]>>

Frac(num, den) ==
    LET q == IF Abs(den) >= 16777216 THEN 128 ELSE 1
        d == den \div q IN
    IF Abs(num) \div 4 >= Abs(den) \/ d = 0 THEN (IF (num < 0) # (den < 0) THEN -65536 ELSE 65536)
    ELSE DivSh(num \div q, d, 14)

---------------------------------------------------------------------------
(* Entry fraction of the ray p + t d into a child that it surely hits, else  *)
(* -1: judged on the child shrunk by the margin, with a start surely outside.*)

SurePoly(v, p, d) ==
    LET I == 1..Len(v)
        n == [i \in I |-> NormalOf(v, i)]
        L == [i \in I |-> Len2(n[i])]
        num == [i \in I |-> Dot(n[i], Sub(v[i], p))]
        den == [i \in I |-> Dot(n[i], d)]
        out == \E i \in I : num[i] + M * L[i] < 0
        gone == \E i \in I : Abs(den[i]) <= L[i] /\ num[i] - M * L[i] < 0
        ins == {Frac(num[i] - M * L[i], den[i]) : i \in {j \in I : den[j] < -L[j]}}
        outs == {Frac(num[i] - M * L[i], den[i]) : i \in {j \in I : den[j] > L[j]}}
        lo == IF ins = {} THEN -1 ELSE SetMax(ins)
        hi == IF outs = {} THEN 65536 ELSE SetMin(outs)
    IN  IF out /\ ~gone /\ lo >= 0 /\ lo < hi THEN lo ELSE -1

SureDisc(c, r, p, d) ==
    LET s == Sub(c, p)
        L == Len2(d)
        off == CrossV(d, s) \div L
        proj == Dot(d, s) \div L
        h == FSqrt((r - M) * (r - M) - off * off)
    IN  IF r > M /\ Abs(off) < r - M /\ Len2(s) > r + M /\ proj - h > 0 THEN Frac(proj - h, L) ELSE -1

SureSeg(a, b, os, p, d) ==
    LET e == Sub(b, a)  n == <<e[2], -e[1]>>
        Le == Len2(e)  Ld == Len2(d)
        num == Dot(n, Sub(a, p))  den == Dot(n, d)
        ca == CrossV(d, Sub(a, p))  cb == CrossV(d, Sub(b, p))
        cut == (ca > M * Ld /\ cb < -M * Ld) \/ (ca < -M * Ld /\ cb > M * Ld)
        side == Abs(num) > M * Le /\ (num > 0) = (den > 0) /\ Abs(den) > Abs(num) + M * Le
    IN  IF cut /\ side /\ (os => num < 0) THEN Frac(num, den) ELSE -1

SureHit(ch, p, d) ==
    CASE ch.k = 0 -> SureDisc(ch.v[1], ch.r, p, d)
      [] ch.k = 2 -> SurePoly(ch.v, p, d)
      [] OTHER -> SureSeg(ch.v[1], ch.v[2], ch.os /\ ch.k = 1, p, d)

---------------------------------------------------------------------------
(* A reported hit at point q with normal n (scale 2^14) is real for a child. *)

NormalNear(n, w, L, tol) ==   \* n is the direction of w (length L)
    L > 0 /\ Near(n[1], DivSh(w[1], L, 14), tol) /\ Near(n[2], DivSh(w[2], L, 14), tol)

InPoly(v, q, m) ==    \* inside, grown by m
    \A i \in 1..Len(v) : LET n == NormalOf(v, i) IN Dot(n, Sub(q, v[i])) <= m * Len2(n)

RealPoly(v, p, d, q, n) ==
    /\ InPoly(v, q, M)
    /\ ~InPoly(v, p, -M)
    /\ \E i \in 1..Len(v) :
         LET w == NormalOf(v, i)  L == Len2(w) IN
         /\ Abs(Dot(w, Sub(q, v[i]))) <= M * L
         /\ Dot(w, d) < 2 * L
         /\ NormalNear(n, w, L, 100 + 32768 \div L)

RealDisc(c, r, p, d, q, n) ==
    LET w == Sub(q, c)  L == Len2(w) IN
    /\ Near(L, r, M)
    /\ Len2(Sub(p, c)) >= r - M
    /\ NormalNear(n, w, L, 100 + (M * 16384) \div r)
    /\ Dot(<<n[1] \div 16, n[2] \div 16>>, d) \div Len2(d) <= 16 + (6 * 1024) \div r

RealSeg(a, b, os, p, d, q, n) ==
    LET e == Sub(b, a)  w == <<e[2], -e[1]>>  L == Len2(e)
        side == Dot(w, Sub(p, a))
        t == 100 + 32768 \div L
    IN  /\ PointSeg(q, a, b) <= M
        /\ os => side >= -M * L
        /\ \/ side >= -M * L /\ NormalNear(n, w, L, t)
           \/ side <= M * L /\ NormalNear(n, <<-w[1], -w[2]>>, L, t)

RealHit(ch, p, d, q, n) ==
    CASE ch.k = 0 -> RealDisc(ch.v[1], ch.r, p, d, q, n)
      [] ch.k = 2 -> RealPoly(ch.v, p, d, q, n)
      [] OTHER -> RealSeg(ch.v[1], ch.v[2], ch.os /\ ch.k = 1, p, d, q, n)

\* the point reached at fraction t
Along(p, d, t) == <<p[1] + MulSh(d[1], t, 14), p[2] + MulSh(d[2], t, 14)>>
NearPoint(a, b, tol) == Near(a[1], b[1], tol) /\ Near(a[2], b[2], tol)

---------------------------------------------------------------------------
(* Is a point inside a child: "yes", "no" or "maybe".                        *)
Inside3(ch, q) ==
    CASE ch.k = 0 -> LET L == Len2(Sub(q, ch.v[1])) IN IF L < ch.r - M THEN "yes" ELSE IF L > ch.r + M THEN "no" ELSE "maybe"
      [] ch.k = 2 -> IF InPoly(ch.v, q, -M) THEN "yes" ELSE IF ~InPoly(ch.v, q, M) THEN "no" ELSE "maybe"
      [] OTHER -> "no"
=============================================================================
