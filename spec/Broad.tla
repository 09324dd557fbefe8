------------------------------- MODULE Broad --------------------------------
(* The broad phase: proxies with stored (fattened) boxes, and the set of     *)
(* proxies whose pairs the next update has to report.                        *)
EXTENDS Integers, Sequences, FiniteSets, Fix

\* boxes <<x1, y1, x2, y2>>, compared exactly
Meet(a, b) == a[1] <= b[3] /\ b[1] <= a[3] /\ a[2] <= b[4] /\ b[2] <= a[4]
Inside(a, b) == b[1] <= a[1] /\ b[2] <= a[2] /\ a[3] <= b[3] /\ a[4] <= b[4]

\* pairs an update must report: overlapping, at least one proxy pending
Due(box, pending) ==
    {q \in {{p, r} : p \in pending, r \in DOMAIN box} :
        /\ Cardinality(q) = 2
        /\ \A x, y \in q : Meet(box[x], box[y])}

(* Fattening, in 1/1024 m: margin 0.1 m, displacement multiplied by 4.       *)
Margin == 102
Fat(t) == <<t[1] - Margin, t[2] - Margin, t[3] + Margin, t[4] + Margin>>
Stretch(b, dx, dy) ==
    << b[1] + (IF dx < 0 THEN 4 * dx ELSE 0), b[2] + (IF dy < 0 THEN 4 * dy ELSE 0),
       b[3] + (IF dx > 0 THEN 4 * dx ELSE 0), b[4] + (IF dy > 0 THEN 4 * dy ELSE 0) >>
Huge(b) == <<b[1] - 4 * Margin, b[2] - 4 * Margin, b[3] + 4 * Margin, b[4] + 4 * Margin>>
NearBox(a, b, tol) == \A i \in 1..4 : Near(a[i], b[i], tol)

(* Does the segment p1 -> p1 + f (p2 - p1) meet box b grown by m?            *)
(* Coordinates in 1/256, f in 1/256. Separating axes x, y and the normal.    *)
SegMeets(x1, y1, x2, y2, f, b, m) ==
    LET ex == x1 + ((x2 - x1) * f) \div 256  ey == y1 + ((y2 - y1) * f) \div 256
        lo(a, c) == IF a < c THEN a ELSE c
        hi(a, c) == IF a < c THEN c ELSE a
        dx == x2 - x1  dy == y2 - y1
        side(px, py) == dx * (py - y1) - dy * (px - x1)
        c1 == side(b[1] - m, b[2] - m)  c2 == side(b[3] + m, b[2] - m)
        c3 == side(b[1] - m, b[4] + m)  c4 == side(b[3] + m, b[4] + m)
    IN  /\ lo(x1, ex) <= b[3] + m /\ b[1] - m <= hi(x1, ex)
        /\ lo(y1, ey) <= b[4] + m /\ b[2] - m <= hi(y1, ey)
        /\ ~(c1 > 0 /\ c2 > 0 /\ c3 > 0 /\ c4 > 0)
        /\ ~(c1 < 0 /\ c2 < 0 /\ c3 < 0 /\ c4 < 0)

RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
=============================================================================
