-------------------------------- MODULE Draw --------------------------------
(* What debug drawing shows for a world: the set of primitives per flag.     *)
(* Coordinates in 1/512 m, colours in percent, unit vectors scale 2^14.      *)
(* A primitive is [id, k, c, v, r, ax, tol]; id keeps equal ones apart.      *)
EXTENDS Integers, Sequences, FiniteSets, Fix

Half(p) == <<p[1] \div 2, p[2] \div 2>>
Plus(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Minus(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Prim(id, k, c, v, r, ax, tol) == [id |-> id, k |-> k, c |-> c, v |-> v, r |-> r, ax |-> ax, tol |-> tol]
Seg(id, a, b, c, tol) == Prim(id, "seg", c, <<a, b>>, 0, <<0, 0>>, tol)
Pt(id, a, size, c, tol) == Prim(id, "point", c, <<a>>, size * 512, <<0, 0>>, tol)

Gray7 == <<70, 70, 70>>
Gray4 == <<40, 40, 40>>
Green == <<30, 90, 30>>
Red == <<90, 30, 30>>
Blue == <<30, 30, 90>>
Teal == <<50, 80, 80>>

BodyColour(b) ==
    IF b.ty = 2 /\ ~b.ms THEN <<100, 0, 0>>
    ELSE IF ~b.en THEN <<50, 50, 30>>
    ELSE IF b.ty = 0 THEN <<50, 90, 50>>
    ELSE IF b.ty = 1 THEN <<50, 50, 90>>
    ELSE IF ~b.aw THEN <<60, 60, 60>>
    ELSE <<90, 70, 70>>

ShapePrims(s, f) ==
    LET x == s.F[f]  b == s.B[x.b]  c == BodyColour(b) IN
    CASE x.k = 0 -> {Prim(<<"F", f, 1>>, "scircle", c, x.ws[1], x.wr, b.q, 2)}
      [] x.k = 2 -> {Prim(<<"F", f, 1>>, "spoly", c, x.ws[1], 0, <<0, 0>>, 2)}
      [] x.k = 3 -> {Seg(<<"F", f, i>>, x.ws[i][1], x.ws[i][2], c, 2) : i \in DOMAIN x.ws}
      [] OTHER -> {Seg(<<"F", f, 1>>, x.ws[1][1], x.ws[1][2], c, 2)}
                  \cup (IF x.os THEN {} ELSE {Pt(<<"F", f, 1 + i>>, x.ws[1][i], 4, c, 2) : i \in 1..2})

BodyPoint(b) == <<b.hp[1] \div 32, b.hp[2] \div 32>>
CentrePoint(b) == <<b.wc[1] \div 32, b.wc[2] \div 32>>

\* unit direction at angle x (scale 2^14), half a metre long
Hand(x) == <<Cos(x) \div 64, Sin(x) \div 64>>
Infinite(x) == x >= 268435456

\* joints whose picture depends on a direction that is not defined
Vague(j) == j.ty = "distance" /\ j.x.cur < 256

JointPrims(s, n) ==
    LET j == s.J[n]  x == j.x
        a == s.B[j.a]  b == s.B[j.b]
        pa == Half(x.aa)  pb == Half(x.ab)
        id(i) == <<"J", n, i>>
        links == {Seg(id(20), BodyPoint(a), pa, Teal, 3), Seg(id(21), pa, pb, Teal, 3), Seg(id(22), BodyPoint(b), pb, Teal, 3)}
    IN
    CASE j.ty = "distance" ->
           LET d == Minus(x.ab, x.aa)
               at(len) == <<pa[1] + MulSh(2 * len, DivSh(d[1], x.cur, 14), 14), pa[2] + MulSh(2 * len, DivSh(d[2], x.cur, 14), 14)>>
               t(len) == 6 + len \div 32
           IN  {Seg(id(1), pa, pb, Gray4, 3), Pt(id(2), at(x.length), 8, Gray7, t(x.length))}
               \cup (IF x.min_length # x.max_length
                     THEN (IF x.min_length > 1 THEN {Pt(id(3), at(x.min_length), 4, Green, t(x.min_length))} ELSE {})
                          \cup (IF ~Infinite(x.max_length) THEN {Pt(id(4), at(x.max_length), 4, Red, t(x.max_length))} ELSE {})
                     ELSE {})
      [] j.ty \in {"prismatic", "wheel"} ->
           LET ax == Rot(a.q, <<16 * x.axis[1], 16 * x.axis[2]>>)     \* scale 2^14
               at(len) == <<pa[1] + MulSh(2 * len, ax[1], 14), pa[2] + MulSh(2 * len, ax[2], 14)>>
               hp == <<(-ax[2]) \div 64, ax[1] \div 64>>               \* half a metre across
               un == <<ax[1] \div 32, ax[2] \div 32>>
           IN  {Seg(id(1), pa, pb, Gray4, 3), Pt(id(2), pa, 5, Gray7, 3), Pt(id(3), pb, 5, Blue, 3)}
               \cup (IF x.enable_limit
                     THEN {Seg(id(4), at(x.lo), at(x.hi), Gray7, 5),
                           Seg(id(5), Minus(at(x.lo), hp), Plus(at(x.lo), hp), Green, 6),
                           Seg(id(6), Minus(at(x.hi), hp), Plus(at(x.hi), hp), Red, 6)}
                     ELSE {Seg(id(4), Minus(pa, un), Plus(pa, un), Gray7, 5)})
      [] j.ty = "revolute" ->
           {Pt(id(1), pa, 5, Blue, 3), Pt(id(2), pb, 5, Gray4, 3),
            Seg(id(3), pb, Plus(pb, Hand(16 * x.angle)), Gray7, 6),
            Prim(id(4), "circle", Gray7, <<pb>>, 256, <<0, 0>>, 3)}
           \cup links
           \cup (IF x.enable_limit
                 THEN {Seg(id(5), pb, Plus(pb, Hand(64 * x.lo)), Green, 6), Seg(id(6), pb, Plus(pb, Hand(64 * x.hi)), Red, 6)}
                 ELSE {})
      [] j.ty = "pulley" ->
           {Seg(id(1), Half(x.ga), pa, Teal, 3), Seg(id(2), Half(x.gb), pb, Teal, 3), Seg(id(3), Half(x.ga), Half(x.gb), Teal, 3)}
      [] j.ty = "mouse" ->
           {Pt(id(1), pa, 4, <<0, 100, 0>>, 3), Pt(id(2), pb, 4, <<0, 100, 0>>, 3), Seg(id(3), pa, pb, <<80, 80, 80>>, 3)}
      [] OTHER -> links

PairPrim(s, i) ==
    LET c == s.C[i] IN Seg(<<"C", i>>, s.F[c.fa].ta[c.ia + 1], s.F[c.fb].ta[c.ib + 1], <<30, 90, 90>>, 2)

BoxPrims(s, f) ==
    {LET b == s.F[f].bi[i] IN
     Prim(<<"A", f, i>>, "poly", <<90, 30, 90>>, <<<<b[1], b[2]>>, <<b[3], b[2]>>, <<b[3], b[4]>>, <<b[1], b[4]>>>>, 0, <<0, 0>>, 2)
       : i \in 1..s.F[f].nc}

Bit(fl, b) == (fl \div b) % 2 = 1
Expected(s, fl) ==
    (IF Bit(fl, 1) THEN UNION {ShapePrims(s, f) : f \in DOMAIN s.F} ELSE {})
    \cup (IF Bit(fl, 2) THEN UNION {JointPrims(s, j) : j \in DOMAIN s.J} ELSE {})
    \cup (IF Bit(fl, 8) THEN {PairPrim(s, i) : i \in DOMAIN s.C} ELSE {})
    \cup (IF Bit(fl, 4) THEN UNION {BoxPrims(s, f) : f \in {g \in DOMAIN s.F : s.B[s.F[g].b].en}} ELSE {})
    \cup (IF Bit(fl, 16) THEN {Prim(<<"M", b>>, "xf", <<0, 0, 0>>, <<CentrePoint(s.B[b])>>, 0, s.B[b].q, 2) : b \in DOMAIN s.B} ELSE {})

PNear(a, b, tol) == FAbs(a[1] - b[1]) <= tol /\ FAbs(a[2] - b[2]) <= tol
\* the same corners in the same turning order, or the same ends of a segment
SamePoints(k, v, w, tol) ==
    /\ Len(v) = Len(w)
    /\ IF k = "seg"
       THEN \/ PNear(v[1], w[1], tol) /\ PNear(v[2], w[2], tol)
            \/ PNear(v[1], w[2], tol) /\ PNear(v[2], w[1], tol)
       ELSE \E r \in 0..(Len(v) - 1) : \A i \in 1..Len(v) : PNear(v[i], w[((i + r - 1) % Len(v)) + 1], tol)
Shows(e, p) ==
    /\ e.k = p.k
    /\ \A i \in 1..3 : FAbs(e.c[i] - p.c[i]) <= 1
    /\ FAbs(e.r - p.r) <= 2
    /\ PNear(e.ax, p.ax, 3)
    /\ SamePoints(e.k, e.v, p.v, e.tol)
=============================================================================
