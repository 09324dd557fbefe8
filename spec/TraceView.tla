----------------------------- MODULE TraceView ------------------------------
(* Judges recorded reads of a world (box queries, ray casts, point tests,    *)
(* debug drawing, saving) and shifts of its origin: C20, C24, C26, C28.      *)
EXTENDS World, Ray, Draw, Json, IOUtils

Tr == ndJsonDeserialize(IOEnv.TRACE)
Clauses == [
    C20 |-> {"c20_panic", "c20_pure", "c20_query", "c20_point", "c20_real", "c20_control", "c20_all"},
    C24 |-> {"c24_panic", "c24_place", "c24_same", "c24_box", "c24_joint", "c24_events",
             "c20_query", "c20_real", "c20_control", "c20_all"},
    C26 |-> {"c26_panic", "c26_pure", "c26_load", "c26_again"},
    C28 |-> {"c28_panic", "c28_pure", "c28_count", "c28_missing", "c28_extra"}]
Sel == IF IOEnv.PROP \in DOMAIN Clauses THEN Clauses[IOEnv.PROP] ELSE UNION {Clauses[p] : p \in DOMAIN Clauses}

VARIABLES l, g

Readers == {"query", "ray", "test_point"}
Child(s, f, i) == [k |-> s.F[f].k, os |-> s.F[f].os, v |-> s.F[f].ws[i], r |-> s.F[f].wr]
Seen(s) == {f \in DOMAIN s.F : s.B[s.F[f].b].en}
Count(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})

P1(a) == <<2 * a.x1, 2 * a.y1>>
Dir(a) == <<2 * (a.x2 - a.x1), 2 * (a.y2 - a.y1)>>

\* clip value after the first i hits, and the smallest one so far
RECURSIVE ClipAt(_, _)
ClipAt(h, i) == IF i = 0 THEN 16384 ELSE IF h[i].c < 0 THEN ClipAt(h, i - 1) ELSE h[i].c
MinClip(h) == SetMin({ClipAt(h, i) : i \in 0..Len(h)})
Stopped(h) == Len(h) > 0 /\ h[Len(h)].c = 0

---------------------------------------------------------------------------
(* Saved scenes, as bags.                                                    *)
Bag(q) == [x \in Range(q) |-> Count(q, x)]
NoMouse(q) == SelectSeq(q, LAMBDA j : j.ty # "EMouseJoint")
Mice(sc) == Len(sc.J) - Len(NoMouse(sc.J))
SameScene(x, y) ==
    /\ x.g = y.g
    /\ x.n[1] = y.n[1] /\ x.n[2] - Mice(x) = y.n[2] /\ x.n[3] = y.n[3]
    /\ Bag(x.B) = Bag(y.B)
    /\ Bag(x.F) = Bag(y.F)
    /\ Bag(NoMouse(x.J)) = Bag(y.J)

---------------------------------------------------------------------------
Placed == {"aa", "ab", "target", "ga", "gb"}
Measured == {"cur", "cur_a", "cur_b", "trans", "lspeed"}
NumNear(x, y, t) == Abs(x - y) <= t

SameContacts(s, t) ==
    /\ Len(s.C) = Len(t.C)
    /\ \A i \in DOMAIN s.C : s.C[i] = t.C[i]

Holds(n, pre, e) ==
    LET post == e.s  a == e.a  op == e.op IN
    CASE n = "c20_panic" -> op \in Readers => e.r = "ok"
      [] n = "c24_panic" -> op = "shift_origin" => e.r = "ok"
      [] n = "c26_panic" -> op = "save" => e.r = "ok"
      [] n = "c28_panic" -> op = "draw" => e.r = "ok"
      [] e.r # "ok" \/ ~pre.fat \/ ~post.fat -> TRUE
      \* --- C20 -------------------------------------------------------------
      [] n = "c20_pure" -> op \in Readers => post = pre /\ e.ev = <<>>
      [] n = "c20_query" -> op = "query" =>
            LET h == e.ret.hits
                want == [f \in DOMAIN pre.F |-> Cardinality({i \in DOMAIN pre.F[f].bb : BoxesMeet(pre.F[f].bb[i], e.ret.qb)})]
                total == Cardinality(UNION {{<<f, i>> : i \in 1..want[f]} : f \in DOMAIN want})
            IN  /\ Range(h) \subseteq Seen(pre)
                /\ \A f \in DOMAIN pre.F : Count(h, f) <= want[f]
                /\ Len(h) = (IF a.stop = 0 THEN total ELSE FMin(a.stop, total))
      [] n = "c20_point" -> op = "test_point" => \A f \in DOMAIN pre.F :
            LET r == {Inside3(Child(pre, f, i), <<2 * a.x, 2 * a.y>>) : i \in 1..pre.F[f].nc}
                in == f \in Range(e.ret.hits)
            IN  /\ "yes" \in r => in
                /\ r = {"no"} => ~in
      [] n = "c20_real" -> op = "ray" =>
            /\ \A i \in DOMAIN e.ret.hits :
                 LET h == e.ret.hits[i] IN
                 /\ h.f \in Seen(pre)
                 /\ NearPoint(h.p, Along(P1(a), Dir(a), h.t), 3)
                 /\ \E k \in 1..pre.F[h.f].nc : RealHit(Child(pre, h.f, k), P1(a), Dir(a), h.p, h.n)
            /\ \A f \in DOMAIN pre.F : Cardinality({i \in DOMAIN e.ret.hits : e.ret.hits[i].f = f}) <= pre.F[f].nc
      [] n = "c20_control" -> op = "ray" => \A i \in DOMAIN e.ret.hits :
            LET h == e.ret.hits IN
            /\ h[i].t >= 0 /\ h[i].t <= ClipAt(h, i - 1) + 2
            /\ h[i].c = 0 => i = Len(h)
      [] n = "c20_all" -> (op = "ray" /\ ~Stopped(e.ret.hits)) =>
            LET h == e.ret.hits
                m == MinClip(h)
                tol == 2 + (6 * 16384) \div Len2(Dir(a)) IN
            \A f \in Seen(pre) :
              LET due == {k \in 1..pre.F[f].nc :
                            LET t == SureHit(Child(pre, f, k), P1(a), Dir(a)) IN t >= 0 /\ t + tol < m}
              IN  Cardinality({i \in DOMAIN h : h[i].f = f}) >= Cardinality(due)
      \* --- C24 -------------------------------------------------------------
      [] n = "c24_events" -> op = "shift_origin" => e.ev = <<>>
      [] n = "c24_place" -> op = "shift_origin" => \A b \in DOMAIN pre.B :
            LET x == pre.B[b]  y == post.B[b] IN
            /\ \A i \in 1..2 : LET d == 64 * (IF i = 1 THEN a.x ELSE a.y) IN
                  NumNear(y.hp[i], x.hp[i] - d, 2) /\ NumNear(y.wc[i], x.wc[i] - d, 2)
            /\ y.pb[3] = x.pb[3] /\ y.q = x.q
      [] n = "c24_same" -> op = "shift_origin" =>
            /\ \A b \in DOMAIN pre.B : \A k \in {"ty", "en", "aw", "sl", "bu", "fr", "vb", "m", "I", "mdc", "lc", "fl", "cl"} :
                  post.B[b][k] = pre.B[b][k]
            /\ SameContacts(pre, post)
            /\ post.n = pre.n /\ post.bl = pre.bl /\ post.jl = pre.jl
      [] n = "c24_box" -> op = "shift_origin" => \A f \in DOMAIN pre.F :
            /\ Len(post.F[f].bi) = Len(pre.F[f].bi)
            /\ \A k \in DOMAIN pre.F[f].bi : \A i \in 1..4 :
                 NumNear(post.F[f].bi[k][i], pre.F[f].bi[k][i] - 2 * (IF i \in {1, 3} THEN a.x ELSE a.y), 1)
      [] n = "c24_joint" -> op = "shift_origin" => \A j \in DOMAIN pre.J :
            LET x == pre.J[j].x  y == post.J[j].x IN
            \A k \in DOMAIN x :
              IF k \in Placed THEN NumNear(y[k][1], x[k][1] - 4 * a.x, 2) /\ NumNear(y[k][2], x[k][2] - 4 * a.y, 2)
              ELSE IF k \in Measured THEN NumNear(y[k], x[k], 2)
              ELSE y[k] = x[k]
      \* --- C26 -------------------------------------------------------------
      [] n = "c26_pure" -> op = "save" => post = pre /\ e.ev = <<>> /\ e.ret.sc = e.ret.af
      [] n = "c26_load" -> op = "save" => SameScene(e.ret.sc, e.ret.ld)
      [] n = "c26_again" -> op = "save" => SameScene(e.ret.ld, e.ret.ag)
      \* --- C28 -------------------------------------------------------------
      [] n = "c28_pure" -> op = "draw" => post = pre /\ e.ev = <<>>
      [] op = "draw" /\ Bit(a.fl, 2) /\ \E j \in DOMAIN pre.J : Vague(pre.J[j]) -> TRUE
      [] n = "c28_count" -> op = "draw" => Cardinality(Expected(pre, a.fl)) = Len(e.ret.prims)
      [] n = "c28_missing" -> op = "draw" => \A x \in Expected(pre, a.fl) : \E i \in DOMAIN e.ret.prims : Shows(x, e.ret.prims[i])
      [] n = "c28_extra" -> op = "draw" =>
            LET E == Expected(pre, a.fl) IN \A i \in DOMAIN e.ret.prims : \E x \in E : Shows(x, e.ret.prims[i])
      [] OTHER -> Assert(FALSE, <<"unknown clause", n>>)

---------------------------------------------------------------------------
Init == TLCSet(1, 0) /\ l = 1 /\ g = TRUE

Next ==
    /\ l < Len(Tr)
    /\ LET e == Tr[l + 1]  pre == Tr[l].s IN
       IF e.op = "New" THEN l' = l + 1 /\ g' = TRUE
       ELSE IF ~g THEN l' = l + 1 /\ g' = g
       ELSE LET bad == {n \in Sel : ~Holds(n, pre, e)} IN
            IF bad = {} THEN l' = l + 1 /\ g' = g
            ELSE /\ PrintT(<<"VIOL", l + 1, bad>>) /\ TLCSet(1, TLCGet(1) + 1)
                 /\ l' = l + 1 /\ g' = FALSE

Spec == Init /\ [][Next]_<<l, g>>
Accepted == TLCGet("stats").diameter = Len(Tr) /\ TLCGet(1) = 0
=============================================================================
