----------------------------- MODULE TraceTwin ------------------------------
(* Two worlds fed with the same calls (C25: one of them is also read, drawn, *)
(* queried and saved while unrelated worlds run; C24: the origin of one is   *)
(* shifted). The specification is the product of a world with itself: its    *)
(* state is a function of the calls, so both components agree, exactly or up *)
(* to the shift. s, ev, r: first world; t, evb, rb: second world.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Tr == ndJsonDeserialize(IOEnv.TRACE)
Clauses == [C24 |-> {"c24_outcome", "c24_follow", "c24_life"},
            C25 |-> {"c25_outcome", "c25_events", "c25_state"}]
Sel == Clauses[IOEnv.PROP]

VARIABLES l, g      \* g: [ok, sx, sy, lost]: accumulated shift of the first world (1/256 m), and
                    \* whether rounding has driven the two worlds visibly apart, after which
                    \* a collision or a strained joint may separate them further

Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y, t) == Abs(x - y) <= t
Together(gn, e, tp, tv) == \A b \in DOMAIN e.s.B :
    LET p == e.s.B[b].p q == e.t.B[b].p v == e.s.B[b].v w == e.t.B[b].v IN
    /\ Near(p[1] + 4 * gn.sx, q[1], tp) /\ Near(p[2] + 4 * gn.sy, q[2], tp)
    /\ \A k \in 1..3 : Near(v[k], w[k], tv)

Holds(n, gn, e) ==
    CASE n \in {"c24_outcome", "c25_outcome"} -> e.r = e.rb
      [] n = "c25_events" -> e.ev = e.evb
      [] n = "c25_state" -> e.cmp => e.s = e.t
      [] n = "c24_follow" -> (e.cmp /\ e.r = "ok" /\ e.rb = "ok" /\ ~g.lost) => Together(gn, e, 16, 1024 * 1024)
      [] n = "c24_life" -> (e.cmp /\ e.r = "ok" /\ e.rb = "ok") =>
            /\ DOMAIN e.s.B = DOMAIN e.t.B
            /\ \A b \in DOMAIN e.s.B : \A k \in {"ty", "en", "sl", "bu", "fr"} : e.s.B[b][k] = e.t.B[b][k]

Moved(gh, e) == IF e.op = "shift_origin" /\ e.t # <<>> THEN [gh EXCEPT !.sx = @ + e.a.x, !.sy = @ + e.a.y] ELSE gh
After(gh, e) == LET gn == Moved(gh, e) IN
    IF e.cmp /\ e.r = "ok" /\ IOEnv.PROP = "C24" THEN [gn EXCEPT !.lost = @ \/ ~Together(gn, e, 1, 16)] ELSE gn
Fresh == [ok |-> TRUE, sx |-> 0, sy |-> 0, lost |-> FALSE]

Init == TLCSet(1, 0) /\ l = 1 /\ g = Fresh

Next ==
    /\ l < Len(Tr)
    /\ LET e == Tr[l + 1] IN
       IF e.op = "New" THEN l' = l + 1 /\ g' = Fresh
       ELSE IF ~g.ok THEN l' = l + 1 /\ g' = g
       ELSE LET gn == After(g, e)
                bad == {n \in Sel : ~Holds(n, gn, e)}
            IN  IF bad = {} THEN l' = l + 1 /\ g' = gn
                ELSE /\ PrintT(<<"VIOL", l + 1, bad>>) /\ TLCSet(1, TLCGet(1) + 1)
                     /\ l' = l + 1 /\ g' = [g EXCEPT !.ok = FALSE]

Spec == Init /\ [][Next]_<<l, g>>
Accepted == TLCGet("stats").diameter = Len(Tr) /\ TLCGet(1) = 0
=============================================================================
