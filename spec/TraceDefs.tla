----------------------------- MODULE TraceDefs ------------------------------
(* Recorded definitions and settings (C29): s is everything the getters of   *)
(* the world, its bodies, fixtures and joints report, d the definitions as   *)
(* they come.                                                                *)
EXTENDS Defs, FiniteSets, TLC, Json, IOUtils

Tr == ndJsonDeserialize(IOEnv.TRACE)
Clauses == [C29 |-> {"c29_panic", "c29_default", "c29_world", "c29_body", "c29_fixture", "c29_joint"}]
Sel == Clauses[IOEnv.PROP]

VARIABLES l, g       \* g: [ok, G]

\* Bodies with what is not known here adopted: the linear velocity of a spinning body with a new centre of mass and,
\* once time has passed, motion and sleep.
Adopt(G, G2, e) ==
    [G2 EXCEPT !.B = [b \in DOMAIN @ |->
        IF b \notin DOMAIN e.s.B THEN @[b]
        ELSE IF G2.run THEN LET x == e.s.B[b] IN [@[b] EXCEPT !.p = x.p, !.tp = x.p, !.an = x.an, !.v = x.v, !.w = x.w, !.aw = x.aw]
        ELSE IF b \in Recentred(G, e.op, e.a) /\ @[b].ty # 0 THEN [@[b] EXCEPT !.v = e.s.B[b].v] ELSE @[b]]]

Same(x, y) == DOMAIN x = DOMAIN y /\ \A k \in DOMAIN x : x[k] = y[k]

Holds(n, e, G2) ==
    CASE n = "c29_panic" -> e.r = "ok"
      [] n = "c29_default" -> ("d" \in DOMAIN e) => e.d = Defaults
      [] n = "c29_world" -> e.s.W = G2.W
      [] n = "c29_body" -> Same(e.s.B, G2.B)
      [] n = "c29_fixture" -> Same(e.s.F, G2.F)
      [] n = "c29_joint" -> Same(e.s.J, Joints(G2))

Init == TLCSet(1, 0) /\ l = 0 /\ g = [ok |-> FALSE, G |-> Start(O)]

Next ==
    /\ l < Len(Tr)
    /\ LET e == Tr[l + 1] IN
       IF e.op # "New" /\ ~g.ok THEN l' = l + 1 /\ g' = g
       ELSE LET G2 == IF e.op = "New" THEN Start(e.a.g) ELSE Step(g.G, e.op, e.a)
                G3 == IF e.r = "ok" /\ e.op # "New" THEN Adopt(g.G, G2, e) ELSE G2
                bad == IF e.r # "ok" THEN Sel \cap {"c29_panic"} ELSE {n \in Sel : ~Holds(n, e, G3)}
            IN  IF bad = {} THEN l' = l + 1 /\ g' = [ok |-> TRUE, G |-> G3]
                ELSE /\ PrintT(<<"VIOL", l + 1, bad>>) /\ TLCSet(1, TLCGet(1) + 1)
                     /\ l' = l + 1 /\ g' = [g EXCEPT !.ok = FALSE]

Spec == Init /\ [][Next]_<<l, g>>
Accepted == TLCGet("stats").diameter = Len(Tr) + 1 /\ TLCGet(1) = 0
=============================================================================
