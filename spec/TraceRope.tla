----------------------------- MODULE TraceRope ------------------------------
(* Recorded ropes (C27). Every event carries the call and what the rope then *)
(* draws: p points (2^16), b their bits, c colours, g segments, fin finite.  *)
EXTENDS Rope, FiniteSets, TLC, Json, IOUtils

Tr == ndJsonDeserialize(IOEnv.TRACE)
Clauses == [C27 |-> {"c27_panic", "c27_finite", "c27_draw", "c27_fixed", "c27_bind", "c27_same", "c27_step", "c27_length"}]
Sel == Clauses[IOEnv.PROP]

VARIABLES l, g       \* g: [ok, R]

Tol(R, p, q, i) == 96 + (FAbs(q[i][1] - p[i][1]) + FAbs(q[i][2] - p[i][2])) \div 64
Known(R) == R # <<>>
\* the point masses are moderate, so that many iterations leave no visible stretch
Alike(R) == \A i \in DOMAIN R.w : \A j \in DOMAIN R.w : R.w[i] = 0 \/ R.w[j] = 0 \/ R.w[i] <= 4 * R.w[j]

Holds(n, R, s, e, R2) ==
    CASE n = "c27_panic" -> e.r = "ok"
      [] n = "c27_finite" -> e.s.fin
      [] n = "c27_draw" ->      \* each point once in the colour of its kind, each pair of neighbours joined once
            /\ Len(e.s.p) = Len(R2.b) /\ e.s.o = 0
            /\ e.s.g = [i \in 1..(Len(e.s.p) - 1) |-> <<e.s.b[i], e.s.b[i + 1]>>]
            /\ \A i, j \in DOMAIN R2.w : (R2.w[i] = 0) = (R2.w[j] = 0) <=> e.s.c[i] = e.s.c[j]
      [] n = "c27_fixed" -> (e.op = "step" /\ e.a.dt > 0) =>
            \A i \in DOMAIN R.w : R.w[i] = 0 => \A k \in {1, 2} : Near(e.s.p[i][k], R.b[i][k] + e.a.at[k] * 256, 4)
      [] n = "c27_bind" -> (e.op \in {"create", "reset"}) =>
            \A i \in DOMAIN R2.b : \A k \in {1, 2} : Near(e.s.p[i][k], R2.b[i][k] + e.a.at[k] * 256, 1)
      [] n = "c27_same" -> (e.op = "tune" \/ (e.op = "step" /\ e.a.dt = 0)) => e.s.b = s.b
      [] n = "c27_step" -> (e.op = "step" /\ e.a.dt > 0 /\ e.a.it <= 8) =>
            LET t == Step(R, s.p, e.a) IN
            t.ok => \A i \in DOMAIN t.p : \A k \in {1, 2} : Near(t.p[i][k], e.s.p[i][k], Tol(R, s.p, t.p, i))
      [] n = "c27_length" -> (e.op = "step" /\ e.a.dt > 0 /\ e.a.it >= 100 /\ Alike(R)) =>
            \A i \in DOMAIN R.len : Near(Norm(Sub(e.s.p[i + 1], e.s.p[i])), R.len[i], 64 + R.len[i] \div 100)

After(R, s, e) ==
    CASE e.op = "create" -> Rope(e.a)
      [] e.op = "tune" -> [R EXCEPT !.t = e.a.t]
      [] e.op = "reset" -> [R EXCEPT !.u = [i \in DOMAIN R.b |-> <<0, 0>>], !.h = 16]
      [] e.op = "step" /\ e.a.dt > 0 -> [R EXCEPT !.u = [i \in DOMAIN R.b |-> Sub(e.s.p[i], s.p[i])], !.h = e.a.dt]
      [] OTHER -> R
\* explicit springs and overconstrained ropes may blow up; such ropes are followed no further
Calm(s) == \A i \in DOMAIN s.p : FAbs(s.p[i][1]) < 2000000 /\ FAbs(s.p[i][2]) < 2000000
Slow(s, e) == \A i \in DOMAIN s.p : FAbs(s.p[i][1] - e.s.p[i][1]) < 400000 /\ FAbs(s.p[i][2] - e.s.p[i][2]) < 400000
Shaped(R2, e) == e.r = "ok" /\ e.s.fin /\ Len(e.s.p) = Len(R2.b)
Fresh == [ok |-> TRUE, R |-> <<>>]
Init == TLCSet(1, 0) /\ l = 1 /\ g = Fresh

Next ==
    /\ l < Len(Tr)
    /\ LET e == Tr[l + 1] IN
       IF e.op = "New" THEN l' = l + 1 /\ g' = Fresh
       ELSE IF ~g.ok THEN l' = l + 1 /\ g' = g
       ELSE LET s == Tr[l].s
                R0 == IF e.op \in {"create", "tune", "reset"} THEN After(g.R, s, e) ELSE g.R
                bad == IF e.r # "ok" THEN Sel \cap {"c27_panic"}
                       ELSE IF ~e.s.fin THEN Sel \cap {"c27_finite"}
                       ELSE IF ~Shaped(R0, e) THEN Sel \cap {"c27_draw"}
                       ELSE {n \in Sel : ~Holds(n, g.R, s, e, R0)}
                wild == e.op = "step" /\ Shaped(R0, e) /\ ~(Calm(e.s) /\ Slow(s, e))
            IN  IF bad = {} THEN l' = l + 1 /\ g' = [g EXCEPT !.R = IF wild THEN @ ELSE After(@, s, e), !.ok = ~wild]
                ELSE /\ PrintT(<<"VIOL", l + 1, bad>>) /\ TLCSet(1, TLCGet(1) + 1)
                     /\ l' = l + 1 /\ g' = [g EXCEPT !.ok = FALSE]

Spec == Init /\ [][Next]_<<l, g>>
Accepted == TLCGet("stats").diameter = Len(Tr) /\ TLCGet(1) = 0
=============================================================================
