----------------------------- MODULE TraceTree ------------------------------
(* Judges recorded histories of the broad phase against Broad (C19).         *)
(* Ghost: tight: the box last given for each proxy, pend: proxies created,   *)
(* touched or re-inserted since the last update, mv: proxies of the separate *)
(* tree that are marked as moved, rb: tree was rebuilt.                      *)
EXTENDS Broad, TLC, Json, IOUtils

Tr == ndJsonDeserialize(IOEnv.TRACE)
Sel == {"panic", "live", "contain", "stored", "others", "pairs", "nopair", "query", "ray", "shift", "structure", "balance", "data",
        "own", "moved", "overlap"}

VARIABLES l, g
Range(q) == {q[i] : i \in DOMAIN q}

Boxes(s) == [p \in DOMAIN s.P |-> s.P[p].bb]
Changed(pre, post) == {p \in DOMAIN post.P : p \in DOMAIN pre.P => pre.P[p].bb # post.P[p].bb}

NewGhost == [live |-> {}, tight |-> <<>>, pend |-> {}, mv |-> {}, rb |-> FALSE, ok |-> TRUE]

GhostAfter(gh, pre, e) ==
    LET a == e.a  op == e.op IN
    CASE op = "create" -> [gh EXCEPT !.live = @ \cup {a.id}, !.tight = [p \in gh.live \cup {a.id} |-> IF p = a.id THEN e.tb ELSE gh.tight[p]],
                                     !.pend = @ \cup {a.id}, !.mv = @ \cup {a.id}]
      [] op = "destroy" -> [gh EXCEPT !.live = @ \ {a.p}, !.tight = [p \in gh.live \ {a.p} |-> gh.tight[p]], !.pend = @ \ {a.p}, !.mv = @ \ {a.p}]
      [] op = "move" -> [gh EXCEPT !.tight[a.p] = e.tb, !.pend = @ \cup Changed(pre, e.s), !.mv = @ \cup Changed(pre, e.s)]
      [] op = "clear" -> [gh EXCEPT !.mv = @ \ {a.p}]
      [] op = "touch" -> [gh EXCEPT !.pend = @ \cup {a.p}]
      [] op = "update" -> [gh EXCEPT !.pend = {}]
      \* after a shift the boxes given before are no longer known exactly
      [] op = "shift" -> [gh EXCEPT !.tight = [p \in gh.live |-> <<>>]]
      [] op = "rebuild" -> [gh EXCEPT !.rb = TRUE]
      [] OTHER -> gh

T4(a) == <<a.x1 * 4, a.y1 * 4, a.x2 * 4, a.y2 * 4>>

Holds(n, gh, gn, pre, e) ==
    LET post == e.s  a == e.a  op == e.op  box == Boxes(post) IN
    CASE n = "panic" -> e.r = "ok"
      [] e.r # "ok" -> TRUE
      [] n = "live" -> DOMAIN post.P = gn.live /\ post.n = Cardinality(gn.live) /\ post.uniq = Cardinality(gn.live)
      [] n = "data" -> \A p \in DOMAIN post.P : post.P[p].ud
      [] n = "contain" -> \A p \in DOMAIN post.P : gn.tight[p] # <<>> => Inside(gn.tight[p], box[p])
      [] n = "stored" ->
            \* a new or re-inserted proxy gets exactly the documented box; one that still fits keeps it
            CASE op = "create" -> NearBox(post.P[a.id].bi, Fat(T4(a)), 2)
              [] op = "move" ->
                   LET want == Stretch(Fat(T4(a)), 4 * a.dx, 4 * a.dy)
                       kept == post.P[a.p].bb = pre.P[a.p].bb
                       fits == Inside(e.tb, pre.P[a.p].bb)
                       small == \A i \in 1..2 : pre.P[a.p].bi[i] >= Huge(want)[i] + 3 /\ pre.P[a.p].bi[i + 2] <= Huge(want)[i + 2] - 3
                       large == \E i \in 1..2 : pre.P[a.p].bi[i] < Huge(want)[i] - 3 \/ pre.P[a.p].bi[i + 2] > Huge(want)[i + 2] + 3
                   IN  /\ (fits /\ small) => kept
                       /\ (~fits \/ large) => NearBox(post.P[a.p].bi, want, 3)
                       /\ kept \/ NearBox(post.P[a.p].bi, want, 3)
              [] OTHER -> TRUE
      [] n = "others" ->
            op # "shift" => \A p \in DOMAIN post.P : (p \in DOMAIN pre.P /\ ~(op = "move" /\ a.p = p)) => post.P[p].bb = pre.P[p].bb
      [] n = "pairs" -> op = "update" => Due(box, gh.pend) \subseteq {Range(q) : q \in Range(e.ret.pairs)}
      [] n = "nopair" -> op = "update" => \A q \in Range(e.ret.pairs) :
               q[1] \in gn.live /\ q[2] \in gn.live /\ q[1] # q[2] /\ Meet(box[q[1]], box[q[2]])
      [] n = "query" ->
            op = "query" =>
              LET want == {p \in gn.live : Meet(box[p], e.ret.qb)}
                  hits == Range(e.ret.hits)  k == Len(e.ret.hits)
              IN  /\ k = Cardinality(hits) /\ hits \subseteq want
                  /\ IF a.stop = 0 \/ a.stop > Cardinality(want) THEN hits = want ELSE k = a.stop
      [] n = "ray" ->
            op = "ray" =>
              LET f0 == IF a.pol = "clip" /\ a.clip < a.mf THEN a.clip ELSE a.mf
                  b4(p) == [i \in 1..4 |-> post.P[p].bi[i] \div 4]
                  surely(f) == {p \in gn.live : SegMeets(a.x1, a.y1, a.x2, a.y2, f, b4(p), -2)}
                  maybe(f) == {p \in gn.live : SegMeets(a.x1, a.y1, a.x2, a.y2, f, b4(p), 2)}
                  hits == Range(e.ret.hits)  k == Len(e.ret.hits)
              IN  /\ k = Cardinality(hits) /\ hits \subseteq maybe(a.mf)
                  /\ a.pol \in {"all", "ignore"} => surely(a.mf) \subseteq hits
                  /\ a.pol = "stop" => (k <= a.stop /\ (k < a.stop => surely(a.mf) \subseteq hits))
                  /\ a.pol = "clip" => (surely(f0) \subseteq hits /\ \A i \in 2..k : e.ret.hits[i] \in maybe(f0))
                  /\ k >= 1 => e.ret.mf[1] = a.mf
                  /\ \A i \in 2..k : e.ret.mf[i] = f0
      [] n = "shift" ->
            op = "shift" => \A p \in DOMAIN post.P :
               NearBox(post.P[p].bi, [i \in 1..4 |-> pre.P[p].bi[i] - 4 * (IF i \in {1, 3} THEN a.dx ELSE a.dy)], 2)
      [] n = "structure" -> post.valid /\ (gn.live # {} => post.q >= 256)
      [] n = "balance" -> ~gn.rb => post.h <= 2 * Log2(Cardinality(gn.live)) + 4
      \* a tree used on its own, given the same calls, stores and finds the same
      [] n = "own" -> /\ \A p \in DOMAIN post.P : post.P[p].ob = post.P[p].bb /\ post.P[p].od
                      /\ (op = "query" /\ a.stop = 0) => (Len(e.ret.own) = Len(e.ret.hits) /\ Range(e.ret.own) = Range(e.ret.hits))
                      /\ (op = "ray" /\ a.pol = "all") => (Len(e.ret.own) = Len(e.ret.hits) /\ Range(e.ret.own) = Range(e.ret.hits))
                      /\ gn.live # {} => (post.oq >= 256 /\ post.obal < FMax(post.oh, 1) /\ post.bal < FMax(post.h, 1))
                      /\ ~gn.rb => post.oh <= 2 * Log2(Cardinality(gn.live)) + 4
      [] n = "moved" -> {p \in DOMAIN post.P : post.P[p].mv} = gn.mv /\ (op = "move" => e.ret.moved = (Changed(pre, post) # {}))
      [] n = "overlap" -> op = "overlap" => Range(e.ret.pairs) = {q \in gn.live \X gn.live : Meet(box[q[1]], box[q[2]])}
      [] OTHER -> Assert(FALSE, <<"unknown clause", n>>)

Init == TLCSet(1, 0) /\ l = 1 /\ g = NewGhost

Next ==
    /\ l < Len(Tr)
    /\ LET e == Tr[l + 1]  pre == Tr[l].s IN
       IF e.op = "New"
       THEN l' = l + 1 /\ g' = NewGhost
       ELSE IF ~g.ok
       THEN l' = l + 1 /\ g' = g
       ELSE LET gn == IF e.r = "ok" THEN GhostAfter(g, pre, e) ELSE [g EXCEPT !.ok = FALSE]
                \* the other clauses are stated for the expected set of proxies
                bad == IF Holds("panic", g, gn, pre, e) /\ Holds("live", g, gn, pre, e)
                       THEN {n \in Sel : ~Holds(n, g, gn, pre, e)} ELSE {"live"}
            IN  IF bad = {} THEN l' = l + 1 /\ g' = gn
                ELSE /\ PrintT(<<"VIOL", l + 1, bad>>) /\ TLCSet(1, TLCGet(1) + 1)
                     /\ l' = l + 1 /\ g' = [g EXCEPT !.ok = FALSE]

Spec == Init /\ [][Next]_<<l, g>>
Accepted == TLCGet("stats").diameter = Len(Tr) /\ TLCGet(1) = 0
=============================================================================
