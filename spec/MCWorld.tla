------------------------------- MODULE MCWorld -------------------------------
(* A closed model of a world: up to three bodies with one fixture each on a  *)
(* line of cells, driven by every public call that changes who may collide   *)
(* or who is awake, and by time steps with arbitrary motion and arbitrary    *)
(* decisions to sleep.                                                       *)
(*                                                                           *)
(* Contact upkeep is modelled the way the engine organises it: boxes are     *)
(* larger than the shapes and only replaced when left, candidate pairs come  *)
(* from a buffer of replaced boxes, contacts flagged by filter or joint      *)
(* changes are looked at again by the next step only, sleeping pairs are not *)
(* updated. The invariants say that these shortcuts do not show: contacts,   *)
(* events, islands are what the rules in World demand.                       *)
(*                                                                           *)
(* With GEN = TRUE motion is switched off, the history of calls is part of   *)
(* the state and every history of LEN calls is printed: these are replayed   *)
(* into the library and judged by TraceWorld.                                *)
EXTENDS World, Json, IOUtils

CONSTANTS CELLS, START, OPS, JOINTS, GEN, LEN

VARIABLES s,      \* the observable world, as in World (contacts keyed by pair)
          x,      \* cell of each body
          buf,    \* fixtures whose boxes were replaced since pairs were last looked for
          fresh,  \* a call asked for new pairs to be looked for first
          flag,   \* contacts to be filtered again
          fold,   \* pairs touching according to begin and end callbacks
          dc,     \* pairs of fixtures released by a destroyed joint, not yet re-inserted
          ph,     \* "idle", "collide" or "solve"
          todo,   \* contacts still to be updated in this step
          pos,    \* whether the step advances time
          act,    \* bodies awake and able to move when the step began
          done,   \* a step that advances time has just completed
          h       \* history of calls

vars == <<s, x, buf, fresh, flag, fold, dc, ph, todo, pos, act, done, h>>

Bs == DOMAIN START
FixId(b) == CASE b = "b1" -> "f1" [] b = "b2" -> "f2" [] b = "b3" -> "f3"

\* a shape reaches 1 to either side of 4 * cell, its new box 2
FreshBox(c) == <<4 * c - 2, 0, 4 * c + 2, 0>>
Ahead(c, d) == IF d > 0 THEN <<4 * c - 2, 0, 4 * c + 6, 0>>
               ELSE IF d < 0 THEN <<4 * c - 6, 0, 4 * c + 2, 0>> ELSE FreshBox(c)
Inside(c, bb) == bb[1] <= 4 * c - 1 /\ 4 * c + 1 <= bb[3]
Meets(xx, f, g, st) == xx[st.F[f].b] = xx[st.F[g].b]

NewFix(b, c, en) == [b |-> b, se |-> FALSE, cat |-> 1, mask |-> 65535, grp |-> 0, k |-> 0, q |-> 0,
                     nc |-> 1, bb |-> IF en THEN <<FreshBox(c)>> ELSE <<>>]
NewCon(f, g) == [k |-> {f, g}, fa |-> f, ia |-> 0, fb |-> g, ib |-> 0, t |-> FALSE, en |-> TRUE, np |-> 0]

Init ==
    /\ x = [b \in Bs |-> START[b].x]
    /\ s = [B |-> [b \in Bs |-> [ty |-> START[b].ty, en |-> TRUE, aw |-> START[b].ty # 0, sl |-> TRUE]],
            F |-> [f \in {FixId(b) : b \in Bs} |-> LET b == CHOOSE y \in Bs : FixId(y) = f IN NewFix(b, START[b].x, TRUE)],
            J |-> <<>>, C |-> <<>>, as |-> TRUE]
    /\ buf = {FixId(b) : b \in Bs} /\ fresh = TRUE /\ flag = {} /\ fold = {} /\ dc = {}
    /\ ph = "idle" /\ todo = {} /\ pos = FALSE /\ act = {} /\ done = FALSE /\ h = <<>>

Drop(f, S) == [k \in DOMAIN f \ S |-> f[k]]
Put(f, k, v) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN v ELSE f[y]]

---------------------------------------------------------------------------
(* Calls.                                                                    *)

BodyOps(b) ==
    {[op |-> "set_awake", b |-> b, v |-> v] : v \in BOOLEAN}
    \cup {[op |-> "set_enabled", b |-> b, v |-> v] : v \in BOOLEAN}
    \cup {[op |-> "set_transform", b |-> b, c |-> c] : c \in CELLS}
    \cup {[op |-> "set_sleeping_allowed", b |-> b, v |-> v] : v \in BOOLEAN}
    \cup {[op |-> "destroy_body", b |-> b]}
    \cup (IF FixId(b) \in DOMAIN s.F THEN {} ELSE {[op |-> "create_fixture", b |-> b, id |-> FixId(b)]})

\* (apart, as its argument is of another type)
TypeOps == {[op |-> "set_type", b |-> b, v |-> v] : b \in DOMAIN s.B, v \in 0..2}

FixOps(f) ==
    {[op |-> "set_sensor", f |-> f, v |-> ~s.F[f].se], [op |-> "destroy_fixture", f |-> f],
     [op |-> "set_filter", f |-> f, cat |-> 1, mask |-> IF s.F[f].mask = 0 THEN 65535 ELSE 0, grp |-> 0],
     [op |-> "refilter", f |-> f]}

JointOps ==
    UNION {IF j \in DOMAIN s.J THEN {[op |-> "destroy_joint", j |-> j]}
           ELSE {[op |-> "create_joint", id |-> j, a |-> q[1], b |-> q[2], cc |-> cc] :
                   q \in {p \in (DOMAIN s.B) \X (DOMAIN s.B) : p[1] # p[2] /\ (p[1] = "b1" \/ (p[1] = "b2" /\ p[2] = "b3"))}, cc \in BOOLEAN} : j \in JOINTS}

Calls == UNION {BodyOps(b) : b \in DOMAIN s.B} \cup UNION {FixOps(f) : f \in DOMAIN s.F} \cup JointOps
         \cup {[op |-> "set_allow_sleeping", v |-> ~s.as]}

\* who the world keeps after a call, with awake flags from World
Call(o) ==
    LET lost == ContactsDropped(s, o.op, o)
        deadJ == JointsDropped(s, o.op, o)
        deadF == FixturesDropped(s, o.op, o)
        live == IF o.op = "destroy_body" THEN DOMAIN s.B \ {o.b} ELSE DOMAIN s.B
        aw == AwakeAfter(s, o.op, o, live)
        b1 == [b \in live |-> [s.B[b] EXCEPT !.aw = aw[b],
                  !.en = IF o.op = "set_enabled" /\ o.b = b THEN o.v ELSE @,
                  !.ty = IF o.op = "set_type" /\ o.b = b THEN o.v ELSE @,
                  !.sl = IF o.op = "set_sleeping_allowed" /\ o.b = b THEN o.v ELSE @]]
        x1 == IF o.op = "set_transform" THEN [x EXCEPT ![o.b] = o.c] ELSE x
        kept == DOMAIN s.F \ deadF
        box(f) == LET F == s.F[f] IN
            IF o.op = "set_enabled" /\ F.b = o.b
            THEN IF o.v = s.B[o.b].en THEN F.bb ELSE IF o.v THEN <<FreshBox(x[o.b])>> ELSE <<>>
            ELSE IF o.op = "set_transform" /\ F.b = o.b /\ F.bb # <<>> /\ ~Inside(o.c, F.bb[1])
            THEN <<FreshBox(o.c)>> ELSE F.bb
        f1 == [f \in kept |-> [s.F[f] EXCEPT !.bb = box(f),
                  !.se = IF o.op = "set_sensor" /\ o.f = f THEN o.v ELSE @,
                  !.mask = IF o.op = "set_filter" /\ o.f = f THEN o.mask ELSE @]]
        f2 == IF o.op = "create_fixture" THEN Put(f1, o.id, NewFix(o.b, x[o.b], s.B[o.b].en)) ELSE f1
        j1 == IF o.op = "create_joint" THEN Put(s.J, o.id, [a |-> o.a, b |-> o.b, cc |-> o.cc]) ELSE Drop(s.J, deadJ)
        c1 == Drop(s.C, lost)
        moved == {f \in DOMAIN f2 : f \notin DOMAIN s.F \/ f2[f].bb # s.F[f].bb}
        touchd == CASE o.op \in {"refilter", "set_filter"} -> {o.f}
                    [] o.op = "set_type" /\ o.v # s.B[o.b].ty -> {f \in kept : s.F[f].b = o.b}
                    [] OTHER -> {}
        refl == CASE o.op \in {"refilter", "set_filter"} -> {k \in DOMAIN c1 : o.f \in k}
                  [] o.op = "create_joint" /\ ~o.cc -> {k \in DOMAIN c1 : ContactBodies(s, c1[k]) = {o.a, o.b}}
                  [] OTHER -> {}
        freed == {{s.J[j].a, s.J[j].b} : j \in {y \in deadJ : ~s.J[y].cc}}
        ndc == {{f, g} : f, g \in {y \in kept : \E q \in freed : s.F[y].b \in q}}
    IN  /\ s' = [B |-> b1, F |-> f2, J |-> j1, C |-> c1,
                 as |-> IF o.op = "set_allow_sleeping" THEN o.v ELSE s.as]
        /\ x' = [b \in live |-> x1[b]]
        /\ buf' = {f \in (buf \cup moved \cup touchd) \cap DOMAIN f2 : f2[f].bb # <<>>}
        /\ fresh' = (fresh \/ o.op \in {"create_fixture", "set_transform"} \/ (o.op = "set_enabled" /\ o.v))
        /\ flag' = (flag \cup refl) \ lost
        /\ fold' = fold \ lost
        /\ dc' = {q \in dc \cup ndc : Cardinality(q) = 2 /\ q \subseteq DOMAIN f2 /\ q \cap moved = {}}

Api ==
    /\ ph = "idle" /\ (GEN => Len(h) < LEN)
    /\ \/ \E o \in Calls : o.op \in OPS /\ Call(o) /\ h' = IF GEN THEN Append(h, o) ELSE h
       \/ \E o \in TypeOps : o.op \in OPS /\ Call(o) /\ h' = IF GEN THEN Append(h, o) ELSE h
    /\ done' = FALSE
    /\ UNCHANGED <<ph, todo, pos, act>>

---------------------------------------------------------------------------
(* A time step.                                                              *)

\* contacts for candidate pairs of the buffer
WithPairs(st, bf) ==
    LET bl == Blocked(st)
        new == {q \in {{f, g} : f \in bf, g \in DOMAIN st.F} :
                  /\ Cardinality(q) = 2 /\ q \notin DOMAIN st.C
                  /\ LET f == CHOOSE y \in q : TRUE  g == CHOOSE y \in q : y # f
                     IN  FatMeet(st, f, 0, g, 0) /\ Eligible(st, 0, bl, f, g)}
    IN  [st EXCEPT !.C = [k \in DOMAIN st.C \cup new |->
            IF k \in DOMAIN st.C THEN st.C[k]
            ELSE LET f == CHOOSE y \in k : TRUE  g == CHOOSE y \in k : y # f IN NewCon(f, g)]]

Begin ==
    /\ ph = "idle" /\ (GEN => Len(h) < LEN)
    /\ "step" \in OPS
    /\ \E p \in (IF "pause" \in OPS THEN BOOLEAN ELSE {TRUE}) :
          pos' = p /\ h' = IF GEN THEN Append(h, [op |-> "step", dt |-> IF p THEN 16 ELSE 0]) ELSE h
    /\ s' = IF fresh THEN WithPairs(s, buf) ELSE s
    /\ buf' = IF fresh THEN {} ELSE buf
    /\ act' = {b \in DOMAIN s.B : Active(s, b)}
    /\ fresh' = FALSE /\ ph' = "collide" /\ todo' = DOMAIN s'.C /\ done' = FALSE
    /\ UNCHANGED <<x, flag, fold, dc>>

\* some contact is updated: filtered again if flagged, dropped when the boxes
\* part, otherwise re-evaluated if one of the bodies is awake and can move
Update ==
    /\ ph = "collide" /\ todo # {}
    /\ \E k \in (IF GEN THEN {CHOOSE y \in todo : TRUE} ELSE todo) :
         LET c == s.C[k]
             ok == Eligible(s, 0, Blocked(s), c.fa, c.fb)
             gone == \/ (k \in flag /\ ~ok)
                     \/ (PairActive(s, c) /\ ~FatMeet(s, c.fa, 0, c.fb, 0))
             t == Meets(x, c.fa, c.fb, s)
             wakes == {b \in ContactBodies(s, c) : s.B[b].ty # 0}
             stir == Solid(s, c) /\ (IF gone THEN c.np > 0 ELSE t # c.t)
         IN
         /\ todo' = todo \ {k}
         /\ IF ~gone /\ ~PairActive(s, c)
            THEN UNCHANGED <<s, fold>> /\ flag' = (IF k \in flag /\ ok THEN flag \ {k} ELSE flag)
            ELSE /\ s' = [s EXCEPT !.C = IF gone THEN Drop(@, {k})
                                        ELSE [@ EXCEPT ![k] = [c EXCEPT !.t = t, !.np = IF t /\ Solid(s, c) THEN 1 ELSE 0]],
                                   !.B = [b \in DOMAIN @ |-> IF stir /\ b \in wakes THEN [@[b] EXCEPT !.aw = TRUE] ELSE @[b]]]
                 /\ fold' = IF gone \/ ~t THEN fold \ {k} ELSE fold \cup {k}
                 /\ flag' = flag \ {k}
    /\ UNCHANGED <<x, buf, fresh, dc, ph, pos, act, done, h>>

Collided ==
    /\ ph = "collide" /\ todo = {}
    /\ ph' = IF pos THEN "solve" ELSE "idle"
    /\ act' = IF pos THEN act ELSE {}
    /\ UNCHANGED <<s, x, buf, fresh, flag, fold, dc, todo, pos, done, h>>

\* every island with an awake body is woken; it then either moves or, if
\* sleeping is allowed for all of it, may fall asleep where it is
Solve ==
    /\ ph = "solve"
    /\ LET comps == {q \in Components(s) : \E b \in q : s.B[b].aw}
           may == {q \in comps : s.as /\ \A b \in q : s.B[b].sl}
       IN
       \E asleep \in (IF GEN THEN {{}} ELSE SUBSET may) :
         LET run == (UNION comps) \ (UNION asleep) IN
         \E mv \in (IF GEN THEN {[b \in run |-> 0]} ELSE [run -> {-1, 0, 1}]) :
           /\ \A b \in run : x[b] + mv[b] \in CELLS
           /\ x' = [b \in DOMAIN x |-> IF b \in run THEN x[b] + mv[b] ELSE x[b]]
           /\ LET b1 == [b \in DOMAIN s.B |-> IF b \in UNION asleep THEN [s.B[b] EXCEPT !.aw = FALSE]
                                              ELSE IF b \in run THEN [s.B[b] EXCEPT !.aw = TRUE] ELSE s.B[b]]
                  f1 == [f \in DOMAIN s.F |-> LET F == s.F[f] IN
                            IF F.b \in run /\ ~Inside(x'[F.b], F.bb[1])
                            THEN [F EXCEPT !.bb = <<Ahead(x'[F.b], mv[F.b])>>] ELSE F]
                  mvd == {f \in DOMAIN s.F : f1[f].bb # s.F[f].bb}
              IN  /\ s' = WithPairs([s EXCEPT !.B = b1, !.F = f1], buf \cup mvd)
                  /\ dc' = {q \in dc : q \cap mvd = {}}
    /\ buf' = {} /\ ph' = "idle" /\ done' = TRUE /\ act' = {}
    /\ UNCHANGED <<fresh, flag, fold, todo, pos, h>>

\* histories of full length are handed to the replay
Emit == GEN /\ ph = "idle" /\ Len(h) = LEN /\ PrintT(<<"HIST", ToJson(h)>>) /\ UNCHANGED vars

Next == Api \/ Begin \/ Update \/ Collided \/ Solve \/ Emit
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* What users rely on.                                                       *)

Idle == ph = "idle"

Graph ==        \* C01, C07: everything refers to living objects
    /\ \A f \in DOMAIN s.F : s.F[f].b \in DOMAIN s.B
    /\ \A j \in DOMAIN s.J : {s.J[j].a, s.J[j].b} \subseteq DOMAIN s.B
    /\ \A k \in DOMAIN s.C : k \subseteq DOMAIN s.F
    /\ flag \subseteq DOMAIN s.C /\ buf \subseteq DOMAIN s.F
Pairs ==        \* C02, C08: no eligible pair with overlapping boxes is missed
    done => MissingPairs(s, 0) \subseteq {{<<f, 0>> : f \in q} : q \in dc}
NoOther ==      \* C02, C05, C06: and after a step no other pair has a contact
    (Idle /\ done) => \A k \in DOMAIN s.C : Eligible(s, 0, Blocked(s), s.C[k].fa, s.C[k].fb)
Events ==       \* C03: the callbacks tell which contacts touch
    Idle => fold = {k \in DOMAIN s.C : s.C[k].t}
Separate ==     \* C03: contacts of active bodies touch exactly if the shapes overlap
    (ph = "solve") => \A k \in DOMAIN s.C : ContactBodies(s, s.C[k]) \cap act # {} =>
        s.C[k].t = Meets(x, s.C[k].fa, s.C[k].fb, s)
Absent ==       \* C08: disabled bodies take no part
    \A b \in DOMAIN s.B : ~s.B[b].en =>
        /\ \A f \in DOMAIN s.F : s.F[f].b = b => s.F[f].bb = <<>>
        /\ \A k \in DOMAIN s.C : b \notin ContactBodies(s, s.C[k])
Islands ==      \* C09: islands sleep and wake as one
    done => \A q \in Components(s) : \A a, b \in q : s.B[a].aw = s.B[b].aw
Static ==       \* C10: static bodies are never awake
    \A b \in DOMAIN s.B : s.B[b].ty = 0 => ~s.B[b].aw
Boxes ==        \* every box contains its shape
    Idle => \A f \in DOMAIN s.F : s.F[f].bb # <<>> => Inside(x[s.F[f].b], s.F[f].bb[1])
=============================================================================
