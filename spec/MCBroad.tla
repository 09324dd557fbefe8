------------------------------ MODULE MCBroad -------------------------------
(* Closed model of the broad phase: proxies on a line of cells, their stored *)
(* (stretched) boxes, the queue of proxies to be paired (with repetitions)   *)
(* and the moved flags that avoid reporting a pair twice. Every order of     *)
(* internal ids is explored, because the flag compares ids.                  *)
(* With GEN the histories of LEN calls are printed; they are replayed into   *)
(* the library and judged by TraceTree.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS SLOTS, CELLS, SETUP, GEN, LEN, QMAX

VARIABLES t,      \* slot -> cell of the box last given; slots are internal ids
          b,      \* slot -> stored box <<lo, hi>> in cells
          q,      \* slots queued for pairing, in order, 0 where the proxy has gone
          mv,     \* slots flagged as moved
          pend,   \* ghost: created, touched or re-inserted since the last update
          rep,    \* pairs reported by the last update, in order
          due,    \* ghost: pairs it had to report
          nm,     \* slot -> name of the proxy in the history
          made, h
vars == <<t, b, q, mv, pend, rep, due, nm, made, h>>

Live == DOMAIN t
Steps == {-1, 0, 1}
Min(a, c) == IF a < c THEN a ELSE c
Max(a, c) == IF a < c THEN c ELSE a
Stored(c, d) == <<Min(c, c + d), Max(c, c + d)>>
Meet(x, y) == x[1] <= y[2] /\ y[1] <= x[2]
Within(c, x) == x[1] <= c /\ c <= x[2]
Part(x, y) == y[1] <= x[1] /\ x[2] <= y[2]

Note(op) == h' = IF GEN THEN Append(h, op) ELSE h
More == GEN => Len(h) < LEN
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

\* when histories are generated the lowest free slot is used: the library chooses the ids
Lowest(p) == GEN => \A x \in SLOTS : x < p => x \in Live

Queue(p) == q' = Append(q, p)

Create(p, c) ==
    /\ p \notin Live /\ Lowest(p)
    /\ t' = Put(t, p, c) /\ b' = Put(b, p, Stored(c, 0)) /\ Queue(p)
    /\ mv' = mv \cup {p} /\ pend' = pend \cup {p}
    /\ made' = (IF GEN THEN made + 1 ELSE made)
    /\ nm' = (IF GEN THEN Put(nm, p, made + 1) ELSE nm)
    /\ Note([op |-> "create", p |-> made + 1, c |-> c, d |-> 0])
    /\ rep' = <<>> /\ due' = {}

Destroy(p) ==
    /\ p \in Live
    /\ t' = Drop(t, p) /\ b' = Drop(b, p)
    /\ q' = [i \in DOMAIN q |-> IF q[i] = p THEN 0 ELSE q[i]]
    /\ mv' = mv \ {p} /\ pend' = pend \ {p}
    /\ nm' = (IF GEN THEN Drop(nm, p) ELSE nm)
    /\ Note([op |-> "destroy", p |-> IF GEN THEN nm[p] ELSE 0, c |-> 0, d |-> 0])
    /\ rep' = <<>> /\ due' = {} /\ UNCHANGED made

Move(p, c, d) ==
    /\ p \in Live
    /\ t' = [t EXCEPT ![p] = c]
    /\ IF Within(c, b[p]) /\ Part(b[p], Stored(c, d))
       THEN UNCHANGED <<b, q, mv, pend>>
       ELSE b' = [b EXCEPT ![p] = Stored(c, d)] /\ Queue(p) /\ mv' = mv \cup {p} /\ pend' = pend \cup {p}
    /\ Note([op |-> "move", p |-> IF GEN THEN nm[p] ELSE 0, c |-> c, d |-> d])
    /\ rep' = <<>> /\ due' = {} /\ UNCHANGED <<nm, made>>

Touch(p) ==
    /\ p \in Live
    /\ Queue(p) /\ pend' = pend \cup {p}
    /\ Note([op |-> "touch", p |-> IF GEN THEN nm[p] ELSE 0, c |-> 0, d |-> 0])
    /\ rep' = <<>> /\ due' = {} /\ UNCHANGED <<t, b, mv, nm, made>>

\* the pairs found from one queued proxy, in the order of ids
RECURSIVE Found(_, _)
Found(p, S) ==
    IF S = {} THEN <<>>
    ELSE LET r == CHOOSE x \in S : \A y \in S : x <= y
             rest == Found(p, S \ {r})
         IN  IF r = p \/ ~Meet(b[p], b[r]) \/ (r \in mv /\ r > p) THEN rest
             ELSE <<{p, r}>> \o rest
RECURSIVE All(_)
All(i) == IF i > Len(q) THEN <<>> ELSE (IF q[i] = 0 THEN <<>> ELSE Found(q[i], Live)) \o All(i + 1)

Update ==
    /\ q # <<>> \/ GEN
    /\ rep' = All(1)
    /\ due' = {x \in {{p, r} : p \in pend, r \in Live} : Cardinality(x) = 2 /\ \A y, z \in x : Meet(b[y], b[z])}
    /\ mv' = mv \ {q[i] : i \in DOMAIN q} /\ q' = <<>> /\ pend' = {}
    /\ Note([op |-> "update", p |-> 0, c |-> 0, d |-> 0])
    /\ UNCHANGED <<t, b, nm, made>>

Init ==
    /\ \E f \in SETUP : t = f /\ b = [x \in DOMAIN f |-> Stored(f[x], 0)]
                        /\ nm = (IF GEN THEN [x \in DOMAIN f |-> x] ELSE <<>>)
                        /\ made = (IF GEN THEN Cardinality(DOMAIN f) ELSE 0)
    /\ q = <<>> /\ mv = {} /\ pend = {} /\ rep = <<>> /\ due = {} /\ h = <<>>

Emit == GEN /\ Len(h) = LEN /\ PrintT(<<"HIST", ToJson(h)>>) /\ UNCHANGED vars
Call ==
    \/ \E p \in SLOTS : \/ \E c \in CELLS : Create(p, c) \/ \E d \in Steps : Move(p, c, d)
                        \/ Destroy(p) \/ Touch(p)
    \/ Update
Next == (More /\ Call) \/ Emit
Spec == Init /\ [][Next]_vars

\* the queue of the closed model is kept short
Short == Len(q) <= QMAX

---------------------------------------------------------------------------
Covers == \A p \in Live : Within(t[p], b[p])
Queued == /\ \A i \in DOMAIN q : q[i] = 0 \/ q[i] \in Live
          /\ mv \subseteq {q[i] : i \in DOMAIN q}
          /\ pend = {q[i] : i \in DOMAIN q} \ {0}
Complete == due = {rep[i] : i \in DOMAIN rep}
Apart == \A i \in DOMAIN rep : Cardinality(rep[i]) = 2 /\ rep[i] \subseteq Live
=============================================================================
