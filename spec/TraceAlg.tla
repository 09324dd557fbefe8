------------------------------ MODULE TraceAlg ------------------------------
(* Recorded calculations (C30). The stack and the drawing flags have a       *)
(* memory, kept here: st the stack, fl the flags.                            *)
EXTENDS Algebra, FiniteSets, TLC, Json, IOUtils, Bitwise

Tr == ndJsonDeserialize(IOEnv.TRACE)
Clauses == [C30 |-> {"c30_panic", "c30_vector", "c30_matrix", "c30_rotation", "c30_sweep", "c30_number", "c30_box",
                     "c30_stack", "c30_flags", "c30_support", "c30_body", "c30_spring"}]
Sel == Clauses[IOEnv.PROP]

VARIABLES l, g       \* g: [ok, st, fl]

Fresh == [ok |-> TRUE, st |-> <<>>, fl |-> 0]
After(h, e) ==
    CASE e.op = "push" -> [h EXCEPT !.st = Append(@, e.x[1])]
      [] e.op = "pop" -> [h EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)]
      [] e.op = "flags" -> [h EXCEPT !.fl = CASE e.x[1] = 0 -> e.x[2] [] e.x[1] = 1 -> @ | e.x[2] [] OTHER -> @ & (31 - e.x[2])]
      [] OTHER -> h

Holds(n, e, h) ==
    LET x == e.x  o == e.o  st == h.st  new == After(h, e) IN
    CASE n = "c30_panic" -> e.r = "ok"
      [] n = "c30_vector" -> CASE e.op = "vec2" -> o = Vec2(x) [] e.op = "vec3" -> o = Vec3(x) [] e.op = "len" -> LenOk(x, o)
                               [] OTHER -> TRUE
      [] n = "c30_matrix" -> CASE e.op = "mat22" -> Mat22Ok(x, o) [] e.op = "mat33" -> Mat33Ok(x, o) [] e.op = "sym33" -> Sym33Ok(x, o)
                               [] OTHER -> TRUE
      [] n = "c30_rotation" -> CASE e.op = "rot" -> RotOk(x, o) [] e.op = "xf" -> XfOk(x, o) [] OTHER -> TRUE
      [] n = "c30_sweep" -> e.op = "sweep" => SweepOk(x, o)
      [] n = "c30_number" -> CASE e.op = "order" -> o = Order(x) [] e.op = "valid" -> o = Valid(x) [] e.op = "pow2" -> Pow2Ok(x, o)
                               [] e.op = "mix" -> MixOk(x, o) [] OTHER -> TRUE
      [] n = "c30_box" -> CASE e.op = "aabb" -> o = Aabb(x) [] e.op = "boxray" -> BoxRayOk(x, o) [] OTHER -> TRUE
      [] n = "c30_stack" -> CASE e.op = "push" -> o = <<Len(st) + 1>>
                              [] e.op = "pop" -> o = <<st[Len(st)], Len(st) - 1>> [] OTHER -> TRUE
      [] n = "c30_flags" -> CASE e.op = "flags" -> o = <<new.fl>> [] e.op = "colour" -> o = Colour(x) [] OTHER -> TRUE
      [] n = "c30_support" -> e.op = "support" => SupportOk(x, o)
      [] n = "c30_body" -> e.op = "conv" => ConvOk(x, o)
      [] n = "c30_spring" -> e.op = "stiff" => StiffOk(x, o)

Init == TLCSet(1, 0) /\ l = 1 /\ g = Fresh
Next ==
    /\ l < Len(Tr)
    /\ LET e == Tr[l + 1] IN
       IF e.op = "New" THEN l' = l + 1 /\ g' = Fresh
       ELSE IF ~g.ok THEN l' = l + 1 /\ g' = g
       ELSE LET bad == IF e.r # "ok" THEN {"c30_panic"} ELSE {n \in Sel : ~Holds(n, e, g)}
            IN  IF bad = {} THEN l' = l + 1 /\ g' = After(g, e)
                ELSE /\ PrintT(<<"VIOL", l + 1, bad>>) /\ TLCSet(1, TLCGet(1) + 1)
                     /\ l' = l + 1 /\ g' = [g EXCEPT !.ok = FALSE]

Spec == Init /\ [][Next]_<<l, g>>
Accepted == TLCGet("stats").diameter = Len(Tr) /\ TLCGet(1) = 0
=============================================================================
