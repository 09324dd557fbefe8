-------------------------------- MODULE Defs --------------------------------
(* Definitions and settings: the default values of every public definition,  *)
(* and what an object reports after being made from a definition and set.    *)
(* Until the first step every value is known; steps and shifts of the origin *)
(* change motion and sleep only.                                             *)
EXTENDS Integers, Sequences

Base(ty) == [ty |-> ty, cc |-> FALSE, ud |-> 0, nob |-> TRUE]
O == <<0, 0>>

\* thousandths
Defaults == [
    body |-> [ty |-> 0, p |-> O, an |-> 0, v |-> O, w |-> 0, ld |-> 0, ad |-> 0, gs |-> 1000, bu |-> FALSE, sl |-> TRUE,
              aw |-> TRUE, en |-> TRUE, fr |-> FALSE, ud |-> 0],
    fixture |-> [shape |-> FALSE, fr |-> 200, re |-> 0, rt |-> 1000, de |-> 0, se |-> FALSE, cat |-> 1, mask |-> 65535, grp |-> 0, ud |-> 0],
    filter |-> [cat |-> 1, mask |-> 65535, grp |-> 0],
    distance |-> [base |-> Base("EDistanceJoint"), la |-> O, lb |-> O, len |-> 1000, min |-> 0, max |-> 1073741824, st |-> 0, da |-> 0],
    friction |-> [base |-> Base("EFrictionJoint"), la |-> O, lb |-> O, mf |-> 0, mt |-> 0],
    gear |-> [base |-> Base("EGearJoint"), none |-> TRUE, ratio |-> 1000],
    motor |-> [base |-> Base("EMotorJoint"), lo |-> O, ao |-> 0, mf |-> 1000, mt |-> 1000, cf |-> 300],
    mouse |-> [base |-> Base("EMouseJoint"), target |-> O, mf |-> 0, st |-> 0, da |-> 0],
    prismatic |-> [base |-> Base("EPrismaticJoint"), la |-> O, lb |-> O, ax |-> <<1000, 0>>, ref |-> 0,
                   el |-> FALSE, lo |-> 0, hi |-> 0, em |-> FALSE, mm |-> 0, ms |-> 0],
    pulley |-> [base |-> [Base("EPulleyJoint") EXCEPT !.cc = TRUE], ga |-> <<-1000, 1000>>, gb |-> <<1000, 1000>>,
                la |-> <<-1000, 0>>, lb |-> <<1000, 0>>, lena |-> 0, lenb |-> 0, ratio |-> 1000],
    revolute |-> [base |-> Base("ERevoluteJoint"), la |-> O, lb |-> O, ref |-> 0,
                  el |-> FALSE, lo |-> 0, hi |-> 0, em |-> FALSE, mm |-> 0, ms |-> 0],
    weld |-> [base |-> Base("EWeldJoint"), la |-> O, lb |-> O, ref |-> 0, st |-> 0, da |-> 0],
    wheel |-> [base |-> Base("EWheelJoint"), la |-> O, lb |-> O, ax |-> <<1000, 0>>,
               el |-> FALSE, lo |-> 0, hi |-> 0, em |-> FALSE, mm |-> 0, ms |-> 0, st |-> 0, da |-> 0],
    rope |-> [p |-> O, n |-> 0, g |-> O],
    tuning |-> [sm |-> 0, bm |-> 1, dm |-> 0, ss |-> 1000, sh |-> 0, sd |-> 0, bs |-> 500, bh |-> 1000, bd |-> 0,
                iso |-> FALSE, fem |-> FALSE, ws |-> FALSE]]

\* 1/256
BodyDefault == [Defaults.body EXCEPT !.gs = 256]
FixDefault(k) == [k |-> k, fr |-> 51, re |-> 0, rt |-> 256, de |-> 0, se |-> FALSE, cat |-> 1, mask |-> 65535, grp |-> 0, ud |-> 0]
FirstShapes == [c |-> <<0, 0, 256>>, p |-> <<256, 256>>, e |-> <<0, 0, 256, 0>>,
                h |-> <<0, 0, 256, 0, 512, 0, -256, 0, 768, 0>>]
TypeNo == [c |-> 0, e |-> 1, p |-> 2, h |-> 3]
Outline(k, v) == IF k = "p" THEN <<-v[1], -v[2], v[1], -v[2], v[1], v[2], -v[1], v[2]>> ELSE v

(* g: W world settings, B bodies, F fixtures, J joints, bd, fd the           *)
(* definitions and sh the shapes the caller keeps, run whether time has      *)
(* passed.                                                                   *)
Start(grav) == [W |-> [g |-> grav, as |-> TRUE, ws |-> TRUE, cp |-> TRUE, ss |-> FALSE, cf |-> TRUE, lk |-> FALSE],
                B |-> <<>>, F |-> <<>>, J |-> <<>>, bd |-> BodyDefault, fd |-> FixDefault("c"), sh |-> FirstShapes, run |-> FALSE]

Put(f, k, v) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN v ELSE f[y]]
Drop(f, k) == [y \in DOMAIN f \ {k} |-> f[y]]

NewBody(d) == [ty |-> d.ty, p |-> d.p, an |-> d.an, tp |-> d.p, v |-> IF d.ty = 0 THEN O ELSE d.v, w |-> IF d.ty = 0 THEN 0 ELSE d.w,
               ld |-> d.ld, ad |-> d.ad, gs |-> d.gs, bu |-> d.bu, sl |-> d.sl, aw |-> d.aw /\ d.ty # 0, en |-> d.en,
               fr |-> d.fr, ud |-> d.ud]
NewFix(d, b, sh) == [b |-> b, k |-> d.k, sh |-> Outline(d.k, sh[d.k]), ty |-> TypeNo[d.k], fr |-> d.fr, re |-> d.re, rt |-> d.rt,
                     de |-> d.de, se |-> d.se, cat |-> d.cat, mask |-> d.mask, grp |-> d.grp, ud |-> d.ud, own |-> TRUE]
Wake(x) == IF x.ty = 0 THEN x ELSE [x EXCEPT !.aw = TRUE]

SetBody(x, op, v) ==
    CASE op = "b_v" -> IF x.ty = 0 THEN x ELSE [x EXCEPT !.v = v, !.aw = @ \/ v # O]
      [] op = "b_w" -> IF x.ty = 0 THEN x ELSE [x EXCEPT !.w = v, !.aw = @ \/ v # 0]
      [] op = "b_ld" -> [x EXCEPT !.ld = v]
      [] op = "b_ad" -> [x EXCEPT !.ad = v]
      [] op = "b_gs" -> [x EXCEPT !.gs = v]
      [] op = "b_ty" -> IF v = x.ty THEN x
                        ELSE IF v = 0 THEN [x EXCEPT !.ty = 0, !.v = O, !.w = 0, !.aw = FALSE]
                        ELSE [x EXCEPT !.ty = v, !.aw = TRUE]
      [] op = "b_bu" -> [x EXCEPT !.bu = v]
      [] op = "b_sl" -> IF v THEN [x EXCEPT !.sl = TRUE] ELSE Wake([x EXCEPT !.sl = FALSE])
      [] op = "b_aw" -> IF x.ty = 0 THEN x ELSE IF v THEN [x EXCEPT !.aw = TRUE] ELSE [x EXCEPT !.aw = FALSE, !.v = O, !.w = 0]
      [] op = "b_en" -> [x EXCEPT !.en = v]
      [] op = "b_fr" -> IF v = x.fr THEN x ELSE [x EXCEPT !.fr = v, !.w = 0]
      [] op = "b_ud" -> [x EXCEPT !.ud = v]

SetFix(x, op, v) ==
    CASE op = "f_fr" -> [x EXCEPT !.fr = v]
      [] op = "f_re" -> [x EXCEPT !.re = v]
      [] op = "f_rt" -> [x EXCEPT !.rt = v]
      [] op = "f_de" -> [x EXCEPT !.de = v]
      [] op = "f_se" -> [x EXCEPT !.se = v]
      [] op = "f_ud" -> [x EXCEPT !.ud = v]

BodySetters == {"b_v", "b_w", "b_ld", "b_ad", "b_gs", "b_ty", "b_bu", "b_sl", "b_aw", "b_en", "b_fr", "b_ud"}
FixSetters == {"f_fr", "f_re", "f_rt", "f_de", "f_se", "f_ud"}

Step(g, op, a) ==
    CASE op = "body_def" -> [g EXCEPT !.bd = a]
      [] op = "fix_def" -> [g EXCEPT !.fd = a]
      [] op = "shape" -> [g EXCEPT !.sh[a.k] = a.v]
      [] op = "make_body" -> [g EXCEPT !.B = Put(@, a.id, NewBody(g.bd))]
      [] op = "make_body_default" -> [g EXCEPT !.B = Put(@, a.id, NewBody(BodyDefault))]
      [] op = "make_fix" -> [g EXCEPT !.F = Put(@, a.id, NewFix(g.fd, a.b, g.sh))]
      [] op = "make_fix_shape" -> [g EXCEPT !.F = Put(@, a.id, NewFix([FixDefault(a.k) EXCEPT !.de = a.de], a.b, g.sh))]
      [] op = "drop_fix" -> [g EXCEPT !.F = Drop(@, a.f)]
      [] op = "make_joint" -> [g EXCEPT !.J = Put(@, a.id, [ty |-> a.ty, a |-> a.a, b |-> a.b, cc |-> a.cc, ud |-> a.ud])]
      [] op = "joint_ud" -> [g EXCEPT !.J[a.j].ud = a.v]
      [] op = "drop_joint" -> LET j == g.J[a.j] IN
            [g EXCEPT !.J = Drop(@, a.j), !.B = [b \in DOMAIN @ |-> IF b \in {j.a, j.b} THEN Wake(@[b]) ELSE @[b]]]
      [] op = "gravity" -> [g EXCEPT !.W.g = a.v]
      [] op = "as" -> IF a.v = g.W.as THEN g
                      ELSE [g EXCEPT !.W.as = a.v, !.B = IF a.v THEN @ ELSE [b \in DOMAIN @ |-> Wake(@[b])]]
      [] op = "ws" -> [g EXCEPT !.W.ws = a.v]
      [] op = "cp" -> [g EXCEPT !.W.cp = a.v]
      [] op = "ss" -> [g EXCEPT !.W.ss = a.v]
      [] op = "cf" -> [g EXCEPT !.W.cf = a.v]
      [] op = "b_transform" -> [g EXCEPT !.B[a.b] = [@ EXCEPT !.p = a.p, !.tp = a.p, !.an = a.an]]
      [] op \in BodySetters -> [g EXCEPT !.B[a.b] = SetBody(@, op, a.v)]
      [] op = "f_se" -> [g EXCEPT !.F[a.f].se = a.v, !.B[g.F[a.f].b] = IF g.F[a.f].se = a.v THEN @ ELSE Wake(@)]
      [] op \in FixSetters -> [g EXCEPT !.F[a.f] = SetFix(@, op, a.v)]
      [] op = "f_filter" -> [g EXCEPT !.F[a.f] = [@ EXCEPT !.cat = a.cat, !.mask = a.mask, !.grp = a.grp]]
      [] op \in {"step", "shift"} -> [g EXCEPT !.run = TRUE]
      [] OTHER -> g

\* body whose centre of mass, and with it the linear velocity, may change
Recentred(g, op, a) ==
    CASE op \in {"make_fix", "make_fix_shape", "b_ty", "b_fr"} -> {a.b}
      [] op = "drop_fix" -> {g.F[a.f].b}
      [] OTHER -> {}
Joints(g) == [j \in DOMAIN g.J |-> [ty |-> g.J[j].ty, a |-> g.J[j].a, b |-> g.J[j].b, cc |-> g.J[j].cc, ud |-> g.J[j].ud,
                                    en |-> g.B[g.J[j].a].en /\ g.B[g.J[j].b].en]]
=============================================================================
