//! Definitions and settings: what objects report after being made and set, without stepping.
use crate::rng::Rng;
use crate::util::*;
use crate::world::U;
use box2d_rs::b2_body::*;
use box2d_rs::b2_fixture::*;
use box2d_rs::b2_joint::*;
use box2d_rs::b2_math::*;
use box2d_rs::b2_rope::*;
use box2d_rs::b2_shape::*;
use box2d_rs::b2_world::*;
use box2d_rs::joints::b2_distance_joint::*;
use box2d_rs::joints::b2_friction_joint::*;
use box2d_rs::joints::b2_gear_joint::*;
use box2d_rs::joints::b2_motor_joint::*;
use box2d_rs::joints::b2_mouse_joint::*;
use box2d_rs::joints::b2_prismatic_joint::*;
use box2d_rs::joints::b2_pulley_joint::*;
use box2d_rs::joints::b2_revolute_joint::*;
use box2d_rs::joints::b2_weld_joint::*;
use box2d_rs::joints::b2_wheel_joint::*;
use box2d_rs::shapes::b2_chain_shape::*;
use box2d_rs::shapes::b2_circle_shape::*;
use box2d_rs::shapes::b2_edge_shape::*;
use box2d_rs::shapes::b2_polygon_shape::*;
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::io::Write;
use std::rc::Rc;

const K: f64 = 256.0;
fn n(x: f32) -> i64 {
    sc(x, K)
}
fn m(x: f32) -> i64 {
    sc(x, 1000.0)
}
fn p2(v: B2vec2) -> Value {
    arr(&[n(v.x), n(v.y)])
}
fn q2(v: B2vec2) -> Value {
    arr(&[m(v.x), m(v.y)])
}
fn gv(a: &Value, k: &str) -> B2vec2 {
    B2vec2::new(a[k][0].as_i64().unwrap() as f32 / S, a[k][1].as_i64().unwrap() as f32 / S)
}
fn ty(i: i64) -> B2bodyType {
    match i {
        0 => B2bodyType::B2StaticBody,
        1 => B2bodyType::B2KinematicBody,
        _ => B2bodyType::B2DynamicBody,
    }
}
fn opt(x: Option<i32>) -> i64 {
    x.unwrap_or(0) as i64
}
fn to_opt(x: i64) -> Option<i32> {
    if x == 0 { None } else { Some(x as i32) }
}

struct St {
    w: B2worldPtr<U>,
    b: BTreeMap<String, BodyPtr<U>>,
    f: BTreeMap<String, (String, FixturePtr<U>)>,
    j: BTreeMap<String, B2jointPtr<U>>,
    // definitions that are kept and used again
    bd: B2bodyDef<U>,
    fd: B2fixtureDef<U>,
    sh: Shapes,
    next: usize,
}

/// One shape of each kind; the caller keeps them and changes them between uses.
struct Shapes {
    c: Rc<RefCell<B2circleShape>>,
    p: Rc<RefCell<B2polygonShape>>,
    e: Rc<RefCell<B2edgeShape>>,
    h: Rc<RefCell<B2chainShape>>,
}
impl Shapes {
    fn get(&self, k: &str) -> ShapeDefPtr {
        match k {
            "c" => self.c.clone(),
            "p" => self.p.clone(),
            "e" => self.e.clone(),
            _ => self.h.clone(),
        }
    }
    fn set(&self, k: &str, v: &[i64]) {
        let f = |i: usize| v[i] as f32 / S;
        let at = |i: usize| B2vec2::new(f(i), f(i + 1));
        match k {
            "c" => {
                let mut c = self.c.borrow_mut();
                c.m_p = at(0);
                c.base.m_radius = f(2);
            }
            "p" => self.p.borrow_mut().set_as_box(f(0), f(1)),
            "e" => self.e.borrow_mut().set_two_sided(at(0), at(2)),
            _ => {
                let vs: Vec<B2vec2> = (0..v.len() / 2 - 2).map(|i| at(2 * i)).collect();
                let mut h = self.h.borrow_mut();
                h.clear();
                h.create_chain(&vs, at(v.len() - 4), at(v.len() - 2));
            }
        }
    }
}

fn shape_of(s: &dyn B2shapeDynTrait) -> (String, Vec<i64>) {
    use box2d_rs::shapes::b2rs_to_derived_shape::ShapeAsDerived::*;
    let mut v = vec![];
    let k = match s.as_derived() {
        AsCircle(c) => {
            v.extend([n(c.m_p.x), n(c.m_p.y), n(c.base.m_radius)]);
            "c"
        }
        AsPolygon(p) => {
            for i in 0..p.m_count {
                v.extend([n(p.m_vertices[i].x), n(p.m_vertices[i].y)]);
            }
            "p"
        }
        AsEdge(e) => {
            v.extend([n(e.m_vertex1.x), n(e.m_vertex1.y), n(e.m_vertex2.x), n(e.m_vertex2.y)]);
            "e"
        }
        AsChain(h) => {
            for x in &h.m_vertices {
                v.extend([n(x.x), n(x.y)]);
            }
            for x in [h.m_prev_vertex, h.m_next_vertex] {
                v.extend([n(x.x), n(x.y)]);
            }
            "h"
        }
    };
    (k.to_string(), v)
}

fn body_state(b: &B2body<U>) -> Value {
    json!({
        "ty": b.get_type() as i64, "p": p2(b.get_position()), "an": n(b.get_angle()),
        "tp": p2(b.get_transform().p), "v": p2(b.get_linear_velocity()), "w": n(b.get_angular_velocity()),
        "ld": n(b.get_linear_damping()), "ad": n(b.get_angular_damping()), "gs": n(b.get_gravity_scale()),
        "bu": b.is_bullet(), "sl": b.is_sleeping_allowed(), "aw": b.is_awake(), "en": b.is_enabled(),
        "fr": b.is_fixed_rotation(), "ud": opt(b.get_user_data()),
    })
}
fn fix_state(owner: &str, f: &B2fixture<U>) -> Value {
    let (k, v) = shape_of(&*f.get_shape());
    let fl = f.get_filter_data();
    json!({
        "b": owner, "k": k, "sh": v, "ty": f.get_type() as i64, "fr": n(f.get_friction()), "re": n(f.get_restitution()),
        "rt": n(f.get_restitution_threshold()), "de": n(f.get_density()), "se": f.is_sensor(),
        "cat": fl.category_bits as i64, "mask": fl.mask_bits as i64, "grp": fl.group_index as i64, "ud": opt(f.get_user_data()),
    })
}
impl St {
    fn new(a: &Value) -> St {
        let sh = Shapes { c: Default::default(), p: Default::default(), e: Default::default(), h: Default::default() };
        let s = St { w: B2world::new(gv(a, "g")), b: BTreeMap::new(), f: BTreeMap::new(), j: BTreeMap::new(),
                     bd: B2bodyDef::default(), fd: B2fixtureDef::default(), sh, next: 0 };
        s.sh.set("c", &[0, 0, 256]);
        s.sh.set("p", &[256, 256]);
        s.sh.set("e", &[0, 0, 256, 0]);
        s.sh.set("h", &[0, 0, 256, 0, 512, 0, -256, 0, 768, 0]);
        s
    }
    fn state(&self) -> Value {
        let w = self.w.borrow();
        let mut b = Map::new();
        for (k, x) in &self.b {
            b.insert(k.clone(), body_state(&x.borrow()));
        }
        let mut f = Map::new();
        for (k, (o, x)) in &self.f {
            let x = x.borrow();
            let mut v = fix_state(o, &x);
            v["own"] = json!(Rc::ptr_eq(&x.get_body(), &self.b[o]));
            f.insert(k.clone(), v);
        }
        let mut j = Map::new();
        for (k, x) in &self.j {
            let x = x.borrow();
            let base = x.get_base();
            let who = |p: BodyPtr<U>| self.b.iter().find(|(_, y)| Rc::ptr_eq(&p, y)).map(|(n, _)| n.clone()).unwrap_or_default();
            j.insert(k.clone(), json!({
                "ty": format!("{:?}", base.get_type()), "a": who(base.get_body_a()), "b": who(base.get_body_b()),
                "cc": base.get_collide_connected(), "ud": opt(base.get_user_data()), "en": base.is_enabled()}));
        }
        json!({
            "W": {"g": p2(w.get_gravity()), "as": w.get_allow_sleeping(), "ws": w.get_warm_starting(),
                  "cp": w.get_continuous_physics(), "ss": w.get_sub_stepping(), "cf": w.get_auto_clear_forces(), "lk": w.is_locked()},
            "B": b, "F": f, "J": j,
        })
    }
    fn apply(&mut self, op: &str, a: &Value) {
        let fix = |s: &St| s.f[gs(a, "f")].1.clone();
        let body = |s: &St| s.b[gs(a, "b")].clone();
        match op {
            "body_def" => {
                let d = &mut self.bd;
                *d = B2bodyDef {
                    body_type: ty(gi(a, "ty")), position: gv(a, "p"), angle: gf(a, "an"), linear_velocity: gv(a, "v"),
                    angular_velocity: gf(a, "w"), linear_damping: gf(a, "ld"), angular_damping: gf(a, "ad"),
                    gravity_scale: gf(a, "gs"), bullet: gb(a, "bu"), allow_sleep: gb(a, "sl"), awake: gb(a, "aw"),
                    enabled: gb(a, "en"), fixed_rotation: gb(a, "fr"), user_data: to_opt(gi(a, "ud")),
                };
            }
            "fix_def" => {
                self.fd = B2fixtureDef {
                    shape: Some(self.sh.get(gs(a, "k"))), user_data: to_opt(gi(a, "ud")), friction: gf(a, "fr"), restitution: gf(a, "re"),
                    restitution_threshold: gf(a, "rt"), density: gf(a, "de"), is_sensor: gb(a, "se"),
                    filter: B2filter { category_bits: gi(a, "cat") as u16, mask_bits: gi(a, "mask") as u16, group_index: gi(a, "grp") as i16 },
                };
            }
            "shape" => {
                let v: Vec<i64> = a["v"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
                self.sh.set(gs(a, "k"), &v);
            }
            "make_body" => {
                let b = B2world::create_body(self.w.clone(), &self.bd);
                self.b.insert(gs(a, "id").into(), b);
            }
            "make_body_default" => {
                let b = B2world::create_body(self.w.clone(), &B2bodyDef::default());
                self.b.insert(gs(a, "id").into(), b);
            }
            "make_fix" => {
                let f = B2body::create_fixture(body(self), &self.fd);
                self.f.insert(gs(a, "id").into(), (gs(a, "b").into(), f));
            }
            "make_fix_shape" => {
                let f = B2body::create_fixture_by_shape(body(self), self.sh.get(gs(a, "k")), gf(a, "de"));
                self.f.insert(gs(a, "id").into(), (gs(a, "b").into(), f));
            }
            "drop_fix" => {
                let (o, f) = self.f.remove(gs(a, "f")).unwrap();
                B2body::destroy_fixture(self.b[&o].clone(), f);
            }
            "make_joint" => {
                let mut base = B2jointDef { body_a: Some(self.b[gs(a, "a")].clone()), body_b: Some(body(self)),
                                            collide_connected: gb(a, "cc"), user_data: to_opt(gi(a, "ud")), ..Default::default() };
                let d = match gs(a, "ty") {
                    "ERevoluteJoint" => { let mut d = B2revoluteJointDef::default(); base.jtype = d.base.jtype; d.base = base; B2JointDefEnum::RevoluteJoint(d) }
                    "EPrismaticJoint" => { let mut d = B2prismaticJointDef::default(); base.jtype = d.base.jtype; d.base = base; B2JointDefEnum::PrismaticJoint(d) }
                    "EDistanceJoint" => { let mut d = B2distanceJointDef::default(); base.jtype = d.base.jtype; d.base = base; B2JointDefEnum::DistanceJoint(d) }
                    "EPulleyJoint" => { let mut d = B2pulleyJointDef::default(); base.jtype = d.base.jtype; d.base = base; B2JointDefEnum::PulleyJoint(d) }
                    "EMouseJoint" => { let mut d = B2mouseJointDef::default(); base.jtype = d.base.jtype; d.base = base; B2JointDefEnum::MouseJoint(d) }
                    "EWheelJoint" => { let mut d = B2wheelJointDef::default(); base.jtype = d.base.jtype; d.base = base; B2JointDefEnum::WheelJoint(d) }
                    "EWeldJoint" => { let mut d = B2weldJointDef::default(); base.jtype = d.base.jtype; d.base = base; B2JointDefEnum::WeldJoint(d) }
                    "EFrictionJoint" => { let mut d = B2frictionJointDef::default(); base.jtype = d.base.jtype; d.base = base; B2JointDefEnum::FrictionJoint(d) }
                    _ => { let mut d = B2motorJointDef::default(); base.jtype = d.base.jtype; d.base = base; B2JointDefEnum::MotorJoint(d) }
                };
                let j = self.w.borrow_mut().create_joint(&d);
                self.j.insert(gs(a, "id").into(), j);
            }
            "joint_ud" => self.j[gs(a, "j")].borrow_mut().get_base_mut().set_user_data(gi(a, "v") as i32),
            "drop_joint" => {
                let j = self.j.remove(gs(a, "j")).unwrap();
                self.w.borrow_mut().destroy_joint(j);
            }
            "gravity" => self.w.borrow_mut().set_gravity(gv(a, "v")),
            "as" => self.w.borrow_mut().set_allow_sleeping(gb(a, "v")),
            "ws" => self.w.borrow_mut().set_warm_starting(gb(a, "v")),
            "cp" => self.w.borrow_mut().set_continuous_physics(gb(a, "v")),
            "ss" => self.w.borrow_mut().set_sub_stepping(gb(a, "v")),
            "cf" => self.w.borrow_mut().set_auto_clear_forces(gb(a, "v")),
            "b_transform" => body(self).borrow_mut().set_transform(gv(a, "p"), gf(a, "an")),
            "b_v" => body(self).borrow_mut().set_linear_velocity(gv(a, "v")),
            "b_w" => body(self).borrow_mut().set_angular_velocity(gf(a, "v")),
            "b_ld" => body(self).borrow_mut().set_linear_damping(gf(a, "v")),
            "b_ad" => body(self).borrow_mut().set_angular_damping(gf(a, "v")),
            "b_gs" => body(self).borrow_mut().set_gravity_scale(gf(a, "v")),
            "b_ty" => B2body::set_type(body(self), ty(gi(a, "v"))),
            "b_bu" => body(self).borrow_mut().set_bullet(gb(a, "v")),
            "b_sl" => body(self).borrow_mut().set_sleeping_allowed(gb(a, "v")),
            "b_aw" => body(self).borrow_mut().set_awake(gb(a, "v")),
            "b_en" => B2body::set_enabled(body(self), gb(a, "v")),
            "b_fr" => body(self).borrow_mut().set_fixed_rotation(gb(a, "v")),
            "b_ud" => body(self).borrow_mut().set_user_data(&(gi(a, "v") as i32)),
            "f_fr" => fix(self).borrow_mut().set_friction(gf(a, "v")),
            "f_re" => fix(self).borrow_mut().set_restitution(gf(a, "v")),
            "f_rt" => fix(self).borrow_mut().set_restitution_threshold(gf(a, "v")),
            "f_de" => fix(self).borrow_mut().set_density(gf(a, "v")),
            "f_se" => fix(self).borrow_mut().set_sensor(gb(a, "v")),
            "f_ud" => fix(self).borrow_mut().set_user_data(&(gi(a, "v") as i32)),
            "f_filter" => fix(self).borrow_mut().set_filter_data(B2filter {
                category_bits: gi(a, "cat") as u16, mask_bits: gi(a, "mask") as u16, group_index: gi(a, "grp") as i16 }),
            "step" => self.w.borrow_mut().step(gi(a, "dt") as f32 / 1024.0, 8, 3),
            "shift" => self.w.borrow().shift_origin(gv(a, "v")),
            "defaults" => {}
            _ => unreachable!("{}", op),
        }
    }
}

/// Every public definition as it comes, in thousandths.
fn defaults() -> Value {
    let b = B2bodyDef::<U>::default();
    let f = B2fixtureDef::<U>::default();
    let fl = B2filter::default();
    let d = B2distanceJointDef::<U>::default();
    let fr = B2frictionJointDef::<U>::default();
    let ge = B2gearJointDef::<U>::default();
    let mo = B2motorJointDef::<U>::default();
    let mu = B2mouseJointDef::<U>::default();
    let pr = B2prismaticJointDef::<U>::default();
    let pu = B2pulleyJointDef::<U>::default();
    let re = B2revoluteJointDef::<U>::default();
    let we = B2weldJointDef::<U>::default();
    let wh = B2wheelJointDef::<U>::default();
    let t = B2ropeTuning::default();
    let r = B2ropeDef::default();
    let base = |x: &B2jointDef<U>| json!({"ty": format!("{:?}", x.jtype), "cc": x.collide_connected, "ud": opt(x.user_data),
                                         "nob": x.body_a.is_none() && x.body_b.is_none()});
    json!({
        "body": {"ty": b.body_type as i64, "p": q2(b.position), "an": m(b.angle), "v": q2(b.linear_velocity), "w": m(b.angular_velocity),
                 "ld": m(b.linear_damping), "ad": m(b.angular_damping), "gs": m(b.gravity_scale), "bu": b.bullet, "sl": b.allow_sleep,
                 "aw": b.awake, "en": b.enabled, "fr": b.fixed_rotation, "ud": opt(b.user_data)},
        "fixture": {"shape": f.shape.is_some(), "fr": m(f.friction), "re": m(f.restitution), "rt": m(f.restitution_threshold), "de": m(f.density),
                 "se": f.is_sensor, "cat": f.filter.category_bits as i64, "mask": f.filter.mask_bits as i64, "grp": f.filter.group_index as i64, "ud": opt(f.user_data)},
        "filter": {"cat": fl.category_bits as i64, "mask": fl.mask_bits as i64, "grp": fl.group_index as i64},
        "distance": {"base": base(&d.base), "la": q2(d.local_anchor_a), "lb": q2(d.local_anchor_b), "len": m(d.length), "min": m(d.min_length),
                     "max": m(d.max_length), "st": m(d.stiffness), "da": m(d.damping)},
        "friction": {"base": base(&fr.base), "la": q2(fr.local_anchor_a), "lb": q2(fr.local_anchor_b), "mf": m(fr.max_force), "mt": m(fr.max_torque)},
        "gear": {"base": base(&ge.base), "none": ge.joint1.is_none() && ge.joint2.is_none(), "ratio": m(ge.ratio)},
        "motor": {"base": base(&mo.base), "lo": q2(mo.linear_offset), "ao": m(mo.angular_offset), "mf": m(mo.max_force), "mt": m(mo.max_torque), "cf": m(mo.correction_factor)},
        "mouse": {"base": base(&mu.base), "target": q2(mu.target), "mf": m(mu.max_force), "st": m(mu.stiffness), "da": m(mu.damping)},
        "prismatic": {"base": base(&pr.base), "la": q2(pr.local_anchor_a), "lb": q2(pr.local_anchor_b), "ax": q2(pr.local_axis_a), "ref": m(pr.reference_angle),
                      "el": pr.enable_limit, "lo": m(pr.lower_translation), "hi": m(pr.upper_translation), "em": pr.enable_motor, "mm": m(pr.max_motor_force), "ms": m(pr.motor_speed)},
        "pulley": {"base": base(&pu.base), "ga": q2(pu.ground_anchor_a), "gb": q2(pu.ground_anchor_b), "la": q2(pu.local_anchor_a), "lb": q2(pu.local_anchor_b),
                   "lena": m(pu.length_a), "lenb": m(pu.length_b), "ratio": m(pu.ratio)},
        "revolute": {"base": base(&re.base), "la": q2(re.local_anchor_a), "lb": q2(re.local_anchor_b), "ref": m(re.reference_angle),
                     "el": re.enable_limit, "lo": m(re.lower_angle), "hi": m(re.upper_angle), "em": re.enable_motor, "mm": m(re.max_motor_torque), "ms": m(re.motor_speed)},
        "weld": {"base": base(&we.base), "la": q2(we.local_anchor_a), "lb": q2(we.local_anchor_b), "ref": m(we.reference_angle), "st": m(we.stiffness), "da": m(we.damping)},
        "wheel": {"base": base(&wh.base), "la": q2(wh.local_anchor_a), "lb": q2(wh.local_anchor_b), "ax": q2(wh.local_axis_a),
                  "el": wh.enable_limit, "lo": m(wh.lower_translation), "hi": m(wh.upper_translation), "em": wh.enable_motor, "mm": m(wh.max_motor_torque),
                  "ms": m(wh.motor_speed), "st": m(wh.stiffness), "da": m(wh.damping)},
        "rope": {"p": q2(r.position), "n": r.vertices.len(), "g": q2(r.gravity)},
        "tuning": {"sm": t.stretching_model as i64, "bm": t.bending_model as i64, "dm": m(t.damping), "ss": m(t.stretch_stiffness), "sh": m(t.stretch_hertz),
                   "sd": m(t.stretch_damping), "bs": m(t.bend_stiffness), "bh": m(t.bend_hertz), "bd": m(t.bend_damping), "iso": t.isometric,
                   "fem": t.fixed_effective_mass, "ws": t.warm_start},
    })
}

fn vec(g: &mut Rng, r: i64) -> Value {
    json!([g.range(-r, r), g.range(-r, r)])
}
fn some(g: &mut Rng, r: i64) -> i64 {
    if g.chance(1, 4) { 0 } else { g.range(1, r) }
}
fn gen_shape(g: &mut Rng, k: &str) -> Value {
    let v: Vec<i64> = match k {
        "c" => vec![g.range(-512, 512), g.range(-512, 512), g.range(16, 700)],
        "p" => vec![g.range(16, 700), g.range(16, 700)],
        "e" => vec![g.range(-512, -16), g.range(-512, 512), g.range(16, 512), g.range(-512, 512)],
        _ => {
            let c = g.range(2, 5);
            let mut v: Vec<i64> = (0..c).flat_map(|i| vec![i * 256, 0]).collect();
            for i in 0..c as usize {
                v[2 * i + 1] = g.range(-300, 300);
            }
            v.extend([-256, g.range(-200, 200), c * 256, g.range(-200, 200)]);
            v
        }
    };
    json!({"k": k, "v": v})
}
const KINDS: [&str; 4] = ["c", "p", "e", "h"];
const JOINTS: [&str; 9] = ["ERevoluteJoint", "EPrismaticJoint", "EDistanceJoint", "EPulleyJoint", "EMouseJoint", "EWheelJoint", "EWeldJoint", "EFrictionJoint", "EMotorJoint"];

fn gen_body_def(g: &mut Rng) -> Value {
    json!({"ty": g.range(0, 2), "p": vec(g, 2000), "an": g.range(-800, 800), "v": if g.chance(1, 4) { json!([0, 0]) } else { vec(g, 900) },
           "w": if g.chance(1, 4) { 0 } else { g.range(-900, 900) }, "ld": some(g, 600), "ad": some(g, 600), "gs": g.range(-512, 512), "bu": g.chance(1, 2), "sl": g.chance(1, 2),
           "aw": g.chance(1, 2), "en": g.chance(2, 3), "fr": g.chance(1, 3), "ud": some(g, 1000)})
}
fn gen_filter(g: &mut Rng) -> (i64, i64, i64) {
    (g.range(0, 65535), g.range(0, 65535), if g.chance(1, 3) { 0 } else { g.range(-32768, 32767) })
}
fn gen_fix_def(g: &mut Rng) -> Value {
    let (c, k, p) = gen_filter(g);
    json!({"k": *g.pick(&KINDS), "ud": some(g, 1000), "fr": some(g, 600), "re": some(g, 400), "rt": some(g, 900), "de": some(g, 900),
           "se": g.chance(1, 3), "cat": c, "mask": k, "grp": p})
}

fn gen(g: &mut Rng, s: &St, run: bool) -> (String, Value) {
    let bs: Vec<&String> = s.b.keys().collect();
    let fs: Vec<&String> = s.f.keys().collect();
    let js: Vec<&String> = s.j.keys().collect();
    loop {
        let r = match g.below(27) {
            0 | 1 => ("body_def", gen_body_def(g)),
            2 | 3 => ("fix_def", gen_fix_def(g)),
            4 | 5 => ("shape", gen_shape(g, KINDS[g.clone().below(4)])),
            6 | 7 if bs.len() < 5 => (if g.chance(1, 6) { "make_body_default" } else { "make_body" }, json!({"id": format!("b{}", s.next)})),
            8 | 9 if !bs.is_empty() && fs.len() < 6 && s.fd.shape.is_some() => ("make_fix", json!({"id": format!("f{}", s.next), "b": *g.pick(&bs)})),
            10 if !bs.is_empty() && fs.len() < 6 => ("make_fix_shape", json!({"id": format!("f{}", s.next), "b": *g.pick(&bs), "k": *g.pick(&KINDS), "de": some(g, 900)})),
            11 if fs.len() > 3 => ("drop_fix", json!({"f": *g.pick(&fs)})),
            12 if bs.len() > 1 && js.len() < 4 => {
                let (a, b) = (g.pick(&bs).to_string(), g.pick(&bs).to_string());
                if a == b {
                    continue;
                }
                ("make_joint", json!({"id": format!("j{}", s.next), "ty": *g.pick(&JOINTS), "a": a, "b": b, "cc": g.chance(1, 2), "ud": some(g, 1000)}))
            }
            13 if !js.is_empty() => if g.chance(1, 4) { ("drop_joint", json!({"j": *g.pick(&js)})) } else { ("joint_ud", json!({"j": *g.pick(&js), "v": g.range(1, 1000)})) },
            14 => ("gravity", json!({"v": vec(g, 3000)})),
            15 => (*g.pick(&["as", "ws", "cp", "ss", "cf"]), json!({"v": g.chance(1, 2)})),
            16 | 17 if !bs.is_empty() => (*g.pick(&["b_bu", "b_sl", "b_aw", "b_en", "b_fr"]), json!({"b": *g.pick(&bs), "v": g.chance(1, 2)})),
            18 if !bs.is_empty() => (*g.pick(&["b_ld", "b_ad", "b_gs", "b_w"]), json!({"b": *g.pick(&bs), "v": some(g, 900)})),
            19 if !bs.is_empty() => match g.below(4) {
                0 => ("b_transform", json!({"b": *g.pick(&bs), "p": vec(g, 3000), "an": g.range(-2000, 2000)})),
                1 => ("b_v", json!({"b": *g.pick(&bs), "v": if g.chance(1, 4) { json!([0, 0]) } else { vec(g, 900) }})),
                2 => ("b_ud", json!({"b": *g.pick(&bs), "v": g.range(1, 1000)})),
                _ => ("b_ty", json!({"b": *g.pick(&bs), "v": g.range(0, 2)})),
            },
            20 | 21 if !fs.is_empty() => (*g.pick(&["f_fr", "f_re", "f_rt", "f_de", "f_ud"]), json!({"f": *g.pick(&fs), "v": g.range(1, 900)})),
            22 if !fs.is_empty() => ("f_se", json!({"f": *g.pick(&fs), "v": g.chance(1, 2)})),
            23 if !fs.is_empty() => {
                let (c, k, p) = gen_filter(g);
                ("f_filter", json!({"f": *g.pick(&fs), "cat": c, "mask": k, "grp": p}))
            }
            24 | 25 if run => if g.chance(1, 6) { ("shift", json!({"v": vec(g, 900)})) } else { ("step", json!({"dt": 17})) },
            24 if g.chance(1, 6) => ("defaults", json!({})),
            _ => continue,
        };
        return (r.0.to_string(), r.1);
    }
}

pub fn run(_opt: &HashMap<String, String>, seed: u64, count: usize, out: &mut dyn Write) {
    let mut g = Rng::new(seed);
    let mut k = 0;
    while k < count {
        let a = json!({"g": vec(&mut g, 3000)});
        let mut s = St::new(&a);
        emit(out, &json!({"op": "New", "a": a, "r": "ok", "s": s.state(), "d": defaults()}));
        k += 1;
        for i in 0..80 {
            let (op, a) = gen(&mut g, &s, i > 50);
            if op.starts_with("make") {
                s.next += 1;
            }
            let r = guarded(&json!({"op": op, "a": a}), || {
                s.apply(&op, &a);
                s.state()
            });
            k += 1;
            match r {
                Ok(st) => {
                    let mut e = json!({"op": op, "a": a, "r": "ok", "s": st});
                    if op == "defaults" {
                        e["d"] = defaults();
                    }
                    emit(out, &e);
                }
                Err(m) => {
                    emit(out, &json!({"op": op, "a": a, "r": m, "s": {}}));
                    break;
                }
            }
        }
    }
}
