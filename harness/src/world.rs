//! A world under observation: executes operations given as JSON on the real
//! library and produces the complete observable state after each of them.
use crate::util::*;
use box2d_rs::b2_body::*;
use box2d_rs::b2_collision::*;
use box2d_rs::b2_contact::*;
use box2d_rs::b2_fixture::*;
use box2d_rs::b2_joint::*;
use box2d_rs::b2_math::*;
use box2d_rs::b2_shape::*;
use box2d_rs::b2_world::*;
use box2d_rs::b2_world_callbacks::*;
use box2d_rs::b2rs_common::UserDataType;
use box2d_rs::joints::b2_distance_joint::*;
use box2d_rs::joints::b2_friction_joint::*;
use box2d_rs::joints::b2_gear_joint::*;
use box2d_rs::joints::b2_motor_joint::*;
use box2d_rs::joints::b2_mouse_joint::*;
use box2d_rs::joints::b2_prismatic_joint::*;
use box2d_rs::joints::b2_pulley_joint::*;
use box2d_rs::joints::b2_revolute_joint::*;
use box2d_rs::joints::b2_weld_joint::*;
use box2d_rs::joints::b2_wheel_joint::*;
use box2d_rs::shapes::b2_chain_shape::*;
use box2d_rs::shapes::b2_circle_shape::*;
use box2d_rs::shapes::b2_edge_shape::*;
use box2d_rs::shapes::b2_polygon_shape::*;
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Default, Copy, Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct U;
impl UserDataType for U {
    type Fixture = i32;
    type Body = i32;
    type Joint = i32;
}

pub type Body = BodyPtr<U>;
pub type Fix = FixturePtr<U>;
pub type Joint = B2jointPtr<U>;

const MAXL: usize = 300;

fn bp(b: &Body) -> usize {
    Rc::as_ptr(b) as *const u8 as usize
}
fn fp(f: &Fix) -> usize {
    Rc::as_ptr(f) as *const u8 as usize
}
fn jp(j: &Joint) -> usize {
    Rc::as_ptr(j) as *const u8 as usize
}

/// Names of objects by address. Handles are kept alive, so addresses are unique.
#[derive(Default)]
pub struct Ids {
    pub m: HashMap<usize, String>,
}
impl Ids {
    pub fn get(&self, p: usize) -> String {
        self.m.get(&p).cloned().unwrap_or_else(|| "?".to_string())
    }
}

#[derive(Clone)]
pub struct FDef {
    pub kind: i64,
    pub one_sided: bool,
    pub radius: f64,
    /// local points of each child
    pub children: Vec<Vec<(f64, f64)>>,
    pub num: i64,
}

pub type Log = Rc<RefCell<Vec<Value>>>;

pub fn key(fa: &str, ia: i32, fb: &str, ib: i32) -> String {
    let (a, b) = (format!("{}.{}", fa, ia), format!("{}.{}", fb, ib));
    if a < b {
        format!("{}|{}", a, b)
    } else {
        format!("{}|{}", b, a)
    }
}

pub struct Listener {
    pub ids: Rc<RefCell<Ids>>,
    pub log: Log,
    /// contacts whose key hash modulo this value is `dis_rem` are disabled in pre-solve (0: never)
    pub dis_mod: u64,
    pub step: Rc<RefCell<u64>>,
    pub impulses: bool,
}
impl Listener {
    fn ev(&self, e: &str, c: &dyn B2contactDynTrait<U>) -> Map<String, Value> {
        let b = c.get_base();
        let ids = self.ids.borrow();
        let fa = ids.get(fp(&b.get_fixture_a()));
        let fb = ids.get(fp(&b.get_fixture_b()));
        let mut m = Map::new();
        m.insert("e".into(), json!(e));
        m.insert("k".into(), json!(key(&fa, b.get_child_index_a(), &fb, b.get_child_index_b())));
        m.insert("fa".into(), json!(fa));
        m.insert("fb".into(), json!(fb));
        m.insert("t".into(), json!(b.is_touching()));
        m.insert("en".into(), json!(b.is_enabled()));
        m.insert("np".into(), json!(b.get_manifold().point_count as i64));
        m
    }
}
pub fn khash(k: &str, step: u64) -> u64 {
    let mut h: u64 = 1469598103934665603 ^ step.wrapping_mul(0x9E3779B97F4A7C15);
    for b in k.bytes() {
        h = (h ^ b as u64).wrapping_mul(1099511628211);
    }
    (h >> 17) ^ h
}
impl B2contactListener<U> for Listener {
    fn begin_contact(&mut self, contact: &mut dyn B2contactDynTrait<U>) {
        let m = self.ev("begin", contact);
        self.log.borrow_mut().push(Value::Object(m));
    }
    fn end_contact(&mut self, contact: &mut dyn B2contactDynTrait<U>) {
        let m = self.ev("end", contact);
        self.log.borrow_mut().push(Value::Object(m));
    }
    fn pre_solve(&mut self, contact: &mut dyn B2contactDynTrait<U>, old: &B2manifold) {
        let mut m = self.ev("pre", contact);
        m.insert("op".into(), json!(old.point_count as i64));
        let k = m["k"].as_str().unwrap().to_string();
        let dis = self.dis_mod > 0 && khash(&k, *self.step.borrow() / 3) % self.dis_mod == 0;
        m.insert("dis".into(), json!(dis));
        if dis {
            contact.get_base_mut().set_enabled(false);
        }
        if self.impulses {
            let b = contact.get_base();
            let mut wm = B2worldManifold::default();
            b.get_world_manifold(&mut wm);
            let f = 16384.0;
            let k = b.get_manifold().point_count;
            let id = |p: &B2manifoldPoint| {
                let c = p.id.cf;
                c.index_a as i64 + ((c.index_b as i64) << 8) + ((c.type_a as i64) << 16) + ((c.type_b as i64) << 24)
            };
            let wi = |p: &B2manifoldPoint| [sc(p.normal_impulse, f), sc(p.tangent_impulse, f)];
            let (new, old) = (&b.get_manifold().points[..k], &old.points[..old.point_count]);
            m.insert("nr".into(), json!([sc(wm.normal.x, f), sc(wm.normal.y, f)]));
            m.insert("pt".into(), json!((0..k).map(|i| [sc(wm.points[i].x, f), sc(wm.points[i].y, f)]).collect::<Vec<_>>()));
            m.insert("sp".into(), json!((0..k).map(|i| sc(wm.separations[i], f)).collect::<Vec<_>>()));
            m.insert("id".into(), json!(new.iter().map(id).collect::<Vec<_>>()));
            m.insert("wi".into(), json!(new.iter().map(wi).collect::<Vec<_>>()));
            m.insert("oid".into(), json!(old.iter().map(id).collect::<Vec<_>>()));
            m.insert("ow".into(), json!(old.iter().map(wi).collect::<Vec<_>>()));
        }
        self.log.borrow_mut().push(Value::Object(m));
    }
    fn post_solve(&mut self, contact: &mut dyn B2contactDynTrait<U>, impulse: &B2contactImpulse) {
        let mut m = self.ev("post", contact);
        m.insert("n".into(), json!(impulse.count));
        if self.impulses {
            let k = (impulse.count.max(0) as usize).min(2);
            m.insert("ni".into(), json!((0..k).map(|i| sc(impulse.normal_impulses[i], 16384.0)).collect::<Vec<_>>()));
            m.insert("ti".into(), json!((0..k).map(|i| sc(impulse.tangent_impulses[i], 16384.0)).collect::<Vec<_>>()));
        }
        self.log.borrow_mut().push(Value::Object(m));
    }
}

pub struct Bye {
    pub ids: Rc<RefCell<Ids>>,
    pub log: Log,
}
impl B2destructionListener<U> for Bye {
    fn say_goodbye_joint(&mut self, joint: Joint) {
        let id = self.ids.borrow().get(jp(&joint));
        self.log.borrow_mut().push(json!({"e":"byej","k":id}));
    }
    fn say_goodbye_fixture(&mut self, fixture: Fix) {
        let id = self.ids.borrow().get(fp(&fixture));
        self.log.borrow_mut().push(json!({"e":"byef","k":id}));
    }
}

/// User filter: fixtures whose numbers add up to a multiple of three do not collide.
pub struct ModFilter {
    pub nums: Rc<RefCell<HashMap<usize, i64>>>,
}
impl B2contactFilter<U> for ModFilter {
    fn should_collide(&self, a: Fix, b: Fix) -> bool {
        let n = self.nums.borrow();
        let s = n.get(&fp(&a)).copied().unwrap_or(0) + n.get(&fp(&b)).copied().unwrap_or(0);
        s % 3 != 0
    }
}

pub struct Sim {
    pub w: B2worldPtr<U>,
    pub bodies: BTreeMap<String, Body>,
    pub fixtures: BTreeMap<String, Fix>,
    pub joints: BTreeMap<String, Joint>,
    pub fbody: BTreeMap<String, String>,
    pub jdef: BTreeMap<String, (String, String, String, String, String)>, // a, b, type, gear joint 1, 2
    pub fdef: HashMap<String, FDef>,
    pub ids: Rc<RefCell<Ids>>,
    pub nums: Rc<RefCell<HashMap<usize, i64>>>,
    pub log: Log,
    pub stepno: Rc<RefCell<u64>>,
    pub graveyard: Vec<(Option<Body>, Option<Fix>, Option<Joint>)>,
    pub nb: usize,
    pub nf: usize,
    pub nj: usize,
    pub dead: bool,
    /// child behind each proxy, recorded when the proxy first appears
    pub kids: RefCell<HashMap<i32, (String, usize)>>,
    /// what the snapshot contains
    pub with_geo: bool,
    pub with_joint: bool,
    pub with_force: bool,
    pub with_mass: bool,
    pub with_view: bool,
}

pub fn shape_from(a: &Value) -> (Rc<RefCell<dyn B2shapeDynTrait>>, FDef) {
    let pts = |k: &str| -> Vec<B2vec2> {
        a.get(k)
            .and_then(|v| v.as_array())
            .map(|v| {
                v.iter()
                    .map(|p| B2vec2::new(p[0].as_i64().unwrap_or(0) as f32 / S, p[1].as_i64().unwrap_or(0) as f32 / S))
                    .collect()
            })
            .unwrap_or_default()
    };
    let d = |p: &B2vec2| (p.x as f64, p.y as f64);
    match gs(a, "k") {
        "c" => {
            let mut c = B2circleShape::default();
            c.base.m_radius = gf(a, "r");
            c.m_p = B2vec2::new(gf(a, "x"), gf(a, "y"));
            let fd = FDef { kind: 0, one_sided: false, radius: gf(a, "r") as f64, children: vec![vec![d(&c.m_p)]], num: 0 };
            (Rc::new(RefCell::new(c)), fd)
        }
        "b" => {
            let mut p = B2polygonShape::default();
            let (hx, hy) = (gf(a, "hx"), gf(a, "hy"));
            let (cx, cy) = (gf(a, "x"), gf(a, "y"));
            if cx == 0.0 && cy == 0.0 {
                p.set_as_box(hx, hy);
            } else {
                p.set_as_box_angle(hx, hy, B2vec2::new(cx, cy), 0.0);
            }
            let (hx, hy, cx, cy) = (hx as f64, hy as f64, cx as f64, cy as f64);
            let v = vec![(cx - hx, cy - hy), (cx + hx, cy - hy), (cx + hx, cy + hy), (cx - hx, cy + hy)];
            (Rc::new(RefCell::new(p)), FDef { kind: 2, one_sided: false, radius: 0.01, children: vec![v], num: 0 })
        }
        "p" => {
            let v = pts("v");
            let mut p = B2polygonShape::default();
            p.set(&v);
            let c = v.iter().map(d).collect();
            (Rc::new(RefCell::new(p)), FDef { kind: 2, one_sided: false, radius: 0.01, children: vec![c], num: 0 })
        }
        "e" => {
            let v = pts("v");
            let mut e = B2edgeShape::default();
            let os = v.len() == 4;
            if os {
                e.set_one_sided(v[0], v[1], v[2], v[3]);
            } else {
                e.set_two_sided(v[0], v[1]);
            }
            let c = if os { vec![d(&v[1]), d(&v[2])] } else { vec![d(&v[0]), d(&v[1])] };
            (Rc::new(RefCell::new(e)), FDef { kind: 1, one_sided: os, radius: 0.01, children: vec![c], num: 0 })
        }
        _ => {
            let v = pts("v");
            let mut c = B2chainShape::default();
            let lp = gb(a, "loop");
            let mut ch = Vec::new();
            if lp {
                c.create_loop(&v);
            } else {
                let n = v.len();
                let g0 = B2vec2::new(2.0 * v[0].x - v[1].x, 2.0 * v[0].y - v[1].y);
                let g1 = B2vec2::new(2.0 * v[n - 1].x - v[n - 2].x, 2.0 * v[n - 1].y - v[n - 2].y);
                c.create_chain(&v, g0, g1);
            }
            let n = v.len();
            let cnt = if lp { n } else { n - 1 };
            for i in 0..cnt {
                ch.push(vec![d(&v[i]), d(&v[(i + 1) % n])]);
            }
            (Rc::new(RefCell::new(c)), FDef { kind: 3, one_sided: true, radius: 0.01, children: ch, num: 0 })
        }
    }
}

pub fn btype(t: i64) -> B2bodyType {
    match t {
        0 => B2bodyType::B2StaticBody,
        1 => B2bodyType::B2KinematicBody,
        _ => B2bodyType::B2DynamicBody,
    }
}
pub fn btype_i(t: B2bodyType) -> i64 {
    match t {
        B2bodyType::B2StaticBody => 0,
        B2bodyType::B2KinematicBody => 1,
        B2bodyType::B2DynamicBody => 2,
    }
}

impl Sim {
    pub fn new(a: &Value) -> Self {
        let w = B2world::<U>::new(B2vec2::new(gf(a, "gx"), gf(a, "gy")));
        let ids = Rc::new(RefCell::new(Ids::default()));
        let nums = Rc::new(RefCell::new(HashMap::new()));
        let log: Log = Rc::new(RefCell::new(Vec::new()));
        let stepno = Rc::new(RefCell::new(0));
        {
            let mut wm = w.borrow_mut();
            wm.set_continuous_physics(gbd(a, "cont", true));
            wm.set_allow_sleeping(gbd(a, "as", true));
            wm.set_sub_stepping(gbd(a, "sub", false));
            wm.set_warm_starting(gbd(a, "ws", true));
            wm.set_auto_clear_forces(gbd(a, "acf", true));
            wm.set_contact_listener(Rc::new(RefCell::new(Listener {
                ids: ids.clone(),
                log: log.clone(),
                dis_mod: gi(a, "dis") as u64,
                step: stepno.clone(),
                impulses: gb(a, "imp"),
            })));
            wm.set_destruction_listener(Rc::new(RefCell::new(Bye { ids: ids.clone(), log: log.clone() })));
            if gi(a, "cf") == 1 {
                wm.set_contact_filter(Rc::new(RefCell::new(ModFilter { nums: nums.clone() })));
            }
        }
        Sim {
            w,
            bodies: BTreeMap::new(),
            fixtures: BTreeMap::new(),
            joints: BTreeMap::new(),
            fbody: BTreeMap::new(),
            jdef: BTreeMap::new(),
            fdef: HashMap::new(),
            ids,
            nums,
            log,
            stepno,
            graveyard: Vec::new(),
            nb: 0,
            nf: 0,
            nj: 0,
            dead: false,
            kids: RefCell::new(HashMap::new()),
            with_geo: gbd(a, "geo", true),
            with_joint: gb(a, "jx"),
            with_force: gb(a, "jf"),
            with_mass: gb(a, "mx"),
            with_view: gb(a, "vx"),
        }
    }

    /// The body a fixture belongs to.
    pub fn owner(&self, f: &str) -> String {
        let b = self.fixtures[f].borrow().get_body();
        self.ids.borrow().get(bp(&b))
    }
    fn body(&self, op: &Value, k: &str) -> Body {
        self.bodies[gs(op, k)].clone()
    }

    /// Executes one operation; the event carries the operation, its outcome,
    /// the callbacks it caused and the state after it.
    pub fn exec(&mut self, op: &Value) -> Value {
        self.log.borrow_mut().clear();
        let mut ret = json!({});
        let res = guarded(op, || self.apply(op));
        let mut ev = Map::new();
        ev.insert("op".into(), op["op"].clone());
        let mut a = op.as_object().unwrap().clone();
        a.remove("op");
        match res {
            Ok(r) => {
                if r.is_object() {
                    ret = r;
                }
                ev.insert("r".into(), json!("ok"));
                ev.insert("msg".into(), json!(""));
            }
            Err(m) => {
                ev.insert("r".into(), json!("panic"));
                ev.insert("msg".into(), json!(m));
                self.dead = true;
            }
        }
        ev.insert("a".into(), Value::Object(a));
        ev.insert("ret".into(), ret);
        ev.insert("ev".into(), Value::Array(self.log.borrow_mut().drain(..).collect()));
        let snap = if self.dead { None } else { guarded(&json!({"op":"snapshot"}), || self.snapshot()).ok() };
        match snap {
            Some(s) => {
                ev.insert("s".into(), s);
            }
            None => {
                if !self.dead {
                    ev.insert("r".into(), json!("unreadable"));
                    self.dead = true;
                }
                ev.insert("s".into(), empty_snapshot());
            }
        }
        Value::Object(ev)
    }

    /// Executes one operation without looking at the state.
    pub fn call(&mut self, op: &Value) -> (String, Vec<Value>) {
        self.log.borrow_mut().clear();
        let r = match guarded(op, || self.apply(op)) {
            Ok(_) => "ok".to_string(),
            Err(m) => {
                self.dead = true;
                format!("panic: {}", m)
            }
        };
        let ev = self.log.borrow_mut().drain(..).collect();
        (r, ev)
    }

    fn bury_fixture(&mut self, f: &str) {
        if let Some(x) = self.fixtures.remove(f) {
            self.graveyard.push((None, Some(x), None));
        }
        self.fbody.remove(f);
    }
    fn bury_joint(&mut self, j: &str) {
        if let Some(x) = self.joints.remove(j) {
            self.graveyard.push((None, None, Some(x)));
        }
        self.jdef.remove(j);
    }

    fn apply(&mut self, op: &Value) -> Value {
        let v2 = |x: &str, y: &str| B2vec2::new(gf(op, x), gf(op, y));
        match gs(op, "op") {
            "create_body" => {
                let mut d = B2bodyDef::<U>::default();
                d.body_type = btype(gi(op, "ty"));
                d.position = v2("x", "y");
                d.angle = gf(op, "ang");
                d.linear_velocity = v2("vx", "vy");
                d.angular_velocity = gf(op, "w");
                d.awake = gbd(op, "aw", true);
                d.allow_sleep = gbd(op, "sl", true);
                d.enabled = gbd(op, "en", true);
                d.bullet = gb(op, "bu");
                d.fixed_rotation = gb(op, "fr");
                d.linear_damping = gf(op, "ld");
                d.angular_damping = gf(op, "ad");
                if op.get("gs").is_some() {
                    d.gravity_scale = gf(op, "gs");
                }
                d.user_data = Some(self.nb as i32 + 1);
                let b = B2world::create_body(self.w.clone(), &d);
                self.nb += 1;
                let id = gs(op, "id").to_string();
                self.ids.borrow_mut().m.insert(bp(&b), id.clone());
                self.bodies.insert(id, b);
            }
            "destroy_body" => {
                let id = gs(op, "b").to_string();
                let b = self.body(op, "b");
                self.w.borrow_mut().destroy_body(b.clone());
                let fs: Vec<String> = self.fbody.iter().filter(|(_, v)| **v == id).map(|(k, _)| k.clone()).collect();
                for f in fs {
                    self.bury_fixture(&f);
                }
                let js: Vec<String> = self.jdef.iter().filter(|(_, v)| v.0 == id || v.1 == id).map(|(k, _)| k.clone()).collect();
                for j in js {
                    self.bury_joint(&j);
                }
                self.bodies.remove(&id);
                self.graveyard.push((Some(b), None, None));
            }
            "create_fixture" => {
                let (sh, mut fd) = shape_from(&op["sh"]);
                let b = self.body(op, "b");
                let mut d = B2fixtureDef::<U>::default();
                d.shape = Some(sh);
                d.density = gf(op, "de");
                d.is_sensor = gb(op, "se");
                if op.get("fr").is_some() {
                    d.friction = gf(op, "fr");
                }
                if op.get("re").is_some() {
                    d.restitution = gf(op, "re");
                }
                if op.get("rt").is_some() {
                    d.restitution_threshold = gf(op, "rt");
                }
                if op.get("cat").is_some() {
                    d.filter.category_bits = gi(op, "cat") as u16;
                    d.filter.mask_bits = gi(op, "mask") as u16;
                    d.filter.group_index = gi(op, "grp") as i16;
                }
                d.user_data = Some(self.nf as i32 + 1);
                let f = B2body::create_fixture(b, &d);
                self.nf += 1;
                fd.num = self.nf as i64;
                let id = gs(op, "id").to_string();
                self.ids.borrow_mut().m.insert(fp(&f), id.clone());
                self.nums.borrow_mut().insert(fp(&f), fd.num);
                self.fdef.insert(id.clone(), fd);
                self.fbody.insert(id.clone(), gs(op, "b").to_string());
                self.fixtures.insert(id, f);
            }
            "destroy_fixture" => {
                let id = gs(op, "f").to_string();
                let f = self.fixtures[&id].clone();
                let b = self.bodies[&self.fbody[&id]].clone();
                B2body::destroy_fixture(b, f);
                self.bury_fixture(&id);
            }
            "create_joint" => {
                let def = self.joint_def(op);
                let j = self.w.borrow_mut().create_joint(&def);
                self.nj += 1;
                let id = gs(op, "id").to_string();
                self.ids.borrow_mut().m.insert(jp(&j), id.clone());
                self.joints.insert(id.clone(), j);
                self.jdef.insert(
                    id,
                    (gs(op, "a").into(), gs(op, "b").into(), gs(op, "jt").into(), gs(op, "g1").into(), gs(op, "g2").into()),
                );
            }
            "destroy_joint" => {
                let id = gs(op, "j").to_string();
                let j = self.joints[&id].clone();
                self.w.borrow_mut().destroy_joint(j);
                self.bury_joint(&id);
            }
            "set_enabled" => B2body::set_enabled(self.body(op, "b"), gb(op, "v")),
            "set_type" => B2body::set_type(self.body(op, "b"), btype(gi(op, "v"))),
            "set_transform" => self.body(op, "b").borrow_mut().set_transform(v2("x", "y"), gf(op, "ang")),
            "set_linear_velocity" => self.body(op, "b").borrow_mut().set_linear_velocity(v2("x", "y")),
            "set_angular_velocity" => self.body(op, "b").borrow_mut().set_angular_velocity(gf(op, "w")),
            "apply_force" => {
                let b = self.body(op, "b");
                let p = v2("px", "py");
                b.borrow_mut().apply_force(v2("x", "y"), p, gb(op, "wake"));
            }
            "apply_force_to_center" => self.body(op, "b").borrow_mut().apply_force_to_center(v2("x", "y"), gb(op, "wake")),
            "apply_torque" => self.body(op, "b").borrow_mut().apply_torque(gf(op, "t"), gb(op, "wake")),
            "apply_linear_impulse" => {
                let b = self.body(op, "b");
                b.borrow_mut().apply_linear_impulse(v2("x", "y"), v2("px", "py"), gb(op, "wake"));
            }
            "apply_linear_impulse_to_center" => {
                self.body(op, "b").borrow_mut().apply_linear_impulse_to_center(v2("x", "y"), gb(op, "wake"))
            }
            "apply_angular_impulse" => self.body(op, "b").borrow_mut().apply_angular_impulse(gf(op, "t"), gb(op, "wake")),
            "set_awake" => self.body(op, "b").borrow_mut().set_awake(gb(op, "v")),
            "set_sleeping_allowed" => self.body(op, "b").borrow_mut().set_sleeping_allowed(gb(op, "v")),
            "set_bullet" => self.body(op, "b").borrow_mut().set_bullet(gb(op, "v")),
            "set_fixed_rotation" => self.body(op, "b").borrow_mut().set_fixed_rotation(gb(op, "v")),
            "set_linear_damping" => self.body(op, "b").borrow_mut().set_linear_damping(gf(op, "v")),
            "set_angular_damping" => self.body(op, "b").borrow_mut().set_angular_damping(gf(op, "v")),
            "set_gravity_scale" => self.body(op, "b").borrow_mut().set_gravity_scale(gf(op, "v")),
            "reset_mass_data" => self.body(op, "b").borrow_mut().reset_mass_data(),
            "set_mass_data" => {
                let md = B2massData { mass: gf(op, "m"), center: v2("x", "y"), i: gf(op, "i") };
                self.body(op, "b").borrow_mut().set_mass_data(&md);
            }
            "set_sensor" => self.fixtures[gs(op, "f")].borrow_mut().set_sensor(gb(op, "v")),
            "set_filter" => {
                let mut fl = B2filter::default();
                fl.category_bits = gi(op, "cat") as u16;
                fl.mask_bits = gi(op, "mask") as u16;
                fl.group_index = gi(op, "grp") as i16;
                self.fixtures[gs(op, "f")].borrow_mut().set_filter_data(fl);
            }
            "refilter" => self.fixtures[gs(op, "f")].borrow_mut().refilter(),
            "set_density" => self.fixtures[gs(op, "f")].borrow_mut().set_density(gf(op, "v")),
            "set_friction" => self.fixtures[gs(op, "f")].borrow_mut().set_friction(gf(op, "v")),
            "set_restitution" => self.fixtures[gs(op, "f")].borrow_mut().set_restitution(gf(op, "v")),
            "set_restitution_threshold" => self.fixtures[gs(op, "f")].borrow_mut().set_restitution_threshold(gf(op, "v")),
            "set_allow_sleeping" => self.w.borrow_mut().set_allow_sleeping(gb(op, "v")),
            "set_continuous" => self.w.borrow_mut().set_continuous_physics(gb(op, "v")),
            "set_warm_starting" => self.w.borrow_mut().set_warm_starting(gb(op, "v")),
            "set_sub_stepping" => self.w.borrow_mut().set_sub_stepping(gb(op, "v")),
            "set_auto_clear" => self.w.borrow_mut().set_auto_clear_forces(gb(op, "v")),
            "clear_forces" => self.w.borrow_mut().clear_forces(),
            "set_gravity" => self.w.borrow_mut().set_gravity(v2("x", "y")),
            "shift_origin" => self.w.borrow().shift_origin(v2("x", "y")),
            "joint_set" => self.joint_set(op),
            "contact_set" | "contact_reset" => {
                let ids = self.ids.borrow();
                let c = self.w.borrow().get_contact_list().iter().find(|c| ckey(&ids, &*c.borrow()) == gs(op, "c"));
                let c = c.expect("no such contact");
                let mut c = c.borrow_mut();
                let b = c.get_base_mut();
                match (gs(op, "op"), gs(op, "m")) {
                    ("contact_set", "fr") => b.set_friction(gf(op, "v")),
                    ("contact_set", "re") => b.set_restitution(gf(op, "v")),
                    ("contact_set", "rt") => b.set_restitution_threshold(gf(op, "v")),
                    ("contact_set", _) => b.set_tangent_speed(gf(op, "v")),
                    (_, "fr") => b.reset_friction(),
                    (_, "re") => b.reset_restitution(),
                    _ => b.reset_restitution_threshold(),
                }
            }
            "step" => {
                *self.stepno.borrow_mut() += 1;
                self.w.borrow_mut().step(gi(op, "dt") as f32 / 1024.0, gi(op, "vi") as i32, gi(op, "pi") as i32);
            }
            "nop" => {}
            x => return self.view(op).unwrap_or_else(|| panic!("unknown operation {}", x)),
        }
        Value::Null
    }

    pub fn joint_def(&self, op: &Value) -> B2JointDefEnum<U> {
        let v2 = |x: &str, y: &str| B2vec2::new(gf(op, x), gf(op, y));
        let a = self.body(op, "a");
        let b = self.body(op, "b");
        let cc = gb(op, "cc");
        let ud = Some(self.nj as i32 + 1);
        let axis = |x: &str, y: &str| {
            // a unit vector from a Pythagorean triple
            B2vec2::new(gi(op, x) as f32 / 5.0, gi(op, y) as f32 / 5.0)
        };
        match gs(op, "jt") {
            "distance" => {
                let mut d = B2distanceJointDef::<U>::default();
                d.initialize(a, b, v2("x", "y"), v2("x2", "y2"));
                d.base.collide_connected = cc;
                d.base.user_data = ud;
                d.stiffness = gf(op, "k");
                d.damping = gf(op, "d");
                if op.get("len").is_some() {
                    d.length = gf(op, "len");
                }
                if op.get("lo").is_some() {
                    d.min_length = gf(op, "lo");
                    d.max_length = gf(op, "hi");
                }
                B2JointDefEnum::DistanceJoint(d)
            }
            "revolute" => {
                let mut d = B2revoluteJointDef::<U>::default();
                d.initialize(a, b, v2("x", "y"));
                d.base.collide_connected = cc;
                d.base.user_data = ud;
                d.enable_limit = gb(op, "el");
                d.lower_angle = gf(op, "lo");
                d.upper_angle = gf(op, "hi");
                d.enable_motor = gb(op, "em");
                d.motor_speed = gf(op, "ms");
                d.max_motor_torque = gf(op, "mt");
                B2JointDefEnum::RevoluteJoint(d)
            }
            "prismatic" => {
                let mut d = B2prismaticJointDef::<U>::default();
                d.initialize(a, b, v2("x", "y"), axis("ax", "ay"));
                d.base.collide_connected = cc;
                d.base.user_data = ud;
                d.enable_limit = gb(op, "el");
                d.lower_translation = gf(op, "lo");
                d.upper_translation = gf(op, "hi");
                d.enable_motor = gb(op, "em");
                d.motor_speed = gf(op, "ms");
                d.max_motor_force = gf(op, "mt");
                B2JointDefEnum::PrismaticJoint(d)
            }
            "wheel" => {
                let mut d = B2wheelJointDef::<U>::default();
                d.initialize(a, b, v2("x", "y"), axis("ax", "ay"));
                d.base.collide_connected = cc;
                d.base.user_data = ud;
                d.enable_limit = gb(op, "el");
                d.lower_translation = gf(op, "lo");
                d.upper_translation = gf(op, "hi");
                d.enable_motor = gb(op, "em");
                d.motor_speed = gf(op, "ms");
                d.max_motor_torque = gf(op, "mt");
                d.stiffness = gf(op, "k");
                d.damping = gf(op, "d");
                B2JointDefEnum::WheelJoint(d)
            }
            "weld" => {
                let mut d = B2weldJointDef::<U>::default();
                d.initialize(a, b, v2("x", "y"));
                d.base.collide_connected = cc;
                d.base.user_data = ud;
                d.stiffness = gf(op, "k");
                d.damping = gf(op, "d");
                B2JointDefEnum::WeldJoint(d)
            }
            "friction" => {
                let mut d = B2frictionJointDef::<U>::default();
                d.initialize(a, b, v2("x", "y"));
                d.base.collide_connected = cc;
                d.base.user_data = ud;
                d.max_force = gf(op, "mf");
                d.max_torque = gf(op, "mt");
                B2JointDefEnum::FrictionJoint(d)
            }
            "motor" => {
                let mut d = B2motorJointDef::<U>::default();
                d.initialize(a, b);
                d.base.collide_connected = cc;
                d.base.user_data = ud;
                d.max_force = gf(op, "mf");
                d.max_torque = gf(op, "mt");
                if op.get("cfac").is_some() {
                    d.correction_factor = gf(op, "cfac");
                }
                B2JointDefEnum::MotorJoint(d)
            }
            "pulley" => {
                let mut d = B2pulleyJointDef::<U>::default();
                d.initialize(a, b, v2("gx", "gy"), v2("gx2", "gy2"), v2("x", "y"), v2("x2", "y2"), gf(op, "ratio"));
                d.base.collide_connected = cc;
                d.base.user_data = ud;
                B2JointDefEnum::PulleyJoint(d)
            }
            "mouse" => {
                let mut d = B2mouseJointDef::<U>::default();
                d.base.body_a = Some(a);
                d.base.body_b = Some(b);
                d.base.collide_connected = cc;
                d.base.user_data = ud;
                d.target = v2("x", "y");
                d.max_force = gf(op, "mf");
                d.stiffness = gf(op, "k");
                d.damping = gf(op, "d");
                B2JointDefEnum::MouseJoint(d)
            }
            "gear" => {
                let mut d = B2gearJointDef::<U>::default();
                d.base.body_a = Some(a);
                d.base.body_b = Some(b);
                d.base.collide_connected = cc;
                d.base.user_data = ud;
                d.joint1 = Some(self.joints[gs(op, "g1")].clone());
                d.joint2 = Some(self.joints[gs(op, "g2")].clone());
                d.ratio = gf(op, "ratio");
                B2JointDefEnum::GearJoint(d)
            }
            x => panic!("unknown joint {}", x),
        }
    }

    fn joint_set(&mut self, op: &Value) {
        use JointAsDerivedMut::*;
        let j = self.joints[gs(op, "j")].clone();
        let mut j = j.borrow_mut();
        let v = gf(op, "v");
        let f = gb(op, "v");
        let p = B2vec2::new(gf(op, "x"), gf(op, "y"));
        let (lo, hi) = (gf(op, "lo"), gf(op, "hi"));
        let m = gs(op, "m");
        match j.as_derived_mut() {
            EDistanceJoint(j) => match m {
                "length" => {
                    j.set_length(v);
                }
                "min_length" => {
                    j.set_min_length(v);
                }
                "max_length" => {
                    j.set_max_length(v);
                }
                "stiffness" => j.set_stiffness(v),
                "damping" => j.set_damping(v),
                x => panic!("unknown setter {}", x),
            },
            EFrictionJoint(j) => match m {
                "max_force" => j.set_max_force(v),
                "max_torque" => j.set_max_torque(v),
                x => panic!("unknown setter {}", x),
            },
            EGearJoint(j) => match m {
                "ratio" => j.set_ratio(v),
                x => panic!("unknown setter {}", x),
            },
            EMouseJoint(j) => match m {
                "target" => j.set_target(p),
                "max_force" => j.set_max_force(v),
                "stiffness" => j.set_stiffness(v),
                "damping" => j.set_damping(v),
                x => panic!("unknown setter {}", x),
            },
            EMotorJoint(j) => match m {
                "linear_offset" => j.set_linear_offset(p),
                "angular_offset" => j.set_angular_offset(v),
                "max_force" => j.set_max_force(v),
                "max_torque" => j.set_max_torque(v),
                "correction" => j.set_correction_factor(v),
                x => panic!("unknown setter {}", x),
            },
            EPulleyJoint(_) => panic!("pulley has no setter"),
            ERevoluteJoint(j) => match m {
                "enable_limit" => j.enable_limit(f),
                "limits" => j.set_limits(lo, hi),
                "enable_motor" => j.enable_motor(f),
                "motor_speed" => j.set_motor_speed(v),
                "max_motor" => j.set_max_motor_torque(v),
                x => panic!("unknown setter {}", x),
            },
            EPrismaticJoint(j) => match m {
                "enable_limit" => j.enable_limit(f),
                "limits" => j.set_limits(lo, hi),
                "enable_motor" => j.enable_motor(f),
                "motor_speed" => j.set_motor_speed(v),
                "max_motor" => j.set_max_motor_force(v),
                x => panic!("unknown setter {}", x),
            },
            EWeldJoint(j) => match m {
                "stiffness" => j.set_stiffness(v),
                "damping" => j.set_damping(v),
                x => panic!("unknown setter {}", x),
            },
            EWheelJoint(j) => match m {
                "enable_limit" => j.enable_limit(f),
                "limits" => j.set_limits(lo, hi),
                "enable_motor" => j.enable_motor(f),
                "motor_speed" => j.set_motor_speed(v),
                "max_motor" => j.set_max_motor_torque(v),
                "stiffness" => j.set_stiffness(v),
                "damping" => j.set_damping(v),
                x => panic!("unknown setter {}", x),
            },
        }
    }

    /// Stored boxes of all children, by fixture name; None if they cannot be attributed.
    fn boxes(&self) -> Option<HashMap<String, Vec<B2AABB>>> {
        let huge = B2AABB { lower_bound: B2vec2::new(-1.0e6, -1.0e6), upper_bound: B2vec2::new(1.0e6, 1.0e6) };
        let names: RefCell<Vec<String>> = RefCell::new(Vec::new());
        let w = self.w.borrow();
        w.query_aabb(
            |f: Fix| {
                names.borrow_mut().push(self.ids.borrow().get(fp(&f)));
                names.borrow().len() < 4 * MAXL
            },
            huge,
        );
        let proxies: RefCell<Vec<i32>> = RefCell::new(Vec::new());
        let cm = w.get_contact_manager();
        let bp = cm.borrow().get_broad_phase();
        let bp = bp.borrow();
        bp.query(
            |id: i32| {
                proxies.borrow_mut().push(id);
                proxies.borrow().len() < 4 * MAXL
            },
            huge,
        );
        let (names, proxies) = (names.into_inner(), proxies.into_inner());
        if names.len() != proxies.len() {
            return None;
        }
        let mut got: HashMap<String, Vec<(i32, B2AABB)>> = HashMap::new();
        for (n, p) in names.iter().zip(proxies.iter()) {
            got.entry(n.clone()).or_default().push((*p, bp.get_fat_aabb(*p)));
        }
        // Children of one fixture are told apart by their tight boxes when their
        // proxies first appear; after that the proxy numbers identify them.
        let old = self.kids.replace(HashMap::new());
        let mut kids = self.kids.borrow_mut();
        let mut res = HashMap::new();
        for (n, v) in got {
            let fd = self.fdef.get(&n)?;
            if v.len() != fd.children.len() {
                return None;
            }
            if v.len() == 1 {
                res.insert(n, vec![v[0].1]);
                continue;
            }
            let mut known: Vec<Option<(i32, B2AABB)>> = vec![None; v.len()];
            for x in &v {
                if let Some((m, i)) = old.get(&x.0) {
                    if *m == n && *i < known.len() {
                        known[*i] = Some(*x);
                    }
                }
            }
            if known.iter().all(|x| x.is_some()) {
                for (i, x) in known.iter().enumerate() {
                    kids.insert(x.unwrap().0, (n.clone(), i));
                }
                res.insert(n, known.into_iter().map(|x| x.unwrap().1).collect());
                continue;
            }
            let f = self.fixtures.get(&n)?.borrow();
            let xf = f.get_body().borrow().get_transform();
            let mut left = v.clone();
            let mut sorted = Vec::new();
            for c in &fd.children {
                let w: Vec<(f64, f64)> = c.iter().map(|p| tr(&xf, *p)).collect();
                let (cx, cy) = ((w[0].0 + w[1].0) / 2.0, (w[0].1 + w[1].1) / 2.0);
                let (ex, ey) = ((w[0].0 - w[1].0).abs() / 2.0, (w[0].1 - w[1].1).abs() / 2.0);
                let mut best = 0;
                let mut bd = f64::MAX;
                for (i, (_, b)) in left.iter().enumerate() {
                    let (bx, by) = (
                        (b.lower_bound.x + b.upper_bound.x) as f64 / 2.0,
                        (b.lower_bound.y + b.upper_bound.y) as f64 / 2.0,
                    );
                    let (hx, hy) = (
                        (b.upper_bound.x - b.lower_bound.x) as f64 / 2.0,
                        (b.upper_bound.y - b.lower_bound.y) as f64 / 2.0,
                    );
                    let d = (bx - cx).abs() + (by - cy).abs() + (hx - ex).abs() + (hy - ey).abs();
                    if d < bd {
                        bd = d;
                        best = i;
                    }
                }
                let x = left.remove(best);
                kids.insert(x.0, (n.clone(), sorted.len()));
                sorted.push(x.1);
            }
            res.insert(n, sorted);
        }
        Some(res)
    }

    pub fn snapshot(&self) -> Value {
        let ids = self.ids.borrow();
        let w = self.w.borrow();
        let boxes = self.boxes();
        let mut s = Map::new();
        let bl: Vec<String> = w.get_body_list().iter().take(MAXL).map(|b| ids.get(bp(&b))).collect();
        let jl: Vec<String> = w.get_joint_list().iter().take(MAXL).map(|j| ids.get(jp(&j))).collect();
        s.insert("bl".into(), json!(bl));
        s.insert("jl".into(), json!(jl));
        s.insert(
            "n".into(),
            json!([w.get_body_count(), w.get_joint_count(), w.get_contact_count(), w.get_proxy_count()]),
        );
        s.insert("as".into(), json!(w.get_allow_sleeping()));
        s.insert("lk".into(), json!(w.is_locked()));
        s.insert("fat".into(), json!(boxes.is_some()));
        let mut bm = Map::new();
        for (id, b) in &self.bodies {
            let b = b.borrow();
            let mut m = Map::new();
            let p = b.get_position();
            let ang = b.get_angle();
            let v = b.get_linear_velocity();
            let om = b.get_angular_velocity();
            m.insert("ty".into(), json!(btype_i(b.get_type())));
            m.insert("en".into(), json!(b.is_enabled()));
            m.insert("aw".into(), json!(b.is_awake()));
            m.insert("sl".into(), json!(b.is_sleeping_allowed()));
            m.insert("bu".into(), json!(b.is_bullet()));
            m.insert("fr".into(), json!(b.is_fixed_rotation()));
            m.insert("p".into(), json!([sc(p.x, 1024.0), sc(p.y, 1024.0), sc(ang, 1024.0)]));
            m.insert("pb".into(), json!([ord(p.x), ord(p.y), ord(ang)]));
            m.insert("v".into(), json!([sc(v.x, 1024.0), sc(v.y, 1024.0), sc(om, 1024.0)]));
            m.insert("vb".into(), json!([ord(v.x), ord(v.y), ord(om)]));
            m.insert("vz".into(), json!(v.x == 0.0 && v.y == 0.0 && om == 0.0));
            m.insert("ms".into(), json!(b.get_mass() > 0.0));
            let fl: Vec<String> = b.get_fixture_list().iter().take(MAXL).map(|f| ids.get(fp(&f))).collect();
            m.insert("fl".into(), json!(fl));
            m.insert("jn".into(), json!(b.get_joint_list().iter().take(MAXL).count()));
            let cl: Vec<Value> = b
                .get_contact_list()
                .iter()
                .take(MAXL)
                .map(|e| {
                    let e = e.borrow();
                    let o = e.other.upgrade().map(|o| ids.get(bp(&o))).unwrap_or_else(|| "?".into());
                    let k = e.contact.upgrade().map(|c| ckey(&ids, &*c.borrow())).unwrap_or_else(|| "?".into());
                    json!([k, o])
                })
                .collect();
            m.insert("cl".into(), json!(cl));
            m.insert("ud".into(), json!(b.get_user_data().unwrap_or(-1)));
            m.insert("ld".into(), json!(sc(b.get_linear_damping(), 256.0)));
            m.insert("ad".into(), json!(sc(b.get_angular_damping(), 256.0)));
            m.insert("gs".into(), json!(sc(b.get_gravity_scale(), 256.0)));
            if self.with_mass {
                let mut md = B2massData::default();
                b.get_mass_data(&mut md);
                let wc = b.get_world_center();
                let lc = b.get_local_center();
                let q = b.get_transform().q;
                let k = 16384.0;
                let km = 262144.0;
                m.insert("m".into(), json!(sc(b.get_mass(), km)));
                m.insert("I".into(), json!(sc(b.get_inertia(), km)));
                m.insert("mdm".into(), json!(sc(md.mass, km)));
                m.insert("mdi".into(), json!(sc(md.i, km)));
                m.insert("mdc".into(), json!([sc(md.center.x, k), sc(md.center.y, k)]));
                m.insert("wc".into(), json!([sc(wc.x, k), sc(wc.y, k)]));
                m.insert("lc".into(), json!([sc(lc.x, k), sc(lc.y, k)]));
                m.insert("hv".into(), json!([sc(v.x, k), sc(v.y, k), sc(om, k)]));
                m.insert("hp".into(), json!([sc(p.x, k), sc(p.y, k), sc(ang, k)]));
                m.insert("q".into(), json!([sc(q.c, k), sc(q.s, k)]));
            }
            bm.insert(id.clone(), Value::Object(m));
        }
        s.insert("B".into(), Value::Object(bm));
        let mut fm = Map::new();
        for (id, f) in &self.fixtures {
            let f = f.borrow();
            let fd = &self.fdef[id];
            let mut m = Map::new();
            let body = f.get_body();
            m.insert("b".into(), json!(ids.get(bp(&body))));
            m.insert("se".into(), json!(f.is_sensor()));
            let fl = f.get_filter_data();
            m.insert("cat".into(), json!(fl.category_bits));
            m.insert("mask".into(), json!(fl.mask_bits));
            m.insert("grp".into(), json!(fl.group_index));
            m.insert("k".into(), json!(fd.kind));
            m.insert("os".into(), json!(fd.one_sided));
            m.insert("q".into(), json!(fd.num));
            m.insert("nc".into(), json!(fd.children.len()));
            m.insert("ud".into(), json!(f.get_user_data().unwrap_or(-1)));
            m.insert("de".into(), json!(sc(f.get_density(), 256.0)));
            m.insert("fr".into(), json!(sc(f.get_friction(), 256.0)));
            m.insert("re".into(), json!(sc(f.get_restitution(), 256.0)));
            m.insert("rt".into(), json!(sc(f.get_restitution_threshold(), 256.0)));
            if self.with_geo {
                let xf = body.borrow().get_transform();
                let vs: Vec<Vec<[i64; 2]>> = fd
                    .children
                    .iter()
                    .map(|c| {
                        c.iter()
                            .map(|p| {
                                let (x, y) = tr(&xf, *p);
                                [sc(x as f32, 256.0), sc(y as f32, 256.0)]
                            })
                            .collect()
                    })
                    .collect();
                m.insert("vs".into(), json!(vs));
                m.insert("rad".into(), json!((fd.radius * 256.0).round() as i64));
                let bx: Vec<[i64; 4]> = match boxes.as_ref().and_then(|b| b.get(id)) {
                    Some(v) => v
                        .iter()
                        .map(|b| [b.lower_bound.x, b.lower_bound.y, b.upper_bound.x, b.upper_bound.y].map(|x| sc(x, 256.0)))
                        .collect(),
                    None => Vec::new(),
                };
                m.insert("bx".into(), json!(bx));
            }
            let bb: Vec<[i64; 4]> = match boxes.as_ref().and_then(|b| b.get(id)) {
                Some(v) => v
                    .iter()
                    .map(|b| [ord(b.lower_bound.x), ord(b.lower_bound.y), ord(b.upper_bound.x), ord(b.upper_bound.y)])
                    .collect(),
                None => Vec::new(),
            };
            m.insert("bb".into(), json!(bb));
            if self.with_view {
                let xf = body.borrow().get_transform();
                let fine = |x: f64| sc(x as f32, 512.0);
                let ws: Vec<Vec<[i64; 2]>> =
                    fd.children.iter().map(|c| c.iter().map(|p| tr(&xf, *p)).map(|(x, y)| [fine(x), fine(y)]).collect()).collect();
                m.insert("ws".into(), json!(ws));
                m.insert("wr".into(), json!((fd.radius * 512.0).round() as i64));
                let bi: Vec<[i64; 4]> = match boxes.as_ref().and_then(|b| b.get(id)) {
                    Some(v) => v
                        .iter()
                        .map(|b| [b.lower_bound.x, b.lower_bound.y, b.upper_bound.x, b.upper_bound.y].map(|x| sc(x, 512.0)))
                        .collect(),
                    None => Vec::new(),
                };
                let ta: Vec<[i64; 2]> = (0..bi.len())
                    .map(|i| f.get_aabb(i as i32).get_center())
                    .map(|c| [sc(c.x, 512.0), sc(c.y, 512.0)])
                    .collect();
                m.insert("bi".into(), json!(bi));
                m.insert("ta".into(), json!(ta));
            }
            fm.insert(id.clone(), Value::Object(m));
        }
        s.insert("F".into(), Value::Object(fm));
        let mut jm = Map::new();
        for (id, j) in &self.joints {
            let jb = j.borrow();
            let b = jb.get_base();
            let mut m = Map::new();
            m.insert("a".into(), json!(ids.get(bp(&b.get_body_a()))));
            m.insert("b".into(), json!(ids.get(bp(&b.get_body_b()))));
            m.insert("cc".into(), json!(b.get_collide_connected()));
            m.insert("ty".into(), json!(self.jdef[id].2));
            m.insert("en".into(), json!(b.is_enabled()));
            m.insert("ud".into(), json!(b.get_user_data().unwrap_or(-1)));
            if self.with_joint {
                m.insert("x".into(), crate::joints::settings(&*jb));
            }
            if self.with_force {
                m.insert("h".into(), crate::joints::forces(&*jb));
            }
            jm.insert(id.clone(), Value::Object(m));
        }
        s.insert("J".into(), Value::Object(jm));
        let mut cs = Vec::new();
        for c in w.get_contact_list().iter().take(MAXL) {
            let c = c.borrow();
            let b = c.get_base();
            let fa = ids.get(fp(&b.get_fixture_a()));
            let fb = ids.get(fp(&b.get_fixture_b()));
            cs.push(json!({
                "k": key(&fa, b.get_child_index_a(), &fb, b.get_child_index_b()),
                "fa": fa, "ia": b.get_child_index_a(), "fb": fb, "ib": b.get_child_index_b(),
                "t": b.is_touching(), "en": b.is_enabled(),
                "np": b.get_manifold().point_count as i64,
                "fr": sc(b.get_friction(), 4096.0), "re": sc(b.get_restitution(), 4096.0),
                "rt": sc(b.get_restitution_threshold(), 4096.0), "ts": sc(b.get_tangent_speed(), 256.0),
            }));
        }
        s.insert("C".into(), Value::Array(cs));
        Value::Object(s)
    }

    /// Largest absolute coordinate of any body, to end runaway runs.
    pub fn extent(&self) -> f32 {
        let mut m: f32 = 0.0;
        for b in self.bodies.values() {
            let b = b.borrow();
            let p = b.get_position();
            if !(p.x.is_finite() && p.y.is_finite()) {
                return f32::INFINITY;
            }
            m = m.max(p.x.abs()).max(p.y.abs());
        }
        m
    }
}

pub fn ckey(ids: &Ids, c: &dyn B2contactDynTrait<U>) -> String {
    let b = c.get_base();
    let fa = ids.get(fp(&b.get_fixture_a()));
    let fb = ids.get(fp(&b.get_fixture_b()));
    key(&fa, b.get_child_index_a(), &fb, b.get_child_index_b())
}

pub fn tr(xf: &B2Transform, p: (f64, f64)) -> (f64, f64) {
    let (c, s) = (xf.q.c as f64, xf.q.s as f64);
    (c * p.0 - s * p.1 + xf.p.x as f64, s * p.0 + c * p.1 + xf.p.y as f64)
}

pub fn empty_snapshot() -> Value {
    json!({"bl":[],"jl":[],"n":[0,0,0,0],"as":true,"lk":false,"fat":false,"B":{},"F":{},"J":{},"C":[]})
}
