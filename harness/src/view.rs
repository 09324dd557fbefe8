//! Read-only views of a world: queries, ray casts, debug drawing, saving.
use crate::util::*;
use crate::world::*;
use box2d_rs::b2_collision::*;
use box2d_rs::b2_draw::*;
use box2d_rs::b2_math::*;
use box2d_rs::b2_joint::*;
use box2d_rs::shapes::b2rs_to_derived_shape::*;
use box2d_rs::b2_world::*;
use box2d_rs::serialize::serialize_b2_world::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::rc::Rc;

const P: f64 = 512.0;
const N: f64 = 16384.0;

fn pt(p: B2vec2) -> [i64; 2] {
    [sc(p.x, P), sc(p.y, P)]
}
fn col(c: B2color) -> [i64; 3] {
    [sc(c.r, 100.0), sc(c.g, 100.0), sc(c.b, 100.0)]
}

/// Records what it is asked to draw.
#[derive(Default)]
pub struct Recorder {
    base: B2draw,
    pub out: Rc<RefCell<Vec<Value>>>,
}
impl Recorder {
    fn put(&self, k: &str, c: B2color, v: Vec<[i64; 2]>, r: f32, ax: [i64; 2]) {
        self.out.borrow_mut().push(json!({"k":k,"c":col(c),"v":v,"r":sc(r, P),"ax":ax}));
    }
}
impl B2drawTrait for Recorder {
    fn get_base(&self) -> &B2draw {
        &self.base
    }
    fn get_base_mut(&mut self) -> &mut B2draw {
        &mut self.base
    }
    fn draw_polygon(&mut self, v: &[B2vec2], c: B2color) {
        self.put("poly", c, v.iter().map(|p| pt(*p)).collect(), 0.0, [0, 0]);
    }
    fn draw_solid_polygon(&mut self, v: &[B2vec2], c: B2color) {
        self.put("spoly", c, v.iter().map(|p| pt(*p)).collect(), 0.0, [0, 0]);
    }
    fn draw_circle(&mut self, p: B2vec2, r: f32, c: B2color) {
        self.put("circle", c, vec![pt(p)], r, [0, 0]);
    }
    fn draw_solid_circle(&mut self, p: B2vec2, r: f32, a: B2vec2, c: B2color) {
        self.put("scircle", c, vec![pt(p)], r, [sc(a.x, N), sc(a.y, N)]);
    }
    fn draw_segment(&mut self, p: B2vec2, q: B2vec2, c: B2color) {
        self.put("seg", c, vec![pt(p), pt(q)], 0.0, [0, 0]);
    }
    fn draw_transform(&mut self, xf: B2Transform) {
        self.put("xf", B2color::new(0.0, 0.0, 0.0), vec![pt(xf.p)], 0.0, [sc(xf.q.c, N), sc(xf.q.s, N)]);
    }
    fn draw_point(&mut self, p: B2vec2, s: f32, c: B2color) {
        self.put("point", c, vec![pt(p)], s, [0, 0]);
    }
}

/// The definition-level content of a world, read through the public interface.
pub fn scene(w: &B2worldPtr<U>) -> Value {
    let w = w.borrow();
    let gr = w.get_gravity();
    let name = |b: &Body| b.borrow().get_user_data().unwrap_or(-1);
    let v = |p: B2vec2| [ord(p.x), ord(p.y)];
    let mut bodies = Vec::new();
    let mut fixtures = Vec::new();
    for b in w.get_body_list().iter() {
        let id = name(&b);
        let b = b.borrow();
        let p = b.get_position();
        let lv = b.get_linear_velocity();
        bodies.push(json!({"ud":id,"ty":btype_i(b.get_type()),
            "p":[ord(p.x),ord(p.y),ord(b.get_angle())],
            "v":[ord(lv.x),ord(lv.y),ord(b.get_angular_velocity())],
            "d":[ord(b.get_linear_damping()),ord(b.get_angular_damping()),ord(b.get_gravity_scale())],
            "fl":[b.is_sleeping_allowed(),b.is_awake(),b.is_fixed_rotation(),b.is_bullet(),b.is_enabled()]}));
        for f in b.get_fixture_list().iter() {
            let f = f.borrow();
            let fl = f.get_filter_data();
            let sh = f.get_shape();
            let sh = match sh.as_derived() {
                ShapeAsDerived::AsCircle(c) => json!({"k":"c","r":ord(c.base.m_radius),"v":[v(c.m_p)],"x":[]}),
                ShapeAsDerived::AsEdge(e) => json!({"k":"e","r":ord(e.base.m_radius),
                    "v":[v(e.m_vertex0),v(e.m_vertex1),v(e.m_vertex2),v(e.m_vertex3)],"x":[e.m_one_sided as i64]}),
                ShapeAsDerived::AsChain(c) => json!({"k":"ch","r":ord(c.base.m_radius),
                    "v":c.m_vertices.iter().map(|p| v(*p)).collect::<Vec<_>>(),
                    "x":[v(c.m_prev_vertex)[0],v(c.m_prev_vertex)[1],v(c.m_next_vertex)[0],v(c.m_next_vertex)[1]]}),
                ShapeAsDerived::AsPolygon(q) => {
                    let mut x: Vec<i64> = q.m_normals[..q.m_count].iter().flat_map(|p| v(*p)).collect();
                    x.extend(v(q.m_centroid));
                    json!({"k":"p","r":ord(q.base.m_radius),
                    "v":q.m_vertices[..q.m_count].iter().map(|p| v(*p)).collect::<Vec<_>>(),"x":x})
                }
            };
            fixtures.push(json!({"b":id,"m":[ord(f.get_density()),ord(f.get_friction()),ord(f.get_restitution()),
                ord(f.get_restitution_threshold())],
                "se":f.is_sensor(),"fl":[fl.category_bits as i64, fl.mask_bits as i64, fl.group_index as i64],"sh":sh}));
        }
    }
    let mut joints = Vec::new();
    for j in w.get_joint_list().iter() {
        let j = j.borrow();
        let b = j.get_base();
        let mut gear = vec![];
        if let JointAsDerived::EGearJoint(g) = j.as_derived() {
            gear.push(g.get_joint1().borrow().get_base().get_user_data().unwrap_or(-1));
            gear.push(g.get_joint2().borrow().get_base().get_user_data().unwrap_or(-1));
        }
        joints.push(json!({"ud":b.get_user_data().unwrap_or(-1),"ty":format!("{:?}", b.get_type()),
            "a":name(&b.get_body_a()),"b":name(&b.get_body_b()),"cc":b.get_collide_connected(),
            "g":gear,"x":crate::joints::settings(&*j)}));
    }
    json!({"g":v(gr),"B":bodies,"F":fixtures,"J":joints,
        "n":[w.get_body_count(), w.get_joint_count(), w.get_proxy_count()]})
}

impl Sim {
    /// Executes a read-only operation; None if the operation is not one.
    pub fn view(&self, op: &Value) -> Option<Value> {
        let v2 = |x: &str, y: &str| B2vec2::new(gf(op, x), gf(op, y));
        Some(match gs(op, "op") {
            "query" => {
                let b = B2AABB { lower_bound: v2("x1", "y1"), upper_bound: v2("x2", "y2") };
                let stop = gi(op, "stop") as usize;
                let hits: RefCell<Vec<String>> = RefCell::new(Vec::new());
                self.w.borrow().query_aabb(
                    |f: Fix| {
                        let mut h = hits.borrow_mut();
                        h.push(self.ids.borrow().get(Rc::as_ptr(&f) as *const u8 as usize));
                        (stop == 0 || h.len() < stop) && h.len() < 500
                    },
                    b,
                );
                json!({"hits":hits.into_inner(),
                    "qb":[ord(b.lower_bound.x),ord(b.lower_bound.y),ord(b.upper_bound.x),ord(b.upper_bound.y)]})
            }
            "ray" => {
                let pol = gs(op, "pol").to_string();
                let k = gi(op, "k") as usize;
                let hits: RefCell<Vec<Value>> = RefCell::new(Vec::new());
                self.w.borrow().ray_cast(
                    |f: Fix, p: B2vec2, n: B2vec2, fr: f32| {
                        let id = self.ids.borrow().get(Rc::as_ptr(&f) as *const u8 as usize);
                        let mut h = hits.borrow_mut();
                        let num = self.fdef.get(&id).map(|d| d.num).unwrap_or(0);
                        let c = match pol.as_str() {
                            "all" => 1.0,
                            "ignore" => -1.0,
                            "clip" => fr,
                            "stop" => {
                                if h.len() + 1 >= k {
                                    0.0
                                } else {
                                    1.0
                                }
                            }
                            // ignore some fixtures, clip at the others
                            "mixed" => {
                                if num % 2 == k as i64 % 2 {
                                    -1.0
                                } else {
                                    fr
                                }
                            }
                            // clip to the middle of what is left beyond the hit
                            _ => (fr + 1.0) / 2.0,
                        };
                        h.push(json!({"f":id,"p":pt(p),"n":[sc(n.x, N), sc(n.y, N)],"t":sc(fr, N),"c":sc(c, N)}));
                        if h.len() > 400 {
                            return 0.0;
                        }
                        c
                    },
                    v2("x1", "y1"),
                    v2("x2", "y2"),
                );
                json!({"hits":hits.into_inner()})
            }
            "draw" => {
                let out = Rc::new(RefCell::new(Vec::new()));
                let rec = Rc::new(RefCell::new(Recorder { base: B2draw::default(), out: out.clone() }));
                let fl = B2drawShapeFlags::from_bits_truncate(gi(op, "fl") as u16);
                rec.borrow_mut().get_base_mut().set_flags(fl);
                self.w.borrow_mut().set_debug_draw(rec.clone());
                self.w.borrow().debug_draw();
                let r = out.borrow().clone();
                json!({"prims":r})
            }
            "test_point" => {
                let p = v2("x", "y");
                let ids: Vec<String> = self.fixtures.iter().filter(|(_, f)| f.borrow().test_point(p)).map(|(k, _)| k.clone()).collect();
                json!({"hits":ids})
            }
            "save" => {
                let before = scene(&self.w);
                let (loaded, again) = if gs(op, "fmt") == "json" {
                    let t = serde_json::to_string(&*self.w.borrow()).map_err(|e| e.to_string());
                    let l = t.and_then(|t| serde_json::from_str::<B2worldDeserializeResult<U>>(&t).map_err(|e| e.to_string()));
                    let l = l.unwrap_or_else(|e| panic!("load: {}", e)).world;
                    let t2 = serde_json::to_string(&*l.borrow()).unwrap_or_else(|e| panic!("save: {}", e));
                    let l2 = serde_json::from_str::<B2worldDeserializeResult<U>>(&t2).unwrap_or_else(|e| panic!("load: {}", e)).world;
                    (l, l2)
                } else {
                    let t = bincode::serialize(&*self.w.borrow()).unwrap_or_else(|e| panic!("save: {}", e));
                    let l = bincode::deserialize::<B2worldDeserializeResult<U>>(&t).unwrap_or_else(|e| panic!("load: {}", e)).world;
                    let t2 = bincode::serialize(&*l.borrow()).unwrap_or_else(|e| panic!("save: {}", e));
                    let l2 = bincode::deserialize::<B2worldDeserializeResult<U>>(&t2).unwrap_or_else(|e| panic!("load: {}", e)).world;
                    (l, l2)
                };
                let r = json!({"sc":before,"ld":scene(&loaded),"ag":scene(&again),"af":scene(&self.w)});
                std::mem::forget(loaded);
                std::mem::forget(again);
                r
            }
            _ => return None,
        })
    }
}
