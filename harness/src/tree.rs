//! Broad phase under observation.
use crate::rng::Rng;
use crate::util::*;
use box2d_rs::b2_broad_phase::*;
use box2d_rs::b2_collision::*;
use box2d_rs::b2_dynamic_tree::*;
use box2d_rs::b2_math::*;
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::io::{BufRead, Write};

struct Pairs(Vec<Value>);
impl AddPairTrait<i32> for Pairs {
    fn add_pair(&mut self, a: Option<i32>, b: Option<i32>) {
        self.0.push(json!([a.unwrap_or(-1), b.unwrap_or(-1)]));
    }
}

pub struct Bp {
    bp: B2broadPhase<i32>,
    /// a tree used on its own, given the same calls
    tree: B2dynamicTree<i32>,
    /// name -> proxy in that tree
    own: BTreeMap<String, i32>,
    /// name -> (proxy, user data)
    live: BTreeMap<String, (i32, i32)>,
    next: i32,
    dead: bool,
}

fn bx(a: &Value) -> B2AABB {
    B2AABB {
        lower_bound: B2vec2::new(gf(a, "x1"), gf(a, "y1")),
        upper_bound: B2vec2::new(gf(a, "x2"), gf(a, "y2")),
    }
}
fn bord(b: &B2AABB) -> Value {
    json!([ord(b.lower_bound.x), ord(b.lower_bound.y), ord(b.upper_bound.x), ord(b.upper_bound.y)])
}
fn bint(b: &B2AABB) -> Value {
    json!([sc(b.lower_bound.x, 1024.0), sc(b.lower_bound.y, 1024.0), sc(b.upper_bound.x, 1024.0), sc(b.upper_bound.y, 1024.0)])
}

impl Bp {
    pub fn new() -> Self {
        Bp { bp: B2broadPhase::<i32>::new(), tree: B2dynamicTree::new(), own: BTreeMap::new(), live: BTreeMap::new(), next: 0, dead: false }
    }
    fn name(&self, ud: i32) -> String {
        format!("p{}", ud)
    }
    fn own_name(&self, id: i32) -> String {
        self.tree.get_user_data(id).map(|u| self.name(u)).unwrap_or("?".into())
    }
    fn by_proxy(&self, id: i32) -> String {
        self.bp.get_user_data(id).map(|u| self.name(u)).unwrap_or("?".into())
    }
    fn apply(&mut self, op: &Value) -> Value {
        match gs(op, "op") {
            "create" => {
                self.next += 1;
                let ud = self.next;
                let id = self.bp.create_proxy(bx(op), &ud);
                self.live.insert(self.name(ud), (id, ud));
                let own = self.tree.create_proxy(bx(op), &ud);
                self.own.insert(self.name(ud), own);
                json!({})
            }
            "destroy" => {
                let (id, _) = self.live[gs(op, "p")];
                self.bp.destroy_proxy(id);
                self.live.remove(gs(op, "p"));
                self.tree.destroy_proxy(self.own.remove(gs(op, "p")).unwrap());
                json!({})
            }
            "move" => {
                let (id, _) = self.live[gs(op, "p")];
                self.bp.move_proxy(id, bx(op), B2vec2::new(gf(op, "dx"), gf(op, "dy")));
                let moved = self.tree.move_proxy(self.own[gs(op, "p")], bx(op), B2vec2::new(gf(op, "dx"), gf(op, "dy")));
                json!({ "moved": moved })
            }
            "clear" => {
                self.tree.clear_moved(self.own[gs(op, "p")]);
                json!({})
            }
            "overlap" => {
                let mut v = Vec::new();
                for (a, (i, _)) in &self.live {
                    for (b, (j, _)) in &self.live {
                        if self.bp.test_overlap(*i, *j) {
                            v.push(json!([a, b]));
                        }
                    }
                }
                json!({ "pairs": v })
            }
            "touch" => {
                let (id, _) = self.live[gs(op, "p")];
                self.bp.touch_proxy(id);
                json!({})
            }
            "update" => {
                let mut p = Pairs(Vec::new());
                self.bp.update_pairs(&mut p);
                let v: Vec<Value> =
                    p.0.iter().map(|x| json!([format!("p{}", x[0]), format!("p{}", x[1])])).collect();
                json!({ "pairs": v })
            }
            "query" => {
                let stop = gi(op, "stop");
                let got: RefCell<Vec<i32>> = RefCell::new(Vec::new());
                self.bp.query(
                    |id: i32| {
                        got.borrow_mut().push(id);
                        stop == 0 || (got.borrow().len() as i64) < stop
                    },
                    bx(op),
                );
                let v: Vec<String> = got.into_inner().iter().map(|i| self.by_proxy(*i)).collect();
                let own: RefCell<Vec<String>> = RefCell::new(Vec::new());
                self.tree.query(
                    |id: i32| {
                        own.borrow_mut().push(self.own_name(id));
                        stop == 0 || (own.borrow().len() as i64) < stop
                    },
                    bx(op),
                );
                json!({"hits": v, "own": own.into_inner(), "qb": bord(&bx(op))})
            }
            "ray" => {
                let pol = gs(op, "pol").to_string();
                let stop = gi(op, "stop");
                let got: RefCell<Vec<(i32, f32)>> = RefCell::new(Vec::new());
                let input = B2rayCastInput {
                    p1: B2vec2::new(gf(op, "x1"), gf(op, "y1")),
                    p2: B2vec2::new(gf(op, "x2"), gf(op, "y2")),
                    max_fraction: gf(op, "mf"),
                };
                let clip = gf(op, "clip");
                self.bp.ray_cast(
                    |i: &B2rayCastInput, id: i32| -> f32 {
                        got.borrow_mut().push((id, i.max_fraction));
                        let n = got.borrow().len() as i64;
                        match pol.as_str() {
                            "all" => i.max_fraction,
                            "ignore" => -1.0,
                            "stop" => {
                                if n >= stop {
                                    0.0
                                } else {
                                    i.max_fraction
                                }
                            }
                            _ => clip.min(i.max_fraction),
                        }
                    },
                    &input,
                );
                let g = got.into_inner();
                let v: Vec<String> = g.iter().map(|i| self.by_proxy(i.0)).collect();
                let f: Vec<i64> = g.iter().map(|i| sc(i.1, 256.0)).collect();
                let own: RefCell<Vec<String>> = RefCell::new(Vec::new());
                if pol == "all" {
                    self.tree.ray_cast(
                        |i: &B2rayCastInput, id: i32| -> f32 {
                            own.borrow_mut().push(self.own_name(id));
                            i.max_fraction
                        },
                        &input,
                    );
                }
                json!({"hits": v, "own": own.into_inner(), "mf": f})
            }
            "shift" => {
                self.bp.shift_origin(B2vec2::new(gf(op, "dx"), gf(op, "dy")));
                self.tree.shift_origin(B2vec2::new(gf(op, "dx"), gf(op, "dy")));
                json!({})
            }
            "rebuild" => {
                self.bp.get_tree_mut().rebuild_bottom_up();
                self.tree.rebuild_bottom_up();
                json!({})
            }
            x => panic!("unknown operation {}", x),
        }
    }
    fn snapshot(&mut self) -> Value {
        let mut p = Map::new();
        let names: Vec<(String, (i32, i32))> = self.live.iter().map(|(k, v)| (k.clone(), *v)).collect();
        for (k, (id, ud)) in &names {
            let b = self.bp.get_fat_aabb(*id);
            let own = self.own[k];
            p.insert(
                k.clone(),
                json!({"bb": bord(&b), "bi": bint(&b), "ob": bord(&self.tree.get_fat_aabb(own)), "mv": self.tree.was_moved(own),
                    "od": self.tree.get_user_data(own).map(|u| u == *ud).unwrap_or(false), "ud": self.bp.get_user_data(*id).map(|u| u == *ud).unwrap_or(false)}),
            );
        }
        let ids: std::collections::BTreeSet<i32> = self.live.values().map(|v| v.0).collect();
        let mut valid = true;
        if !self.live.is_empty() {
            let t = self.bp.get_tree_mut();
            valid = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.validate())).is_ok();
            let t = &self.tree;
            valid = valid && std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.validate())).is_ok();
        }
        json!({"P": Value::Object(p), "n": self.bp.get_proxy_count(), "h": self.bp.get_tree_height(),
            "bal": self.bp.get_tree_balance(), "q": sc(self.bp.get_tree_quality(), 256.0),
            "oh": self.tree.get_height(), "obal": self.tree.get_max_balance(), "oq": sc(self.tree.get_area_ration(), 256.0), "uniq": ids.len(), "valid": valid})
    }
    pub fn exec(&mut self, op: &Value) -> Value {
        let res = guarded(op, || self.apply(op));
        let mut a = op.as_object().unwrap().clone();
        a.remove("op");
        let (r, msg, ret) = match res {
            Ok(v) => ("ok", String::new(), v),
            Err(m) => {
                self.dead = true;
                ("panic", m, json!({}))
            }
        };
        let mut r = r;
        let empty = json!({"P": {}, "n": 0, "h": 0, "bal": 0, "q": 0, "oh": 0, "obal": 0, "oq": 0, "uniq": 0, "valid": true});
        let s = if self.dead {
            empty
        } else {
            match guarded(&json!({"op":"snapshot"}), || self.snapshot()) {
                Ok(s) => s,
                Err(_) => {
                    r = "unreadable";
                    self.dead = true;
                    empty
                }
            }
        };
        // boxes given by the caller, exactly as the library sees them
        let tb = if op.get("x1").is_some() { bord(&bx(op)) } else { json!([]) };
        json!({"op": op["op"], "a": a, "r": r, "msg": msg, "ret": ret, "tb": tb, "ev": [], "s": s})
    }
}

fn rbox(r: &mut Rng, span: i64, big: bool) -> (i64, i64, i64, i64) {
    let (x, y) = (r.range(-span, span) * 16, r.range(-span, span) * 16);
    let m = if big { 600 } else { 120 };
    (x, y, x + r.range(1, m), y + r.range(1, m))
}

pub fn run(opt: &HashMap<String, String>, seed: u64, n: usize, out: &mut dyn Write) {
    let mut total = 0;
    let mut t = 0u64;
    while total < n {
        let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(t) ^ 0x7ee);
        t += 1;
        let cap = *r.pick(&[3usize, 6, 6, 12, 12, 24, 40]);
        let span = *r.pick(&[10i64, 30, 60]);
        let len = opt.get("len").and_then(|s| s.parse().ok()).unwrap_or(60usize) + 2 * cap;
        let mut b = Bp::new();
        emit(out, &json!({"op":"New","a":{},"r":"ok","msg":"","ret":{},"tb":[],"ev":[],"s":b.snapshot()}));
        total += 1;
        let mut k = 0;
        let grow = r.chance(1, 2);
        while k < len {
            let names: Vec<String> = b.live.keys().cloned().collect();
            let w = r.below(100);
            let filling = grow && k < cap * 3 / 2;
            let op = if names.len() < cap && (w < 16 || (filling && w < 80)) {
                let (x1, y1, x2, y2) = rbox(&mut r, span, false);
                json!({"op":"create","id":format!("p{}",b.next+1),"x1":x1,"y1":y1,"x2":x2,"y2":y2})
            } else if names.is_empty() {
                continue;
            } else if w < 24 {
                json!({"op":"destroy","p":r.pick(&names).clone()})
            } else if w < 46 {
                let p = r.pick(&names).clone();
                let (dx, dy);
                let (x1, y1, x2, y2);
                if r.chance(1, 2) {
                    // a small move relative to the stored box
                    let f = b.bp.get_fat_aabb(b.live[&p].0);
                    dx = r.range(-60, 60);
                    dy = r.range(-60, 60);
                    x1 = sc(f.lower_bound.x, 256.0) + 26 + dx;
                    y1 = sc(f.lower_bound.y, 256.0) + 26 + dy;
                    x2 = x1 + r.range(1, 100);
                    y2 = y1 + r.range(1, 100);
                } else {
                    let q = rbox(&mut r, span, false);
                    x1 = q.0;
                    y1 = q.1;
                    x2 = q.2;
                    y2 = q.3;
                    dx = *r.pick(&[0i64, 0, 40, -40, 200]);
                    dy = *r.pick(&[0i64, 0, 40, -40, -200]);
                }
                json!({"op":"move","p":p,"x1":x1,"y1":y1,"x2":x2,"y2":y2,"dx":dx,"dy":dy})
            } else if w < 54 {
                json!({"op":"touch","p":r.pick(&names).clone()})
            } else if w < 70 {
                json!({"op":"update"})
            } else if w < 84 {
                let (x1, y1, x2, y2) = rbox(&mut r, span, true);
                json!({"op":"query","x1":x1,"y1":y1,"x2":x2,"y2":y2,"stop":*r.pick(&[0i64,0,0,1,2,3])})
            } else if w < 93 {
                let (x1, y1) = (r.range(-span, span) * 16, r.range(-span, span) * 16);
                let (mut x2, mut y2) = (r.range(-span, span) * 16, r.range(-span, span) * 16);
                match r.below(4) {
                    0 => x2 = x1,
                    1 => y2 = y1,
                    _ => {}
                }
                if x1 == x2 && y1 == y2 {
                    x2 += 256;
                }
                json!({"op":"ray","x1":x1,"y1":y1,"x2":x2,"y2":y2,"mf":*r.pick(&[256i64,256,128,512]),
                    "pol":*r.pick(&["all","all","ignore","stop","clip"]),"stop":r.range(1,3),"clip":*r.pick(&[64i64,128,200])})
            } else if w < 94 {
                json!({"op":"overlap"})
            } else if w < 97 {
                json!({"op":"clear","p":r.pick(&names).clone()})
            } else if w < 99 {
                json!({"op":"shift","dx":r.range(-8,8)*32,"dy":r.range(-8,8)*32})
            } else {
                json!({"op":"rebuild"})
            };
            let e = b.exec(&op);
            emit(out, &e);
            total += 1;
            k += 1;
            if b.dead {
                break;
            }
        }
        std::mem::forget(b);
    }
}

pub fn run_script(opt: &HashMap<String, String>, out: &mut dyn Write) {
    let f = std::fs::File::open(opt.get("in").expect("--in")).expect("script");
    let mut b = Bp::new();
    for line in std::io::BufReader::new(f).lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let op: Value = serde_json::from_str(&line).expect("json");
        if gs(&op, "op") == "New" {
            b = Bp::new();
            emit(out, &json!({"op":"New","a":{},"r":"ok","msg":"","ret":{},"tb":[],"ev":[],"s":b.snapshot()}));
            continue;
        }
        if !b.dead {
            let e = b.exec(&op);
            emit(out, &e);
        }
    }
}
