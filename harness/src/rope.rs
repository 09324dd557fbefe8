//! Ropes: creation, steps, resets and changes of tuning; the state is what the rope draws.
use crate::rng::Rng;
use crate::util::*;
use box2d_rs::b2_draw::*;
use box2d_rs::b2_math::*;
use box2d_rs::b2_rope::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::Write;

const P: f64 = 65536.0;

#[derive(Default)]
struct Rec {
    base: B2draw,
    pts: Vec<(B2vec2, B2color)>,
    segs: Vec<(B2vec2, B2vec2)>,
    other: usize,
}
impl B2drawTrait for Rec {
    fn get_base(&self) -> &B2draw {
        &self.base
    }
    fn get_base_mut(&mut self) -> &mut B2draw {
        &mut self.base
    }
    fn draw_polygon(&mut self, _v: &[B2vec2], _c: B2color) {
        self.other += 1;
    }
    fn draw_solid_polygon(&mut self, _v: &[B2vec2], _c: B2color) {
        self.other += 1;
    }
    fn draw_circle(&mut self, _p: B2vec2, _r: f32, _c: B2color) {
        self.other += 1;
    }
    fn draw_solid_circle(&mut self, _p: B2vec2, _r: f32, _a: B2vec2, _c: B2color) {
        self.other += 1;
    }
    fn draw_segment(&mut self, p: B2vec2, q: B2vec2, _c: B2color) {
        self.segs.push((p, q));
    }
    fn draw_transform(&mut self, _xf: B2Transform) {
        self.other += 1;
    }
    fn draw_point(&mut self, p: B2vec2, _s: f32, c: B2color) {
        self.pts.push((p, c));
    }
}

fn state(r: &B2rope) -> Value {
    let mut d = Rec::default();
    r.draw(&mut d);
    let bits = |p: &B2vec2| arr(&[ord(p.x), ord(p.y)]);
    json!({
        "p": d.pts.iter().map(|(p, _)| arr(&[sc(p.x, P), sc(p.y, P)])).collect::<Vec<_>>(),
        "b": d.pts.iter().map(|(p, _)| bits(p)).collect::<Vec<_>>(),
        "c": d.pts.iter().map(|(_, c)| arr(&[sc(c.r, 100.0), sc(c.g, 100.0), sc(c.b, 100.0)])).collect::<Vec<_>>(),
        "g": d.segs.iter().map(|(p, q)| json!([bits(p), bits(q)])).collect::<Vec<_>>(),
        "o": d.other,
        "fin": d.pts.iter().all(|(p, _)| p.x.is_finite() && p.y.is_finite()),
    })
}

fn v2(v: &Value) -> B2vec2 {
    B2vec2::new(v[0].as_i64().unwrap() as f32 / S, v[1].as_i64().unwrap() as f32 / S)
}
fn tuning(t: &Value) -> B2ropeTuning {
    let f = |k: &str| gi(t, k) as f32 / S;
    B2ropeTuning {
        stretching_model: if gi(t, "sm") == 0 { B2stretchingModel::B2PbdStretchingModel } else { B2stretchingModel::B2XpbdStretchingModel },
        bending_model: match gi(t, "bm") {
            0 => B2bendingModel::B2SpringAngleBendingModel,
            1 => B2bendingModel::B2PbdAngleBendingModel,
            2 => B2bendingModel::B2XpbdAngleBendingModel,
            3 => B2bendingModel::B2PbdDistanceBendingModel,
            4 => B2bendingModel::B2PbdHeightBendingModel,
            _ => B2bendingModel::B2PbdTriangleBendingModel,
        },
        damping: f("dm"),
        stretch_stiffness: f("ss"),
        stretch_hertz: f("sh"),
        stretch_damping: f("sd"),
        bend_stiffness: f("bs"),
        bend_hertz: f("bh"),
        bend_damping: f("bd"),
        isometric: gb(t, "iso"),
        fixed_effective_mass: gb(t, "fem"),
        warm_start: gb(t, "ws"),
    }
}

fn apply(r: &mut B2rope, op: &str, a: &Value) {
    match op {
        "create" => r.create(&B2ropeDef {
            position: v2(&a["at"]),
            vertices: a["v"].as_array().unwrap().iter().map(|v| B2ropeDefVertices { position: v2(v), mass: v[2].as_i64().unwrap() as f32 / S }).collect(),
            gravity: v2(&a["g"]),
            tuning: tuning(&a["t"]),
        }),
        "tune" => r.set_tuning(&tuning(&a["t"])),
        "reset" => r.reset(v2(&a["at"])),
        "step" => r.step(gi(a, "dt") as f32 / 1024.0, gi(a, "it") as i32, v2(&a["at"])),
        _ => unreachable!(),
    }
}

fn gen_tuning(g: &mut Rng) -> Value {
    // frequencies such that the angle per step is neither tiny nor huge
    json!({
        "sm": g.range(0, 1), "bm": g.range(0, 5),
        "dm": if g.chance(1, 2) { 0 } else { g.range(1, 2000) },
        "ss": if g.chance(1, 2) { 256 } else { g.range(0, 256) },
        "sh": g.range(4 * 256, 40 * 256), "sd": if g.chance(1, 3) { 0 } else { g.range(0, 512) },
        "bs": if g.chance(1, 4) { 0 } else { g.range(0, 256) },
        "bh": g.range(4 * 256, 14 * 256), "bd": if g.chance(1, 3) { 0 } else { g.range(0, 256) },
        "iso": g.chance(1, 2), "fem": g.chance(1, 2), "ws": g.chance(1, 2),
    })
}
fn gen_create(g: &mut Rng, kind: i64) -> Value {
    let n = g.range(3, 6);
    let mut v = vec![];
    let (mut x, mut y) = (g.range(-512, 512), g.range(-512, 512));
    let mut ang = g.range(0, 628) as f64 / 100.0;
    for i in 0..n {
        let fixed = match kind {
            0 => i == 0,
            1 => i == 0 || i == n - 1,
            2 => i <= 1,
            3 => g.chance(1, 2),
            4 => i < 3,
            5 => i == 0,
            _ => false,
        };
        let m = if fixed { 0 } else if g.chance(1, 2) { 256 } else { g.range(64, 1024) };
        v.push(arr(&[x, y, m]));
        let len = g.range(128, 512) as f64;
        ang += g.range(-120, 120) as f64 / 100.0;
        x += (len * ang.cos()) as i64;
        y += (len * ang.sin()) as i64;
    }
    let mut t = gen_tuning(g);
    if kind == 5 {
        // stiff ropes: stretching alone, solved to the end
        t["sm"] = json!(0);
        t["ss"] = json!(256);
        t["bm"] = json!(3);
        t["bs"] = json!(0);
    }
    json!({"at": [g.range(-1024, 1024), g.range(-1024, 1024)], "v": v, "g": if g.chance(1, 5) { json!([0, 0]) } else { arr(&[g.range(-1500, 1500), g.range(-3000, 1500)]) }, "t": t})
}

pub fn run(_opt: &HashMap<String, String>, seed: u64, n: usize, out: &mut dyn Write) {
    let mut g = Rng::new(seed);
    let mut left = n as i64;
    while left > 0 {
        let kind = g.range(0, 6);
        let mut r = B2rope::default();
        let mut at = [0i64, 0i64];
        let len = g.range(8, 40);
        emit(out, &json!({"op": "New", "a": {"k": kind}, "r": "ok", "s": []}));
        left -= 1;
        for i in 0..len {
            let (op, a) = if i == 0 || g.chance(1, 60) {
                ("create", gen_create(&mut g, kind))
            } else if g.chance(1, 14) {
                at = [g.range(-1024, 1024), g.range(-1024, 1024)];
                ("reset", json!({"at": at}))
            } else if kind != 5 && g.chance(1, 14) {
                ("tune", json!({"t": gen_tuning(&mut g)}))
            } else {
                if g.chance(1, 3) {
                    at = [at[0] + g.range(-40, 40), at[1] + g.range(-40, 40)];
                }
                let dt = if g.chance(1, 12) { 0 } else if g.chance(1, 2) { 16 } else { g.range(10, 24) };
                ("step", json!({"dt": dt, "it": if kind == 5 { 200 } else { g.range(0, 4) }, "at": at}))
            };
            if op == "create" {
                at = [a["at"][0].as_i64().unwrap(), a["at"][1].as_i64().unwrap()];
            }
            let res = guarded(&json!({"op": op, "a": a}), || {
                apply(&mut r, op, &a);
                state(&r)
            });
            let (res, s) = match res {
                Ok(s) => ("ok", s),
                Err(_) => ("panic", json!([])),
            };
            emit(out, &json!({"op": op, "a": a, "r": res, "s": s}));
            left -= 1;
            if res != "ok" {
                break;
            }
        }
    }
}
