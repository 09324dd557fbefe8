//! Histories of colliding bodies with every material: impulses, friction,
//! bounce, resting, and changes of the mixed coefficients.
use crate::genworld::*;
use crate::rng::Rng;
use crate::util::*;
use crate::world::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::Write;

struct K {
    g: Gen,
    /// the same history with a few more iterations per step
    twin: Option<Sim>,
    kind: usize,
    vi: i64,
    pi: i64,
    dt: i64,
}

fn material(r: &mut Rng, op: &mut Value, bouncy: bool) {
    let m = op.as_object_mut().unwrap();
    m.insert("fr".into(), json!(*r.pick(&[51i64, 128, 0, 256, 400, 20])));
    m.insert("re".into(), json!(if bouncy { *r.pick(&[0i64, 0, 128, 256, 77, 200]) } else { 0 }));
    m.insert("rt".into(), json!(*r.pick(&[256i64, 256, 0, 1000, 40])));
}

impl K {
    /// Largest difference of velocities (and impulses) to the history with more iterations.
    fn spread(&mut self, op: &Value, e: &Value) -> i64 {
        let Some(t) = self.twin.as_mut() else { return 1 << 20 };
        let mut op = op.clone();
        if op["op"] == "step" {
            op["vi"] = json!(gi(&op, "vi") + 7);
        }
        if t.dead || self.g.sim.dead {
            return 1 << 20;
        }
        let (res, ev) = t.call(&op);
        if res != "ok" {
            return 1 << 20;
        }
        let mut d = 0;
        let imp = |v: &[Value]| -> Vec<i64> {
            v.iter()
                .flat_map(|x| ["ni", "ti"].map(|k| x.get(k).and_then(|y| y.as_array()).cloned().unwrap_or_default()))
                .flatten()
                .map(|y| y.as_i64().unwrap_or(0))
                .collect()
        };
        let (u, v) = (imp(e["ev"].as_array().unwrap()), imp(&ev));
        if u.len() != v.len() || u.iter().zip(&v).any(|(x, y)| (x - y).abs() > 8 + x.abs() / 1000) {
            d = 1 << 20;
        }
        for (n, b) in &self.g.sim.bodies {
            let (b, c) = (b.borrow(), t.bodies[n].borrow());
            let (u, v) = (b.get_linear_velocity(), c.get_linear_velocity());
            for x in [u.x - v.x, u.y - v.y, b.get_angular_velocity() - c.get_angular_velocity()] {
                d = d.max(sc(x, 16384.0).abs());
            }
        }
        d
    }
    fn shape(&mut self) -> Value {
        let r = &mut self.g.r;
        match r.below(8) {
            0..=2 => json!({"k":"c","r":r.range(80,260),"x":*r.pick(&[0i64,0,60]),"y":*r.pick(&[0i64,-50])}),
            3..=5 => json!({"k":"b","hx":r.range(80,300),"hy":r.range(80,260),"x":*r.pick(&[0i64,0,-60]),"y":0}),
            6 if r.chance(1, 2) => json!({"k":"p","v":crate::geo::many(r, 16)}),
            6 => json!({"k":"p","v":[[-160,-128],[192,-96],[30,192]]}),
            _ => json!({"k":"p","v":[[-128,-64],[0,-128],[128,-64],[128,64],[0,128],[-128,64]]}),
        }
    }
    fn body(&mut self, ty: i64, x: i64, y: i64, fast: i64) -> Vec<Value> {
        let id = format!("b{}", self.g.sim.nb + 1);
        let r = &mut self.g.r;
        let still = ty == 0;
        let v = |r: &mut Rng| if still { 0 } else { r.range(-fast, fast) };
        let mut ops = vec![json!({"op":"create_body","id":id,"ty":ty,"x":x,"y":y,
            "ang":if r.chance(1,2) {0} else {r.range(-700,700)},
            "vx":v(r),"vy":v(r),"w":if r.chance(1,2) {v(r)} else {0},"sl":!r.chance(1,2),"fr":ty == 2 && r.chance(1,10),
            "gs":*r.pick(&[256i64,256,256,256,128,0]),"ld":if r.chance(1,10) {100} else {0},"ad":if r.chance(1,10) {100} else {0},
            "bu":r.chance(1,6)})];
        let nf = if r.chance(1, 6) { 2 } else { 1 };
        for i in 0..nf {
            let mut sh = self.shape();
            if i == 1 {
                sh = json!({"k":"c","r":100,"x":*self.g.r.pick(&[200i64,-180]),"y":*self.g.r.pick(&[120i64,-140])});
            }
            let r = &mut self.g.r;
            let fid = format!("f{}", self.g.sim.nf + 1 + i);
            let mut op = json!({"op":"create_fixture","id":fid,"b":id,"sh":sh,"de":*r.pick(&[256i64,256,512,128])});
            material(r, &mut op, self.kind != 2);
            ops.push(op);
        }
        ops
    }
    fn ground(&mut self) -> Vec<Value> {
        let id = format!("b{}", self.g.sim.nb + 1);
        let fid = format!("f{}", self.g.sim.nf + 1);
        let kind = self.kind;
        let r = &mut self.g.r;
        let tilt = if kind == 2 { 0 } else { *r.pick(&[0i64, 0, 60, -100]) };
        let sh = match r.below(4) {
            0 if kind != 2 => json!({"k":"e","v":[[-2560,0],[2560,0]]}),
            1 if kind != 2 => json!({"k":"ch","v":[[2560,0],[300,0],[-200,0],[-2560,0]],"loop":false}),
            _ => json!({"k":"b","hx":2560,"hy":128,"x":0,"y":-128}),
        };
        let mut op = json!({"op":"create_fixture","id":fid,"b":id,"sh":sh,"de":0});
        material(r, &mut op, kind != 2);
        vec![json!({"op":"create_body","id":id,"ty":0,"x":0,"y":0,"ang":tilt}), op]
    }
    fn next(&mut self) -> Option<Value> {
        let calm = self.kind == 2;
        let k = self.g.r.below(100);
        if k < 72 || (calm && k < 94) {
            if self.g.r.chance(1, 100) {
                return Some(json!({"op":"step","dt":0,"vi":self.vi,"pi":self.pi}));
            }
            if !calm && self.g.r.chance(1, 20) {
                self.dt = *self.g.r.pick(&[16i64, 17, 8, 32]);
            }
            return Some(json!({"op":"step","dt":self.dt,"vi":self.vi,"pi":self.pi}));
        }
        let k = if calm { 72 + self.g.r.below(12) } else { k };
        if k < 84 {
            let ids = self.g.sim.ids.borrow();
            let cs: Vec<String> = self.g.sim.w.borrow().get_contact_list().iter().map(|c| ckey(&ids, &*c.borrow())).collect();
            drop(ids);
            if cs.is_empty() {
                return None;
            }
            let c = self.g.r.pick(&cs).clone();
            let r = &mut self.g.r;
            let m = *r.pick(if calm { &["fr", "rt", "fr", "rt"] } else { &["fr", "re", "rt", "ts"] });
            if m != "ts" && r.chance(1, 3) {
                return Some(json!({"op":"contact_reset","c":c,"m":m}));
            }
            let v = match m {
                "fr" => *r.pick(&[0i64, 60, 256, 500]),
                "re" => *r.pick(&[0i64, 64, 256, 150]),
                "rt" => *r.pick(&[0i64, 100, 256, 2000]),
                _ => *r.pick(&[0i64, 300, -500, 100]),
            };
            return Some(json!({"op":"contact_set","c":c,"m":m,"v":v}));
        }
        if k < 89 {
            let f = self.g.f()?;
            let r = &mut self.g.r;
            let op = *r.pick(&["set_friction", "set_restitution", "set_restitution_threshold"]);
            return Some(json!({"op":op,"f":f,"v":*r.pick(&[0i64,64,128,256,333])}));
        }
        let b = self.g.b()?;
        let ty = btype_i(self.g.sim.bodies[&b].borrow().get_type());
        if ty != 2 {
            return None;
        }
        let p = self.g.sim.bodies[&b].borrow().get_position();
        let r = &mut self.g.r;
        Some(match k {
            89..=92 => json!({"op":"apply_linear_impulse_to_center","b":b,"x":r.range(-500,500),"y":r.range(-500,500),"wake":true}),
            93..=94 => json!({"op":"apply_angular_impulse","b":b,"t":r.range(-200,200),"wake":true}),
            95..=96 => json!({"op":"set_linear_velocity","b":b,"x":r.range(-900,900),"y":r.range(-900,900)}),
            97 => json!({"op":"set_awake","b":b,"v":r.chance(1,2)}),
            98 => json!({"op":"set_transform","b":b,"x":sc(p.x,256.0)+r.range(-30,30),"y":sc(p.y,256.0)+r.range(-30,30),"ang":r.range(-500,500)}),
            _ => json!({"op":"set_warm_starting","v":r.chance(2,3)}),
        })
    }
}

pub fn run(opt: &HashMap<String, String>, seed: u64, n: usize, out: &mut dyn Write) {
    let len: usize = opt.get("len").and_then(|s| s.parse().ok()).unwrap_or(60);
    let mut total = 0usize;
    let mut t = 0u64;
    while total < n {
        let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(t) ^ 0xC0417AC7);
        t += 1;
        // 0: free bodies, 1: ground, 2: a stack at rest, 3: one body against another
        let kind = *r.pick(&[0usize, 0, 1, 1, 1, 2, 3, 3]);
        let cont = kind != 2 && r.chance(1, 8);
        let par = json!({"gx":if kind == 2 {0} else {*r.pick(&[0i64,0,0,256])},
            "gy":if kind == 2 {-2560} else {*r.pick(&[0i64,-2560,-2512])},"cont":if cont {1} else {0},
            "as":r.chance(1,2),"sub":false,"ws":kind == 2 || !r.chance(1,5),"acf":true,
            "dis":if kind != 2 && r.chance(1,8) {4} else {0},"cf":0,"mx":1,"geo":0,"imp":1,"jx":1,"jf":1,"kind":kind});
        let sim = Sim::new(&par);
        let mut k = K {
            kind,
            vi: *r.pick(&[300i64, 300, 300, 8, 2]),
            pi: *r.pick(&[3i64, 3, 8, 20]),
            dt: *r.pick(&[16i64, 17, 17, 8]),
            twin: None,
            g: Gen { r, sim, prof: "contact".into(), par: par.clone(), ground: false },
        };
        if kind == 2 {
            k.vi = *k.g.r.pick(&[300i64, 8, 10]);
            k.dt = 17;
        }
        if k.vi >= 200 {
            k.twin = Some(Sim::new(&par));
        }
        emit(out, &new_event(&par, &k.g.sim));
        total += 1;
        let go = |k: &mut K, ops: Vec<Value>, out: &mut dyn Write, total: &mut usize| {
            for op in ops {
                if !k.g.sim.dead {
                    let mut e = k.g.sim.exec(&op);
                    let cv = k.spread(&op, &e);
                    e.as_object_mut().unwrap().insert("cv".into(), json!(cv));
                    emit(out, &e);
                    *total += 1;
                }
            }
        };
        match kind {
            0 => {
                let nb = 2 + k.g.r.below(3) as i64;
                for i in 0..nb {
                    let (x, y) = (i * 340 + k.g.r.range(-40, 40), k.g.r.range(-150, 150));
                    let ops = k.body(2, x, y, 900);
                    go(&mut k, ops, out, &mut total);
                }
                if k.g.r.chance(1, 5) {
                    if let Some(op) = k.g.mk_joint() {
                        if ["distance", "revolute", "weld", "prismatic", "wheel"].contains(&gs(&op, "jt")) {
                            go(&mut k, vec![op], out, &mut total);
                        }
                    }
                }
            }
            1 => {
                let ops = k.ground();
                go(&mut k, ops, out, &mut total);
                let nb = 1 + k.g.r.below(4) as i64;
                for i in 0..nb {
                    let (x, y) = (i * 400 - 600 + k.g.r.range(-60, 60), 300 + k.g.r.range(-60, 300));
                    let ty = if k.g.r.chance(1, 8) { 1 } else { 2 };
                    let ops = k.body(ty, x, y, 600);
                    go(&mut k, ops, out, &mut total);
                }
            }
            2 => {
                let ops = k.ground();
                go(&mut k, ops, out, &mut total);
                // a tower of boxes, each wider than the one above it
                let nb = 1 + k.g.r.below(5) as i64;
                let mut y = 0;
                for i in 0..nb {
                    let hy = k.g.r.range(60, 160);
                    let hx = 330 - i * 45;
                    let gap = k.g.r.range(0, 4);
                    let (id, fid) = (format!("b{}", k.g.sim.nb + 1), format!("f{}", k.g.sim.nf + 1));
                    let mut f = json!({"op":"create_fixture","id":fid,"b":id,"sh":{"k":"b","hx":hx,"hy":hy,"x":0,"y":0},"de":*k.g.r.pick(&[256i64,128,384])});
                    material(&mut k.g.r, &mut f, false);
                    let x = k.g.r.range(-20, 20);
                    let sl = k.g.r.chance(1, 2);
                    let ops = vec![json!({"op":"create_body","id":id,"ty":2,"x":x,"y":y + gap + hy + 5,"sl":sl}), f];
                    y += gap + 2 * hy + 5;
                    go(&mut k, ops, out, &mut total);
                }
            }
            _ => {
                let ty = *k.g.r.pick(&[0i64, 2, 2, 1]);
                let ops = k.body(ty, 0, 0, 500);
                go(&mut k, ops, out, &mut total);
                let (x, y) = *k.g.r.pick(&[(440i64, 0i64), (-430, 60), (30, 450), (300, 300)]);
                let mut ops = k.body(2, x, y, 100);
                let (vx, vy) = (-x * k.g.r.range(1, 5), -y * k.g.r.range(1, 5));
                let m = ops[0].as_object_mut().unwrap();
                m.insert("vx".into(), json!(vx));
                m.insert("vy".into(), json!(vy));
                go(&mut k, ops, out, &mut total);
            }
        }
        let target = if kind == 2 { 2 * len } else { len / 2 + k.g.r.below(len) };
        let (mut i, mut fails) = (0, 0);
        while i < target && fails < 10000 {
            match k.next() {
                Some(op) => {
                    go(&mut k, vec![op], out, &mut total);
                    i += 1;
                }
                None => fails += 1,
            }
            if k.g.sim.dead || k.g.sim.extent() > 30.0 {
                break;
            }
        }
        std::mem::forget(k);
    }
}
