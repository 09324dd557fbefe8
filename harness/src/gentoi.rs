//! Histories of fast bodies among thin walls: rooms, moving plates, walls that let pass.
use crate::genworld::*;
use crate::rng::Rng;
use crate::util::*;
use crate::world::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::Write;

struct T {
    g: Gen,
    kind: usize,
    dt: i64,
    vi: i64,
    slick: bool,
    bullets: bool,
    /// half height of a narrow channel, or 0
    narrow: i64,
    /// direction in which bodies are thrown again and again, or none
    slam: Option<(i64, i64)>,
    plate: String,
    tilt: i64,
    /// a plate that strikes bodies at rest
    swat: bool,
    /// half width of a room that is turned and moved between steps, or 0
    turn: i64,
}

impl T {
    fn material(&mut self, op: &mut Value) {
        let r = &mut self.g.r;
        let m = op.as_object_mut().unwrap();
        m.insert("fr".into(), json!(if self.slick { 0 } else { *r.pick(&[51i64, 128, 0, 256]) }));
        m.insert("re".into(), json!(if self.narrow > 0 { 256 } else { *r.pick(&[0i64, 0, 0, 64, 128, 256]) }));
        m.insert("rt".into(), json!(256));
    }
    /// A fixture that is a wall along the given segments (1/256, body frame).
    fn wall(&mut self, i: usize, body: &str, sh: Value, segs: Vec<[i64; 4]>, one: bool, pass: usize) -> Value {
        let fid = format!("f{}", self.g.sim.nf + 1 + i);
        let mut op = json!({"op":"create_fixture","id":fid,"b":body,"sh":sh,"de":256,"w":segs,"one":one});
        self.material(&mut op);
        let m = op.as_object_mut().unwrap();
        if pass == 1 {
            m.insert("se".into(), json!(true));
        }
        if pass == 2 {
            m.insert("mask".into(), json!(0));
        }
        op
    }
    fn room(&mut self) -> Vec<Value> {
        let id = format!("b{}", self.g.sim.nb + 1);
        let pass = if self.kind == 3 { 1 + self.g.r.below(2) } else { 0 };
        let r = &mut self.g.r;
        let (tilt, o) = if self.narrow > 0 { (0, 1) } else { (*r.pick(&[0i64, 0, 100, -300]), 100) };
        let h = if self.turn > 0 { r.range(1400, 1800) } else { r.range(900, 1800) };
        if self.turn > 0 {
            self.turn = h;
        }
        let mut ops = vec![json!({"op":"create_body","id":id,"ty":0,"x":r.range(-o,o),"y":r.range(-o,o),"ang":tilt})];
        let low = if self.narrow > 0 { self.narrow } else { h };
        let r = &mut self.g.r;
        if low == h && r.chance(1, 4) {
            let v = vec![[-h, -h], [-h, h], [h, h], [h, -h]];
            let segs = (0..4).map(|i| [v[i][0], v[i][1], v[(i + 1) % 4][0], v[(i + 1) % 4][1]]).collect();
            ops.push(self.wall(0, &id, json!({"k":"ch","v":v,"loop":true}), segs, true, pass));
            return ops;
        }
        let l = h + 800;
        for i in 0..4 {
            // from left to right the inside is to the right
            let (a, b) = match i {
                0 => ([-l, low], [l, low]),
                1 => ([h, l], [h, -l]),
                2 => ([l, -low], [-l, -low]),
                _ => ([-h, -l], [-h, l]),
            };
            let seg = [a[0], a[1], b[0], b[1]];
            let t = self.g.r.range(1, 30);
            let (sh, one) = match self.g.r.below(4) {
                0 => (json!({"k":"e","v":[a, b]}), false),
                1 => (json!({"k":"e","v":[[2*a[0]-b[0],2*a[1]-b[1]], a, b, [2*b[0]-a[0],2*b[1]-a[1]]]}), true),
                _ if i % 2 == 0 => (json!({"k":"b","hx":l,"hy":t,"x":0,"y":a[1]}), false),
                _ => (json!({"k":"b","hx":t,"hy":l,"x":a[0],"y":0}), false),
            };
            let op = self.wall(i, &id, sh, vec![seg], one, pass);
            ops.push(op);
        }
        ops
    }
    fn plate(&mut self, ty: i64) -> Vec<Value> {
        let id = format!("b{}", self.g.sim.nb + 1);
        let r = &mut self.g.r;
        let (l, t) = (r.range(1500, 2500), r.range(4, 40));
        let fast = if self.swat { 0 } else if ty == 1 { 8000 } else { 1500 };
        let spin = if self.swat { 0 } else { 200 };
        let ops = vec![json!({"op":"create_body","id":id,"ty":ty,"x":0,"y":0,"ang":self.tilt,"vx":r.range(-fast,fast),"vy":r.range(-fast,fast),
            "w":r.range(-spin,spin),"sl":false})];
        let sh = if ty == 1 && self.g.r.chance(1, 2) { json!({"k":"e","v":[[-l,0],[l,0]]}) } else { json!({"k":"b","hx":l,"hy":t,"x":0,"y":0}) };
        let w = self.wall(0, &id, sh, vec![[-l, 0, l, 0]], false, 0);
        ops.into_iter().chain([w]).collect()
    }
    fn runner(&mut self, x: i64, y: i64) -> Vec<Value> {
        let id = format!("b{}", self.g.sim.nb + 1);
        let fid = format!("f{}", self.g.sim.nf + 1);
        let bu = self.bullets || self.g.r.chance(1, 4);
        let r = &mut self.g.r;
        let top = if self.swat { 0 } else { *r.pick(&[38000i64, 20000, 8000, 3000]) };
        let s = if self.narrow > 0 { r.range(15, 30) } else { r.range(40, 150) };
        let along = if self.narrow > 0 { 8 } else { 1 };
        // the body's origin may be far from its centre
        let (ox, oy) = if r.chance(1, 3) { (r.range(-1500, 1500), r.range(-1500, 1500)) } else { (0, 0) };
        let (sh, ir, round) = match r.below(5) {
            3 if self.narrow > 0 => (json!({"k":"c","r":s,"x":ox,"y":oy}), s, true),
            0 | 1 => (json!({"k":"c","r":s,"x":ox,"y":oy}), s, true),
            2 => (json!({"k":"b","hx":s,"hy":s,"x":ox,"y":oy}), s, false),
            3 => (json!({"k":"b","hx":s,"hy":s + 150,"x":ox,"y":oy}), s, false),
            _ => (json!({"k":"p","v":[[ox-2*s,oy-s],[ox+2*s,oy-s],[ox,oy+2*s]]}), (s * 9) / 10, false),
        };
        let ang = r.range(-700, 700);
        let (sn, cs) = (ang as f32 / 256.0).sin_cos();
        let (x, y) = (x - (cs * ox as f32 - sn * oy as f32) as i64, y - (sn * ox as f32 + cs * oy as f32) as i64);
        let mut f = json!({"op":"create_fixture","id":fid,"b":id,"sh":sh,"de":*r.pick(&[256i64,128,512]),"w":[],"one":false});
        let b = json!({"op":"create_body","id":id,"ty":2,"x":x,"y":y,"ang":ang,"vx":r.range(-top,top) / along,"vy":r.range(-top,top),
            "w":if !self.swat && r.chance(1,2) {r.range(-12000,12000)} else {0},"sl":r.chance(1,3),"bu":bu,"fr":r.chance(1,10),"ir":ir,"round":round});
        self.material(&mut f);
        vec![b, f]
    }
    fn next(&mut self) -> Option<Value> {
        let k = self.g.r.below(100);
        let k = if self.slam.is_some() && k >= 45 && k < 80 { 80 } else { k };
        if k < if self.turn > 0 { 55 } else { 80 } {
            if self.g.r.chance(1, 15) {
                self.dt = *self.g.r.pick(&[16i64, 17, 8, 34]);
            }
            return Some(json!({"op":"step","dt":self.dt,"vi":self.vi,"pi":3}));
        }
        if self.turn > 0 && (k < 80 || self.g.r.chance(1, 3)) {
            // only while everything in the room is clear of its walls
            let room = self.g.sim.bodies["b1"].borrow().get_position();
            let clear = (self.turn - 520) as f32 / 256.0;
            let all = self.g.sim.bodies.iter().all(|(n, b)| n == "b1" || (b.borrow().get_world_center() - room).length() < clear);
            if !all {
                return None;
            }
            let r = &mut self.g.r;
            return Some(json!({"op":"set_transform","b":"b1","x":sc(room.x, 256.0) + r.range(-40,40),"y":sc(room.y, 256.0) + r.range(-40,40),"ang":r.range(-400,400)}));
        }
        let b = self.g.b()?;
        if self.kind == 1 && b == self.plate {
            return None;
        }
        if btype_i(self.g.sim.bodies[&b].borrow().get_type()) != 2 {
            return None;
        }
        let r = &mut self.g.r;
        let top = *r.pick(&[38000i64, 20000, 8000]);
        let along = if self.narrow > 0 { 8 } else { 1 };
        if let (80..=91, Some((x, y))) = (k, self.slam) {
            return Some(json!({"op":"set_linear_velocity","b":b,"x":x + r.range(-2000,2000),"y":y + r.range(-2000,2000)}));
        }
        Some(match k {
            80..=91 => json!({"op":"set_linear_velocity","b":b,"x":r.range(-top,top) / along,"y":r.range(-top,top)}),
            92..=94 => json!({"op":"set_angular_velocity","b":b,"w":r.range(-8000,8000)}),
            95 => json!({"op":"set_bullet","b":b,"v":self.bullets || r.chance(1,2)}),
            96 => json!({"op":"set_awake","b":b,"v":r.chance(1,2)}),
            97 if self.kind < 3 => json!({"op":"set_continuous","v":r.chance(2,3)}),
            98 if self.kind == 0 && self.narrow == 0 && self.turn == 0 => json!({"op":"set_sub_stepping","v":r.chance(1,2)}),
            _ => json!({"op":"apply_linear_impulse_to_center","b":b,"x":r.range(-3000,3000),"y":r.range(-3000,3000),"wake":true}),
        })
    }
}

pub fn run(opt: &HashMap<String, String>, seed: u64, n: usize, out: &mut dyn Write) {
    let len: usize = opt.get("len").and_then(|s| s.parse().ok()).unwrap_or(50);
    let mut total = 0usize;
    let mut t = 0u64;
    while total < n {
        let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(t) ^ 0x70170170);
        t += 1;
        // 0: room, 1: bullets and a loose plate, 2: moving plate, 3: walls that let pass, 4: contacts disabled
        let kind = *r.pick(&[0usize, 0, 0, 0, 1, 1, 2, 2, 3, 4]);
        let par = json!({"gx":0,"gy":if kind == 1 || kind == 2 {0} else {*r.pick(&[0i64,0,-2560])},"cont":if r.chance(1,8) {0} else {1},
            "as":r.chance(1,2),"sub":kind != 1 && kind != 2 && r.chance(1,4),"ws":r.chance(4,5),"acf":true,
            "dis":if kind == 4 {1} else {0},"cf":0,"mx":1,"geo":0,"imp":0,"jx":0,"jf":0,"kind":kind});
        let sim = Sim::new(&par);
        let slam = if kind == 0 && r.chance(1, 4) {
            Some((*r.pick(&[0i64, 38000, -38000, 20000]), *r.pick(&[38000i64, -38000, -20000, 8000])))
        } else {
            None
        };
        let mut k = T {
            kind,
            narrow: if kind == 0 && slam.is_none() && !par["sub"].as_bool().unwrap() && r.chance(1, 2) { r.range(110, 160) } else { 0 },
            slam,
            plate: String::new(),
            tilt: r.range(-800, 800),
            swat: kind == 2 && r.chance(1, 2),
            turn: 0,
            vi: *r.pick(&[8i64, 8, 30]),
            dt: *r.pick(&[16i64, 17, 17, 8, 34]),
            slick: r.chance(1, 3),
            bullets: kind == 1,
            g: Gen { r, sim, prof: "toi".into(), par: par.clone(), ground: false },
        };
        if kind == 0 && k.narrow == 0 && !par["sub"].as_bool().unwrap() && k.g.r.chance(1, 2) {
            k.turn = 1;
        }
        emit(out, &new_event(&par, &k.g.sim));
        total += 1;
        let go = |k: &mut T, ops: Vec<Value>, out: &mut dyn Write, total: &mut usize| {
            for op in ops {
                if !k.g.sim.dead {
                    emit(out, &k.g.sim.exec(&op));
                    *total += 1;
                }
            }
        };
        // the wall may be older or younger than what hits it
        let late = (kind == 1 || kind == 2) && k.g.r.chance(1, 2);
        let walls = |k: &mut T| match kind {
            1 | 2 => {
                k.plate = format!("b{}", k.g.sim.nb + 1);
                k.plate(3 - kind as i64)
            }
            _ => k.room(),
        };
        if !late {
            let ops = walls(&mut k);
            go(&mut k, ops, out, &mut total);
        }
        let nb = if kind == 1 || kind == 2 || k.narrow > 0 || k.turn > 0 { 1 } else { 1 + k.g.r.below(3) };
        for _ in 0..nb {
            let (x, y) = if kind == 1 || kind == 2 {
                // clear of the plate
                let y = k.g.r.range(420, 900);
                let (x, y) = (k.g.r.range(-500, 500) as f32, if k.g.r.chance(1, 2) { y } else { -y } as f32);
                let (s, c) = (k.tilt as f32 / 256.0).sin_cos();
                ((c * x - s * y) as i64, (s * x + c * y) as i64)
            } else {
                let h = if k.narrow > 0 { 20 } else { 600 };
                (k.g.r.range(-600, 600), k.g.r.range(-h, h))
            };
            let ops = k.runner(x, y);
            go(&mut k, ops, out, &mut total);
        }
        if late {
            let ops = walls(&mut k);
            go(&mut k, ops, out, &mut total);
        }
        if k.swat {
            // asleep in the way of the plate
            let b = k.g.sim.bodies.keys().find(|b| **b != k.plate).cloned().unwrap();
            let (p, q) = (k.g.sim.bodies[&b].borrow().get_world_center(), k.g.sim.bodies[&k.plate].borrow().get_position());
            let d = p - q;
            let (s, c) = (k.tilt as f32 / 256.0).sin_cos();
            let side = if -s * d.x + c * d.y > 0.0 { 1.0 } else { -1.0 };
            let v = side * k.g.r.range(12000, 38000) as f32;
            let mut ops = vec![json!({"op":"step","dt":k.dt,"vi":k.vi,"pi":3})];
            if k.g.r.chance(3, 4) {
                ops.push(json!({"op":"set_awake","b":b,"v":false}));
            }
            ops.push(json!({"op":"set_linear_velocity","b":k.plate,"x":(-s * v) as i64,"y":(c * v) as i64}));
            let st = json!({"op":"step","dt":k.dt,"vi":k.vi,"pi":3});
            ops.extend(vec![st; 6]);
            go(&mut k, ops, out, &mut total);
        }
        let target = len / 2 + k.g.r.below(len);
        let (mut i, mut fails) = (0, 0);
        while i < target && fails < 10000 {
            match k.next() {
                Some(op) => {
                    let sub = k.g.sim.w.borrow().get_sub_stepping() && op["op"] == "step";
                    let ops = if sub { vec![op; 5] } else { vec![op] };
                    go(&mut k, ops, out, &mut total);
                    i += 1;
                }
                None => fails += 1,
            }
            if k.g.sim.dead || k.g.sim.extent() > 25.0 {
                break;
            }
        }
        std::mem::forget(k);
    }
}
