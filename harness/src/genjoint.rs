//! Histories of jointed bodies that never collide: joint settings, readings,
//! constraint forces and constraints.
use crate::genworld::*;
use crate::rng::Rng;
use crate::util::*;
use crate::world::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::Write;

const TYPES: &[&str] = &["distance", "revolute", "prismatic", "wheel", "weld", "friction", "motor", "pulley", "mouse"];

struct J {
    g: Gen,
    dt: i64,
    vi: i64,
    pi: i64,
    calm: bool,
    nudged: bool,
}

impl J {
    fn at(&self, b: &str) -> (i64, i64) {
        let p = self.g.sim.bodies[b].borrow().get_position();
        (sc(p.x, 256.0), sc(p.y, 256.0))
    }
    fn ty(&self, b: &str) -> i64 {
        btype_i(self.g.sim.bodies[b].borrow().get_type())
    }
    fn body(&mut self, ty: i64, x: i64, y: i64) -> Vec<Value> {
        let id = format!("b{}", self.g.sim.nb + 1);
        let r = &mut self.g.r;
        let still = self.calm || ty == 0;
        let mut v = vec![json!({"op":"create_body","id":id,"ty":ty,"x":x,"y":y,"ang":*r.pick(&[0i64,0,100,-300,500]),
            "vx":if still {0} else {r.range(-700,700)},"vy":if still {0} else {r.range(-700,700)},"w":if still {0} else {r.range(-600,600)},
            "sl":!r.chance(1,2),"fr":ty == 2 && r.chance(1,10),"gs":*r.pick(&[256i64,256,256,0,128]),
            "ld":if r.chance(1,8) {100} else {0},"ad":if r.chance(1,8) {100} else {0}})];
        let sh = match r.below(4) {
            0 => json!({"k":"c","r":r.range(120,300),"x":*r.pick(&[0i64,0,90]),"y":*r.pick(&[0i64,-70])}),
            1 => json!({"k":"p","v":[[-160,-128],[192,-96],[30,192]]}),
            _ => json!({"k":"b","hx":r.range(100,300),"hy":r.range(100,300),"x":*r.pick(&[0i64,0,-80]),"y":0}),
        };
        let fid = format!("f{}", self.g.sim.nf + 1);
        v.push(json!({"op":"create_fixture","id":fid,"b":id,"sh":sh,"de":*r.pick(&[256i64,256,512,128]),
            "cat":1,"mask":0,"grp":0,"fr":51,"re":0}));
        v
    }
    fn joint(&mut self, jt: &str, a: &str, b: &str) -> Value {
        let id = format!("j{}", self.g.sim.nj + 1);
        let (ax, ay) = self.at(a);
        let (bx, by) = self.at(b);
        let r = &mut self.g.r;
        let o = |r: &mut Rng| r.range(-10, 10) * 16;
        let (ax, ay, bx, by) = (ax + o(r), ay + o(r), bx + o(r), by + o(r));
        // an anchor near one of the bodies or between them
        let (mx, my) = *r.pick(&[(bx, by), ((ax + bx) / 2, (ay + by) / 2), (ax, ay)]);
        let (ux, uy) = *r.pick(&[(5i64, 0i64), (0, 5), (3, 4), (4, -3), (-4, 3)]);
        let (lo, hi) = *r.pick(&[(-128i64, 128i64), (-64, 300), (-500, 500), (0, 200), (-20, 0), (0, 0), (-64, -64)]);
        let (k, d) = *r.pick(&[(0i64, 0i64), (2560, 0), (5120, 512), (20000, 256), (0, 512)]);
        let len = isqrt((bx - ax) * (bx - ax) + (by - ay) * (by - ay));
        let mut op = json!({"op":"create_joint","id":id,"jt":jt,"a":a,"b":b,"cc":r.chance(1,2)});
        let m = op.as_object_mut().unwrap();
        let extra = match jt {
            "distance" => {
                let mut e = json!({"x":ax,"y":ay,"x2":bx,"y2":by,"k":k,"d":d});
                if r.chance(3, 5) {
                    let e = e.as_object_mut().unwrap();
                    let lo = *r.pick(&[0i64, len / 2, len - 20, len]);
                    e.insert("lo".into(), json!(lo.max(0)));
                    e.insert("hi".into(), json!(*r.pick(&[len + 1, len + 40, len * 2 + 50])));
                    if r.chance(1, 2) {
                        e.insert("len".into(), json!(len + r.range(-40, 40)));
                    }
                }
                e
            }
            "pulley" => json!({"gx":ax,"gy":ay+*r.pick(&[400i64,700]),"gx2":bx+64,"gy2":by+500,"x":ax,"y":ay,"x2":bx,"y2":by,
                "ratio":*r.pick(&[256i64,512,128,300])}),
            "mouse" => json!({"x":bx,"y":by,"mf":*r.pick(&[2560i64,20000,300]),"k":*r.pick(&[2560i64,10000]),"d":*r.pick(&[256i64,0,900])}),
            "friction" => json!({"x":mx,"y":my,"mf":*r.pick(&[1280i64,20000,200]),"mt":*r.pick(&[640i64,20000,50])}),
            "motor" => json!({"mf":*r.pick(&[1280i64,60000,6000]),"mt":*r.pick(&[640i64,60000,6000]),"cfac":*r.pick(&[77i64,256,128,0])}),
            "weld" => json!({"x":mx,"y":my,"k":k,"d":d}),
            _ => json!({"x":mx,"y":my,"ax":ux,"ay":uy,"el":r.chance(1,2),"lo":lo,"hi":hi,"em":r.chance(1,2),
                "ms":*r.pick(&[256i64,-256,0,700,-100]),"mt":*r.pick(&[2560i64,30000,0,200]),"k":k,"d":d}),
        };
        for (k, v) in extra.as_object().unwrap() {
            m.insert(k.clone(), v.clone());
        }
        op
    }
    fn setter(&mut self, j: &str) -> Option<Value> {
        let t = self.g.sim.jdef[j].2.clone();
        let r = &mut self.g.r;
        let ms: &[&str] = match t.as_str() {
            "distance" => &["length", "min_length", "max_length", "stiffness", "damping"],
            "friction" => &["max_force", "max_torque"],
            "gear" => &["ratio"],
            "mouse" => &["target", "max_force", "stiffness", "damping"],
            "motor" => &["linear_offset", "angular_offset", "max_force", "max_torque", "correction"],
            "revolute" | "prismatic" => &["enable_limit", "limits", "enable_motor", "motor_speed", "max_motor"],
            "weld" => &["stiffness", "damping"],
            "wheel" => &["enable_limit", "limits", "enable_motor", "motor_speed", "max_motor", "stiffness", "damping"],
            _ => return None,
        };
        let m = *r.pick(ms);
        Some(match m {
            "enable_limit" | "enable_motor" => json!({"op":"joint_set","j":j,"m":m,"v":r.chance(1,2)}),
            "limits" => {
                let (lo, hi) = *r.pick(&[(-128i64, 128i64), (-64, 300), (-500, 500), (0, 200), (-20, 0), (-128, 200), (-64, 128), (0, 0), (64, 64)]);
                json!({"op":"joint_set","j":j,"m":m,"lo":lo,"hi":hi})
            }
            "target" => {
                let b = self.g.sim.jdef[j].1.clone();
                let (x, y) = self.at(&b);
                let r = &mut self.g.r;
                json!({"op":"joint_set","j":j,"m":m,"x":x+r.range(-4,4)*40,"y":y+r.range(-4,4)*40})
            }
            "linear_offset" => json!({"op":"joint_set","j":j,"m":m,"x":r.range(-4,4)*64,"y":r.range(-4,4)*64}),
            "angular_offset" => json!({"op":"joint_set","j":j,"m":m,"v":r.range(-4,4)*64}),
            "correction" => json!({"op":"joint_set","j":j,"m":m,"v":*r.pick(&[0i64,64,77,128,256])}),
            "motor_speed" => json!({"op":"joint_set","j":j,"m":m,"v":*r.pick(&[256i64,-256,0,128,700])}),
            "max_motor" => json!({"op":"joint_set","j":j,"m":m,"v":*r.pick(&[2560i64,30000,0,512])}),
            "ratio" => json!({"op":"joint_set","j":j,"m":m,"v":*r.pick(&[256i64,-256,512])}),
            "min_length" | "max_length" | "length" => json!({"op":"joint_set","j":j,"m":m,"v":*r.pick(&[0i64,64,256,400,512,768,1280])}),
            _ => json!({"op":"joint_set","j":j,"m":m,"v":*r.pick(&[0i64,256,2560,10000])}),
        })
    }
    /// Switch off a limit that is reached, a motor that pushes or a loaded spring.
    fn release(&mut self) -> Option<Value> {
        let mut ops = Vec::new();
        for (id, j) in self.g.sim.joints.iter() {
            let j = j.borrow();
            let x = crate::joints::settings(&*j);
            let h = crate::joints::forces(&*j);
            let on = |k: &str| x[k].as_bool().unwrap_or(false);
            let int = |v: &Value| v.as_i64().unwrap_or(0);
            if on("enable_limit") && (int(&h["c"]) < int(&x["lo"]) * 64 + 200 || int(&h["c"]) > int(&x["hi"]) * 64 - 200) {
                ops.push(json!({"op":"joint_set","j":id,"m":"enable_limit","v":false}));
                ops.push(json!({"op":"joint_set","j":id,"m":"enable_limit","v":false}));
                ops.push(json!({"op":"joint_set","j":id,"m":"limits","lo":-500,"hi":500}));
            }
            if on("enable_motor") && int(&h["mi"]) != 0 {
                ops.push(json!({"op":"joint_set","j":id,"m":"enable_motor","v":false}));
            }
            if int(&x["stiffness"]) > 0 {
                ops.push(json!({"op":"joint_set","j":id,"m":"stiffness","v":0}));
            }
        }
        if ops.is_empty() {
            return None;
        }
        let i = self.g.r.below(ops.len());
        Some(ops.swap_remove(i))
    }
    /// Put a body a little beside its place.
    fn nudge(&mut self, b: &str) -> Value {
        let (x, y) = self.at(b);
        let ang = sc(self.g.sim.bodies[b].borrow().get_angle(), 256.0);
        let r = &mut self.g.r;
        json!({"op":"set_transform","b":b,"x":x+r.range(-20,20),"y":y+r.range(-20,20),"ang":ang+*r.pick(&[0i64,0,15,-10])})
    }
    fn next(&mut self) -> Option<Value> {
        let calm = self.calm;
        if self.nudged && self.g.r.chance(1, 6) {
            let b = self.g.b()?;
            if self.ty(&b) == 2 {
                return Some(self.nudge(&b));
            }
        }
        if self.g.r.chance(1, 25) {
            return self.release();
        }
        let k = self.g.r.below(100);
        if k < 70 {
            if !calm && self.g.r.chance(1, 10) {
                self.dt = *self.g.r.pick(&[16i64, 17, 8, 32]);
            }
            if self.g.r.chance(1, 100) {
                return Some(json!({"op":"step","dt":0,"vi":8,"pi":3}));
            }
            return Some(json!({"op":"step","dt":self.dt,"vi":self.vi,"pi":self.pi}));
        }
        if k < 82 {
            let j = self.g.j()?;
            return if calm && !self.g.r.chance(1, 6) { None } else { self.setter(&j) };
        }
        let b = self.g.b()?;
        let moving = self.ty(&b) > 0;
        let dynamic = self.ty(&b) == 2;
        let r = &mut self.g.r;
        if calm && !r.chance(1, 8) {
            return None;
        }
        Some(match k {
            82..=85 if dynamic => json!({"op":"apply_linear_impulse_to_center","b":b,"x":r.range(-500,500),"y":r.range(-500,500),"wake":true}),
            86..=87 if dynamic => json!({"op":"apply_angular_impulse","b":b,"t":r.range(-200,200),"wake":true}),
            89 if moving => json!({"op":"set_linear_velocity","b":b,"x":r.range(-500,500),"y":r.range(-500,500)}),
            88 if moving => json!({"op":"set_angular_velocity","b":b,"w":r.range(-500,500)}),
            94..=95 => json!({"op":"set_awake","b":b,"v":r.chance(1,3)}),
            96 => json!({"op":"set_fixed_rotation","b":b,"v":r.chance(1,2)}),
            97 if !calm => json!({"op":"shift_origin","x":r.range(-4,4)*64,"y":r.range(-4,4)*64}),
            98 => {
                let j = self.g.j()?;
                if self.g.sim.jdef.values().any(|d| d.3 == j || d.4 == j) {
                    return None;
                }
                json!({"op":"destroy_joint","j":j})
            }
            90..=93 if dynamic => self.nudge(&b),
            99 => json!({"op":"set_warm_starting","v":r.chance(2,3)}),
            _ => return None,
        })
    }
}

fn isqrt(n: i64) -> i64 {
    (n as f64).sqrt() as i64
}

pub fn run(opt: &HashMap<String, String>, seed: u64, n: usize, out: &mut dyn Write) {
    let only = opt.get("type").cloned();
    let len: usize = opt.get("len").and_then(|s| s.parse().ok()).unwrap_or(70);
    let mut total = 0usize;
    let mut t = 0u64;
    while total < n {
        let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(t) ^ 0x70117);
        t += 1;
        let par = json!({"gx":*r.pick(&[0i64,0,256]),"gy":*r.pick(&[0i64,-2560,-2512]),"cont":0,"as":r.chance(1,2),"sub":false,
            "ws":!r.chance(1,5),"acf":true,"dis":0,"cf":0,"mx":1,"jx":1,"jf":1,"geo":0});
        let calm = r.chance(2, 5);
        let kind = r.below(10);
        let sim = Sim::new(&par);
        let mut j = J {
            dt: *r.pick(&[16i64, 17, 17, 8]),
            vi: *r.pick(&[500i64, 500, 8, 3, 1]),
            pi: *r.pick(&[3i64, 3, 8, 20]),
            calm,
            nudged: false,
            g: Gen { r, sim, prof: "joint".into(), par: par.clone(), ground: false },
        };
        if j.g.r.chance(1, 5) {
            j.nudged = true;
            j.vi = 500;
            j.pi = 20;
        }
        emit(out, &new_event(&par, &j.g.sim));
        total += 1;
        let mut fails = 0;
        let go = |j: &mut J, op: &Value, out: &mut dyn Write, total: &mut usize| {
            if !j.g.sim.dead {
                let e = j.g.sim.exec(op);
                emit(out, &e);
                *total += 1;
            }
        };
        // bodies
        let nb = if kind < 7 { 2 } else { 3 + j.g.r.below(2) };
        for i in 0..nb {
            let ty = if kind == 8 { if i == 0 { 1 } else { 2 } } else if kind == 7 && i != 1 && i != 2 { *j.g.r.pick(&[0i64, 0, 2, 1]) } else if i == 0 { *j.g.r.pick(&[0i64, 0, 2, 2, 1]) } else if kind < 9 { 2 } else { *j.g.r.pick(&[2i64, 2, 2, 1, 0]) };
            let (x, y) = (j.g.r.range(-3, 3) * 120 + i as i64 * 500, j.g.r.range(-3, 3) * 120);
            for op in j.body(ty, x, y) {
                go(&mut j, &op, out, &mut total);
            }
        }
        let names: Vec<String> = j.g.sim.bodies.keys().cloned().collect();
        if kind == 7 {
            if j.vi == 500 {
                j.vi = 4000;
            }
            // two hinged or sliding bodies geared together
            for b in 1..3 {
                let jt = if j.g.r.chance(1, 2) { "revolute" } else { "prismatic" };
                let from = if b == 2 && names.len() > 3 && j.g.r.chance(1, 2) { 3 } else { 0 };
                let mut op = j.joint(jt, &names[from], &names[b]);
                let m = op.as_object_mut().unwrap();
                m.insert("el".into(), json!(false));
                m.insert("em".into(), json!(b == 1 && calm));
                go(&mut j, &op, out, &mut total);
            }
            let op = json!({"op":"create_joint","id":"j3","jt":"gear","a":names[1],"b":names[2],"cc":true,"g1":"j1","g2":"j2",
                "ratio":*j.g.r.pick(&[256i64,-256,512,128])});
            go(&mut j, &op, out, &mut total);
        } else {
            let nj = if kind < 7 { 1 } else if kind == 8 { names.len() - 1 } else { 2 + j.g.r.below(3) };
            for i in 0..nj {
                let jt = match &only {
                    Some(t) => t.clone(),
                    None => j.g.r.pick(TYPES).to_string(),
                };
                let (a, b) = if i == 0 || kind == 8 {
                    // several joints on one moving frame
                    (names[0].clone(), names[i + 1].clone())
                } else {
                    let a = j.g.r.pick(&names).clone();
                    let b = j.g.r.pick(&names).clone();
                    if a == b {
                        continue;
                    }
                    (a, b)
                };
                let op = j.joint(&jt, &a, &b);
                go(&mut j, &op, out, &mut total);
            }
        }
        let target = len / 2 + j.g.r.below(len);
        let mut k = 0;
        while k < target && fails < 10000 {
            match j.next() {
                Some(op) => {
                    go(&mut j, &op, out, &mut total);
                    k += 1;
                }
                None => fails += 1,
            }
            if j.g.sim.dead || j.g.sim.extent() > 60.0 {
                break;
            }
        }
        std::mem::forget(j);
    }
}
