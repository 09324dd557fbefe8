//! Random API histories for the world traces, and execution of given scripts.
use crate::rng::Rng;
use crate::util::*;
use crate::world::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{BufRead, Write};

pub struct Gen {
    pub r: Rng,
    pub sim: Sim,
    pub prof: String,
    pub par: Value,
    pub ground: bool,
}

fn weights(prof: &str) -> Vec<(&'static str, u64)> {
    let mut w: Vec<(&'static str, u64)> = vec![
        ("step", 420),
        ("create_body", 60),
        ("create_fixture", 70),
        ("destroy_fixture", 22),
        ("destroy_body", 16),
        ("create_joint", 26),
        ("destroy_joint", 16),
        ("set_enabled", 22),
        ("set_type", 14),
        ("set_transform", 40),
        ("set_linear_velocity", 28),
        ("set_angular_velocity", 12),
        ("apply_force", 8),
        ("apply_force_to_center", 6),
        ("apply_torque", 6),
        ("apply_linear_impulse", 8),
        ("apply_linear_impulse_to_center", 6),
        ("apply_angular_impulse", 6),
        ("set_awake", 20),
        ("set_sleeping_allowed", 10),
        ("set_bullet", 4),
        ("set_fixed_rotation", 6),
        ("set_sensor", 14),
        ("set_filter", 18),
        ("refilter", 4),
        ("set_allow_sleeping", 6),
        ("set_gravity", 3),
        ("shift_origin", 3),
        ("joint_set", 14),
        ("reset_mass_data", 3),
        ("set_density", 3),
        ("set_linear_damping", 2),
        ("set_gravity_scale", 2),
        ("set_friction", 2),
        ("set_restitution", 2),
        ("query", 0),
        ("ray", 0),
        ("test_point", 0),
        ("draw", 0),
        ("save", 0),
    ];
    let add: &[(&str, u64)] = match prof {
        "vray" => &[("query", 250), ("ray", 500), ("test_point", 120), ("shift_origin", 10)],
        "vdraw" => &[("draw", 300)],
        "vsave" => &[("save", 160)],
        "vshift" => &[("shift_origin", 160), ("query", 20), ("ray", 40)],
        _ => &[],
    };
    for (k, n) in add {
        w.iter_mut().filter(|x| x.0 == *k).for_each(|x| x.1 += n);
    }
    let mut set = |names: &[&str], f: u64| {
        for x in w.iter_mut() {
            if names.contains(&x.0) {
                x.1 = x.1 * f / 10;
            }
        }
    };
    match prof {
        "pile" => {
            set(&["step"], 25);
            set(&["set_transform", "set_gravity", "shift_origin"], 3);
        }
        "filter" => {
            set(&["set_filter", "refilter"], 90);
            set(&["create_joint", "destroy_joint", "joint_set", "set_type"], 3);
        }
        "joint" => {
            set(&["create_joint", "destroy_joint"], 60);
            set(&["joint_set"], 30);
            set(&["set_transform"], 15);
        }
        "destroy" => {
            set(&["destroy_body", "destroy_fixture", "destroy_joint", "create_joint"], 30);
            set(&["create_body", "create_fixture"], 20);
        }
        "enable" => {
            set(&["set_enabled"], 80);
            set(&["set_type", "create_joint"], 50);
            set(&["set_awake"], 30);
        }
        "crowd" => {
            set(&["step"], 60);
            set(&["set_transform", "set_linear_velocity", "set_angular_velocity", "set_gravity", "shift_origin"], 3);
            set(&["destroy_body", "set_awake"], 20);
        }
        "sleep" => {
            set(&["step"], 30);
            set(&["set_awake", "set_sleeping_allowed"], 20);
            set(&["set_transform", "set_linear_velocity", "set_angular_velocity"], 5);
            set(&["create_joint"], 20);
        }
        "wake" => {
            set(&["step"], 8);
            set(&["set_awake"], 80);
            set(
                &[
                    "apply_force",
                    "apply_force_to_center",
                    "apply_torque",
                    "apply_linear_impulse",
                    "apply_linear_impulse_to_center",
                    "apply_angular_impulse",
                    "set_sensor",
                    "set_allow_sleeping",
                    "set_sleeping_allowed",
                    "set_linear_velocity",
                    "set_angular_velocity",
                    "joint_set",
                ],
                40,
            );
            set(&["create_joint"], 25);
        }
        "vsave" | "vdraw" | "vshift" => {
            set(&["create_joint"], 30);
            set(&["joint_set", "set_bullet", "set_fixed_rotation", "set_linear_damping", "set_gravity_scale"], 20);
        }
        "overlap" => {
            set(&["set_transform"], 40);
            set(&["set_sensor"], 30);
        }
        _ => {}
    }
    w
}

pub fn pick_w(r: &mut Rng, w: &[(&'static str, u64)]) -> &'static str {
    let tot: u64 = w.iter().map(|x| x.1).sum();
    let mut k = r.next() % tot;
    for (n, x) in w {
        if k < *x {
            return n;
        }
        k -= x;
    }
    w[0].0
}

impl Gen {
    pub fn b(&mut self) -> Option<String> {
        let v: Vec<String> = self.sim.bodies.keys().cloned().collect();
        if v.is_empty() {
            None
        } else {
            Some(self.r.pick(&v).clone())
        }
    }
    pub fn f(&mut self) -> Option<String> {
        let v: Vec<String> = self.sim.fixtures.keys().cloned().collect();
        if v.is_empty() {
            None
        } else {
            Some(self.r.pick(&v).clone())
        }
    }
    pub fn j(&mut self) -> Option<String> {
        let v: Vec<String> = self.sim.joints.keys().cloned().collect();
        if v.is_empty() {
            None
        } else {
            Some(self.r.pick(&v).clone())
        }
    }
    fn pos(&mut self) -> (i64, i64) {
        let s = if self.prof == "overlap" || self.prof == "filter" { 8 } else { 14 };
        (self.r.range(-s, s) * 64, self.r.range(-s, s) * 64 + if self.ground { 512 } else { 0 })
    }
    fn ang(&mut self) -> i64 {
        if self.r.chance(1, 2) {
            0
        } else {
            self.r.range(-400, 400)
        }
    }
    fn vel(&mut self) -> i64 {
        if self.prof == "sleep" {
            *self.r.pick(&[0, 0, 1, -1, 2, 64])
        } else {
            self.r.range(-8, 8) * 128
        }
    }
    pub fn shape(&mut self, static_body: bool) -> Value {
        let k = self.r.below(if static_body { 10 } else { 8 });
        match k {
            0..=2 => json!({"k":"c","r":self.r.range(64,256),"x":*self.r.pick(&[0i64,0,64,-64]),"y":0}),
            3..=5 => json!({"k":"b","hx":self.r.range(64,300),"hy":self.r.range(64,256),
                "x":*self.r.pick(&[0i64,0,0,64]),"y":0}),
            6 => match self.r.below(4) {
                3 => json!({"k":"p","v":crate::geo::many(&mut self.r, 16)}),
                0 => json!({"k":"p","v":[[-128,-128],[192,-64],[0,192]]}),
                1 => json!({"k":"p","v":[[-128,-64],[0,-128],[128,-64],[128,64],[0,128],[-128,64]]}),
                _ => json!({"k":"p","v":[[-200,-40],[200,-40],[200,40],[-200,40]]}),
            },
            7 if self.prof.starts_with('v') && self.r.chance(1, 2) => {
                json!({"k":"e","v":[[-500,30],[-256,0],[256,self.r.range(-64,64)],[500,-30]]})
            }
            7 => {
                if static_body || self.r.chance(1, 2) {
                    json!({"k":"e","v":[[-300,0],[300,self.r.range(-64,64)]]})
                } else {
                    json!({"k":"b","hx":128,"hy":128,"x":0,"y":0})
                }
            }
            8 => json!({"k":"ch","v":[[600,0],[200,-30],[-200,20],[-600,0]],"loop":false}),
            _ => json!({"k":"ch","v":[[-400,-200],[400,-200],[400,200],[-400,200]],"loop":true}),
        }
    }
    fn filt(&mut self) -> (i64, i64, i64) {
        if self.prof == "filter" {
            let c = *self.r.pick(&[1i64, 2, 4, 8, 0x8000, 3, 0xffff, 0]);
            let m = *self.r.pick(&[0xffffi64, 0xffff, 1, 2, 4, 5, 0x8000, 0x7fff, 0]);
            let g = *self.r.pick(&[0i64, 0, 0, 1, -1, 2, -2, 32767, -32768]);
            (c, m, g)
        } else if self.r.chance(1, 4) {
            let c = *self.r.pick(&[1i64, 2, 4]);
            let m = *self.r.pick(&[0xffffi64, 1, 2, 6]);
            let g = *self.r.pick(&[0i64, 0, 0, 1, -1]);
            (c, m, g)
        } else {
            (1, 0xffff, 0)
        }
    }
    fn gear_users(&self, j: &str) -> Option<String> {
        self.sim.jdef.iter().find(|(_, d)| d.3 == j || d.4 == j).map(|(k, _)| k.clone())
    }
    pub fn mk_joint(&mut self) -> Option<Value> {
        if self.sim.bodies.len() < 2 || self.sim.joints.len() >= 6 {
            return None;
        }
        let v: Vec<String> = self.sim.bodies.keys().cloned().collect();
        let a = self.r.pick(&v).clone();
        let b = self.r.pick(&v).clone();
        if a == b {
            return None;
        }
        let id = format!("j{}", self.sim.nj + 1);
        let cc = self.r.chance(1, 2);
        let pa = self.sim.bodies[&a].borrow().get_position();
        let pb = self.sim.bodies[&b].borrow().get_position();
        let (ax, ay) = (sc(pa.x, 256.0), sc(pa.y, 256.0));
        let (bx, by) = (sc(pb.x, 256.0), sc(pb.y, 256.0));
        let (mx, my) = ((ax + bx) / 2, (ay + by) / 2);
        let (ux, uy) = *self.r.pick(&[(5i64, 0i64), (0, 5), (3, 4), (4, -3)]);
        let el = self.r.chance(1, 2);
        let em = self.r.chance(1, 3);
        let jt = *self.r.pick(&[
            "distance", "revolute", "revolute", "prismatic", "wheel", "weld", "friction", "motor", "pulley", "mouse", "gear",
        ]);
        Some(match jt {
            "distance" => json!({"op":"create_joint","id":id,"jt":jt,"a":a,"b":b,"cc":cc,"x":ax,"y":ay,"x2":bx,"y2":by,
                "k":*self.r.pick(&[0i64,0,2560]),"d":*self.r.pick(&[0i64,128])}),
            "pulley" => json!({"op":"create_joint","id":id,"jt":jt,"a":a,"b":b,"cc":cc,"gx":ax,"gy":ay+1024,"gx2":bx,"gy2":by+1024,
                "x":ax,"y":ay,"x2":bx,"y2":by,"ratio":*self.r.pick(&[256i64,512,128])}),
            "mouse" => json!({"op":"create_joint","id":id,"jt":jt,"a":a,"b":b,"cc":cc,"x":bx,"y":by,"mf":2560,"k":2560,"d":256}),
            "friction" | "motor" => json!({"op":"create_joint","id":id,"jt":jt,"a":a,"b":b,"cc":cc,"x":mx,"y":my,"mf":1280,"mt":640}),
            "gear" => {
                let c: Vec<String> = self
                    .sim
                    .jdef
                    .iter()
                    .filter(|(_, d)| d.2 == "revolute" || d.2 == "prismatic")
                    .map(|(k, _)| k.clone())
                    .collect();
                if c.len() < 2 {
                    return None;
                }
                let g1 = self.r.pick(&c).clone();
                let g2 = self.r.pick(&c).clone();
                if g1 == g2 {
                    return None;
                }
                let (b1, b2) = (self.sim.jdef[&g1].1.clone(), self.sim.jdef[&g2].1.clone());
                if b1 == b2 {
                    return None;
                }
                // the library requires the second bodies of geared joints to be dynamic
                if [&b1, &b2].iter().any(|b| btype_i(self.sim.bodies[*b].borrow().get_type()) != 2) {
                    return None;
                }
                json!({"op":"create_joint","id":id,"jt":jt,"a":b1,"b":b2,"cc":cc,"g1":g1,"g2":g2,"ratio":*self.r.pick(&[256i64,-256,512])})
            }
            _ => json!({"op":"create_joint","id":id,"jt":jt,"a":a,"b":b,"cc":cc,"x":mx,"y":my,"ax":ux,"ay":uy,
                "el":el,"lo":-128,"hi":128,"em":em,"ms":256,"mt":2560,"k":*self.r.pick(&[0i64,2560]),"d":*self.r.pick(&[0i64,128])}),
        })
    }
    pub fn mk_joint_set(&mut self) -> Option<Value> {
        let j = self.j()?;
        let t = self.sim.jdef[&j].2.clone();
        let ms: &[&str] = match t.as_str() {
            "distance" => &["length", "min_length", "max_length", "stiffness", "damping"],
            "friction" => &["max_force", "max_torque"],
            "gear" => &["ratio"],
            "mouse" => &["target", "max_force", "stiffness", "damping"],
            "motor" => &["linear_offset", "angular_offset", "max_force", "max_torque", "correction"],
            "revolute" | "prismatic" => &["enable_limit", "limits", "enable_motor", "motor_speed", "max_motor"],
            "weld" => &["stiffness", "damping"],
            "wheel" => &["enable_limit", "limits", "enable_motor", "motor_speed", "max_motor", "stiffness", "damping"],
            _ => return None,
        };
        let m = *self.r.pick(ms);
        Some(match m {
            "enable_limit" | "enable_motor" => json!({"op":"joint_set","j":j,"m":m,"v":self.r.chance(1,2)}),
            "limits" => {
                let lo = *self.r.pick(&[-128i64, -128, -64, 0]);
                let hi = *self.r.pick(&[128i64, 128, 64, 0]);
                json!({"op":"joint_set","j":j,"m":m,"lo":lo,"hi":hi})
            }
            "target" | "linear_offset" => json!({"op":"joint_set","j":j,"m":m,"x":self.r.range(-4,4)*64,"y":self.r.range(-4,4)*64}),
            "correction" => json!({"op":"joint_set","j":j,"m":m,"v":*self.r.pick(&[0i64,64,128,256])}),
            "motor_speed" => json!({"op":"joint_set","j":j,"m":m,"v":*self.r.pick(&[256i64,256,-256,0,128])}),
            "max_motor" => json!({"op":"joint_set","j":j,"m":m,"v":*self.r.pick(&[2560i64,2560,0,512])}),
            "ratio" => json!({"op":"joint_set","j":j,"m":m,"v":*self.r.pick(&[256i64,-256,512])}),
            "min_length" | "max_length" | "length" => json!({"op":"joint_set","j":j,"m":m,"v":*self.r.pick(&[0i64,64,256,512,768,1280])}),
            _ => json!({"op":"joint_set","j":j,"m":m,"v":*self.r.pick(&[0i64,128,1280,2560])}),
        })
    }

    pub fn next_op(&mut self) -> Option<Value> {
        let w = weights(&self.prof);
        let k = pick_w(&mut self.r, &w);
        let nb = self.sim.bodies.len();
        let nf = self.sim.fixtures.len();
        let sleepy = self.prof == "sleep" || self.prof == "crowd";
        Some(match k {
            "step" => {
                let dt = if sleepy { *self.r.pick(&[32i64, 32, 64, 0]) } else { *self.r.pick(&[16i64, 16, 16, 32, 8, 0]) };
                json!({"op":"step","dt":dt,"vi":6,"pi":3})
            }
            "create_body" => {
                if nb >= 7 {
                    return None;
                }
                let (x, y) = self.pos();
                json!({"op":"create_body","id":format!("b{}",self.sim.nb+1),"ty":*self.r.pick(&[2i64,2,2,2,1,0]),
                    "x":x,"y":y,"ang":self.ang(),
                    "vx":self.vel(),"vy":self.vel(),"w":if self.r.chance(1,3) {self.vel()} else {0},
                    "aw":!self.r.chance(1,8),"sl":!self.r.chance(1,8),"en":!self.r.chance(1,10),
                    "bu":self.r.chance(1,8),"fr":self.r.chance(1,8)})
            }
            "create_fixture" => {
                if nf >= 11 {
                    return None;
                }
                let b = self.b()?;
                let st = btype_i(self.sim.bodies[&b].borrow().get_type()) == 0;
                let sh = self.shape(st);
                let (c, m, g) = self.filt();
                let se = self.r.chance(1, if self.prof == "overlap" { 3 } else { 7 });
                json!({"op":"create_fixture","id":format!("f{}",self.sim.nf+1),"b":b,"sh":sh,
                    "de":*self.r.pick(&[256i64,256,512,0]),"se":se,
                    "cat":c,"mask":m,"grp":g,"fr":*self.r.pick(&[51i64,128,0,256]),"re":*self.r.pick(&[0i64,0,64,128])})
            }
            "destroy_fixture" => json!({"op":"destroy_fixture","f":self.f()?}),
            "destroy_body" => {
                let b = self.b()?;
                let js: Vec<String> =
                    self.sim.jdef.iter().filter(|(_, d)| d.0 == b || d.1 == b).map(|(k, _)| k.clone()).collect();
                for j in js {
                    if let Some(g) = self.gear_users(&j) {
                        return Some(json!({"op":"destroy_joint","j":g}));
                    }
                }
                json!({"op":"destroy_body","b":b})
            }
            "create_joint" => return self.mk_joint(),
            "destroy_joint" => {
                let j = self.j()?;
                match self.gear_users(&j) {
                    Some(g) => json!({"op":"destroy_joint","j":g}),
                    None => json!({"op":"destroy_joint","j":j}),
                }
            }
            "joint_set" => return self.mk_joint_set(),
            "set_enabled" => json!({"op":k,"b":self.b()?,"v":self.r.chance(3,5)}),
            "set_type" => json!({"op":k,"b":self.b()?,"v":*self.r.pick(&[2i64,2,1,0])}),
            "set_transform" => {
                let (x, y) = self.pos();
                json!({"op":k,"b":self.b()?,"x":x,"y":y,"ang":self.ang()})
            }
            "set_linear_velocity" => json!({"op":k,"b":self.b()?,"x":self.vel(),"y":self.vel()}),
            "set_angular_velocity" => json!({"op":k,"b":self.b()?,"w":self.vel()}),
            "apply_force" | "apply_linear_impulse" => {
                let b = self.b()?;
                let p = self.sim.bodies[&b].borrow().get_position();
                json!({"op":k,"b":b,"x":self.r.range(-4,4)*128,"y":self.r.range(-4,4)*128,
                    "px":sc(p.x,256.0)+self.r.range(-64,64),"py":sc(p.y,256.0),"wake":self.r.chance(1,2)})
            }
            "apply_force_to_center" | "apply_linear_impulse_to_center" => {
                json!({"op":k,"b":self.b()?,"x":self.r.range(-4,4)*128,"y":self.r.range(-4,4)*128,"wake":self.r.chance(1,2)})
            }
            "apply_torque" | "apply_angular_impulse" => {
                json!({"op":k,"b":self.b()?,"t":self.r.range(-4,4)*64,"wake":self.r.chance(1,2)})
            }
            "set_awake" => json!({"op":k,"b":self.b()?,"v":self.r.chance(2,5)}),
            "set_sleeping_allowed" => json!({"op":k,"b":self.b()?,"v":self.r.chance(4,5)}),
            "set_bullet" | "set_fixed_rotation" => json!({"op":k,"b":self.b()?,"v":self.r.chance(1,2)}),
            "set_sensor" => json!({"op":k,"f":self.f()?,"v":self.r.chance(1,2)}),
            "set_filter" => {
                let (c, m, g) = self.filt();
                json!({"op":k,"f":self.f()?,"cat":c,"mask":m,"grp":g})
            }
            "refilter" => json!({"op":k,"f":self.f()?}),
            "set_allow_sleeping" => json!({"op":k,"v":self.r.chance(2,3)}),
            "set_gravity" => json!({"op":k,"x":0,"y":-self.r.range(0,10)*256}),
            "shift_origin" => json!({"op":k,"x":self.r.range(-4,4)*64,"y":self.r.range(-4,4)*64}),
            "reset_mass_data" => json!({"op":k,"b":self.b()?}),
            "set_density" => json!({"op":k,"f":self.f()?,"v":*self.r.pick(&[0i64,256,512])}),
            "set_linear_damping" => json!({"op":k,"b":self.b()?,"v":*self.r.pick(&[0i64,128])}),
            "set_gravity_scale" => json!({"op":k,"b":self.b()?,"v":*self.r.pick(&[256i64,0,-256,512])}),
            "set_friction" => json!({"op":k,"f":self.f()?,"v":*self.r.pick(&[0i64,64,256])}),
            "set_restitution" => json!({"op":k,"f":self.f()?,"v":*self.r.pick(&[0i64,64,256])}),
            "query" => {
                let (x, y) = self.pos();
                let (w, h) = (self.r.range(0, 12) * 64, self.r.range(0, 12) * 64);
                json!({"op":k,"x1":x-w,"y1":y-h,"x2":x+w,"y2":y+h,"stop":*self.r.pick(&[0i64,0,0,1,2,3])})
            }
            "ray" => {
                let (x1, y1) = self.aim();
                let (mut x2, mut y2) = self.aim();
                if self.r.chance(1, 5) {
                    x2 = x1;
                }
                if self.r.chance(1, 5) {
                    y2 = y1;
                }
                if (x1 - x2).abs() + (y1 - y2).abs() < 64 {
                    x2 += 300;
                }
                json!({"op":k,"x1":x1,"y1":y1,"x2":x2,"y2":y2,
                    "pol":*self.r.pick(&["all","clip","clip","ignore","stop","mixed","mixed","half"]),"k":self.r.range(0,3)})
            }
            "test_point" => {
                let (x, y) = self.aim();
                json!({"op":k,"x":x,"y":y})
            }
            "draw" => json!({"op":k,"fl":*self.r.pick(&[1i64,2,4,8,16,31,31,0,3,5,24,2])}),
            "save" => json!({"op":k,"fmt":*self.r.pick(&["json","bincode"])}),
            _ => return None,
        })
    }
    /// More bodies, fixtures, contacts and joints than other scenes have.
    fn crowd(&mut self, todo: &mut Vec<Value>) {
        let n = 9 + self.r.below(8) as i64;
        let cols = *self.r.pick(&[4i64, 6, 16]);
        let kind = self.r.below(4);
        // touching, linked or both; a lone body has all the fixtures
        let gap = if kind == 1 { 300 } else { 254 };
        let first = todo.len() as i64 / 2;
        for i in 0..n {
            let id = format!("b{}", first + if kind == 3 { 1 } else { i + 1 });
            let fid = format!("f{}", first + i + 1);
            let (x, y) = ((i % cols) * gap - 750, (i / cols) * gap - 1282);
            let sh = if self.r.chance(1, 2) { json!({"k":"c","r":128,"x":0,"y":0}) } else { json!({"k":"b","hx":126,"hy":126,"x":0,"y":0}) };
            let sh = if kind == 3 { json!({"k":"c","r":128,"x":(i % cols) * 200,"y":(i / cols) * 200}) } else { sh };
            if kind != 3 || i == 0 {
                let ty = if self.r.chance(1, 14) { 1i64 } else { 2 };
                todo.push(json!({"op":"create_body","id":id,"ty":ty,"x":x,"y":y,"ang":0,"vx":0,"vy":0,"w":0,
                    "aw":true,"sl":!self.r.chance(1,40),"en":true,"bu":false,"fr":self.r.chance(1,10)}));
            }
            todo.push(json!({"op":"create_fixture","id":fid,"b":id,"sh":sh,"de":256,"se":false,"cat":1,"mask":65535,"grp":0,"fr":51,"re":0}));
        }
        if kind == 3 {
            let id = format!("b{}", first + 2);
            todo.push(json!({"op":"create_body","id":id,"ty":2,"x":-700,"y":-1100,"ang":0,"vx":0,"vy":self.vel(),"w":0,
                "aw":true,"sl":true,"en":true,"bu":false,"fr":false}));
            todo.push(json!({"op":"create_fixture","id":format!("f{}", first + n + 1),"b":id,"sh":{"k":"b","hx":600,"hy":100,"x":0,"y":0},
                "de":256,"se":false,"cat":1,"mask":65535,"grp":0,"fr":51,"re":0}));
        }
        if kind == 1 || kind == 2 {
            for i in 1..n {
                let (x, y) = ((i % cols) * gap - 750, (i / cols) * gap - 1282);
                todo.push(json!({"op":"create_joint","id":format!("j{}", i),"jt":"revolute","a":format!("b{}", first + i),"b":format!("b{}", first + i + 1),
                    "cc":self.r.chance(1,2),"x":x,"y":y,"ax":5,"ay":0,"el":false,"lo":0,"hi":0,"em":false,"ms":0,"mt":0,"k":0,"d":0}));
            }
        }
    }
    fn rest(&mut self, todo: &mut Vec<Value>) {
        for _ in 0..18 + self.r.below(6) {
            todo.push(json!({"op":"step","dt":32,"vi":8,"pi":3}));
        }
    }
    /// A point in the area of interest, often near a body.
    fn aim(&mut self) -> (i64, i64) {
        if self.r.chance(1, 2) {
            if let Some(b) = self.b() {
                let p = self.sim.bodies[&b].borrow().get_position();
                let (x, y) = (sc(p.x, 256.0).clamp(-2000, 2000), sc(p.y, 256.0).clamp(-2000, 2000));
                return (x + self.r.range(-300, 300), y + self.r.range(-300, 300));
            }
        }
        (self.r.range(-1500, 1500), self.r.range(-1500, 1500))
    }
}

pub fn new_event(par: &Value, sim: &Sim) -> Value {
    json!({"op":"New","r":"ok","msg":"","a":par,"ret":{},"ev":[],"s":sim.snapshot()})
}

pub fn params(r: &mut Rng, prof: &str) -> Value {
    let g = match prof {
        "sleep" | "crowd" => *r.pick(&[0i64, 0, -10]),
        "overlap" | "filter" => *r.pick(&[0i64, 0, 0, -10]),
        "pile" => -10,
        _ => *r.pick(&[0i64, -10, -10]),
    };
    json!({"gx":0,"gy":g*256,"cont":if r.chance(2,5) {1} else {0},"as":!r.chance(1,8),"sub":r.chance(1,10),
        "ws":!r.chance(1,10),"acf":true,"dis":*r.pick(&[0i64,0,2,3,5]),"cf":if r.chance(1,6) {1} else {0}})
}

pub fn run(opt: &HashMap<String, String>, seed: u64, n: usize, out: &mut dyn Write) {
    let profs: Vec<String> = opt.get("prof").cloned().unwrap_or("mix".into()).split(',').map(|s| s.to_string()).collect();
    let len: usize = opt.get("len").and_then(|s| s.parse().ok()).unwrap_or(60);
    let jx = opt.contains_key("jx");
    let mut total = 0usize;
    let mut t = 0u64;
    while total < n {
        let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(t));
        t += 1;
        let prof = profs[(t as usize) % profs.len()].clone();
        let mut par = params(&mut r, &prof);
        if jx {
            par["jx"] = json!(1);
        }
        for k in ["mx", "vx"] {
            if opt.contains_key(k) {
                par[k] = json!(1);
            }
        }
        for k in ["cont", "cf", "sub", "dis", "gy"] {
            if let Some(v) = opt.get(k).and_then(|s| s.parse::<i64>().ok()) {
                par[k] = json!(v);
            }
        }
        par["prof"] = json!(prof);
        let sim = Sim::new(&par);
        let mut g = Gen { r, sim, prof: prof.clone(), par: par.clone(), ground: false };
        emit(out, &new_event(&par, &g.sim));
        total += 1;
        let mut todo: Vec<Value> = Vec::new();
        if gi(&par, "gy") != 0 || g.r.chance(1, 3) {
            g.ground = true;
            todo.push(json!({"op":"create_body","id":"b1","ty":0,"x":0,"y":-1536}));
            let k = g.r.below(3);
            let sh = match k {
                0 => json!({"k":"b","hx":4096,"hy":128,"x":0,"y":0}),
                1 => json!({"k":"e","v":[[-4096,0],[4096,0]]}),
                _ => json!({"k":"ch","v":[[3000,600],[1500,0],[0,-40],[-1500,0],[-3000,600]],"loop":false}),
            };
            todo.push(json!({"op":"create_fixture","id":"f1","b":"b1","sh":sh,"de":0,"se":false,"cat":1,"mask":65535,"grp":0,"fr":128,"re":0}));
        }
        let mut pre = 2 + g.r.below(4);
        let crowd = prof == "crowd" || (prof.starts_with('v') && g.r.chance(1, 10));
        if crowd {
            pre = 0;
            g.crowd(&mut todo);
            if prof == "crowd" && g.r.chance(2, 3) {
                g.rest(&mut todo);
            }
        }
        let mut k = 0;
        let target = len / 2 + g.r.below(len);
        while k < target || (crowd && k < 2 * target) {
            let op = if !todo.is_empty() {
                todo.remove(0)
            } else if pre > 0 {
                // start with a few bodies so that histories are not dominated by empty worlds
                pre -= 1;
                let (x, y) = g.pos();
                let id = format!("b{}", g.sim.nb + 1);
                let fid = format!("f{}", g.sim.nf + 1);
                let ty = *g.r.pick(&[2i64, 2, 2, 2, 1, 0]);
                let sh = g.shape(ty == 0);
                let (c, m, gg) = g.filt();
                let se = g.r.chance(1, 8);
                todo.push(json!({"op":"create_fixture","id":fid,"b":id,"sh":sh,"de":256,"se":se,"cat":c,"mask":m,"grp":gg,"fr":51,"re":0}));
                json!({"op":"create_body","id":id,"ty":ty,"x":x,"y":y,"ang":g.ang(),"vx":g.vel(),"vy":g.vel(),"w":0,
                    "aw":true,"sl":true,"en":true,"bu":g.r.chance(1,6),"fr":false})
            } else {
                match g.next_op() {
                    Some(o) => o,
                    None => continue,
                }
            };
            if prof == "crowd" && todo.is_empty() && g.r.chance(1, 12) {
                g.rest(&mut todo);
            }
            // loading computes masses from densities, so these must be in step
            if prof == "vsave" && gs(&op, "op") == "set_density" {
                let b = g.sim.owner(gs(&op, "f"));
                todo.push(json!({"op":"reset_mass_data","b":b}));
            }
            // effects of single calls show best in a step right after them
            if todo.is_empty() && pre == 0 && g.r.chance(1, 3) {
                let st = json!({"op":"step","dt":16,"vi":8,"pi":3});
                match gs(&op, "op") {
                    "set_enabled" if !gb(&op, "v") => {
                        if g.r.chance(1, 2) {
                            todo.push(st.clone());
                        }
                        todo.push(json!({"op":"set_enabled","b":op["b"],"v":true}));
                        todo.push(st);
                    }
                    "set_enabled" | "set_transform" | "set_type" | "create_fixture" | "set_filter" => todo.push(st),
                    _ => {}
                }
            }
            let e = g.sim.exec(&op);
            emit(out, &e);
            total += 1;
            k += 1;
            if g.sim.dead || g.sim.extent() > if prof.starts_with('v') { 14.0 } else { 35.0 } {
                break;
            }
        }
        std::mem::forget(g);
    }
}

/// Executes scripts: each line is an operation, "New" starts a fresh world.
pub fn run_script(opt: &HashMap<String, String>, out: &mut dyn Write) {
    let f = std::fs::File::open(opt.get("in").expect("--in")).expect("script");
    let mut sim: Option<Sim> = None;
    for line in std::io::BufReader::new(f).lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let v: Value = serde_json::from_str(&line).expect("json");
        // events of a recorded trace are accepted as well as plain operations
        let op = if v.get("a").map(|a| a.is_object()).unwrap_or(false) {
            let mut a = v["a"].as_object().unwrap().clone();
            a.insert("op".into(), v["op"].clone());
            Value::Object(a)
        } else {
            v
        };
        if gs(&op, "op") == "New" {
            if let Some(s) = sim.take() {
                std::mem::forget(s);
            }
            let mut par = op.clone();
            par.as_object_mut().unwrap().remove("op");
            let s = Sim::new(&par);
            emit(out, &new_event(&par, &s));
            sim = Some(s);
            continue;
        }
        if let Some(s) = sim.as_mut() {
            if s.dead {
                continue;
            }
            let e = s.exec(&op);
            emit(out, &e);
        }
    }
    if let Some(s) = sim.take() {
        std::mem::forget(s);
    }
}
