//! Histories of bodies that never collide: integration, forces and mass data.
use crate::genworld::*;
use crate::rng::Rng;
use crate::util::*;
use crate::world::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::Write;

const W: &[(&str, u64)] = &[
    ("step", 300),
    ("create_body", 30),
    ("create_fixture", 45),
    ("destroy_fixture", 20),
    ("destroy_body", 8),
    ("set_type", 14),
    ("set_enabled", 10),
    ("set_transform", 12),
    ("set_linear_velocity", 25),
    ("set_angular_velocity", 20),
    ("apply_force", 30),
    ("apply_force_to_center", 20),
    ("apply_torque", 20),
    ("apply_linear_impulse", 25),
    ("apply_linear_impulse_to_center", 15),
    ("apply_angular_impulse", 15),
    ("set_awake", 14),
    ("set_sleeping_allowed", 4),
    ("set_fixed_rotation", 12),
    ("set_density", 16),
    ("reset_mass_data", 18),
    ("set_mass_data", 14),
    ("set_linear_damping", 8),
    ("set_angular_damping", 8),
    ("set_gravity_scale", 8),
    ("set_gravity", 6),
    ("set_auto_clear", 8),
    ("clear_forces", 8),
    ("set_allow_sleeping", 2),
    ("shift_origin", 3),
];

fn shape(r: &mut Rng) -> Value {
    match r.below(10) {
        0..=2 => json!({"k":"c","r":r.range(96,320),"x":*r.pick(&[0i64,0,64,-128,200]),"y":*r.pick(&[0i64,0,-96,150])}),
        3..=5 => json!({"k":"b","hx":r.range(96,300),"hy":r.range(96,300),"x":*r.pick(&[0i64,0,64,-150]),"y":*r.pick(&[0i64,0,128])}),
        6 if r.chance(1, 2) => json!({"k":"p","v":crate::geo::many(r, 20)}),
        6 => json!({"k":"p","v":[[-128,-128],[192,-64],[0,192]]}),
        7 => {
            let (dx, dy) = (r.range(-200, 200), r.range(-200, 200));
            let v: Vec<[i64; 2]> =
                [[-128, -64], [0, -128], [128, -64], [128, 64], [0, 128], [-128, 64]].iter().map(|p| [p[0] + dx, p[1] + dy]).collect();
            json!({"k":"p","v":v})
        }
        8 => json!({"k":"e","v":[[-300,0],[300,r.range(-64,64)]]}),
        _ => json!({"k":"ch","v":[[600,0],[200,-30],[-200,20],[-600,0]],"loop":false}),
    }
}

fn vel(r: &mut Rng) -> i64 {
    match r.below(8) {
        0 => 0,
        1 => *r.pick(&[30000i64, -40000, 52000, 20000]),
        2 => r.range(-3, 3),
        _ => r.range(-2000, 2000),
    }
}
fn wvel(r: &mut Rng) -> i64 {
    match r.below(8) {
        0 => 0,
        1 => *r.pick(&[20000i64, -26000, 40000]),
        2 => r.range(-3, 3),
        _ => r.range(-1500, 1500),
    }
}

fn next_op(g: &mut Gen) -> Option<Value> {
    let k = pick_w(&mut g.r, W);
    let (nb, nf) = (g.sim.bodies.len(), g.sim.fixtures.len());
    Some(match k {
        "step" => json!({"op":k,"dt":*g.r.pick(&[16i64,16,17,32,8,64,0]),"vi":g.r.range(1,6),"pi":g.r.range(1,3)}),
        "create_body" => {
            if nb >= 4 {
                return None;
            }
            json!({"op":k,"id":format!("b{}",g.sim.nb+1),"ty":*g.r.pick(&[2i64,2,2,2,1,0]),
                "x":g.r.range(-900,900),"y":g.r.range(-900,900),"ang":*g.r.pick(&[0i64,0,100,-300,700]),
                "vx":vel(&mut g.r),"vy":vel(&mut g.r),"w":wvel(&mut g.r),
                "aw":!g.r.chance(1,8),"sl":!g.r.chance(1,3),"en":!g.r.chance(1,10),"bu":g.r.chance(1,4),"fr":g.r.chance(1,6),
                "ld":*g.r.pick(&[0i64,0,64,300]),"ad":*g.r.pick(&[0i64,0,64,300]),"gs":*g.r.pick(&[256i64,256,0,-128,512])})
        }
        "create_fixture" => {
            if nf >= 7 {
                return None;
            }
            json!({"op":k,"id":format!("f{}",g.sim.nf+1),"b":g.b()?,"sh":shape(&mut g.r),"de":*g.r.pick(&[256i64,256,500,77,0]),
                "se":g.r.chance(1,5),"cat":1,"mask":0,"grp":0,"fr":51,"re":0})
        }
        "destroy_fixture" => json!({"op":k,"f":g.f()?}),
        "destroy_body" => json!({"op":k,"b":g.b()?}),
        "set_type" => json!({"op":k,"b":g.b()?,"v":*g.r.pick(&[2i64,2,2,1,0])}),
        "set_enabled" => json!({"op":k,"b":g.b()?,"v":g.r.chance(3,4)}),
        "set_transform" => json!({"op":k,"b":g.b()?,"x":g.r.range(-900,900),"y":g.r.range(-900,900),"ang":g.r.range(-800,800)}),
        "set_linear_velocity" => json!({"op":k,"b":g.b()?,"x":vel(&mut g.r),"y":vel(&mut g.r)}),
        "set_angular_velocity" => json!({"op":k,"b":g.b()?,"w":wvel(&mut g.r)}),
        "apply_force" | "apply_linear_impulse" => {
            let b = g.b()?;
            let p = g.sim.bodies[&b].borrow().get_position();
            let m = if k == "apply_force" { 4000 } else { 500 };
            json!({"op":k,"b":b,"x":g.r.range(-m,m),"y":g.r.range(-m,m),
                "px":sc(p.x,256.0)+g.r.range(-300,300),"py":sc(p.y,256.0)+g.r.range(-300,300),"wake":g.r.chance(2,3)})
        }
        "apply_force_to_center" => json!({"op":k,"b":g.b()?,"x":g.r.range(-4000,4000),"y":g.r.range(-4000,4000),"wake":g.r.chance(2,3)}),
        "apply_linear_impulse_to_center" => json!({"op":k,"b":g.b()?,"x":g.r.range(-500,500),"y":g.r.range(-500,500),"wake":g.r.chance(2,3)}),
        "apply_torque" => json!({"op":k,"b":g.b()?,"t":g.r.range(-3000,3000),"wake":g.r.chance(2,3)}),
        "apply_angular_impulse" => json!({"op":k,"b":g.b()?,"t":g.r.range(-300,300),"wake":g.r.chance(2,3)}),
        "set_awake" => json!({"op":k,"b":g.b()?,"v":g.r.chance(1,2)}),
        "set_sleeping_allowed" => json!({"op":k,"b":g.b()?,"v":g.r.chance(1,2)}),
        "set_fixed_rotation" => json!({"op":k,"b":g.b()?,"v":g.r.chance(1,2)}),
        "set_density" => json!({"op":k,"f":g.f()?,"v":*g.r.pick(&[0i64,256,128,700])}),
        "reset_mass_data" => json!({"op":k,"b":g.b()?}),
        "set_mass_data" => {
            let m = *g.r.pick(&[256i64, 300, 512, 1000, 0, -100]);
            let i = *g.r.pick(&[0i64, 2600, 3000, 5000, -5]);
            json!({"op":k,"b":g.b()?,"m":m,"x":g.r.range(-100,100),"y":g.r.range(-100,100),"i":i})
        }
        "set_linear_damping" | "set_angular_damping" => json!({"op":k,"b":g.b()?,"v":*g.r.pick(&[0i64,26,128,512,2000])}),
        "set_gravity_scale" => json!({"op":k,"b":g.b()?,"v":*g.r.pick(&[256i64,0,-256,512,100])}),
        "set_gravity" => json!({"op":k,"x":*g.r.pick(&[0i64,0,300,-500]),"y":*g.r.pick(&[0i64,-2560,-2512,900])}),
        "set_auto_clear" => json!({"op":k,"v":g.r.chance(1,2)}),
        "clear_forces" => json!({"op":k}),
        "set_allow_sleeping" => json!({"op":k,"v":g.r.chance(2,3)}),
        "shift_origin" => json!({"op":k,"x":g.r.range(-4,4)*64,"y":g.r.range(-4,4)*64}),
        _ => return None,
    })
}

pub fn run(opt: &HashMap<String, String>, seed: u64, n: usize, out: &mut dyn Write) {
    let len: usize = opt.get("len").and_then(|s| s.parse().ok()).unwrap_or(60);
    let mut total = 0usize;
    let mut t = 0u64;
    while total < n {
        let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(t) ^ 0x55aa);
        t += 1;
        let par = json!({"gx":*r.pick(&[0i64,0,256]),"gy":*r.pick(&[0i64,-2560,-2512]),"cont":if r.chance(1,2) {1} else {0},
            "as":true,"sub":false,"ws":true,"acf":!r.chance(1,4),"dis":0,"cf":0,"mx":1,"geo":0});
        let sim = Sim::new(&par);
        let mut g = Gen { r, sim, prof: "motion".into(), par: par.clone(), ground: false };
        emit(out, &new_event(&par, &g.sim));
        total += 1;
        let target = len / 2 + g.r.below(len);
        let mut k = 0;
        let mut first = 3;
        let mut todo: Vec<Value> = Vec::new();
        while k < target {
            let op = if !todo.is_empty() {
                todo.remove(0)
            } else if g.sim.bodies.len() < 2 && first > 0 {
                first -= 1;
                json!({"op":"create_body","id":format!("b{}",g.sim.nb+1),"ty":2,"x":g.r.range(-900,900),"y":g.r.range(-900,900),
                    "ang":*g.r.pick(&[0i64,0,100,-300]),"vx":vel(&mut g.r),"vy":vel(&mut g.r),"w":wvel(&mut g.r)})
            } else {
                match next_op(&mut g) {
                    Some(o) => o,
                    None => continue,
                }
            };
            // something happens between a force and the step that would apply it
            if todo.is_empty() && ["apply_force", "apply_force_to_center", "apply_torque"].contains(&gs(&op, "op")) && g.r.chance(1, 3) {
                let b = op["b"].clone();
                let st = |dt: i64| json!({"op":"step","dt":dt,"vi":6,"pi":3});
                let set = |o: &str, v: Value| json!({"op":o,"b":b,"v":v});
                todo = match g.r.below(6) {
                    0 => vec![set("set_type", json!(0)), set("set_type", json!(2)), st(16)],
                    1 => vec![set("set_type", json!(1)), set("set_type", json!(2)), st(16)],
                    2 => vec![set("set_enabled", json!(false)), set("set_enabled", json!(true)), st(16)],
                    3 => vec![set("set_enabled", json!(false)), st(16), set("set_enabled", json!(true)), st(16)],
                    4 => vec![set("set_awake", json!(false)), set("set_awake", json!(true)), st(16)],
                    _ => vec![st(0), st(16), st(16)],
                };
            }
            let e = g.sim.exec(&op);
            emit(out, &e);
            total += 1;
            k += 1;
            if g.sim.dead || g.sim.extent() > 100.0 {
                break;
            }
        }
        std::mem::forget(g);
    }
}
