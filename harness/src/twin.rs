//! Two worlds fed with the same calls, observed differently.
//!
//! mode same: the second world is read, drawn, queried and saved between the
//! calls while other worlds come, run and go; the first one is left alone.
//! mode shift: the origin of the first world is shifted before both go on.
use crate::genworld::*;
use crate::rng::Rng;
use crate::util::*;
use crate::world::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::Write;

fn quiet(sim: &mut Sim, op: &Value) -> (String, Vec<Value>) {
    let (r, ev) = sim.call(op);
    (r, ev)
}

fn state(sim: &Sim) -> Value {
    if sim.dead {
        return empty_snapshot();
    }
    guarded(&json!({"op":"snapshot"}), || sim.snapshot()).unwrap_or_else(|_| empty_snapshot())
}

fn reads(r: &mut Rng, sim: &mut Sim) {
    let k = 1 + r.below(3);
    for _ in 0..k {
        let (x, y) = (r.range(-1200, 1200), r.range(-1200, 1200));
        let op = match r.below(6) {
            0 => json!({"op":"draw","fl":31}),
            1 => json!({"op":"query","x1":x-300,"y1":y-300,"x2":x+300,"y2":y+300,"stop":r.range(0,2)}),
            2 => json!({"op":"ray","x1":x,"y1":y,"x2":x+r.range(100,900),"y2":y+r.range(-900,900),
                "pol":*r.pick(&["all","clip","ignore","stop"]),"k":1}),
            3 => json!({"op":"test_point","x":x,"y":y}),
            4 => json!({"op":"save","fmt":*r.pick(&["json","bincode"])}),
            _ => {
                state(sim);
                json!({"op":"nop"})
            }
        };
        sim.call(&op);
    }
}

/// Another world that lives for a while next to the observed ones.
fn other(r: &mut Rng, slot: &mut Option<Sim>) {
    if slot.is_none() || r.chance(1, 10) {
        if let Some(s) = slot.take() {
            std::mem::forget(s);
        }
        let mut s = Sim::new(&json!({"gx":0,"gy":-2560,"cont":1}));
        s.call(&json!({"op":"create_body","id":"b1","ty":0,"x":0,"y":-512}));
        s.call(&json!({"op":"create_fixture","id":"f1","b":"b1","sh":{"k":"b","hx":2048,"hy":128,"x":0,"y":0},"de":0}));
        for i in 0..3 {
            let id = format!("b{}", i + 2);
            s.call(&json!({"op":"create_body","id":id,"ty":2,"x":i*150,"y":i*200,"vx":r.range(-500,500),"w":r.range(-500,500)}));
            s.call(&json!({"op":"create_fixture","id":format!("f{}",i+2),"b":id,"sh":{"k":"c","r":100},"de":256}));
        }
        *slot = Some(s);
    }
    if let Some(s) = slot.as_mut() {
        for _ in 0..r.below(3) {
            s.call(&json!({"op":"step","dt":16,"vi":4,"pi":2}));
        }
    }
}

fn event(op: &Value, a: &(String, Vec<Value>), b: &(String, Vec<Value>), x: Option<(Value, Value)>) -> Value {
    let mut args = op.as_object().unwrap().clone();
    args.remove("op");
    let cmp = x.is_some();
    let (s, t) = x.unwrap_or_else(|| (json!({}), json!({})));
    json!({"op":op["op"],"a":args,"r":a.0,"rb":b.0,"ev":a.1,"evb":b.1,"cmp":cmp,"s":s,"t":t})
}

pub fn run(opt: &HashMap<String, String>, seed: u64, n: usize, out: &mut dyn Write) {
    let shift = opt.get("mode").map(|s| s == "shift").unwrap_or(false);
    let profs: Vec<String> =
        opt.get("prof").cloned().unwrap_or("mix,pile,joint,destroy".into()).split(',').map(|s| s.to_string()).collect();
    let mut total = 0;
    let mut t = 0u64;
    let mut third: Option<Sim> = None;
    while total < n {
        let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(t).wrapping_add(77));
        t += 1;
        let prof = profs[t as usize % profs.len()].clone();
        let mut par = params(&mut r, &prof);
        par["geo"] = json!(0);
        par["imp"] = json!(1);
        par["jx"] = json!(1);
        par["shift"] = json!(shift);
        if shift {
            par["cont"] = json!(1);
            par["dis"] = json!(0);
            par["cf"] = json!(0);
        }
        let a = Sim::new(&par);
        let mut b = Sim::new(&par);
        let mut g = Gen { r, sim: a, prof: prof.clone(), par: par.clone(), ground: false };
        emit(out, &json!({"op":"New","r":"ok","rb":"ok","a":par,"ev":[],"evb":[],"cmp":false,"s":{},"t":{}}));
        total += 1;
        let mut todo = scene(&mut g, shift);
        let len = if shift { todo.len() + 4 + g.r.below(10) } else { 30 + g.r.below(50) };
        let mut k = 0;
        while k < len && !g.sim.dead && !b.dead {
            let op = if !todo.is_empty() {
                todo.remove(0)
            } else if shift {
                json!({"op":"step","dt":16,"vi":6,"pi":3})
            } else {
                match g.next_op() {
                    Some(o) => o,
                    None => continue,
                }
            };
            if !shift {
                other(&mut g.r, &mut third);
                reads(&mut g.r, &mut b);
            }
            let x = quiet(&mut g.sim, &op);
            if !shift {
                other(&mut g.r, &mut third);
            }
            let y = quiet(&mut b, &op);
            k += 1;
            let cmp = !shift && (k % 6 == 0 || k == len);
            let snaps = if cmp { Some((state(&g.sim), state(&b))) } else { None };
            emit(out, &event(&op, &x, &y, snaps));
            total += 1;
            if g.sim.extent() > 60.0 {
                break;
            }
        }
        if shift && !g.sim.dead && !b.dead {
            let op = json!({"op":"shift_origin","x":g.r.range(-40,40)*256,"y":g.r.range(-40,40)*256});
            let x = quiet(&mut g.sim, &op);
            emit(out, &event(&op, &x, &("ok".into(), vec![]), Some((state(&g.sim), state(&b)))));
            total += 1;
            let jointed = !g.sim.snapshot()["J"].as_object().map_or(true, |j| j.is_empty());
            let held = |b: &str| jointed && (b == "b4" || b == "b5");
            let more = 3 + g.r.below(8);
            for _ in 0..more {
                let op = match g.r.below(6) {
                    0 => match g.b().filter(|b| !held(b)) {
                        Some(id) => json!({"op":"set_linear_velocity","b":id,"x":g.r.range(-20,20)*256,"y":g.r.range(-20,20)*256}),
                        None => continue,
                    },
                    1 => match g.b().filter(|b| !held(b)) {
                        Some(id) => json!({"op":"apply_linear_impulse_to_center","b":id,"x":g.r.range(-4,4)*256,"y":g.r.range(-4,4)*256,"wake":true}),
                        None => continue,
                    },
                    _ => json!({"op":"step","dt":16,"vi":6,"pi":3}),
                };
                let x = quiet(&mut g.sim, &op);
                let y = quiet(&mut b, &op);
                let dead = g.sim.dead || b.dead;
                emit(out, &event(&op, &x, &y, Some((state(&g.sim), state(&b)))));
                total += 1;
                if dead {
                    break;
                }
            }
        }
        std::mem::forget(g);
        std::mem::forget(b);
    }
}

/// Opening calls: ground and a few bodies; for the shift mode walls, joints and fast bodies.
fn scene(g: &mut Gen, shift: bool) -> Vec<Value> {
    let mut v = Vec::new();
    v.push(json!({"op":"create_body","id":"b1","ty":0,"x":0,"y":-1024}));
    v.push(json!({"op":"create_fixture","id":"f1","b":"b1","sh":{"k":"b","hx":4096,"hy":64,"x":0,"y":0},"de":0,"fr":128}));
    g.ground = true;
    if !shift {
        for i in 2..5 {
            let (b, f) = (format!("b{}", i), format!("f{}", i));
            let sh = g.shape(false);
            v.push(json!({"op":"create_body","id":b,"ty":2,"x":g.r.range(-6,6)*128,"y":g.r.range(-6,6)*128,"ang":g.r.range(-300,300),
                "vx":g.r.range(-8,8)*128,"vy":g.r.range(-8,8)*128,"bu":g.r.chance(1,4)}));
            v.push(json!({"op":"create_fixture","id":f,"b":b,"sh":sh,"de":256,"fr":51,"re":*g.r.pick(&[0i64,64])}));
        }
        return v;
    }
    v.push(json!({"op":"create_body","id":"b2","ty":0,"x":1500,"y":0}));
    v.push(json!({"op":"create_fixture","id":"f2","b":"b2","sh":{"k":"b","hx":20,"hy":1100,"x":0,"y":0},"de":0}));
    v.push(json!({"op":"create_body","id":"b3","ty":0,"x":-1500,"y":0}));
    v.push(json!({"op":"create_fixture","id":"f3","b":"b3","sh":{"k":"e","v":[[0,-1100],[0,1100]]},"de":0}));
    let m = 2 + g.r.below(3);
    // a joint between two slow bodies close to its anchors: a stiff joint with
    // long levers would amplify the rounding of the shift without bound
    let joint = g.r.chance(1, 2);
    for i in 0..m {
        let held = joint && i < 2;
        let (b, f) = (format!("b{}", i + 4), format!("f{}", i + 4));
        let fast = !held && g.r.chance(1, 2);
        let sp = if fast { 80 * 256 } else if held { 128 } else { 4 * 256 };
        let (x, y) = if held { (-200 + 400 * i as i64, 0) } else { (g.r.range(-8, 8) * 128, g.r.range(-4, 6) * 128) };
        v.push(json!({"op":"create_body","id":b,"ty":2,"x":x,"y":y,"ang":g.r.range(-300,300),
            "vx":g.r.range(-sp,sp),"vy":g.r.range(-128,128),"w":g.r.range(-256,256),"bu":g.r.chance(1,3)}));
        let sh = if g.r.chance(1, 2) { json!({"k":"c","r":g.r.range(32,128),"x":0,"y":0}) }
            else { json!({"k":"b","hx":g.r.range(32,128),"hy":g.r.range(32,128),"x":0,"y":0}) };
        v.push(json!({"op":"create_fixture","id":f,"b":b,"sh":sh,"de":256,"fr":51,"re":*g.r.pick(&[0i64,64])}));
    }
    if joint {
        let jt = *g.r.pick(&["pulley", "mouse", "distance", "revolute", "weld", "motor", "friction", "prismatic", "wheel"]);
        v.push(json!({"op":"create_joint","id":"j1","jt":jt,"a":"b4","b":"b5","cc":true,"gx":-300,"gy":1500,"gx2":300,"gy2":1500,
            "x":-100,"y":100,"x2":100,"y2":100,"ratio":256,"mf":25600,"mt":2560,"k":2560,"d":256,"ax":3,"ay":4,"el":true,"lo":-128,"hi":128}));
    }
    v
}
