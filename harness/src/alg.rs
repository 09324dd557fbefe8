//! The mathematics users compute with: vectors, matrices, rotations, transforms, sweeps, boxes, the stack,
//! conversions between body and world coordinates, and the stiffness helpers.
use crate::rng::Rng;
use crate::util::*;
use crate::world::U;
use box2d_rs::b2_body::*;
use box2d_rs::b2_collision::*;
use box2d_rs::b2_contact::*;
use box2d_rs::b2_distance::*;
use box2d_rs::b2_draw::*;
use box2d_rs::b2_growable_stack::*;
use box2d_rs::b2_joint::*;
use box2d_rs::b2_math::*;
use box2d_rs::b2_shape::*;
use box2d_rs::b2_world::*;
use serde_json::json;
use std::collections::HashMap;
use std::io::Write;

fn f(x: i64) -> f32 {
    x as f32 / 16.0
}
fn v(a: &[i64], i: usize) -> B2vec2 {
    B2vec2::new(f(a[i]), f(a[i + 1]))
}
/// whole numbers
fn z(a: &[i64], i: usize) -> B2vec2 {
    B2vec2::new(a[i] as f32, a[i + 1] as f32)
}
fn z3(a: &[i64], i: usize) -> B2Vec3 {
    B2Vec3::new(a[i] as f32, a[i + 1] as f32, a[i + 2] as f32)
}
fn ang(x: i64) -> f32 {
    x as f32 / 256.0
}

struct St {
    st: B2growableStack<i32, 4>,
    draw: B2draw,
}

struct Out(Vec<i64>);
impl Out {
    fn s(&mut self, x: f32, k: f64) {
        self.0.push(sc(x, k));
    }
    fn v(&mut self, x: B2vec2, k: f64) {
        self.s(x.x, k);
        self.s(x.y, k);
    }
    fn v3(&mut self, x: B2Vec3, k: f64) {
        self.s(x.x, k);
        self.s(x.y, k);
        self.s(x.z, k);
    }
    fn m(&mut self, x: B2Mat22, k: f64) {
        self.v(x.ex, k);
        self.v(x.ey, k);
    }
    fn q(&mut self, x: B2Rot) {
        self.s(x.c, 16384.0);
        self.s(x.s, 16384.0);
    }
    fn b(&mut self, x: bool) {
        self.0.push(x as i64);
    }
}

fn call(op: &str, a: &[i64], t: &mut St) -> Vec<i64> {
    let mut o = Out(vec![]);
    let (k1, k2, e, q) = (16.0, 256.0, 1024.0, 16384.0);
    match op {
        "vec2" => {
            let (x, y, s) = (v(a, 0), v(a, 2), f(a[4]));
            o.v(x + y, k1);
            o.v(x - y, k1);
            o.v(-x, k1);
            o.v(s * x, k2);
            o.v(x.skew(), k1);
            o.s(b2_dot(x, y), k2);
            o.s(b2_cross(x, y), k2);
            o.v(b2_cross_vec_by_scalar(x, s), k2);
            o.v(b2_cross_scalar_by_vec(s, x), k2);
            o.s(x.length_squared(), k2);
            o.s(b2_distance_vec2_squared(x, y), k2);
            o.v(b2_min_vec2(x, y), k1);
            o.v(b2_max_vec2(x, y), k1);
            o.v(b2_abs_vec2(x), k1);
            let mut t = x;
            t += y;
            o.v(t, k1);
            t = x;
            t -= y;
            o.v(t, k1);
            t = x;
            t *= s;
            o.v(t, k2);
            o.v(B2vec2::new(x.get(0), x.get(1)), k1);
            t.set_by_index(0, y.x);
            t.set_by_index(1, y.y);
            o.v(t, k1);
        }
        "len" => {
            let (x, y) = (v(a, 0), v(a, 2));
            o.s(x.length(), e);
            o.s(b2_distance_vec2(x, y), e);
            let mut t = x;
            let l = t.normalize();
            o.s(l, e);
            o.v(t, q);
        }
        "order" => {
            let (x, lo, hi) = (v(a, 0), v(a, 2), v(a, 4));
            o.v(b2_clamp_vec2(x, lo, hi), k1);
            o.s(b2_clamp(x.x, lo.x, hi.x), k1);
            o.s(b2_min(x.x, x.y), k1);
            o.s(b2_max(x.x, x.y), k1);
            o.s(b2_abs(x.x), k1);
            o.0.push(b2_clamp(a[0], a[2], a[4]));
            o.0.push(b2_abs_i32(a[1] as i32) as i64);
            let (mut s, mut t) = (a[0], a[1]);
            b2_swap(&mut s, &mut t);
            o.0.push(s);
            o.0.push(t);
            o.b(is_equal(x, lo));
            o.b(not_equal(x, lo));
        }
        "valid" => {
            let w = |i: i64| match i {
                0 => f32::NAN,
                1 => f32::INFINITY,
                2 => f32::NEG_INFINITY,
                n => n as f32,
            };
            o.b(b2_is_valid(w(a[0])));
            o.b(B2vec2::new(w(a[0]), w(a[1])).is_valid());
        }
        "vec3" => {
            let (x, y, s) = (z3(a, 0), z3(a, 3), a[6] as f32);
            o.v3(x + y, 1.0);
            o.v3(x - y, 1.0);
            o.v3(-x, 1.0);
            o.v3(s * x, 1.0);
            o.s(b2_dot_vec3(x, y), 1.0);
            o.v3(b2_cross_vec3(x, y), 1.0);
            let mut t = x;
            t += y;
            t *= s;
            t -= x;
            o.v3(t, 1.0);
        }
        "mat22" => {
            let (mut m, n, x) = (B2Mat22::new(z(a, 0), z(a, 2)), B2Mat22::new_scalars(a[4] as f32, a[6] as f32, a[5] as f32, a[7] as f32), z(a, 8));
            o.v(b2_mul(m, x), 1.0);
            o.v(b2_mul_t(m, x), 1.0);
            o.m(b2_mul_mat22(m, n), 1.0);
            o.m(b2_mul_t_mat22(m, n), 1.0);
            o.m(m + n, 1.0);
            o.m(b2_abs_mat22(m), 1.0);
            o.v(m.solve(x), 4096.0);
            o.m(m.get_inverse(), 4096.0);
        }
        "mat33" => {
            let m = B2Mat33::new(z3(a, 0), z3(a, 3), z3(a, 6));
            let (x, y) = (z3(a, 9), z(a, 9));
            o.v3(b2_mul_mat33(m, x), 1.0);
            o.v(b2_mul22(m, y), 1.0);
            o.v3(m.solve33(x), 4096.0);
            o.v(m.solve22(y), 4096.0);
            let mut r = B2Mat33::new(x, x, x);
            m.get_inverse22(&mut r);
            o.v3(r.ex, 4096.0);
            o.v3(r.ey, 4096.0);
            o.v3(r.ez, 4096.0);
        }
        "sym33" => {
            let m = B2Mat33::new(z3(a, 0), z3(a, 3), z3(a, 6));
            let mut r = B2Mat33::new(z3(a, 3), z3(a, 3), z3(a, 3));
            m.get_sym_inverse33(&mut r);
            o.v3(r.ex, 4096.0);
            o.v3(r.ey, 4096.0);
            o.v3(r.ez, 4096.0);
        }
        "rot" => {
            let (x, mut y, w) = (B2Rot::new(ang(a[0])), B2Rot::default(), v(a, 2));
            y.set(ang(a[1]));
            o.q(x);
            o.q(y);
            o.s(x.get_angle(), q);
            o.v(x.get_xaxis(), q);
            o.v(x.get_yaxis(), q);
            o.q(b2_mul_rot(x, y));
            o.q(b2_mul_t_rot(x, y));
            o.v(b2_mul_rot_by_vec2(x, w), e);
            o.v(b2_mul_t_rot_by_vec2(x, w), e);
        }
        "xf" => {
            let x = B2Transform::new(v(a, 0), B2Rot::new(ang(a[2])));
            let mut y = B2Transform::default();
            y.set(v(a, 3), ang(a[5]));
            let w = v(a, 6);
            o.q(x.q);
            o.q(y.q);
            o.v(b2_mul_transform_by_vec2(x, w), e);
            o.v(b2_mul_t_transform_by_vec2(x, w), e);
            let c = b2_mul_transform(x, y);
            o.v(c.p, e);
            o.q(c.q);
            let c = b2_mul_t_transform(x, y);
            o.v(c.p, e);
            o.q(c.q);
            y.set_identity();
            o.v(b2_mul_transform_by_vec2(y, w), e);
        }
        "sweep" => {
            let s = B2Sweep { local_center: v(a, 0), c0: v(a, 2), c: v(a, 4), a0: ang(a[6]), a: ang(a[7]), alpha0: ang(a[8]) };
            let mut xf = B2Transform::default();
            s.get_transform(&mut xf, ang(a[9]));
            o.v(xf.p, e);
            o.q(xf.q);
            let mut t = s;
            t.advance(ang(a[10]));
            o.v(t.c0, e);
            o.s(t.a0, e);
            o.s(t.alpha0, e);
            o.v(t.c, e);
            o.s(t.a, e);
            o.v(t.local_center, e);
            let mut t = s;
            t.normalize();
            o.s(t.a0, q);
            o.s(t.a, q);
            o.v(t.c0, e);
            o.v(t.c, e);
        }
        "pow2" => {
            o.0.push(b2_next_power_of_two(a[0] as u32) as i64);
            o.b(b2_is_power_of_two(a[0] as u32));
        }
        "aabb" => {
            let x = B2AABB { lower_bound: v(a, 0), upper_bound: v(a, 2) };
            let y = B2AABB { lower_bound: v(a, 4), upper_bound: v(a, 6) };
            o.v(x.get_center(), 32.0);
            o.v(x.get_extents(), 32.0);
            o.s(x.get_perimeter(), k1);
            let mut t = x;
            t.combine(y);
            o.v(t.lower_bound, k1);
            o.v(t.upper_bound, k1);
            let mut t = B2AABB::default();
            t.combine_two(x, y);
            o.v(t.lower_bound, k1);
            o.v(t.upper_bound, k1);
            o.b(x.contains(&y));
            o.b(y.contains(&x));
            o.b(b2_test_overlap(x, y));
            o.b(x.is_valid());
            o.b(B2AABB { lower_bound: v(a, 4), upper_bound: v(a, 0) }.is_valid());
        }
        "boxray" => {
            let x = B2AABB { lower_bound: v(a, 0), upper_bound: v(a, 2) };
            let mut r = B2rayCastOutput::default();
            let hit = x.ray_cast(&mut r, &B2rayCastInput { p1: v(a, 4), p2: v(a, 6), max_fraction: ang(a[8]) });
            o.b(hit);
            o.s(if hit { r.fraction } else { 0.0 }, q);
            o.v(if hit { r.normal } else { B2vec2::zero() }, 1.0);
        }
        "mix" => {
            o.s(b2_mix_friction(ang(a[0]), ang(a[1])), q);
            o.s(b2_mix_restitution(ang(a[0]), ang(a[1])), k2);
            o.s(b2_mix_restitution_threshold(ang(a[0]), ang(a[1])), k2);
        }
        "push" => {
            t.st.push(&(a[0] as i32));
            o.0.push(t.st.get_count() as i64);
        }
        "pop" => {
            o.0.push(t.st.pop() as i64);
            o.0.push(t.st.get_count() as i64);
        }
        "flags" => {
            let f = B2drawShapeFlags::from_bits_truncate(a[1] as u16);
            match a[0] {
                0 => t.draw.set_flags(f),
                1 => t.draw.append_flags(f),
                _ => t.draw.clear_flags(f),
            }
            o.0.push(t.draw.get_flags().bits() as i64);
        }
        "colour" => {
            let c = |o: &mut Out, c: B2color| {
                for x in [c.r, c.g, c.b, c.a] {
                    o.s(x, 256.0);
                }
            };
            let mut x = B2color::new(ang(a[0]), ang(a[1]), ang(a[2]));
            c(&mut o, x);
            x = B2color::new_with_alpha(ang(a[0]), ang(a[1]), ang(a[2]), ang(a[3]));
            c(&mut o, x);
            x.set(ang(a[2]), ang(a[1]), ang(a[0]));
            c(&mut o, x);
            x.set_with_alpha(ang(a[3]), ang(a[2]), ang(a[1]), ang(a[0]));
            c(&mut o, x);
        }
        "support" => {
            let n = (a.len() - 2) / 2;
            let pts: Vec<B2vec2> = (0..n).map(|i| v(a, 2 + 2 * i)).collect();
            let mut p = B2distanceProxy::default();
            p.set_vertices(&pts, 0.5);
            let i = p.get_support(v(a, 0));
            o.0.push(i as i64);
            o.v(p.get_support_vertex(v(a, 0)), k1);
            o.0.push(p.get_vertex_count() as i64);
            o.s(p.m_radius, k1);
            for j in 0..p.get_vertex_count() {
                o.v(p.get_vertex(j), k1);
            }
        }
        "conv" => {
            let w = B2world::<U>::new(B2vec2::zero());
            let d = B2bodyDef { body_type: B2bodyType::B2DynamicBody, position: v(a, 0), angle: ang(a[2]), ..Default::default() };
            let b = B2world::create_body(w.clone(), &d);
            let mut b = b.borrow_mut();
            b.set_mass_data(&B2massData { mass: 2.0, center: v(a, 3), i: 4000.0 });
            b.set_linear_velocity(v(a, 5));
            b.set_angular_velocity(f(a[7]));
            let x = v(a, 8);
            o.q(b.get_transform().q);
            o.v(b.get_world_point(x), e);
            o.v(b.get_local_point(x), e);
            o.v(b.get_world_vector(x), e);
            o.v(b.get_local_vector(x), e);
            o.v(b.get_local_center(), k1);
            o.v(b.get_world_center(), e);
            o.v(b.get_linear_velocity_from_world_point(x), e);
            o.v(b.get_linear_velocity_from_local_point(x), e);
        }
        "stiff" => {
            let w = B2world::<U>::new(B2vec2::zero());
            let mk = |m: i64, i: i64| {
                let t = if m == 0 { B2bodyType::B2StaticBody } else { B2bodyType::B2DynamicBody };
                let b = B2world::create_body(w.clone(), &B2bodyDef { body_type: t, ..Default::default() });
                b.borrow_mut().set_mass_data(&B2massData { mass: m as f32, center: B2vec2::zero(), i: i as f32 });
                b
            };
            let (x, y) = (mk(a[0], a[1]), mk(a[2], a[3]));
            let (mut k, mut c) = (0.0, 0.0);
            b2_linear_stiffness(&mut k, &mut c, f(a[4]), f(a[5]), x.clone(), y.clone());
            o.s(k, k1);
            o.s(c, k1);
            b2_angular_stiffness(&mut k, &mut c, f(a[4]), f(a[5]), x, y);
            o.s(k, k1);
            o.s(c, k1);
        }
        _ => unreachable!(),
    }
    o.0
}

fn rs(g: &mut Rng, n: usize, r: i64) -> Vec<i64> {
    (0..n).map(|_| if g.chance(1, 8) { 0 } else { g.range(-r, r) }).collect()
}
fn sorted_box(g: &mut Rng) -> Vec<i64> {
    let a = rs(g, 2, 200);
    vec![a[0], a[1], a[0] + g.range(0, 150), a[1] + g.range(0, 150)]
}

fn gen(g: &mut Rng, depth: &mut i64) -> (&'static str, Vec<i64>) {
    match g.below(22) {
        20 => {
            if g.chance(2, 3) {
                ("flags", vec![g.range(0, 2), g.range(0, 31)])
            } else {
                ("colour", (0..4).map(|_| g.range(0, 256)).collect())
            }
        }
        21 => {
            let mut a = rs(g, 2, 200);
            let n = 1 + g.below(8);
            a.extend(rs(g, 2 * n, 300));
            ("support", a)
        }
        0 | 1 => ("vec2", rs(g, 5, 512)),
        2 => ("len", if g.chance(1, 10) { vec![0, 0, 7, 9] } else { rs(g, 4, 512) }),
        3 => {
            let (x, lo) = (rs(g, 2, 400), rs(g, 2, 400));
            let mut a = if g.chance(1, 4) { lo.clone() } else { x };
            a.extend([lo[0], lo[1], lo[0] + g.range(0, 300), lo[1] + g.range(0, 300)]);
            ("order", a)
        }
        4 => ("valid", vec![g.range(0, 8), g.range(0, 8)]),
        5 => ("vec3", rs(g, 7, 60)),
        6 | 7 => ("mat22", rs(g, 10, 8)),
        8 => {
            let mut a = rs(g, 12, 6);
            if g.chance(1, 8) {
                for i in 0..3 {
                    a[3 + i] = a[i];
                }
            }
            ("mat33", a)
        }
        9 => {
            let mut a = rs(g, 9, 6);
            a[3] = a[1];
            a[6] = a[2];
            a[7] = a[5];
            ("sym33", a)
        }
        10 | 11 => ("rot", { let mut a = rs(g, 2, 2000); a.extend(rs(g, 2, 300)); a }),
        12 | 13 => ("xf", { let mut a = rs(g, 8, 300); a[2] *= 5; a[5] *= 5; a }),
        14 => {
            let mut a = rs(g, 6, 300);
            a.extend([g.range(-3000, 3000), g.range(-3000, 3000)]);
            let al = if g.chance(1, 2) { 0 } else { g.range(1, 200) };
            a.extend([al, g.range(0, 256), g.range(al, 256)]);
            ("sweep", a)
        }
        15 => {
            let b = g.range(0, 30);
            let x = (1i64 << b) + if g.chance(1, 2) { 0 } else { g.range(-1, 1) };
            if g.chance(1, 4) { ("mix", vec![g.range(0, 800), g.range(0, 800)]) } else { ("pow2", vec![if g.chance(1, 4) { g.range(0, (1 << 30) - 1) } else { x.min((1 << 30) - 1).max(0) }]) }
        }
        16 => {
            let mut a = sorted_box(g);
            if g.chance(1, 3) {
                let (w, h) = (a[2] - a[0], a[3] - a[1]);
                let (x, y) = (a[0] + g.range(0, w), a[1] + g.range(0, h));
                a.extend([x, y, x + g.range(0, a[2] - x + 8), y + g.range(0, a[3] - y + 8)]);
            } else {
                let b = sorted_box(g);
                a.extend(b);
            }
            ("aabb", a)
        }
        17 => {
            let mut a = sorted_box(g);
            let p = rs(g, 2, 400);
            // mostly aimed at the box
            let t = if g.chance(2, 3) { vec![a[0] + g.range(0, a[2] - a[0]), a[1] + g.range(0, a[3] - a[1])] } else { rs(g, 2, 400) };
            let far = g.range(1, 2);
            let mut e = vec![p[0] + far * (t[0] - p[0]), p[1] + far * (t[1] - p[1])];
            if g.chance(1, 6) {
                e[g.below(2)] = p[g.clone().below(2)];
            }
            a.extend(p);
            a.extend(e);
            a.push(if g.chance(1, 2) { 256 } else { g.range(0, 256) });
            ("boxray", a)
        }
        18 => {
            if *depth > 0 && g.chance(2, 5) {
                *depth -= 1;
                ("pop", vec![])
            } else {
                *depth += 1;
                ("push", vec![g.range(-1000, 1000)])
            }
        }
        _ => {
            if g.chance(2, 3) {
                let mut a = rs(g, 2, 400);
                a.push(g.range(-2000, 2000));
                a.extend(rs(g, 2, 100));
                a.extend(rs(g, 2, 200));
                a.push(g.range(-100, 100));
                a.extend(rs(g, 2, 400));
                ("conv", a)
            } else {
                let (x, y) = (if g.chance(1, 4) { 0 } else { g.range(1, 40) }, if g.chance(1, 4) { 0 } else { g.range(1, 40) });
                ("stiff", vec![x, if g.chance(1, 4) { 0 } else { g.range(1, 30) }, y, g.range(1, 30), g.range(0, 64), g.range(0, 32)])
            }
        }
    }
}

pub fn run(_opt: &HashMap<String, String>, seed: u64, count: usize, out: &mut dyn Write) {
    let mut g = Rng::new(seed);
    let mut k = 0;
    while k < count {
        let mut st = St { st: B2growableStack::new(), draw: B2draw::default() };
        let mut depth = 0;
        emit(out, &json!({"op": "New", "a": {}, "r": "ok", "x": [], "o": []}));
        k += 1;
        for _ in 0..150 {
            let (op, a) = gen(&mut g, &mut depth);
            k += 1;
            match guarded(&json!({"op": op, "a": {"x": a}}), || call(op, &a, &mut st)) {
                Ok(o) => emit(out, &json!({"op": op, "a": {"x": a}, "x": a, "r": "ok", "o": o})),
                Err(m) => {
                    emit(out, &json!({"op": op, "a": {"x": a}, "x": a, "r": m, "o": []}));
                    break;
                }
            }
        }
    }
}
