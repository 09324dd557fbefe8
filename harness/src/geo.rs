//! Shapes and pairs of shapes outside of any world: construction, point and ray
//! tests, boxes, mass, distance, shape casts, times of impact and manifolds.
//! Coordinates are integers of 1/2048 m. Placements rotate by angles with
//! cosine and sine in fifths and local coordinates are multiples of 40, so that
//! placed vertices are integers again.
use crate::rng::Rng;
use crate::util::*;
use box2d_rs::b2_collision::*;
use box2d_rs::b2_distance::*;
use box2d_rs::b2_math::*;
use box2d_rs::b2_shape::*;
use box2d_rs::b2_time_of_impact::*;
use box2d_rs::shapes::b2_chain_shape::*;
use box2d_rs::shapes::b2_circle_shape::*;
use box2d_rs::shapes::b2_edge_shape::*;
use box2d_rs::shapes::b2_polygon_shape::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::Write;
use std::rc::Rc;

const U: f32 = 2048.0;
const Q14: f32 = 16384.0;

fn f(v: &Value, k: &str) -> f32 {
    gi(v, k) as f32 / U
}
fn pt(v: &Value) -> B2vec2 {
    B2vec2::new(v[0].as_i64().unwrap_or(0) as f32 / U, v[1].as_i64().unwrap_or(0) as f32 / U)
}
fn pts(v: &Value) -> Vec<B2vec2> {
    v.as_array().map(|a| a.iter().map(pt).collect()).unwrap_or_default()
}
fn u(x: f32) -> i64 {
    sc(x, U as f64)
}
fn uv(p: B2vec2) -> Value {
    json!([u(p.x), u(p.y)])
}
fn nv(p: B2vec2) -> Value {
    json!([sc(p.x, 16384.0), sc(p.y, 16384.0)])
}
fn xf(v: &Value) -> B2Transform {
    B2Transform { p: B2vec2::new(f(v, "x"), f(v, "y")), q: B2Rot { s: gi(v, "s") as f32 / 5.0, c: gi(v, "c") as f32 / 5.0 } }
}

#[derive(Clone)]
enum Sh {
    C(B2circleShape),
    E(B2edgeShape),
    P(B2polygonShape),
    N(B2chainShape),
}

impl Sh {
    fn dynamic(&self) -> Rc<dyn B2shapeDynTrait> {
        match self {
            Sh::C(s) => Rc::new(s.clone()),
            Sh::E(s) => Rc::new(s.clone()),
            Sh::P(s) => Rc::new(s.clone()),
            Sh::N(s) => Rc::new(s.clone()),
        }
    }
    fn kind(&self) -> i64 {
        match self {
            Sh::C(_) => 0,
            Sh::E(_) => 1,
            Sh::P(_) => 2,
            Sh::N(_) => 3,
        }
    }
    fn edge(&self, i: usize) -> Option<B2edgeShape> {
        match self {
            Sh::E(e) => Some(e.clone()),
            Sh::N(n) => {
                let mut e = B2edgeShape::default();
                n.get_child_edge(&mut e, i);
                Some(e)
            }
            _ => None,
        }
    }
    fn describe(&self) -> Value {
        let d = self.dynamic();
        let n = d.get_child_count();
        let mut kids = Vec::new();
        for i in 0..n {
            kids.push(match self {
                Sh::C(c) => json!({"v":[uv(c.m_p)],"nm":[],"gh":[],"os":false}),
                Sh::P(p) => json!({"v":(0..p.m_count).map(|i| uv(p.m_vertices[i])).collect::<Vec<_>>(),
                    "nm":(0..p.m_count).map(|i| nv(p.m_normals[i])).collect::<Vec<_>>(),"gh":[],"os":false}),
                _ => {
                    let e = self.edge(i).unwrap();
                    json!({"v":[uv(e.m_vertex1),uv(e.m_vertex2)],"nm":[],"gh":[uv(e.m_vertex0),uv(e.m_vertex3)],"os":e.m_one_sided})
                }
            });
        }
        let (cen, valid) = match self {
            Sh::P(p) => (p.m_centroid, p.validate()),
            _ => (B2vec2::zero(), true),
        };
        json!({"k":self.kind(),"ty":d.get_type() as i64,"n":n,"kids":kids,"r8":sc(d.get_base().m_radius,16384.0),"cen":uv(cen),"valid":valid})
    }
}

fn build(a: &Value) -> Sh {
    match gs(a, "k") {
        "c" => {
            let mut s = B2circleShape::default();
            s.base.m_radius = f(a, "r");
            s.m_p = B2vec2::new(f(a, "x"), f(a, "y"));
            Sh::C(s)
        }
        "e" => {
            let mut s = B2edgeShape::default();
            let v = pts(&a["v"]);
            s.set_two_sided(v[0], v[1]);
            Sh::E(s)
        }
        "o" => {
            let mut s = B2edgeShape::default();
            let v = pts(&a["v"]);
            s.set_one_sided(v[0], v[1], v[2], v[3]);
            Sh::E(s)
        }
        "p" => {
            let mut s = B2polygonShape::default();
            s.set(&pts(&a["v"]));
            Sh::P(s)
        }
        "b" => {
            let mut s = B2polygonShape::default();
            s.set_as_box(f(a, "hx"), f(a, "hy"));
            Sh::P(s)
        }
        "a" => {
            let mut s = B2polygonShape::default();
            s.set_as_box_angle(f(a, "hx"), f(a, "hy"), B2vec2::new(f(a, "x"), f(a, "y")), gi(a, "ang") as f32 / Q14);
            Sh::P(s)
        }
        "l" => {
            let mut s = B2chainShape::default();
            s.create_loop(&pts(&a["v"]));
            Sh::N(s)
        }
        _ => {
            let mut s = B2chainShape::default();
            s.create_chain(&pts(&a["v"]), pt(&a["prev"]), pt(&a["next"]));
            Sh::N(s)
        }
    }
}

fn none() -> Value {
    json!({"k":-1,"ty":-1,"n":0,"kids":[],"r8":0,"cen":[0,0],"valid":true})
}

pub struct Geo {
    sh: HashMap<String, Sh>,
    cache: B2simplexCache,
    last: B2manifold,
}

impl Geo {
    pub fn new() -> Geo {
        Geo { sh: HashMap::new(), cache: B2simplexCache::default(), last: B2manifold::default() }
    }

    pub fn state(&self) -> Value {
        json!({"A":self.sh.get("A").map_or(none(), |s| s.describe()), "B":self.sh.get("B").map_or(none(), |s| s.describe())})
    }

    fn proxy(&self, slot: &str, child: usize) -> B2distanceProxy {
        let mut p = B2distanceProxy::default();
        p.set_shape(self.sh[slot].dynamic(), child);
        p
    }

    fn collide(&self, x: &Sh, cx: usize, xa: &B2Transform, y: &Sh, xb: &B2Transform) -> B2manifold {
        // results overwrite whatever the manifold held before
        let mut m = self.last;
        match (x, y) {
            (Sh::C(p), Sh::C(q)) => b2_collide_circles(&mut m, p, xa, q, xb),
            (Sh::P(p), Sh::C(q)) => b2_collide_polygon_and_circle(&mut m, p, xa, q, xb),
            (Sh::P(p), Sh::P(q)) => b2_collide_polygons(&mut m, p, xa, q, xb),
            (_, Sh::C(q)) => b2_collide_edge_and_circle(&mut m, &x.edge(cx).unwrap(), xa, q, xb),
            (_, Sh::P(q)) => b2_collide_edge_and_polygon(&mut m, &x.edge(cx).unwrap(), xa, q, xb),
            _ => {}
        }
        m
    }

    fn manifold(&self, m: &B2manifold, x: &Sh, xa: B2Transform, y: &Sh, xb: B2Transform) -> Value {
        let mut w = B2worldManifold::default();
        w.initialize(m, xa, x.dynamic().get_base().m_radius, xb, y.dynamic().get_base().m_radius);
        let n = m.point_count;
        json!({"n":n,"nrm":nv(w.normal),
            "pt":(0..n).map(|i| uv(w.points[i])).collect::<Vec<_>>(),
            "sep":(0..n).map(|i| u(w.separations[i])).collect::<Vec<_>>(),
            "id":(0..n).map(|i| { let c = m.points[i].id.cf; json!([c.index_a, c.index_b, c.type_a, c.type_b]) }).collect::<Vec<_>>()})
    }

    pub fn apply(&mut self, op: &Value) -> Value {
        let slot = if gs(op, "slot") == "B" { "B" } else { "A" };
        match gs(op, "op") {
            "make" => {
                self.cache = B2simplexCache::default();
                self.last = B2manifold::default();
                let s = build(&op["sh"]);
                self.sh.insert(slot.into(), s);
                json!({})
            }
            "test_point" => {
                json!({"in":self.sh[slot].dynamic().test_point(xf(&op["xa"]), B2vec2::new(f(op, "x"), f(op, "y")))})
            }
            "ray" => {
                let mut o = B2rayCastOutput::default();
                let i = B2rayCastInput {
                    p1: B2vec2::new(f(op, "x1"), f(op, "y1")),
                    p2: B2vec2::new(f(op, "x2"), f(op, "y2")),
                    max_fraction: gi(op, "mf") as f32 / Q14,
                };
                let hit = self.sh[slot].dynamic().ray_cast(&mut o, &i, xf(&op["xa"]), gi(op, "ca") as usize);
                json!({"hit":hit,"f":sc(o.fraction,16384.0),"n":nv(o.normal)})
            }
            "aabb" => {
                let mut b = B2AABB::default();
                self.sh[slot].dynamic().compute_aabb(&mut b, xf(&op["xa"]), gi(op, "ca") as usize);
                json!({"b":[u(b.lower_bound.x),u(b.lower_bound.y),u(b.upper_bound.x),u(b.upper_bound.y)]})
            }
            "mass" => {
                let mut m = B2massData::default();
                self.sh[slot].dynamic().compute_mass(&mut m, gi(op, "de") as f32 / 256.0);
                json!({"m":sc(m.mass,262144.0),"c":nv(m.center),"i":sc(m.i,262144.0)})
            }
            "boxes" => {
                let bx = |k: &str| {
                    let b = &op[k];
                    let g = |i: usize| b[i].as_i64().unwrap_or(0) as f32 / U;
                    B2AABB { lower_bound: B2vec2::new(g(0), g(1)), upper_bound: B2vec2::new(g(2), g(3)) }
                };
                let (p, q) = (bx("p"), bx("q"));
                let four = |b: B2AABB| json!([u(b.lower_bound.x), u(b.lower_bound.y), u(b.upper_bound.x), u(b.upper_bound.y)]);
                let mut c = p;
                c.combine(q);
                let mut d = B2AABB::default();
                d.combine_two(p, q);
                let mut o = B2rayCastOutput::default();
                let i = B2rayCastInput {
                    p1: B2vec2::new(f(op, "x1"), f(op, "y1")),
                    p2: B2vec2::new(f(op, "x2"), f(op, "y2")),
                    max_fraction: gi(op, "mf") as f32 / Q14,
                };
                let hit = p.ray_cast(&mut o, &i);
                json!({"valid":p.is_valid(),"cen":uv(p.get_center()),"ext":uv(p.get_extents()),"per":u(p.get_perimeter()),
                    "comb":four(c),"comb2":four(d),"cont":p.contains(&q),"meet":b2_test_overlap(p, q),
                    "hit":hit,"f":sc(o.fraction,16384.0),"n":nv(o.normal)})
            }
            "dist" => {
                let i = B2distanceInput {
                    proxy_a: self.proxy("A", gi(op, "ca") as usize),
                    proxy_b: self.proxy("B", gi(op, "cb") as usize),
                    transform_a: xf(&op["xa"]),
                    transform_b: xf(&op["xb"]),
                    use_radii: gb(op, "rad"),
                };
                if !gb(op, "keep") {
                    self.cache = B2simplexCache::default();
                }
                let mut o = B2distanceOutput::default();
                b2_distance_fn(&mut o, &mut self.cache, &i);
                json!({"d":u(o.distance),"pa":uv(o.point_a),"pb":uv(o.point_b),"it":o.iterations})
            }
            "overlap" => json!({"y":b2_test_overlap_shapes(self.sh["A"].dynamic(), gi(op,"ca") as usize,
                self.sh["B"].dynamic(), gi(op,"cb") as usize, xf(&op["xa"]), xf(&op["xb"]))}),
            "cast" => {
                let i = B2shapeCastInput {
                    proxy_a: self.proxy("A", gi(op, "ca") as usize),
                    proxy_b: self.proxy("B", gi(op, "cb") as usize),
                    transform_a: xf(&op["xa"]),
                    transform_b: xf(&op["xb"]),
                    translation_b: B2vec2::new(f(op, "tx"), f(op, "ty")),
                };
                let mut o = B2shapeCastOutput::default();
                let hit = b2_shape_cast(&mut o, i);
                json!({"hit":hit,"f":sc(o.lambda,16384.0),"n":nv(o.normal),"p":uv(o.point),"it":o.iterations})
            }
            "toi" => {
                let sw = |k: &str| {
                    let b = &op[k];
                    B2Sweep {
                        local_center: B2vec2::new(f(b, "lx"), f(b, "ly")),
                        c0: B2vec2::new(f(b, "x0"), f(b, "y0")),
                        c: B2vec2::new(f(b, "x1"), f(b, "y1")),
                        a0: gi(b, "a0") as f32 / Q14,
                        a: gi(b, "a1") as f32 / Q14,
                        alpha0: 0.0,
                    }
                };
                let i = B2toiinput {
                    proxy_a: self.proxy("A", gi(op, "ca") as usize),
                    proxy_b: self.proxy("B", gi(op, "cb") as usize),
                    sweep_a: sw("sa"),
                    sweep_b: sw("sb"),
                    t_max: gi(op, "tm") as f32 / Q14,
                };
                let mut o = B2toioutput::default();
                b2_time_of_impact(&mut o, &i);
                let st = match o.state {
                    B2toioutputState::EUnknown => "unknown",
                    B2toioutputState::EFailed => "failed",
                    B2toioutputState::EOverlapped => "overlapped",
                    B2toioutputState::ETouching => "touching",
                    B2toioutputState::ESeparated => "separated",
                };
                json!({"st":st,"t":sc(o.t,16384.0)})
            }
            "manifold" => {
                let (x, y) = (self.sh["A"].clone(), self.sh["B"].clone());
                let (xa, xb) = (xf(&op["xa"]), xf(&op["xb"]));
                let m = self.collide(&x, gi(op, "ca") as usize, &xa, &y, &xb);
                let (mut s1, mut s2) = ([B2pointState::B2PersistState; 2], [B2pointState::B2AddState; 2]);
                b2_get_point_states(&mut s1, &mut s2, &self.last, &m);
                let name = |s: &B2pointState| match s {
                    B2pointState::B2NullState => "null",
                    B2pointState::B2AddState => "add",
                    B2pointState::B2PersistState => "persist",
                    B2pointState::B2RemoveState => "remove",
                };
                let r = self.manifold(&m, &x, xa, &y, xb);
                let back = if x.kind() == y.kind() {
                    let mb = self.collide(&y, 0, &xb, &x, &xa);
                    self.manifold(&mb, &y, xb, &x, xa)
                } else {
                    json!({"n":-1,"nrm":[0,0],"pt":[],"sep":[],"id":[]})
                };
                self.last = m;
                json!({"m":r,"back":back,"s1":s1.iter().map(name).collect::<Vec<_>>(),"s2":s2.iter().map(name).collect::<Vec<_>>()})
            }
            "clip" => {
                let v = pts(&op["v"]);
                let mut inp = [B2clipVertex::default(); 2];
                for i in 0..2 {
                    inp[i].v = v[i];
                    inp[i].id.cf.index_b = i as u8 + 3;
                }
                let mut out = [B2clipVertex::default(); 2];
                let nrm = B2vec2::new(gi(op, "nx") as f32 / 5.0, gi(op, "ny") as f32 / 5.0);
                let n = b2_clip_segment_to_line(&mut out, inp, nrm, f(op, "off"), 1);
                json!({"n":n,"v":(0..n.min(2)).map(|i| uv(out[i].v)).collect::<Vec<_>>()})
            }
            _ => json!({}),
        }
    }

    pub fn exec(&mut self, op: &Value) -> Value {
        let mut args = op.as_object().unwrap().clone();
        args.remove("op");
        let (r, ret) = match guarded(op, || self.apply(op)) {
            Ok(v) => ("ok".to_string(), v),
            Err(m) => (format!("panic: {}", m), json!({})),
        };
        let s = guarded(&json!({"op":"describe"}), || self.state()).unwrap_or_else(|_| json!({"A":none(),"B":none()}));
        json!({"op":op["op"],"a":args,"r":r,"ret":ret,"s":s})
    }
}

const ROTS: [(i64, i64); 12] =
    [(5, 0), (0, 5), (-5, 0), (0, -5), (3, 4), (4, 3), (-3, 4), (-4, 3), (3, -4), (4, -3), (-3, -4), (-4, -3)];

fn place(r: &mut Rng, ext: i64) -> Value {
    let (c, s) = *r.pick(&ROTS);
    json!({"x":r.range(-ext, ext),"y":r.range(-ext, ext),"c":c,"s":s})
}

fn grid(r: &mut Rng, k: i64) -> i64 {
    r.range(-k, k) * 40
}

/// Four to eight points; sometimes with duplicates, points within the welding
/// distance, collinear and inner points, never all close to one line.
fn cloud(r: &mut Rng) -> Vec<[i64; 2]> {
    if r.chance(1, 4) {
        let mut v = many(r, 40);
        for i in (1..v.len()).rev() {
            let k = r.below(i + 1);
            v.swap(i, k);
        }
        return v;
    }
    loop {
        let n = 3 + r.below(6);
        let mut v: Vec<[i64; 2]> = Vec::new();
        while v.len() < n {
            let p = match r.below(8) {
                0 if !v.is_empty() => *r.pick(&v),
                1 if v.len() > 1 => {
                    let (a, b) = (v[0], v[1]);
                    let m = [(a[0] + b[0]) / 2, (a[1] + b[1]) / 2];
                    if (a[0] + b[0]) % 80 == 0 && (a[1] + b[1]) % 80 == 0 { m } else { continue }
                }
                2 if v.len() > 2 => {
                    let m = [(v[0][0] + v[1][0] + v[2][0]) / 3, (v[0][1] + v[1][1] + v[2][1]) / 3];
                    [m[0] / 40 * 40, m[1] / 40 * 40]
                }
                _ => [grid(r, 30), grid(r, 30)],
            };
            v.push(p);
        }
        // twice the largest triangle: fat enough
        let mut best = 0;
        for a in &v {
            for b in &v {
                for c in &v {
                    best = best.max((b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]));
                }
            }
        }
        if best > 160_000 {
            return v;
        }
    }
}

/// A convex polygon of seven or eight corners on a grid of the given width.
pub fn many(r: &mut Rng, u: i64) -> Vec<[i64; 2]> {
    let (a, b, c) = (r.range(1, 6), r.range(1, 6), r.range(1, 6));
    let (x, y) = (r.range(-8, 8), r.range(-8, 8));
    let (p, q) = (a + r.range(1, 6), c + r.range(1, 6));
    let mut v = vec![[-a, -q], [b, -q], [b + 3, -c], [b + 3, c], [b, q], [-a, q], [-a - p, c], [-a - p, -c]];
    if r.chance(1, 4) {
        let i = r.below(8);
        v.remove(i);
    }
    let n = r.below(v.len());
    v.rotate_left(n);
    v.iter().map(|w| [(w[0] + x) * u, (w[1] + y) * u]).collect()
}

fn line(r: &mut Rng, n: usize, k: i64) -> Vec<[i64; 2]> {
    let mut v: Vec<[i64; 2]> = vec![[grid(r, k), grid(r, k)]];
    while v.len() < n {
        let p = [grid(r, k), grid(r, k)];
        let l = v[v.len() - 1];
        if (p[0] - l[0]).abs() + (p[1] - l[1]).abs() >= 160 && !v.contains(&p) {
            v.push(p);
        }
    }
    v
}

fn shape(r: &mut Rng, kinds: &str) -> Value {
    let ks: Vec<char> = kinds.chars().collect();
    match *r.pick(&ks) {
        'c' => json!({"k":"c","x":grid(r,15),"y":grid(r,15),"r":r.range(2,20)*40}),
        'e' => json!({"k":"e","v":line(r,2,30)}),
        'o' => {
            let v = line(r, 2, 20);
            if r.chance(1, 2) {
                // flat neighbours
                let e = [v[1][0] - v[0][0], v[1][1] - v[0][1]];
                json!({"k":"o","v":[[v[0][0]-e[0],v[0][1]-e[1]],v[0],v[1],[v[1][0]+e[0],v[1][1]+e[1]]]})
            } else {
                json!({"k":"o","v":line(r,4,30)})
            }
        }
        'b' => json!({"k":"b","hx":r.range(2,25)*40,"hy":r.range(2,25)*40}),
        'a' => json!({"k":"a","hx":r.range(2,25)*40,"hy":r.range(2,25)*40,"x":grid(r,15),"y":grid(r,15),"ang":r.range(-70000,70000)}),
        'n' => {
            let n = 2 + r.below(4);
            let v = line(r, n, 30);
            json!({"k":"n","v":v,"prev":[grid(r,30),grid(r,30)],"next":[grid(r,30),grid(r,30)]})
        }
        'l' => {
            let n = 3 + r.below(4);
            let v = line(r, n, 30);
            json!({"k":"l","v":v})
        }
        _ => json!({"k":"p","v":cloud(r)}),
    }
}

fn kids(g: &Geo, slot: &str) -> usize {
    g.sh.get(slot).map_or(1, |s| s.dynamic().get_child_count()).max(1)
}

fn next_shape(r: &mut Rng, g: &Geo) -> Value {
    let xa = place(r, 1500);
    let ca = r.below(kids(g, "A"));
    let (cx, cy) = (gi(&xa, "x"), gi(&xa, "y"));
    match r.below(10) {
        0 | 1 | 2 => json!({"op":"test_point","xa":xa,"x":cx+r.range(-1300,1300),"y":cy+r.range(-1300,1300)}),
        3 | 4 | 5 | 6 => {
            let (x1, y1) = (cx + r.range(-2500, 2500), cy + r.range(-2500, 2500));
            let (x2, y2) = if r.chance(3, 4) {
                (2 * cx - x1 + r.range(-900, 900), 2 * cy - y1 + r.range(-900, 900))
            } else {
                (cx + r.range(-1500, 1500), cy + r.range(-1500, 1500))
            };
            json!({"op":"ray","xa":xa,"ca":ca,"x1":x1,"y1":y1,"x2":x2,"y2":y2,"mf":*r.pick(&[16384i64,16384,8192,4096])})
        }
        7 => json!({"op":"aabb","xa":xa,"ca":ca}),
        8 => json!({"op":"mass","de":*r.pick(&[256i64,128,512,0])}),
        _ => {
            let b = |r: &mut Rng| {
                let (x, y) = (r.range(-40, 40) * 40, r.range(-40, 40) * 40);
                json!([x, y, x + r.range(0, 40) * 40, y + r.range(0, 40) * 40])
            };
            let p = b(r);
            let q = if r.chance(1, 3) {
                let (x, y) = (p[0].as_i64().unwrap() + r.range(-1, 5) * 40, p[1].as_i64().unwrap() + r.range(-1, 5) * 40);
                json!([x, y, x + r.range(0, 20) * 40, y + r.range(0, 20) * 40])
            } else {
                b(r)
            };
            let (x1, y1) = (r.range(-60, 60) * 40 + 7, r.range(-60, 60) * 40 + 7);
            let x2 = if r.chance(1, 5) { x1 } else { r.range(-60, 60) * 40 + 13 };
            let y2 = if r.chance(1, 5) && x2 != x1 { y1 } else { r.range(-60, 60) * 40 + 13 };
            json!({"op":"boxes","p":p,"q":q,"x1":x1,"y1":y1,"x2":x2,"y2":y2,"mf":*r.pick(&[16384i64,8192])})
        }
    }
}

fn moved(r: &mut Rng, x: &Value, d: i64) -> Value {
    json!({"x":gi(x,"x")+r.range(-d,d),"y":gi(x,"y")+r.range(-d,d),"c":x["c"],"s":x["s"]})
}

fn next_dist(r: &mut Rng, g: &Geo, last: &mut Option<(Value, Value, usize, usize)>) -> Value {
    let keep = last.is_some() && r.chance(1, 2);
    let (xa, xb, ca, cb) = if keep {
        let (a, b, c, d) = last.clone().unwrap();
        let k = *r.pick(&[20i64, 200, 1500]);
        (moved(r, &a, k), if r.chance(1, 6) { place(r, 2000) } else { moved(r, &b, k) }, c, d)
    } else {
        (place(r, 1200), place(r, 2200), r.below(kids(g, "A")), r.below(kids(g, "B")))
    };
    *last = Some((xa.clone(), xb.clone(), ca, cb));
    match r.below(10) {
        0 | 1 | 2 | 3 => json!({"op":"dist","xa":xa,"xb":xb,"ca":ca,"cb":cb,"rad":r.chance(1,2),"keep":keep}),
        4 => json!({"op":"overlap","xa":xa,"xb":xb,"ca":ca,"cb":cb}),
        5 | 6 | 7 => {
            let (dx, dy) = (gi(&xa, "x") - gi(&xb, "x"), gi(&xa, "y") - gi(&xb, "y"));
            let k = r.range(1, 3);
            json!({"op":"cast","xa":xa,"xb":xb,"ca":ca,"cb":cb,"tx":dx*k/2+r.range(-800,800),"ty":dy*k/2+r.range(-800,800)})
        }
        _ => {
            let turn = r.chance(1, 2);
            let sw = |r: &mut Rng, x0: i64, y0: i64, x1: i64, y1: i64| {
                let a0 = r.range(-60000, 60000);
                let a1 = if turn { a0 + r.range(-12000, 12000) } else { a0 };
                json!({"lx":grid(r,5),"ly":grid(r,5),"x0":x0,"y0":y0,"x1":x1,"y1":y1,"a0":a0,"a1":a1})
            };
            let (x, y) = (r.range(-2500, 2500), r.range(-2500, 2500));
            let d = if r.chance(1, 2) { 0 } else { 600 };
            let sa = { let (p, q) = (r.range(-d, d), r.range(-d, d)); sw(r, 0, 0, p, q) };
            let sb = { let (p, q) = (r.range(-1200, 1200), r.range(-1200, 1200)); sw(r, x, y, -x + p, -y + q) };
            json!({"op":"toi","ca":ca,"cb":cb,"sa":sa,"sb":sb,"tm":*r.pick(&[16384i64,16384,9000])})
        }
    }
}

fn next_mani(r: &mut Rng, g: &Geo, last: &mut Option<(Value, Value, usize, usize)>) -> Value {
    if r.chance(1, 12) {
        let (nx, ny) = *r.pick(&ROTS);
        return json!({"op":"clip","v":line(r,2,30),"nx":nx,"ny":ny,"off":r.range(-1000,1000)});
    }
    let (xa, xb, ca, same) = match last.clone() {
        Some((a, b, c, _)) if r.chance(2, 5) => {
            // the same relative placement elsewhere, or a small change
            if r.chance(1, 2) {
                let (dx, dy) = (r.range(-900, 900), r.range(-900, 900));
                let sh = |x: &Value| json!({"x":gi(x,"x")+dx,"y":gi(x,"y")+dy,"c":x["c"],"s":x["s"]});
                (sh(&a), sh(&b), c, true)
            } else {
                (moved(r, &a, 30), moved(r, &b, 30), c, false)
            }
        }
        _ => {
            let ca = r.below(kids(g, "A"));
            (place(r, 1000), place(r, 1600), ca, false)
        }
    };
    *last = Some((xa.clone(), xb.clone(), ca, 0));
    json!({"op":"manifold","xa":xa,"xb":xb,"ca":ca,"same":same})
}

pub fn run(opt: &HashMap<String, String>, seed: u64, n: usize, out: &mut dyn Write) {
    let mode = opt.get("mode").cloned().unwrap_or("shape".into());
    let mut total = 0;
    let mut t = 0u64;
    while total < n {
        let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(t).wrapping_add(5));
        t += 1;
        let mut g = Geo::new();
        emit(out, &json!({"op":"New","r":"ok","a":{},"ret":{},"s":g.state()}));
        total += 1;
        let (ka, kb) = match mode.as_str() {
            "shape" => ("ceoppbbaanl", ""),
            "dist" => ("ceppbnl", "ceppbnl"),
            _ => *r.pick(&[("c", "c"), ("p", "c"), ("b", "c"), ("p", "p"), ("b", "b"), ("p", "b"), ("e", "c"), ("o", "c"), ("e", "p"), ("o", "p"), ("n", "p"), ("n", "c"), ("l", "b"), ("e", "b"), ("o", "b")]),
        };
        let mut ops = vec![json!({"op":"make","slot":"A","sh":shape(&mut r, ka)})];
        if !kb.is_empty() {
            ops.push(json!({"op":"make","slot":"B","sh":shape(&mut r, kb)}));
        }
        let len = 12 + r.below(12);
        let mut last = None;
        for k in 0..len {
            let op = if k < ops.len() {
                ops[k].clone()
            } else {
                match mode.as_str() {
                    "shape" => next_shape(&mut r, &g),
                    "dist" => next_dist(&mut r, &g, &mut last),
                    _ => next_mani(&mut r, &g, &mut last),
                }
            };
            let e = g.exec(&op);
            let bad = e["r"] != "ok";
            emit(out, &e);
            total += 1;
            if bad {
                break;
            }
        }
    }
}
