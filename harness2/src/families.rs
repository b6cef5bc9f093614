//! Random behaviour families of the Bevy crates.
use crate::rng::Rng;
use crate::source::{CHANNELS, FLOATS, TEXTURES};
use serde_json::{Value, json};

pub type Scene = (String, Vec<Value>);

pub fn scenes(prop: &str, seed: u64, count: usize) -> Vec<Scene> {
    (0..count)
        .map(|i| {
            let salt = prop.bytes().fold(7u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64));
            let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i as u64).wrapping_add(salt << 20));
            match prop {
                "C23" => ("collider".to_string(), vec![colliders(&mut r)]),
                "C24" => ("scene".to_string(), vec![scene(&mut r)]),
                "C25" => ("bevymesh".to_string(), vec![json!({"a": "bevymesh", "m": mesh(&mut r, true)})]),
                "C30" => ("world".to_string(), history(&mut r)),
                _ => panic!("HARNESS: no family for {prop}"),
            }
        })
        .collect()
}
fn many(r: &mut Rng, n: i64, lo: i64, hi: i64) -> Vec<i64> {
    (0..n).map(|_| r.int(lo, hi)).collect()
}

// ---- C23 ------------------------------------------------------------------------------------------
fn point(r: &mut Rng) -> Value {
    json!(many(r, 3, -4, 4))
}
fn primitive(r: &mut Rng) -> Value {
    match r.int(0, 15) {
        0..=3 => json!({"s": "cuboid", "p": many(r, 3, 1, 4).iter().map(|x| x * 2).collect::<Vec<_>>()}),
        4 => json!({"s": "rcuboid", "p": many(r, 3, 1, 4).iter().map(|x| x * 2).collect::<Vec<_>>()}),
        5..=7 => loop {
            let v = [many(r, 3, -4, 4), many(r, 3, -4, 4), many(r, 3, -4, 4)];
            if v[0] != v[1] && v[1] != v[2] && v[0] != v[2] {
                return json!({"s": "tri", "v": v});
            }
        },
        8..=10 => {
            let n = r.int(3, 6);
            let v: Vec<Value> = (0..n).map(|_| point(r)).collect();
            let i: Vec<Value> = (0..r.int(1, 4))
                .map(|_| {
                    let a = r.int(0, n - 1);
                    let b = (a + r.int(1, n - 2)) % n;
                    let mut c = (b + 1) % n;
                    while c == a || c == b {
                        c = (c + 1) % n;
                    }
                    json!([a, b, c])
                })
                .collect();
            json!({"s": "mesh", "v": v, "i": i})
        }
        11 => json!({"s": "ball", "p": [r.int(1, 4)]}),
        12 => json!({"s": "cylinder", "p": [r.int(1, 4), 2 * r.int(1, 4)]}),
        13 => json!({"s": "cone", "p": [r.int(1, 4), 2 * r.int(1, 4)]}),
        14 => json!({"s": "capsule", "p": [r.int(1, 3), 2 * r.int(1, 3)]}),
        _ => json!({"s": r.pick(&["segment", "half", "polyline"])}),
    }
}
fn rotation(r: &mut Rng) -> Vec<i64> {
    let perms = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
    let even = [true, false, false, true, true, false];
    let k = r.int(0, 5) as usize;
    let (a, b) = (r.pick(&[1i64, -1]), r.pick(&[1i64, -1]));
    let c = a * b * if even[k] { 1 } else { -1 };
    let mut m = vec![0i64; 9];
    for (row, s) in [a, b, c].iter().enumerate() {
        m[row * 3 + perms[k][row]] = *s;
    }
    m
}
fn colliders(r: &mut Rng) -> Value {
    let n = r.int(1, 3);
    let bodies: Vec<Value> = (0..n)
        .map(|b| {
            let shape = if r.chance(2, 3) {
                let parts: Vec<Value> = (0..r.int(1, 4))
                    .map(|_| {
                        let m = if r.chance(1, 4) { vec![1, 0, 0, 0, 1, 0, 0, 0, 1] } else { rotation(r) };
                        json!({"m": m, "t": many(r, 3, -9, 9), "shape": primitive_bounded(r)})
                    })
                    .collect();
                json!({"s": "compound", "parts": parts})
            } else {
                primitive(r)
            };
            json!({"k": r.pick(&["static", "static", "static", "dynamic", "kinematic", "none"]), "x": [10 * b, r.int(-3, 3), r.int(-3, 3)], "shape": shape})
        })
        .collect();
    json!({"a": "collider", "bodies": bodies})
}
/// Compounds refuse half spaces (no bounding volume) and composite shapes.
fn primitive_bounded(r: &mut Rng) -> Value {
    loop {
        let p = primitive(r);
        if p["s"] != "half" && p["s"] != "mesh" && p["s"] != "polyline" {
            return p;
        }
    }
}

// ---- C24 ------------------------------------------------------------------------------------------
pub fn mesh(r: &mut Rng, loose: bool) -> Value {
    let nv = r.int(if loose { 0 } else { 1 }, 5);
    let mut att = vec![];
    for (id, w) in [(0, 3), (1, 3), (2, 2), (3, 2), (4, 4), (5, 4), (6, 4)] {
        if (id == 0 && !r.chance(1, 8)) || r.chance(1, 3) {
            att.push(json!([id, many(r, nv * w, -100, 100)]));
        }
    }
    if r.chance(1, 4) {
        att.push(json!([7, many(r, nv * 4, 0, 65535)]));
    }
    let ik = r.pick(&[0, 16, 32, 32]);
    let n = if loose && r.chance(1, 4) { r.int(0, 7) } else { 3 * r.int(0, 4) };
    let ix = if ik == 0 || nv == 0 { vec![] } else { many(r, n, 0, nv - 1) };
    json!({"topo": if r.chance(2, 3) { 3 } else { r.int(0, 4) }, "att": att, "ik": ik, "ix": ix})
}
fn image(r: &mut Rng, k: i64) -> Value {
    let n = match r.int(0, 9) {
        0 => -1,
        1 => 0,
        2 => r.int(200, 300),
        3 => r.int(1000, 70000),
        _ => r.int(1, 40),
    };
    let s = if r.chance(1, 2) { vec![] } else {
        let mut s = many(r, 3, 0, 3);
        s.extend(many(r, 3, 0, 1));
        s.extend(many(r, 2, 0, 64));
        s.push(r.pick(&[1, 2, 16]));
        s.push(r.int(-1, 3));
        s
    };
    let view = if r.chance(1, 2) { vec![] } else {
        vec![r.int(-1, 4), r.int(-1, 2), r.int(-1, 31), r.int(0, 2), r.int(0, 4), r.int(-1, 4), r.int(0, 4), r.int(-1, 300)]
    };
    json!({"n": n, "k": k, "d": [r.int(1, 300), r.int(1, 9), r.int(1, 9), r.int(1, 9), r.pick(&[1, 4]), r.int(0, 2), r.int(0, 4), r.int(0, 31)],
           "s": s, "view": view})
}
fn material(r: &mut Rng, images: i64) -> Value {
    let co: Vec<Vec<i64>> = (0..4).map(|k| { let mut c = vec![if k == 3 { 1 } else { r.int(0, 2) }]; c.extend(many(r, 4, 0, 8)); c }).collect();
    // some slots, now and then one without an image behind it
    let density = r.pick(&[0, 1, 5]);
    let missing = r.chance(1, 10);
    let mut tx: Vec<i64> = (0..TEXTURES).map(|_| if images > 0 && r.int(0, 9) < density { r.int(0, images - 1) } else { -1 }).collect();
    if missing {
        let k = r.int(0, TEXTURES - 1) as usize;
        tx[k] = images;
    }
    let am = r.int(0, 6);
    let pa = r.int(0, 1);
    json!({"co": co, "fl": many(r, FLOATS, -3, 40), "ch": many(r, CHANNELS, 0, 1), "tx": tx, "bo": many(r, 4, 0, 1),
           "en": [r.int(0, 2), am, if am == 1 { r.int(0, 8) } else { 0 }, pa, if pa == 1 { r.int(0, 300) } else { 0 }, r.int(0, 2), r.int(0, 255)],
           "uv": many(r, 6, -20, 20)})
}
fn tf(r: &mut Rng, k: i64) -> Vec<i64> {
    let mut t = many(r, 9, -16, 16);
    t.extend([8 * k, r.int(-99, 99), r.int(-99, 99)]);
    t
}
pub fn scene(r: &mut Rng) -> Value {
    let (ni, nm, nt) = (r.int(0, 4), r.int(0, 3), r.int(0, 4));
    let imgs: Vec<Value> = (0..ni).map(|k| image(r, k)).collect();
    let meshes: Vec<Value> = (0..nm).map(|_| mesh(r, false)).collect();
    let mats: Vec<Value> = (0..nt).map(|_| material(r, ni)).collect();
    let ents: Vec<Value> = (0..r.int(0, 7))
        .map(|k| {
            let m = if nm == 0 || r.chance(1, 12) { nm } else { r.int(0, nm - 1) };
            let t = if r.chance(1, 6) { -1 } else if nt == 0 || r.chance(1, 12) { nt } else { r.int(0, nt - 1) };
            json!({"m": m, "t": t, "vis": !r.chance(1, 8) as i64, "mark": r.chance(2, 3) as i64, "tf": tf(r, k)})
        })
        .collect();
    let aff: Vec<Value> = (0..r.int(0, 3))
        .map(|k| {
            let nv = r.int(1, 5);
            let is: Vec<Value> = (0..r.int(0, 4)).map(|_| json!(many(r, 3, 0, nv - 1))).collect();
            let vs: Vec<Value> = (0..nv).map(|_| json!(many(r, 3, -60, 60).iter().map(|x| x * 1000).collect::<Vec<_>>())).collect();
            let ar = many(r, is.len() as i64, 0, 255);
            json!({"tf": tf(r, k), "mesh": {"vs": vs, "is": is, "ar": ar}})
        })
        .collect();
    json!({"a": "scene", "auto": r.int(0, 1), "backend": !r.chance(1, 25) as i64, "params": r.chance(1, 25) as i64,
           "imgs": imgs, "meshes": meshes, "mats": mats, "ents": ents, "aff": aff})
}

// ---- C30 ------------------------------------------------------------------------------------------
/// Quarter turns, mirror-free, a scale of a power of two, a whole shift; in eighths.
fn placement(r: &mut Rng) -> Value {
    let (c, s) = r.pick(&[(1, 0), (1, 0), (0, 1), (-1, 0), (0, -1)]);
    let k = r.pick(&[8, 8, 8, 4, 16]);
    let cols = match r.int(0, 2) {
        0 => [[c, 0, -s], [0, 1, 0], [s, 0, c]],
        1 => [[1, 0, 0], [0, c, s], [0, -s, c]],
        _ => [[c, s, 0], [-s, c, 0], [0, 0, 1]],
    };
    let mut v: Vec<i64> = cols.iter().flatten().map(|x| x * k).collect();
    v.extend((0..3).map(|_| 8 * r.int(-3, 3)));
    json!(v)
}
fn history(r: &mut Rng) -> Vec<Value> {
    let mut ops = vec![json!({"a": "wopen"})];
    // entities with their parents and colliders
    let mut live: Vec<(i64, i64, bool)> = vec![];
    let mut next = 0;
    for k in 0..r.int(0, 3) {
        ops.push(json!({"a": "wasset", "k": k, "m": mesh(r, k > 0)}));
    }
    for _ in 0..r.int(4, 22) {
        match r.int(0, 15) {
            0..=1 => ops.push(json!({"a": "wback", "b": r.pick(&["mesh", "mesh", "avian", "avian", "fixed"]), "n": r.int(0, 5)})),
            2 => ops.push(json!({"a": "wasset", "k": r.int(0, 3), "m": mesh(r, true)})),
            3 => ops.push(json!({"a": "wdrop", "k": r.int(0, 3)})),
            4..=7 => {
                let depth = |live: &Vec<(i64, i64, bool)>, id: i64| if id >= 0 && live.iter().any(|e| e.0 == id && e.1 >= 0) { 2 } else if id >= 0 { 1 } else { 0 };
                let par = if !live.is_empty() && r.chance(1, 2) { live[r.int(0, live.len() as i64 - 1) as usize].0 } else { -1 };
                let par = if depth(&live, par) == 2 { -1 } else { par };
                let shape = match r.int(0, 6) {
                    0..=1 => json!({"s": "cuboid", "p": many(r, 3, 1, 3).iter().map(|x| x * 2).collect::<Vec<_>>()}),
                    2 => json!({"s": "segment", "v": [[0, 0, 0], [1, 2, 3]]}),
                    _ => json!({"s": "none"}),
                };
                ops.push(json!({"a": "wspawn", "id": next, "par": par, "tf": placement(r), "m": r.int(-1, 3),
                                "kind": r.pick(&["static", "static", "dynamic", "kinematic", "none"]), "shape": shape}));
                live.push((next, par, shape["s"] != "none"));
                next += 1;
            }
            8 if !live.is_empty() => {
                let k = r.int(0, live.len() as i64 - 1) as usize;
                ops.push(json!({"a": "wmove", "id": live[k].0, "tf": placement(r)}));
            }
            9 if !live.is_empty() => {
                let k = r.int(0, live.len() as i64 - 1) as usize;
                ops.push(json!({"a": "wmesh", "id": live[k].0, "m": r.int(-1, 3)}));
            }
            10 if !live.is_empty() => {
                let k = r.int(0, live.len() as i64 - 1) as usize;
                if live[k].2 {
                    ops.push(json!({"a": "wkind", "id": live[k].0, "kind": r.pick(&["static", "dynamic", "kinematic", "none"])}));
                }
            }
            11 if !live.is_empty() => {
                let k = r.int(0, live.len() as i64 - 1) as usize;
                let id = live[k].0;
                if !live.iter().any(|e| e.1 == id) {
                    ops.push(json!({"a": "wgone", "id": id}));
                    live.remove(k);
                }
            }
            12 => ops.push(json!({"a": "wgen"})),
            _ => ops.push(json!({"a": "wask"})),
        }
    }
    ops.push(json!({"a": "wask"}));
    ops
}
