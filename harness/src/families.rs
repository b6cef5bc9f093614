//! Random behaviour families.  Every scene is a list of actions of spec/Recast.tla.
use crate::rng::Rng;
use serde_json::{Value, json};

pub type Scene = (String, Vec<Value>);

pub fn scenes(prop: &str, seed: u64, count: usize) -> Vec<Scene> {
    let mut out = vec![];
    for i in 0..count {
        let salt = prop.bytes().fold(7u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64));
        let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i as u64).wrapping_add(salt << 20));
        let s = match prop {
            "C01" => column_history(&mut r),
            "C02" => raster(&mut r),
            "C03" => slopes(&mut r),
            "C04" | "C05" | "C06" => filters(&mut r, prop),
            "C07" | "C08" => compaction(&mut r),
            "C09" => erosion(&mut r),
            "C10" => volumes(&mut r),
            "C11" => distances(&mut r),
            "C12" | "C13" => regions(&mut r),
            "C14" | "C15" => contours(&mut r),
            "C16" | "C17" | "C18" => polygons(&mut r, prop),
            "C19" | "C20" => details(&mut r, prop),
            "C21" => anything(&mut r),
            "C22" => appends(&mut r),
            "C26" => frames(&mut r),
            "C27" => fills(&mut r),
            "C28" => saved(&mut r),
            _ => panic!("HARNESS: no family for {prop}"),
        };
        out.push(s);
    }
    out
}

fn column_history(r: &mut Rng) -> Scene {
    let (w, h) = (r.int(1, 3), r.int(1, 2));
    let top = r.pick(&[6, 12, 30]);
    let n = r.int(4, 25);
    let mut ops = vec![json!({"a": "new", "w": w, "h": h, "ymax": 60000})];
    // around the ends of the representable heights and of their signed half
    let high = r.pick(&[0, 0, 0, 0, 255, 32767 - top / 2, 32767 - top / 2, 59000]);
    for _ in 0..n {
        let lo = r.int(0, top - 1);
        let hi = if r.chance(1, 5) { r.int(lo + 1, top) } else { (lo + r.int(1, 3)).min(top).max(lo + 1) };
        ops.push(json!({"a": "ins", "x": r.int(0, w - 1), "z": r.int(0, h - 1), "lo": lo + high, "hi": hi + high,
            "ar": r.pick(&[0, 0, 1, 2, 7, 63, 255]), "thr": r.pick(&[0, 0, 1, 2, 4, 100])}));
    }
    ("column".into(), ops)
}

// ---------------------------------------------------------------------------------------------
// C02
fn raster(r: &mut Rng) -> Scene {
    if r.chance(1, 150) {
        return far(r);
    }
    let exact = r.chance(2, 3);
    let (w, h) = (r.int(1, 7), r.int(1, 7));
    let den = if exact { r.pick(&[1, 2, 4, 8]) } else { r.pick(&[3, 5, 7, 10]) };
    let yc = r.int(1, 9);
    let ymax = if r.chance(1, 3) { (yc * den - r.int(0, den - 1)).max(1) } else { yc * den };
    let (cs, ch) = if exact {
        (r.pick(&[1.0, 0.5, 0.25, 2.0]), r.pick(&[1.0, 0.5, 0.25, 2.0]))
    } else {
        (r.pick(&[0.3, 0.7, 1.1, 0.125]), r.pick(&[0.2, 0.15, 1.3, 0.5]))
    };
    let org: Vec<i64> = if r.chance(1, 3) { vec![0, 0, 0] } else { (0..3).map(|_| r.int(-20, 20) * if exact { 1 } else { 2 }).collect() };
    let mut ops = vec![json!({"a": "field", "w": w, "h": h, "ymax": ymax, "den": den, "cs": cs, "ch": ch, "org": org})];
    for _ in 0..r.int(1, 3) {
        let mode = r.int(0, 9);
        let mut v: Vec<[i64; 3]> = vec![];
        for k in 0..3 {
            let (lo, hi) = if mode < 6 { (0, 0) } else { (-w / 2 - 1, w / 2 + 1) };
            let mut p = [
                r.int((lo - 1) * den, (w + 1 + hi) * den),
                r.int(-2 * den, (yc + 2) * den),
                r.int((lo - 1) * den, (h + 1 + hi) * den),
            ];
            if mode == 1 || mode == 2 {
                // inside the field
                p = [r.int(0, w * den), r.int(0, ymax), r.int(0, h * den)];
            }
            if r.chance(1, 3) {
                p[0] = p[0].div_euclid(den) * den; // on a grid line
            }
            if r.chance(1, 3) {
                p[2] = p[2].div_euclid(den) * den;
            }
            if mode == 3 && k > 0 && r.chance(1, 2) {
                p = v[k - 1]; // degenerate
            }
            if mode == 4 && k > 0 {
                p[0] = v[0][0]; // vertical, along z
            }
            if mode == 5 {
                // horizontal, often in the bottom or top plane
                p[1] = if k > 0 { v[0][1] } else { r.pick(&[0, ymax, p[1]]) };
            }
            if mode == 6 && k == 2 && r.chance(1, 2) {
                p = [2 * v[1][0] - v[0][0], 2 * v[1][1] - v[0][1], 2 * v[1][2] - v[0][2]]; // on a line
            }
            v.push(p);
        }
        ops.push(json!({"a": "tri", "v": v, "den": den, "org": org, "ex": if exact {1} else {0},
                        "ar": r.pick(&[0, 1, 63]), "thr": r.int(0, 3)}));
    }
    ("raster".into(), ops)
}

/// A small triangle in a field whose sides come close to, or exceed, what 15 and 16 bits hold.
fn far(r: &mut Rng) -> Scene {
    let long = r.pick(&[300, 32766, 32767, 32768, 32769, 40000, 65534, 65535, 65536, 65537, 70000, 131073]);
    let short = r.int(1, 2);
    let at = match r.int(0, 2) {
        0 => long - 1,
        1 => r.int(0, long - 1),
        _ => (long - 1).min(32768),
    };
    let op = if r.chance(1, 2) {
        json!({"a": "far", "w": long, "h": short, "x": at, "z": short - 1})
    } else {
        json!({"a": "far", "w": short, "h": long, "x": short - 1, "z": at})
    };
    ("far".into(), vec![op])
}
/// Any scene and any order of calls, with parameters from all over their documented ranges.
fn anything(r: &mut Rng) -> Scene {
    if r.chance(1, 100) {
        return twice(far(r));
    }
    let wild = r.chance(1, 2);
    let (w, h, mut ops);
    match r.int(0, 9) {
        0 => {
            // triangles anywhere
            (w, h) = (r.int(0, 6), r.int(0, 6));
            let ymax = r.pick(&[0, 1, 9, 300, 65535, 65536, 70000]);
            let org = [0, 0, 0];
            ops = vec![json!({"a": "field", "w": w, "h": h, "ymax": ymax, "den": 1, "cs": 1.0, "ch": 1.0, "org": org})];
            for _ in 0..r.int(0, 5) {
                let big = r.pick(&[8, 8, 100, 100000]);
                let top = r.pick(&[10, 10, ymax + 2]);
                let v: Vec<[i64; 3]> = (0..3).map(|_| [r.int(-big, big), (top - r.int(-3, 9)).max(-5), r.int(-big, big)]).collect();
                ops.push(json!({"a": "tri", "v": v, "den": 1, "org": org, "ex": 0, "ar": r.pick(&[0, 1, 63, 255]),
                                "thr": r.pick(&[0, 1, 3, 65535])}));
            }
        }
        1 => {
            // columns up to the limits of heights and layers
            (w, h) = (r.int(0, 3), r.int(0, 3));
            let n = r.pick(&[0, 1, 5, 61, 62, 63, 64, 70, 254, 255, 256, 300]);
            let top = r.chance(1, 2);
            let cols: Vec<Vec<[i64; 3]>> = (0..w * h)
                .map(|_| {
                    let n = if r.chance(1, 4) { n / 2 } else { n };
                    let mut c: Vec<[i64; 3]> = (0..n)
                        .map(|k| {
                            let hi = if top { 65535 - 4 * (n - 1 - k) } else { 4 * k + 1 };
                            [hi - 1, hi, if r.chance(1, 50) { 0 } else { 1 }]
                        })
                        .collect();
                    if r.chance(1, 5) {
                        c.truncate(1);
                    }
                    c
                })
                .collect();
            ops = vec![json!({"a": "cols", "w": w, "h": h, "cols": cols})];
        }
        k => {
            let climb = r.int(1, 3);
            let s = match k {
                2 | 3 => surface(r, 8, 8, true),
                4 | 5 => {
                    let big = if r.chance(1, 12) { 60 } else { 14 };
                    rooms(r, big, big)
                }
                6 => terrain(r, 14, 12, climb),
                7 => {
                    let (w, h) = (r.int(0, 5), r.int(0, 5));
                    let (a, c) = (r.int(0, 5), r.int(0, 3));
                    (vec![json!({"a": "cols", "w": w, "h": h, "cols": random_cols(r, w, h, a, c)}), json!({})], w, h)
                }
                8 => {
                    // nothing to walk on
                    let (mut o, w, h) = surface(r, 6, 6, true);
                    for c in o[0]["cols"].as_array_mut().unwrap() {
                        for s in c.as_array_mut().unwrap() {
                            s[2] = json!(0);
                        }
                    }
                    (o, w, h)
                }
                _ => {
                    // one long corridor
                    let (w, h) = if r.chance(1, 2) { (r.int(1, 300), r.int(1, 4)) } else { (r.int(1, 4), r.int(1, 300)) };
                    let y = r.pick(&[1, 5, 60000]);
                    (vec![json!({"a": "cols", "w": w, "h": h, "cols": (0..w * h).map(|_| json!([[0, y, 1]])).collect::<Vec<_>>()}), json!({})], w, h)
                }
            };
            (ops, w, h) = s;
            ops.truncate(1);
        }
    }
    let any = |r: &mut Rng, usual: &[i64]| if wild && r.chance(1, 4) { r.pick(&[0, 1, 255, 256, 32767, 32768, 65535]) } else { r.pick(usual) };
    for _ in 0..r.int(0, 3) {
        let op = match r.int(0, 2) {
            0 => json!({"a": "low", "c": any(r, &[1, 2])}),
            1 => json!({"a": "ledge", "h": any(r, &[2, 3]), "c": any(r, &[1, 2, 3])}),
            _ => json!({"a": "head", "h": any(r, &[2, 3])}),
        };
        ops.push(op);
    }
    ops.push(json!({"a": "compact", "h": any(r, &[3, 3, 3, 2]), "c": any(r, &[1, 1, 2, 3])}));
    let mut dist = false;
    for _ in 0..r.int(0, 3) {
        let op = match r.int(0, 3) {
            0 => json!({"a": "erode", "r": any(r, &[0, 1, 1, 2])}),
            1 | 2 => {
                let n = r.pick(&[0, 1, 2, 3, 4, 4, 5]);
                let big = r.pick(&[6, 20, 20, 1000000]);
                let v: Vec<[i64; 2]> = (0..n).map(|_| [r.int(-big, big), r.int(-big, big)]).collect();
                json!({"a": "vol", "v": v, "den": 2, "lo": r.int(-20, 20), "hi": r.int(-20, 200000), "ar": r.pick(&[0, 1, 2, 255])})
            }
            _ => {
                dist = true;
                json!({"a": "dist"})
            }
        };
        ops.push(op);
    }
    if r.chance(1, 12) {
        // contours without regions
        contour_ops(r, &mut ops);
    }
    if !dist || r.chance(1, 2) {
        ops.push(json!({"a": "dist"}));
    }
    for _ in 0..r.pick(&[1, 1, 1, 2]) {
        ops.push(json!({"a": "regions", "b": any(r, &[0, 0, 0, 1, 2, w, h]), "min": any(r, &[0, 0, 8]), "mrg": any(r, &[0, 20])}));
    }
    let e10 = if wild && r.chance(1, 6) { r.pick(&[1, 255, 1000, 655350, 100000000]) } else { r.pick(&[0, 5, 10, 13, 20]) };
    ops.push(json!({"a": "contours", "e10": e10, "len": any(r, &[0, 0, 1, 2, 3, 12]), "fl": r.int(0, 3)}));
    let nvp = if wild && r.chance(1, 6) { r.pick(&[3, 7, 16, 64, 127, 128, 300]) } else { r.pick(&[3, 4, 6, 6]) };
    ops.push(json!({"a": "poly", "nvp": nvp}));
    let sd2 = if wild && r.chance(1, 4) { r.pick(&[0, 1, 2, 1000, 1000000]) } else { r.pick(&[0, 2, 4, 12]) };
    let se8 = if wild && r.chance(1, 4) { r.pick(&[0, 1, 100000]) } else { r.pick(&[0, 2, 8, 16]) };
    ops.push(json!({"a": "detail", "sd2": sd2, "se8": se8}));
    twice(("anything".into(), ops))
}
fn twice(s: Scene) -> Scene {
    let mut s = s;
    for op in s.1.iter_mut() {
        op["twice"] = json!(1);
    }
    s
}

// ---------------------------------------------------------------------------------------------
// C03, C22
fn small_mesh(r: &mut Rng, maxv: i64, maxt: i64) -> Value {
    let n = r.int(0, maxv);
    let vs: Vec<[i64; 3]> = (0..n).map(|_| [r.int(-4, 4), r.int(-4, 4), r.int(-4, 4)]).collect();
    let nt = if n == 0 { 0 } else { r.int(0, maxt) };
    let is: Vec<[i64; 3]> = (0..nt).map(|_| [r.int(0, n - 1), r.int(0, n - 1), r.int(0, n - 1)]).collect();
    let ar: Vec<i64> = (0..nt).map(|_| r.pick(&[0, 0, 1, 7, 254])).collect();
    json!({"vs": vs, "is": is, "ar": ar})
}
fn slopes(r: &mut Rng) -> Scene {
    let mut m = small_mesh(r, 12, 12);
    if r.chance(1, 2) {
        // slopes near a limit: flat base, one vertex lifted
        let mut vs = vec![];
        let mut is = vec![];
        let mut ar = vec![];
        for k in 0..r.int(1, 8) {
            let (a, b, y) = (r.int(1, 12), r.int(1, 12), r.int(0, 12));
            let b0 = 3 * k;
            vs.extend([[0, 0, 0], [0, 0, b], [a, y, 0]]);
            is.push(if r.chance(1, 4) { [b0, b0 + 2, b0 + 1] } else { [b0, b0 + 1, b0 + 2] });
            ar.push(r.pick(&[0, 3]));
        }
        m = json!({"vs": vs, "is": is, "ar": ar});
    }
    let deg = r.pick(&[0, 5, 15, 30, 40, 45, 46, 50, 60, 70, 80, 89]);
    let c = (deg as f64).to_radians().cos();
    let cos2 = (c * c * 10000.0).round() as i64;
    (
        "slope".into(),
        vec![json!({"a": "mesh", "m": m}), json!({"a": "slope", "deg": deg, "cos2": cos2})],
    )
}
fn appends(r: &mut Rng) -> Scene {
    let mut ops = vec![];
    if r.chance(3, 4) {
        ops.push(json!({"a": "mesh", "m": small_mesh(r, 6, 5)}));
    }
    for _ in 0..r.int(1, 6) {
        ops.push(json!({"a": "extend", "m": small_mesh(r, 6, 5)}));
    }
    ("append".into(), ops)
}

// ---------------------------------------------------------------------------------------------
// solid heightfields
/// Random columns.  `c` is the climb and `a` the agent height the scene will use, so that
/// heights cluster around the decision boundaries.
pub fn random_cols(r: &mut Rng, w: i64, h: i64, a: i64, c: i64) -> Vec<Vec<[i64; 3]>> {
    let style = r.int(0, 5);
    let base = if r.chance(1, 6) { r.pick(&[65500, 32760, 250]) } else { 0 };
    let areas = match r.int(0, 3) {
        0 => vec![1],
        1 => vec![0, 1],
        2 => vec![0, 1, 1, 1, 2],
        _ => vec![0, 1, 63, 255],
    };
    let empty = r.pick(&[0u64, 0, 1, 3]);
    let amp = match style {
        0 => 0,
        1 => c,
        2 => c + 1,
        3 => 2 * c + 1,
        _ => 8,
    };
    let layers = if style == 5 || r.chance(1, 3) { 3 } else { r.int(1, 2) };
    (0..w * h)
        .map(|_| {
            let mut col = vec![];
            if r.chance(empty, 12) {
                return col;
            }
            let mut y = base + r.int(0, 2);
            for k in 0..layers {
                if k > 0 && r.chance(1, 3) {
                    break;
                }
                let gap = if k == 0 { r.int(0, amp) } else { 1 + r.pick(&[0, a - 2, a - 1, a, a + 1, c, 3]).max(0) };
                let lo = y + gap;
                let hi = lo + r.pick(&[1, 1, 2, c, c + 1]).max(1);
                if hi > 65535 {
                    break;
                }
                col.push([lo, hi, r.pick(&areas)]);
                y = hi;
            }
            col
        })
        .collect()
}
fn filters(r: &mut Rng, prop: &str) -> Scene {
    let (w, h) = (r.int(1, 5), r.int(1, 5));
    let (a, c) = (r.int(0, 5), r.int(0, 3));
    let cols = random_cols(r, w, h, a, c);
    let mut ops = vec![json!({"a": "cols", "w": w, "h": h, "cols": cols})];
    let low = json!({"a": "low", "c": c});
    let ledge = json!({"a": "ledge", "h": a, "c": c});
    let head = json!({"a": "head", "h": a});
    match prop {
        "C04" => ops.push(low),
        "C05" => {
            if r.chance(1, 3) {
                ops.push(low);
            }
            ops.push(ledge)
        }
        _ => {
            if r.chance(1, 3) {
                ops.push(ledge);
            }
            ops.push(head)
        }
    }
    ("filter".into(), ops)
}
fn compaction(r: &mut Rng) -> Scene {
    let (w, h) = (r.int(1, 5), r.int(1, 5));
    let (a, c) = (r.int(0, 5), r.int(0, 3));
    let mut cols = random_cols(r, w, h, a, c);
    if r.chance(1, 15) {
        // tall stacks: more than 62 layers
        for col in cols.iter_mut() {
            *col = (0..r.int(60, 70)).map(|k| [k * 3, k * 3 + 1, 1]).collect();
        }
    }
    ("compact".into(), vec![json!({"a": "cols", "w": w, "h": h, "cols": cols}), json!({"a": "compact", "h": a, "c": c})])
}

/// A walkable surface with obstacles, several areas and sometimes a second floor; returns
/// (operations up to the compact heightfield, w, h).
pub fn surface(r: &mut Rng, maxw: i64, maxh: i64, multi: bool) -> (Vec<Value>, i64, i64) {
    let (w, h) = (r.int(1, maxw), r.int(1, maxh));
    let (a, c) = (3, 1);
    let hole = r.pick(&[0u64, 1, 2, 4]);
    let style = r.int(0, 4);
    let second = r.chance(1, 4);
    let areas = if multi && r.chance(1, 2) { vec![1, 1, 1, 2, 3] } else { vec![1] };
    let mut cols: Vec<Vec<[i64; 3]>> = vec![];
    let mut patch = 1;
    let slope = r.int(-1, 1);
    // rectangular obstacles
    let rects: Vec<[i64; 4]> = (0..r.int(0, 3))
        .map(|_| {
            let (x0, z0) = (r.int(0, w - 1), r.int(0, h - 1));
            [x0, z0, (x0 + r.int(0, 2)).min(w - 1), (z0 + r.int(0, 2)).min(h - 1)]
        })
        .collect();
    for z in 0..h {
        for x in 0..w {
            let mut col = vec![];
            let inrect = rects.iter().any(|q| x >= q[0] && x <= q[2] && z >= q[1] && z <= q[3]);
            let y = match style {
                0 | 1 => 5,
                2 => 20 + slope * x,
                3 => 5 + r.int(0, 1),
                _ => 5 + r.pick(&[0, 0, 0, 0, 2]),
            };
            if style == 1 || !r.chance(1, 3) {
                patch = r.pick(&areas);
            }
            let blocked = inrect || r.chance(hole, 16);
            if !blocked {
                col.push([0, y, patch]);
            } else if r.chance(1, 2) {
                col.push([0, y, 0]);
            }
            if second && x >= w / 3 && !r.chance(1, 10) {
                col.push([y + 4, y + 5, r.pick(&areas)]);
            }
            cols.push(col);
        }
    }
    (vec![json!({"a": "cols", "w": w, "h": h, "cols": cols}), json!({"a": "compact", "h": a, "c": c})], w, h)
}
fn erosion(r: &mut Rng) -> Scene {
    let (mut ops, _, _) = surface(r, 9, 9, true);
    let mut rad = r.int(0, 4);
    if r.chance(1, 20) {
        rad = r.pick(&[100, 127, 128, 129, 200, 255]);
    }
    ops.push(json!({"a": "erode", "r": rad}));
    if r.chance(1, 4) {
        ops.push(json!({"a": "erode", "r": r.int(0, 2)}));
    }
    ("erode".into(), ops)
}
fn distances(r: &mut Rng) -> Scene {
    let (mut ops, _, _) = surface(r, 10, 10, true);
    if r.chance(1, 4) {
        ops.push(json!({"a": "erode", "r": r.int(1, 2)}));
    }
    ops.push(json!({"a": "dist"}));
    ("dist".into(), ops)
}
fn convex(r: &mut Rng, den: i64, w: i64, h: i64) -> Vec<[i64; 2]> {
    let n = r.int(3, 9);
    let (cx, cz) = (r.int(-den, (w + 1) * den), r.int(-den, (h + 1) * den));
    let rad = r.int(1, (w.max(h) + 2) * den);
    let mut pts: Vec<[i64; 2]> = (0..n).map(|_| [cx + r.int(-rad, rad), cz + r.int(-rad, rad)]).collect();
    if r.chance(1, 4) {
        // axis aligned box
        let (a, b) = (r.int(1, rad), r.int(1, rad));
        pts = vec![[cx - a, cz - b], [cx - a, cz + b], [cx + a, cz - b], [cx + a, cz + b]];
    }
    pts.sort();
    pts.dedup();
    let cross = |o: [i64; 2], a: [i64; 2], b: [i64; 2]| (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0]);
    let half = |it: Vec<[i64; 2]>| {
        let mut hl: Vec<[i64; 2]> = vec![];
        for p in it {
            while hl.len() >= 2 && cross(hl[hl.len() - 2], hl[hl.len() - 1], p) <= 0 {
                hl.pop();
            }
            hl.push(p);
        }
        hl
    };
    if pts.len() < 3 {
        return pts;
    }
    let mut lo = half(pts.clone());
    let mut up = half(pts.into_iter().rev().collect());
    lo.pop();
    up.pop();
    lo.extend(up);
    if r.chance(1, 2) {
        lo.reverse();
    }
    let k = r.int(0, lo.len() as i64 - 1) as usize;
    lo.rotate_left(k);
    lo
}
fn volumes(r: &mut Rng) -> Scene {
    if r.chance(1, 3) {
        // floors on top of each other, marked and removed by boxes of any height range
        let (w, h) = (r.int(1, 4), r.int(1, 4));
        let cols: Vec<Value> = (0..w * h)
            .map(|_| {
                let (mut y, mut c) = (r.int(0, 3), vec![]);
                for _ in 0..r.int(0, 4) {
                    c.push(json!([y, y + r.int(1, 2), r.pick(&[1, 1, 2, 0])]));
                    y += r.int(3, 7);
                }
                json!(c)
            })
            .collect();
        let mut ops = vec![json!({"a": "cols", "w": w, "h": h, "cols": cols}), json!({"a": "compact", "h": r.int(1, 3), "c": r.int(0, 2)})];
        for _ in 0..r.int(2, 5) {
            let (x0, z0) = (r.int(-1, w - 1), r.int(-1, h - 1));
            let (x1, z1) = (x0 + r.int(1, w + 1), z0 + r.int(1, h + 1));
            let lo = r.int(-2, 20);
            ops.push(json!({"a": "vol", "v": [[2 * x0, 2 * z0], [2 * x0, 2 * z1], [2 * x1, 2 * z1], [2 * x1, 2 * z0]], "den": 2,
                            "lo": 2 * lo, "hi": 2 * (lo + r.int(1, 20)), "ar": r.pick(&[0, 0, 1, 2, 9, 63])}));
        }
        return ("stack".into(), ops);
    }
    let (mut ops, w, h) = surface(r, 8, 8, true);
    if r.chance(1, 2) {
        // anywhere in the world, at any scale
        ops[0]["cs2"] = json!(r.pick(&[1, 2, 4]));
        ops[0]["ch2"] = json!(r.pick(&[1, 2, 4]));
        ops[0]["org"] = json!((0..3).map(|_| r.int(-50, 50)).collect::<Vec<i64>>());
    }
    for _ in 0..r.int(1, 3) {
        let den = r.pick(&[2, 4, 8]);
        let v = convex(r, den, w, h);
        let lo = r.int(-3 * den, 12 * den);
        let hi = lo + r.int(0, 12 * den);
        ops.push(json!({"a": "vol", "v": v, "den": den, "lo": lo, "hi": hi, "ar": r.pick(&[0, 1, 2, 9, 63])}));
    }
    ("volume".into(), ops)
}

// ---------------------------------------------------------------------------------------------
// regions
pub fn region_ops(r: &mut Rng, ops: &mut Vec<Value>, w: i64, h: i64) {
    if r.chance(1, 5) {
        ops.push(json!({"a": "erode", "r": 1}));
    }
    ops.push(json!({"a": "dist"}));
    let b = r.pick(&[0, 0, 0, 1, 2]).min(w.max(h));
    let min = r.pick(&[0, 0, 3, 6, 10, 20, 200]);
    let mrg = r.pick(&[0, 3, 6, 10, 20, 200]);
    ops.push(json!({"a": "regions", "b": b, "min": min, "mrg": mrg}));
}
pub fn contour_ops(r: &mut Rng, ops: &mut Vec<Value>) {
    let e10 = r.pick(&[0, 5, 10, 13, 13, 20, 30]);
    let len = r.pick(&[0, 0, 2, 3, 5, 12, 300]);
    ops.push(json!({"a": "contours", "e10": e10, "len": len, "fl": r.int(0, 3)}));
}
fn contours(r: &mut Rng) -> Scene {
    let (mut ops, w, h) = if r.chance(1, 3) { surface(r, 10, 10, true) } else { rooms(r, 14, 12) };
    region_ops(r, &mut ops, w, h);
    contour_ops(r, &mut ops);
    if r.chance(1, 3) {
        contour_ops(r, &mut ops);
    }
    ("contours".into(), ops)
}
/// Star-shaped outlines around a centre, some with collinear corners; heights may vary.
fn stars(r: &mut Rng) -> Vec<Value> {
    let mut cs = vec![];
    for k in 0..r.int(1, 3) {
        let n = r.int(3, 14);
        let (cx, cz) = (r.int(8, 20), r.int(8, 20));
        let mut pts: Vec<(i64, i64)> = (0..n).map(|_| (r.int(-7, 7), r.int(-7, 7))).filter(|p| *p != (0, 0)).collect();
        let half = |p: &(i64, i64)| if p.1 < 0 || (p.1 == 0 && p.0 < 0) { 1 } else { 0 };
        pts.sort_by(|a, b| half(a).cmp(&half(b)).then((b.0 * a.1 - b.1 * a.0).cmp(&0)));
        pts.dedup_by(|a, b| a.0 * b.1 - a.1 * b.0 == 0 && a.0 * b.0 + a.1 * b.1 > 0);
        // outlines run against the mathematical sense
        pts.reverse();
        if pts.len() < 3 {
            continue;
        }
        let y = r.int(3, 9);
        let rough = r.pick(&[0, 0, 1, 3]);
        let vs: Vec<Value> = pts.iter().map(|p| json!([cx + p.0, y + r.int(0, rough), cz + p.1, 0])).collect();
        cs.push(json!({"reg": k + 1, "ar": r.int(1, 3), "vs": vs}));
    }
    cs
}
/// A rectangle cut from side to side into strips that share their cuts; the ends of a cut between
/// two strips of one area are superfluous when `flag` is set.
fn strips(r: &mut Rng, flag: bool) -> Vec<Value> {
    let k = r.int(1, 6);
    let (w, h) = (r.int(k + 2, k + 14), r.int(3, 12));
    let mut levels = vec![0];
    for z in 1..h {
        if r.chance(1, 4) {
            levels.push(z);
        }
    }
    levels.push(h);
    // at every level an increasing sequence of cuts
    let rows: Vec<Vec<i64>> = levels
        .iter()
        .map(|_| {
            let mut xs: Vec<i64> = (1..w).collect();
            while xs.len() as i64 > k - 1 {
                let i = r.int(0, xs.len() as i64 - 1) as usize;
                xs.remove(i);
            }
            xs.insert(0, 0);
            xs.push(w);
            xs
        })
        .collect();
    let areas: Vec<i64> = (0..k).map(|_| r.pick(&[1, 1, 1, 2])).collect();
    let gone: Vec<bool> = (0..k).map(|_| r.chance(1, 8)).collect();
    let y = r.int(3, 9);
    // both sides of a cut may see its corners at slightly different heights
    let rough = if flag { r.pick(&[0, 0, 0, 1, 2]) } else { r.pick(&[0, 0, 1, 2, 4]) };
    let swap = r.chance(1, 2);
    // one side of a cut may have corners the other side does not have
    let tee = r.chance(1, 5);
    let mut cs = vec![];
    for i in 0..k as usize {
        if gone[i] {
            continue;
        }
        let cut = |c: usize, up: bool| {
            let inner = c > 0 && c < k as usize && !gone[c - 1] && !gone[c] && areas[c - 1] == areas[c];
            let mut vs: Vec<(i64, i64, i64)> = levels
                .iter()
                .zip(&rows)
                .enumerate()
                .map(|(j, (z, row))| (row[c], *z, if flag && inner && (j == 0 || j + 1 == levels.len()) { 65536 } else { 0 }))
                .collect();
            if !up {
                vs.reverse();
            }
            vs
        };
        // up the left cut, down the right one
        let mut vs = cut(i, true);
        if tee && i > 0 {
            for j in (1..vs.len()).rev() {
                let (a, b) = (vs[j - 1], vs[j]);
                if a.0 == b.0 && b.1 - a.1 >= 2 {
                    vs.insert(j, (a.0, (a.1 + b.1) / 2, 0));
                }
            }
        }
        vs.extend(cut(i + 1, false));
        if r.chance(1, 2) {
            vs.rotate_left(1);
        }
        if swap {
            // mirrored on the diagonal: the other two sides
            vs = vs.into_iter().map(|(a, b, f)| (b, a, f)).rev().collect();
        }
        let vs: Vec<Value> = vs.into_iter().map(|(a, b, f)| json!([a, y + r.int(0, rough), b, f])).collect();
        cs.push(json!({"reg": i + 1, "ar": areas[i], "vs": vs}));
    }
    let (w, h) = if swap { (h, w) } else { (w, h) };
    vec![json!({"a": "cset", "w": w, "h": h, "b": if flag { r.int(1, 3) } else { r.int(0, 1) }, "cs": cs})]
}
fn polygons(r: &mut Rng, prop: &str) -> Scene {
    let nvp = r.pick(&[3, 4, 5, 6, 6, 6, 8, 12]);
    if prop == "C18" && r.chance(1, 2) || r.chance(1, 6) {
        let mut ops = strips(r, prop == "C18");
        ops.push(json!({"a": "poly", "nvp": nvp}));
        return ("strips".into(), ops);
    }
    if prop == "C16" && r.chance(1, 3) {
        let cs = stars(r);
        let ops = vec![json!({"a": "cset", "w": 32, "h": 32, "b": 0, "cs": cs}), json!({"a": "poly", "nvp": nvp})];
        return ("stars".into(), ops);
    }
    let (mut ops, w, h) = match r.int(0, 2) {
        0 => surface(r, 10, 10, true),
        _ => rooms(r, 16, 14),
    };
    if r.chance(1, 6) {
        ops.push(json!({"a": "erode", "r": 1}));
    }
    ops.push(json!({"a": "dist"}));
    let b = match prop {
        "C18" => r.pick(&[1, 1, 2, 3]),
        "C17" => r.pick(&[0, 1, 2]),
        _ => r.pick(&[0, 0, 0, 1]),
    }
    .min(w.min(h) / 2);
    ops.push(json!({"a": "regions", "b": b, "min": r.pick(&[0, 0, 3, 10]), "mrg": r.pick(&[0, 0, 3, 10, 30])}));
    if r.chance(1, 2) {
        ops.push(json!({"a": "contours", "e10": r.pick(&[0, 5, 10, 13]), "len": r.pick(&[0, 2, 3, 12]), "fl": r.int(0, 3)}));
    } else {
        contour_ops(r, &mut ops);
    }
    ops.push(json!({"a": "poly", "nvp": nvp}));
    ("poly".into(), ops)
}
/// Uneven ground: a base surface raised by bumps, ramps and terraces that stay climbable.
fn terrain(r: &mut Rng, maxw: i64, maxh: i64, climb: i64) -> (Vec<Value>, i64, i64) {
    // sometimes a long strip
    let long = r.chance(1, 12);
    let (w, h) = if long { (r.int(30, 42), r.int(4, 8)) } else { (r.int(4, maxw), r.int(4, maxh)) };
    let bumps: Vec<[i64; 4]> = (0..r.int(0, 4)).map(|_| [r.int(0, w - 1), r.int(0, h - 1), r.int(1, 5), r.int(-5, 7)]).collect();
    let (sx, sz) = (r.int(-2, 2), r.int(-2, 2));
    let holes: Vec<[i64; 4]> = (0..r.int(0, 3)).map(|_| [r.int(0, w - 1), r.int(0, h - 1), r.int(1, 3), r.int(1, 3)]).collect();
    let noise = r.pick(&[0, 0, 0, 1]);
    let deck = r.chance(1, 4);
    let two = r.chance(1, 5);
    let (dx, dz) = (r.int(0, w - 1), r.int(0, h - 1));
    let mut cols: Vec<Vec<[i64; 3]>> = vec![];
    for z in 0..h {
        for x in 0..w {
            let mut y = 40 + (sx * x + sz * z) / 2 + r.int(0, noise);
            for b in &bumps {
                // pyramids and cones whose sides rise by at most `climb` per cell
                let d = (x - b[0]).abs().max((z - b[1]).abs());
                if d < b[2] {
                    y += (b[3].abs()).min(climb * (b[2] - d)) * b[3].signum();
                }
            }
            let blocked = holes.iter().any(|q| x >= q[0] && x < q[0] + q[2] && z >= q[1] && z < q[1] + q[3]);
            let mut col = vec![];
            if !blocked {
                col.push([0, y, if two && x > w / 2 { 2 } else { 1 }]);
            } else if r.chance(1, 2) {
                col.push([0, y + 6, 0]);
            }
            if deck && x >= dx && z >= dz {
                let top = col.last().map(|s| s[1]).unwrap_or(y);
                col.push([top + 5, top + 6, 1]);
            }
            cols.push(col);
        }
    }
    let mut c = json!({"a": "cols", "w": w, "h": h, "cols": cols});
    if r.chance(1, 2) {
        c["cs2"] = json!(r.pick(&[1, 2, 3, 4]));
        c["ch2"] = json!(r.pick(&[1, 2, 3, 4]));
        c["org"] = json!([r.int(-40, 40), r.int(-40, 40), r.int(-40, 40)]);
    }
    (vec![c, json!({"a": "compact", "h": 3, "c": climb})], w, h)
}
fn details(r: &mut Rng, prop: &str) -> Scene {
    let climb = r.int(1, 3);
    let (mut ops, w, h) = match r.int(0, 5) {
        0 => surface(r, 12, 12, true),
        1 => rooms(r, 16, 14),
        _ => terrain(r, 18, 16, climb),
    };
    if r.chance(1, 6) {
        ops.push(json!({"a": "erode", "r": 1}));
    }
    ops.push(json!({"a": "dist"}));
    let b = r.pick(&[0, 0, 0, 1, 2]).min(w.min(h) / 2);
    ops.push(json!({"a": "regions", "b": b, "min": r.pick(&[0, 0, 3, 10]), "mrg": r.pick(&[0, 3, 30, 200])}));
    ops.push(json!({"a": "contours", "e10": r.pick(&[0, 5, 10, 13, 20]), "len": r.pick(&[0, 0, 3, 12]), "fl": r.int(0, 3)}));
    ops.push(json!({"a": "poly", "nvp": r.pick(&[3, 4, 6, 6, 6, 8])}));
    let flat = prop == "C19" && r.chance(1, 6);
    ops.push(json!({"a": "detail", "sd2": if flat { 0 } else { r.pick(&[2, 2, 3, 4, 6, 8, 12]) }, "se8": r.pick(&[0, 2, 4, 8, 8, 12, 16, 40])}));
    ("detail".into(), ops)
}
fn regions(r: &mut Rng) -> Scene {
    let (mut ops, w, h) = match r.int(0, 24) {
        0..=5 => surface(r, 8, 8, true),
        6..=11 => rooms(r, 14, 12),
        24 => {
            let (mut ops, _, _) = spiral(r);
            ops.push(json!({"a": "dist"}));
            ops.push(json!({"a": "regions", "b": 0, "min": r.pick(&[0, 0, 30]), "mrg": r.pick(&[60, 100, 400])}));
            return ("spiral".into(), ops);
        }
        12..=17 => {
            let (mut ops, _, _) = islands(r);
            ops.push(json!({"a": "dist"}));
            ops.push(json!({"a": "regions", "b": r.pick(&[0, 1, 1, 2]), "min": r.pick(&[10, 40, 200]), "mrg": r.pick(&[0, 0, 3, 20])}));
            return ("islands".into(), ops);
        }
        _ => surface(r, 12, 12, true),
    };
    region_ops(r, &mut ops, w, h);
    ("regions".into(), ops)
}
/// A stairwell: flat rooms above each other on one side, rooms that climb to the next floor on the
/// other side, joined by doors; a chain of rooms joins rooms that lie above each other. The rooms
/// are wide enough to be regions of their own before merging.
fn spiral(r: &mut Rng) -> (Vec<Value>, i64, i64) {
    let (wa, wb, h) = (r.int(7, 8), r.int(7, 8), 8);
    let w = wa + 1 + wb;
    let mut cols: Vec<Vec<[i64; 3]>> = vec![vec![]; (w * h) as usize];
    let mut put = |x: i64, z: i64, y: i64| cols[(x + z * w) as usize].push([y - 1, y, 1]);
    let flip = r.chance(1, 2);
    let ramp = |z: i64| (if flip { h - 1 - z } else { z }) * 4 / (h - 1);
    let (low, high) = if flip { (h - 1, 0) } else { (0, h - 1) };
    for k in 0..r.int(3, 4) {
        let y = 2 + 4 * (k / 2);
        if k % 2 == 0 {
            let short = r.int(0, 1);
            for z in 0..h {
                for x in short..wa {
                    put(x, z, y);
                }
            }
            put(wa, low, y);
        } else {
            for z in 0..h {
                for x in wa + 1..w {
                    put(x, z, y + ramp(z));
                }
            }
            put(wa, high, y + 4);
        }
    }
    (vec![json!({"a": "cols", "w": w, "h": h, "cols": cols}), json!({"a": "compact", "h": 3, "c": 1})], w, h)
}
/// Flat islands in several areas, some reaching the rim of the field.
fn islands(r: &mut Rng) -> (Vec<Value>, i64, i64) {
    let (w, h) = (r.int(8, 16), r.int(8, 14));
    let mut area = vec![0i64; (w * h) as usize];
    for _ in 0..r.int(1, 3) {
        // a block cut into stripes of different areas
        let (x0, z0) = (r.int(0, w - 5), r.int(0, h - 5));
        let (x1, z1) = ((x0 + r.int(5, 13)).min(w), (z0 + r.int(4, 8)).min(h));
        let (step, flip, first) = (r.int(3, 7), r.chance(1, 2), r.int(0, 2));
        for z in z0..z1 {
            for x in x0..x1 {
                let k = if flip { (z - z0) / step } else { (x - x0) / step };
                area[(x + z * w) as usize] = 1 + (k + first) % 3;
            }
        }
    }
    let cols: Vec<Value> = area.iter().map(|a| if *a == 0 { json!([]) } else { json!([[0, 5, a]]) }).collect();
    (vec![json!({"a": "cols", "w": w, "h": h, "cols": cols}), json!({"a": "compact", "h": 3, "c": 1})], w, h)
}
/// Flat rooms separated by walls with narrow doors, some rooms of another area, sometimes a
/// second floor above part of it: several regions with necks, islands and stacked neighbours.
pub fn rooms(r: &mut Rng, maxw: i64, maxh: i64) -> (Vec<Value>, i64, i64) {
    let (w, h) = (r.int(5, maxw), r.int(5, maxh));
    let (a, c) = (3, 1);
    let mut area = vec![vec![1i64; w as usize]; h as usize];
    for _ in 0..r.int(0, 3) {
        // a wall with a door
        let door = r.int(0, 3);
        if r.chance(1, 2) {
            let x = r.int(1, w - 2);
            let d = r.int(0, h - 1);
            for z in 0..h {
                if (z - d).abs() >= door {
                    area[z as usize][x as usize] = 0;
                }
            }
        } else {
            let z = r.int(1, h - 2);
            let d = r.int(0, w - 1);
            for x in 0..w {
                if (x - d).abs() >= door {
                    area[z as usize][x as usize] = 0;
                }
            }
        }
    }
    for _ in 0..r.int(0, 3) {
        // a patch of another area or an island obstacle
        let (x0, z0) = (r.int(0, w - 2), r.int(0, h - 2));
        let v = r.pick(&[0, 0, 2, 3, 1]);
        for z in z0..(z0 + r.int(1, 5)).min(h) {
            for x in x0..(x0 + r.int(1, 5)).min(w) {
                area[z as usize][x as usize] = v;
            }
        }
    }
    let deck = r.chance(1, 4);
    let (dx, dz) = (r.int(0, w - 1), r.int(0, h - 1));
    let ramp = r.pick(&[0, 0, 0, 1]);
    let mut cols: Vec<Vec<[i64; 3]>> = vec![];
    for z in 0..h {
        for x in 0..w {
            let mut col = vec![];
            let y = 5 + ramp * x;
            let v = area[z as usize][x as usize];
            if v != 0 {
                col.push([0, y, v]);
            } else if r.chance(1, 2) {
                col.push([0, y + 3, 0]);
            }
            if deck && x >= dx && z >= dz {
                let top = col.last().map(|s| s[1]).unwrap_or(0).max(y);
                col.push([top + 5, top + 6, 1]);
            }
            cols.push(col);
        }
    }
    (vec![json!({"a": "cols", "w": w, "h": h, "cols": cols}), json!({"a": "compact", "h": a, "c": c})], w, h)
}

// ---------------------------------------------------------------------------------------------
// C26, C27: fields built from bounds, filled from whole meshes
/// Bounds with about w x h cells, not always a whole number of them.
fn build_op(r: &mut Rng, w: i64, h: i64, top: i64, any_scale: bool) -> (Value, i64, i64) {
    let cs2 = if any_scale { r.pick(&[1, 2, 3, 4, 5, 8]) } else { r.pick(&[1, 2, 4]) };
    let ch2 = if any_scale { r.pick(&[1, 2, 3, 4, 7]) } else { r.pick(&[1, 2, 4]) };
    let lo: Vec<i64> = (0..3).map(|_| if r.chance(2, 3) { 0 } else { r.int(-60, 60) }).collect();
    let ragged = |r: &mut Rng, n: i64| (n * 2 * cs2 + if r.chance(1, 3) { r.int(-cs2, cs2 - 1) } else { 0 }).max(0);
    let (ex, ez) = (ragged(r, w), ragged(r, h));
    let hi = [lo[0] + ex, lo[1] + top * 2 * ch2, lo[2] + ez];
    let n = |e: i64| (e + cs2) / (2 * cs2);
    (json!({"a": "build", "lo": lo, "hi": hi, "cs2": cs2, "ch2": ch2, "ctr": r.int(0, 1)}), n(ex), n(ez))
}
fn frames(r: &mut Rng) -> Scene {
    if r.chance(1, 6) {
        // the builder alone, with any bounds
        let mut ops = vec![];
        for _ in 0..4 {
            let lo: Vec<i64> = (0..3).map(|_| r.int(-40, 40)).collect();
            let e: Vec<i64> = (0..3).map(|_| if r.chance(2, 3) { r.int(0, 3) } else { r.int(0, 60) }).collect();
            let hi: Vec<i64> = (0..3).map(|k| lo[k] + e[k]).collect();
            ops.push(json!({"a": "build", "lo": lo, "hi": hi, "cs2": r.int(1, 9), "ch2": r.int(1, 9), "ctr": r.int(0, 1)}));
        }
        if r.chance(1, 3) {
            let long = r.pick(&[65534, 65535, 65536, 65537, 90000]) * 2 + r.pick(&[-1, 0]);
            let short = r.int(0, 3);
            let e = if r.chance(1, 2) { [long, 8, short] } else { [short, 8, long] };
            ops.push(json!({"a": "build", "lo": [0, 0, 0], "hi": e, "cs2": 1, "ch2": 1, "ctr": 0}));
        }
        return ("bounds".into(), ops);
    }
    let (w, h) = (r.int(1, 12), r.int(1, 12));
    let mut ops;
    if r.chance(1, 2) {
        let (b, w, h) = build_op(r, w, h, 40, false);
        ops = vec![b];
        let mut items = vec![];
        let y = r.int(0, 8);
        items.push(json!({"x0": 0, "z0": 0, "x1": w.max(1), "z1": h.max(1), "lo": y, "hi": y, "ar": 1, "k": 0}));
        for _ in 0..r.int(0, 4) {
            let (x, z) = (r.int(0, w.max(1) - 1), r.int(0, h.max(1) - 1));
            items.push(json!({"x0": x, "z0": z, "x1": x, "z1": z, "lo": y + r.int(0, 4), "hi": y + r.int(4, 9), "ar": r.int(0, 1), "k": 0}));
        }
        ops.push(json!({"a": "pop", "items": items, "sh": r.int(0, 9), "h": 3, "c": 1, "all": 0}));
        ops.push(json!({"a": "compact", "h": r.int(0, 6), "c": r.int(0, 2)}));
    } else {
        let (o, _, _) = if r.chance(1, 2) { surface(r, w, h, true) } else { rooms(r, 14, 12) };
        ops = o;
        // field in any place, of any scale
        let org: Vec<i64> = (0..3).map(|_| r.int(-50, 50)).collect();
        ops[0]["cs2"] = json!(r.int(1, 7));
        ops[0]["ch2"] = json!(r.int(1, 7));
        ops[0]["org"] = json!(org);
    }
    if r.chance(1, 8) {
        // contours before there are any regions
        contour_ops(r, &mut ops);
    }
    ops.push(json!({"a": "dist"}));
    let b = r.pick(&[0, 0, 1, 1, 2, 3, 5, 30]);
    ops.push(json!({"a": "regions", "b": b, "min": r.pick(&[0, 3, 9]), "mrg": r.pick(&[0, 10])}));
    contour_ops(r, &mut ops);
    ops.push(json!({"a": "poly", "nvp": r.int(3, 7)}));
    ("frame".into(), ops)
}
fn item(r: &mut Rng, w: i64, h: i64, top: i64) -> Value {
    let ar = r.pick(&[0, 0, 1, 1, 2, 63]);
    let y = if r.chance(1, 15) { r.pick(&[-3, top + 2]) } else { r.int(0, top - 1) };
    if r.chance(1, 3) {
        // flat, over several cells, partly outside
        let (x0, z0) = (r.int(-2, w - 1), r.int(-2, h - 1));
        let (x1, z1) = (x0 + r.int(0, w + 1), z0 + r.int(0, h + 1));
        let (x1, z1) = if x0 == x1 && z0 == z1 { (x1 + 1, z1) } else { (x1, z1) };
        json!({"x0": x0, "z0": z0, "x1": x1, "z1": z1, "lo": y, "hi": y, "ar": ar, "k": r.int(0, 1)})
    } else {
        let (x, z) = (r.int(0, w - 1), r.int(0, h - 1));
        let hi = if y < 0 || y > top { y } else { (y + r.pick(&[0, 0, 1, 1, 2, 5])).min(top) };
        json!({"x0": x, "z0": z, "x1": x, "z1": z, "lo": y, "hi": hi, "ar": ar, "k": r.int(0, 2)})
    }
}
fn fills(r: &mut Rng) -> Scene {
    let mut ops = vec![];
    let vs: Vec<Vec<i64>> = (0..r.int(0, 6)).map(|_| (0..3).map(|_| r.int(-90, 90)).collect()).collect();
    let tri = |r: &mut Rng| { let n = vs.len() as i64; vec![r.int(0, n - 1), r.int(0, n - 1), r.int(0, n - 1)] };
    let is: Vec<_> = if vs.is_empty() { vec![] } else { (0..r.int(0, 2)).map(|_| tri(r)).collect() };
    ops.push(json!({"a": "bounds", "m": {"vs": vs, "is": is, "ar": is.iter().map(|_| 1).collect::<Vec<_>>()}}));
    let top = r.int(4, 24);
    let (w, h) = (r.int(1, 6), r.int(1, 6));
    let (b, w, h) = build_op(r, w, h, top, false);
    ops.push(b);
    for _ in 0..r.int(1, 2) {
        let n = r.pick(&[0, 1, 3, 8, 20]);
        let items: Vec<Value> = (0..n).map(|_| item(r, w.max(1), h.max(1), top)).collect();
        ops.push(json!({"a": "pop", "items": items, "sh": r.int(0, 40), "h": r.int(0, 5), "c": r.int(0, 4), "all": r.pick(&[0, 1, 1])}));
    }
    ops.push(json!({"a": "lowest"}));
    ("fill".into(), ops)
}

// ---------------------------------------------------------------------------------------------
// C28: behaviours of the other families, saved and loaded on the way
fn saved(r: &mut Rng) -> Scene {
    let (id, ops) = match r.int(0, 13) {
        0 => column_history(r),
        1 => raster(r),
        2 => appends(r),
        3 => slopes(r),
        4 => compaction(r),
        5 => erosion(r),
        6 => volumes(r),
        7 => fills(r),
        8 | 9 => frames(r),
        10 => contours(r),
        11 => polygons(r, "C16"),
        12 => details(r, "C20"),
        _ => details(r, "C19"),
    };
    let mut out: Vec<Value> = vec![];
    let mut have: Vec<&str> = vec![];
    let n = ops.len();
    let often = r.pick(&[1, 2, 4]);
    for (i, op) in ops.into_iter().enumerate() {
        let k = match op["a"].as_str().unwrap() {
            "new" | "field" | "cols" | "build" => "hf",
            "compact" => "chf",
            "poly" => "pm",
            "detail" => "dm",
            "mesh" => "mesh",
            _ => "",
        };
        if k != "" && !have.contains(&k) {
            have.push(k);
        }
        out.push(op);
        if !have.is_empty() && (i + 1 == n || r.chance(1, often)) {
            let what: Vec<&str> = if i + 1 == n { have.clone() } else { vec![r.pick(&have)] };
            for w in what {
                out.push(json!({"a": "save", "what": w, "form": r.int(0, 2)}));
            }
        }
    }
    (format!("saved {id}"), out)
}
