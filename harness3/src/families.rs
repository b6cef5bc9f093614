//! Random sessions with the editor: scenes loaded, navmeshes built, pictures switched on and off.
use crate::families2;
use crate::rng::Rng;
use serde_json::{Value, json};

pub type Scene = (String, Vec<Value>);

pub fn scenes(prop: &str, seed: u64, count: usize) -> Vec<Scene> {
    (0..count)
        .map(|i| {
            let salt = prop.bytes().fold(7u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64));
            let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i as u64).wrapping_add(salt << 20));
            ("session".to_string(), session(&mut r))
        })
        .collect()
}

/// Quarter turns about the vertical (rows of the matrix), a scale in eighths and a shift in whole units.
fn placed(r: &mut Rng, k: i64, vs: &[[i64; 3]]) -> (Value, Vec<Value>) {
    let (c, s) = r.pick(&[(1, 0), (0, 1), (-1, 0), (0, -1)]);
    let scale8 = r.pick(&[8, 8, 4, 16]);
    let t = [k, r.int(-9, 9), r.int(-9, 9)];
    // columns: images of the axes
    let tf = json!([c * scale8, 0, -s * scale8, 0, scale8, 0, s * scale8, 0, c * scale8, 8 * t[0], 8 * t[1], 8 * t[2]]);
    let local = vs
        .iter()
        .map(|v| {
            let d: Vec<i64> = (0..3).map(|i| (v[i] - 1000 * t[i]) * 8 / scale8).collect();
            // the transposed rotation
            json!([c * d[0] - s * d[2], d[1], s * d[0] + c * d[2]])
        })
        .collect();
    (tf, local)
}
fn solid(lo: [i64; 3], hi: [i64; 3]) -> (Vec<[i64; 3]>, Vec<[i64; 3]>) {
    let p = |x: bool, y: bool, z: bool| [if x { hi[0] } else { lo[0] }, if y { hi[1] } else { lo[1] }, if z { hi[2] } else { lo[2] }];
    let vs = vec![
        p(false, false, false), p(true, false, false), p(true, false, true), p(false, false, true),
        p(false, true, false), p(true, true, false), p(true, true, true), p(false, true, true),
    ];
    let is = vec![
        [4, 7, 6], [4, 6, 5], [0, 1, 2], [0, 2, 3], [0, 4, 5], [0, 5, 1], [1, 5, 6], [1, 6, 2], [2, 6, 7], [2, 7, 3], [3, 7, 4], [3, 4, 0],
    ];
    (vs, is)
}
/// A floor and boxes on it, no corner of which lies near a boundary of a cell of the navmesh (0.3 wide, 0.2 high).
fn land(r: &mut Rng) -> Vec<Value> {
    let mut out = vec![];
    if r.chance(1, 12) {
        return out;
    }
    let (nx, nz) = (r.int(14, 44), r.int(14, 44));
    let base = [r.int(-9, 9) * 1000, r.int(-3, 3) * 1000, r.int(-9, 9) * 1000];
    let at = |x: i64, y: i64, z: i64| [base[0] + 300 * x + 75, base[1] + 200 * y + 100, base[2] + 300 * z + 75];
    let mut parts: Vec<(Vec<[i64; 3]>, Vec<[i64; 3]>)> = vec![];
    let far = at(nx, 0, nz);
    parts.push((vec![base, [far[0], base[1], base[2]], [far[0], base[1], far[2]], [base[0], base[1], far[2]]], vec![[0, 2, 1], [0, 3, 2]]));
    for _ in 0..r.int(0, 4) {
        let (x, z) = (r.int(0, nx - 2), r.int(0, nz - 2));
        let (a, b) = (r.int(1, (nx - x).min(14)), r.int(1, (nz - z).min(14)));
        let y = r.pick(&[0, 0, 0, 2, 12]);
        parts.push(solid(at(x, y, z), at((x + a).min(nx - 1).max(x + 1), y + r.pick(&[1, 2, 3, 6, 14]), (z + b).min(nz - 1).max(z + 1))));
    }
    for (k, (vs, is)) in parts.into_iter().enumerate() {
        let (tf, vs) = placed(r, k as i64, &vs);
        out.push(json!({"tf": tf, "mesh": {"vs": vs, "is": is, "ar": is.iter().map(|_| 0).collect::<Vec<_>>()}}));
    }
    out
}
fn scene(r: &mut Rng) -> Value {
    let mut s = families2::scene(r);
    for (k, e) in s["ents"].as_array_mut().unwrap().iter_mut().enumerate() {
        let (tf, _) = placed(r, k as i64, &[]);
        e["tf"] = tf;
    }
    s["aff"] = json!(land(r));
    s
}
pub fn plan() -> Value {
    json!([["slope", 45], ["field", 300, 200], ["raster", 4], ["low", 4], ["ledge", 10, 4], ["head", 10], ["compact", 10, 4], ["erode", 2],
           ["dist"], ["regions", 5, 64, 400], ["contours", 13, 40, 1], ["poly", 6], ["detail", 1800, 200]])
}
fn session(r: &mut Rng) -> Vec<Value> {
    let mut ops = vec![json!({"a": "eopen"})];
    let frame = json!({"a": "eframe"});
    if r.chance(4, 5) {
        ops.push(frame.clone());
    }
    for _ in 0..r.int(3, 9) {
        match r.int(0, 9) {
            0..=2 => {
                let srv = if r.chance(5, 6) { 1 } else { r.pick(&[0, 2, 3, 4]) };
                ops.push(json!({"a": "efetch", "srv": srv, "scene": scene(r)}));
                ops.push(frame.clone());
            }
            3..=4 => ops.push(json!({"a": "ebuild", "plan": plan()})),
            _ => ops.push(json!({"a": "etoggle", "k": r.pick(&["visual", "affector", "poly", "poly", "detail"])})),
        }
        if r.chance(3, 4) {
            ops.push(frame.clone());
        }
    }
    ops.push(frame);
    ops
}
