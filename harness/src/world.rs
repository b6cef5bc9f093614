//! Executes abstract operations (the actions of spec/Recast.tla) on the real crate and projects
//! the resulting state back to integers.
use glam::{Vec2, Vec3, Vec3A};
use rerecast::*;
use serde_json::{Value, json};

#[derive(Default, Clone, Debug)]
pub struct World {
    pub hf: Option<Heightfield>,
    pub chf: Option<CompactHeightfield>,
    pub cset: Option<ContourSet>,
    pub pm: Option<PolygonNavmesh>,
    pub dm: Option<DetailNavmesh>,
    pub mesh: TriMesh,
    /// The world as it would be had nothing been saved and loaded.
    twin: Option<Box<World>>,
    apart: bool,
}

/// Saved as text or as a tree of values, and loaded again; whether the loaded value is the saved one.
fn reload<T: serde::Serialize + serde::de::DeserializeOwned + std::fmt::Debug>(x: &mut T, form: i64, strict: bool) -> Result<bool, String> {
    let err = |e: serde_json::Error| format!("err:{e}");
    let text = serde_json::to_string(x).map_err(err)?;
    let y: T = match form {
        0 => serde_json::from_str(&text).map_err(err)?,
        1 => serde_json::from_value(serde_json::to_value(&*x).map_err(err)?).map_err(err)?,
        _ => serde_json::from_reader(serde_json::to_vec_pretty(x).map_err(err)?.as_slice()).map_err(err)?,
    };
    let same = (!strict || format!("{x:?}") == format!("{y:?}")) && text == serde_json::to_string(&y).map_err(err)?;
    *x = y;
    Ok(same)
}

pub fn gi(v: &Value, k: &str) -> i64 {
    v[k].as_i64().unwrap_or_else(|| panic!("HARNESS: missing int {k} in {v}"))
}
fn gf(v: &Value, k: &str) -> f32 {
    v[k].as_f64().unwrap_or_else(|| panic!("HARNESS: missing num {k} in {v}")) as f32
}
pub fn arr<'a>(v: &'a Value) -> &'a Vec<Value> {
    v.as_array().unwrap_or_else(|| panic!("HARNESS: not an array: {v}"))
}
fn iv(v: &Value) -> i64 {
    v.as_i64().unwrap_or_else(|| panic!("HARNESS: not an int: {v}"))
}

pub fn column(hf: &Heightfield, idx: usize) -> Value {
    let mut out = vec![];
    let mut k = hf.spans[idx];
    let mut n = 0;
    while let Some(key) = k {
        let Some(s) = hf.allocated_spans.get(key) else {
            out.push(json!([-1, -1, -1]));
            break;
        };
        out.push(json!([s.min, s.max, s.area.0]));
        k = s.next;
        n += 1;
        if n > 100_000 {
            out.push(json!([-2, -2, -2]));
            break;
        }
    }
    Value::Array(out)
}
pub fn solid(hf: &Heightfield) -> Value {
    Value::Array((0..hf.spans.len()).map(|i| column(hf, i)).collect())
}
pub fn heightfield_from_cols(w: u16, h: u16, cols: &Value, ymax: f32) -> Heightfield {
    let mut hf = new_field(w as i64, h as i64, ymax, [0.0; 3], 1.0, 1.0);
    for (i, c) in arr(cols).iter().enumerate() {
        let mut next = None;
        for s in arr(c).iter().rev() {
            let key = hf.allocated_spans.insert(Span {
                min: iv(&s[0]) as u16,
                max: iv(&s[1]) as u16,
                area: AreaType(iv(&s[2]) as u8),
                next,
            });
            next = Some(key);
        }
        hf.spans[i] = next;
    }
    hf
}
/// A point given in cells of the field.
fn placed(hf: &Heightfield, x: f32, y: f32, z: f32) -> Vec3A {
    Vec3A::from(hf.aabb.min) + Vec3A::new(x * hf.cell_size, y * hf.cell_height, z * hf.cell_size)
}
fn new_field(w: i64, h: i64, ymax: f32, org: [f32; 3], cs: f32, ch: f32) -> Heightfield {
    let min = Vec3::from(org);
    let max = min + Vec3::new(w as f32 * cs, ymax, h as f32 * cs);
    HeightfieldBuilder { aabb: Aabb3d { min, max }, cell_size: cs, cell_height: ch }
        .build()
        .unwrap_or_else(|e| panic!("build: {e}"))
}

pub fn chf_geom(c: &CompactHeightfield) -> Value {
    let first: Vec<u32> = c.cells.iter().map(|c| c.index()).collect();
    let cnt: Vec<u8> = c.cells.iter().map(|c| c.count()).collect();
    let sp: Vec<Value> = c
        .spans
        .iter()
        .map(|s| {
            let con = |d| s.con(d).map(|v| v as i64).unwrap_or(-1);
            json!([s.y, s.height(), con(0), con(1), con(2), con(3)])
        })
        .collect();
    json!({"w": c.width, "h": c.height, "first": first, "cnt": cnt, "sp": sp,
           "wh": c.walkable_height, "wc": c.walkable_climb, "fr": frame(&c.aabb, c.cell_size, c.cell_height)})
}
/// Where a product of the pipeline lies in the world, in quarters of a unit.
fn frame(b: &Aabb3d, cs: f32, ch: f32) -> Value {
    let q = |v: f32| {
        let w = v as f64 * 4.0;
        if w.fract() == 0.0 && w.abs() < 1e9 { w as i64 } else { -999_999_999 }
    };
    json!({"lo": [q(b.min.x), q(b.min.y), q(b.min.z)], "hi": [q(b.max.x), q(b.max.y), q(b.max.z)], "cs": q(cs), "ch": q(ch)})
}
pub fn areas(c: &CompactHeightfield) -> Value {
    json!(c.areas.iter().map(|a| a.0).collect::<Vec<_>>())
}
pub fn regs(c: &CompactHeightfield) -> Value {
    json!(c.spans.iter().map(|s| s.region.bits()).collect::<Vec<_>>())
}
/// Everything of the compact heightfield except what `skip` names.
fn chf_rest(c: &CompactHeightfield, skip: &str) -> String {
    let mut v = vec![];
    v.push(chf_geom(c).to_string());
    if skip != "ar" {
        v.push(areas(c).to_string());
    }
    if skip != "dist" {
        v.push(format!("{:?}{}", c.dist, c.max_distance));
    }
    if skip != "reg" {
        v.push(format!("{}{:?}{}", regs(c), c.max_region, c.border_size));
    }
    v.push(format!("{:?}{}{}", c.aabb, c.cell_size, c.cell_height));
    v.join("|")
}

pub fn cset_json(cs: &ContourSet) -> Value {
    let conts: Vec<Value> = cs
        .contours
        .iter()
        .map(|c| {
            json!({
                "reg": c.region.bits(), "ar": c.area.0,
                "raw": c.raw_vertices.iter().map(|(v, r)| json!([v.x, v.y, v.z, r.bits()])).collect::<Vec<_>>(),
                "vs": c.vertices.iter().map(|(v, r)| json!([v.x, v.y, v.z, r])).collect::<Vec<_>>(),
            })
        })
        .collect();
    json!({"w": cs.width, "h": cs.height, "bs": cs.border_size, "cs": conts,
           "fr": frame(&cs.aabb, cs.cell_size, cs.cell_height), "e10": (cs.max_error * 10.0).round() as i64})
}
pub fn pm_json(m: &PolygonNavmesh) -> Value {
    json!({
        "nvp": m.max_vertices_per_polygon,
        "vs": m.vertices.iter().map(|v| json!([v.x, v.y, v.z])).collect::<Vec<_>>(),
        "ps": m.polygons.chunks(m.max_vertices_per_polygon as usize).map(|c| json!(c)).collect::<Vec<_>>(),
        "ns": m.polygon_neighbors.chunks(m.max_vertices_per_polygon as usize).map(|c| json!(c)).collect::<Vec<_>>(),
        "rg": m.regions.iter().map(|r| r.bits()).collect::<Vec<_>>(),
        "ar": m.areas.iter().map(|a| a.0).collect::<Vec<_>>(),
        "fl": m.flags, "bs": m.border_size,
        "fr": frame(&m.aabb, m.cell_size, m.cell_height), "e10": (m.max_edge_error * 10.0).round() as i64,
        "pc": m.polygon_count(), "it": m.polygons().map(|p| p.collect::<Vec<_>>()).collect::<Vec<_>>(),
    })
}

/// Vertices relative to the origin of the polygon mesh: x and z in thousandths of a cell, y in
/// hundredths of a cell height.
pub fn dm_json(d: &DetailNavmesh, c: &CompactHeightfield) -> Value {
    let b = c.border_size as f32 * c.cell_size;
    let o = c.aabb.min + Vec3::new(b, 0.0, b);
    let fix = |v: f32, unit: f32, k: f32| (v / unit * k).round() as i64;
    json!({
        "ms": d.meshes.iter().map(|m| json!([m.base_vertex_index, m.vertex_count, m.base_triangle_index, m.triangle_count])).collect::<Vec<_>>(),
        "vs": d.vertices.iter().map(|v| json!([fix(v.x - o.x, c.cell_size, 1000.0), fix(v.y - o.y, c.cell_height, 100.0), fix(v.z - o.z, c.cell_size, 1000.0)])).collect::<Vec<_>>(),
        "ts": d.triangles, "fl": d.triangle_flags,
    })
}

fn mesh_json(m: &TriMesh) -> Value {
    json!({
        "vs": m.vertices.iter().map(|v| json!([v.x as i64, v.y as i64, v.z as i64])).collect::<Vec<_>>(),
        "is": m.indices.iter().map(|t| json!([t.x, t.y, t.z])).collect::<Vec<_>>(),
        "ar": m.area_types.iter().map(|a| a.0).collect::<Vec<_>>(),
    })
}
pub fn mesh_from(v: &Value, scale: f32) -> TriMesh {
    TriMesh {
        vertices: arr(&v["vs"])
            .iter()
            .map(|p| Vec3A::new(iv(&p[0]) as f32 * scale, iv(&p[1]) as f32 * scale, iv(&p[2]) as f32 * scale))
            .collect(),
        indices: arr(&v["is"])
            .iter()
            .map(|t| glam::UVec3::new(iv(&t[0]) as u32, iv(&t[1]) as u32, iv(&t[2]) as u32))
            .collect(),
        area_types: arr(&v["ar"]).iter().map(|a| AreaType(iv(a) as u8)).collect(),
    }
}

impl World {
    fn chf(&mut self) -> &mut CompactHeightfield {
        self.chf.as_mut().expect("HARNESS: no compact heightfield")
    }
    fn hf(&mut self) -> &mut Heightfield {
        self.hf.as_mut().expect("HARNESS: no heightfield")
    }

    /// Runs one operation; returns (res, post).
    pub fn exec(&mut self, op: &Value) -> (String, Value) {
        if op["a"] == "save" {
            return self.save(op);
        }
        let twin = self.twin.as_mut().map(|t| t.step(op));
        let mine = self.step(op);
        self.apart |= twin.is_some_and(|t| t != mine);
        mine
    }
    fn save(&mut self, op: &Value) -> (String, Value) {
        if self.twin.is_none() {
            self.twin = Some(Box::new(self.clone()));
        }
        let form = gi(op, "form");
        let none = "HARNESS: nothing to save";
        let r = match op["what"].as_str().unwrap_or("") {
            "hf" => {
                let x = self.hf.as_mut().expect(none);
                // the order in which free slots are used again means nothing
                reload(x, form, false).map(|same| (same, json!({"w": x.width, "h": x.height, "cols": solid(x), "fr": frame(&x.aabb, x.cell_size, x.cell_height)})))
            }
            "chf" => {
                let x = self.chf.as_mut().expect(none);
                reload(x, form, true).map(|same| {
                    let mut p = chf_geom(x);
                    p["ar"] = areas(x);
                    p["dist"] = json!(x.dist);
                    p["maxd"] = json!(x.max_distance);
                    p["reg"] = regs(x);
                    p["maxr"] = json!(x.max_region.bits());
                    p["bs"] = json!(x.border_size);
                    (same, p)
                })
            }
            "pm" => {
                let x = self.pm.as_mut().expect(none);
                reload(x, form, true).map(|same| (same, pm_json(x)))
            }
            "dm" => {
                let x = self.dm.as_mut().expect(none);
                let c = self.chf.as_ref().expect(none);
                reload(x, form, true).map(|same| (same, dm_json(x, c)))
            }
            _ => reload(&mut self.mesh, form, true).map(|same| (same, mesh_json(&self.mesh))),
        };
        match r {
            Err(e) => (e, Value::Null),
            Ok((same, p)) => ("ok".into(), json!({"v": p, "same": same, "twin": !self.apart})),
        }
    }
    fn step(&mut self, op: &Value) -> (String, Value) {
        let ok = "ok".to_string();
        match op["a"].as_str().expect("HARNESS: op without name") {
            // --- solid heightfield ---
            "new" => {
                self.hf = Some(new_field(gi(op, "w"), gi(op, "h"), gf(op, "ymax"), [0.0; 3], 1.0, 1.0));
                (ok, solid(self.hf()))
            }
            "cols" => {
                let mut hf = heightfield_from_cols(gi(op, "w") as u16, gi(op, "h") as u16, &op["cols"], 100.0);
                // cell sizes in halves and an origin in quarters
                if !op["cs2"].is_null() {
                    hf.cell_size = gf(op, "cs2") / 2.0;
                    hf.cell_height = gf(op, "ch2") / 2.0;
                    let o = &op["org"];
                    hf.aabb.min = Vec3::new(iv(&o[0]) as f32 / 4.0, iv(&o[1]) as f32 / 4.0, iv(&o[2]) as f32 / 4.0);
                    hf.aabb.max = hf.aabb.min
                        + Vec3::new(hf.width as f32 * hf.cell_size, 100.0 * hf.cell_height, hf.height as f32 * hf.cell_size);
                }
                self.hf = Some(hf);
                (ok, solid(self.hf()))
            }
            // a field of any size with one small triangle in it; the outcome names the columns hit
            "far" => {
                let (w, h, x, z) = (gi(op, "w"), gi(op, "h"), gi(op, "x"), gi(op, "z"));
                let max = Vec3::new(w as f32, 8.0, h as f32);
                match (HeightfieldBuilder { aabb: Aabb3d { min: Vec3::ZERO, max }, cell_size: 1.0, cell_height: 1.0 }).build() {
                    Err(e) => (format!("err:{e}"), Value::Null),
                    Ok(mut hf) => {
                        let (fx, fz) = (x as f32, z as f32);
                        let t = [
                            Vec3A::new(fx + 0.25, 1.0, fz + 0.25),
                            Vec3A::new(fx + 0.75, 2.0, fz + 0.25),
                            Vec3A::new(fx + 0.5, 1.0, fz + 0.75),
                        ];
                        let r = hf.rasterize_triangle(t, AreaType(1), 1);
                        let res = r.map(|_| ok).unwrap_or_else(|e| format!("err:{e}"));
                        let at: Vec<Value> = (0..hf.spans.len())
                            .filter(|i| hf.spans[*i].is_some())
                            .map(|i| json!([i % hf.width as usize, i / hf.width as usize]))
                            .collect();
                        (res, json!({"w": hf.width, "h": hf.height, "n": hf.spans.len(), "at": at}))
                    }
                }
            }
            // one span through the public rasterizer: a triangle strictly inside one cell
            "ins" => {
                let (x, z) = (gi(op, "x") as f32, gi(op, "z") as f32);
                let (lo, hi) = (gi(op, "lo") as f32, gi(op, "hi") as f32);
                let hf = self.hf();
                let at = |x, y, z| placed(hf, x, y, z);
                let t = [at(x + 0.25, lo, z + 0.25), at(x + 0.75, hi, z + 0.25), at(x + 0.5, lo, z + 0.75)];
                let r = self.hf().rasterize_triangle(t, AreaType(gi(op, "ar") as u8), gi(op, "thr") as u16);
                let res = r.map(|_| ok).unwrap_or_else(|e| format!("err:{e}"));
                (res, solid(self.hf()))
            }
            // the builder itself; bounds in quarters, cell sizes in halves
            "build" => {
                let q = |k: &str| {
                    let v = &op[k];
                    Vec3::new(iv(&v[0]) as f32 / 4.0, iv(&v[1]) as f32 / 4.0, iv(&v[2]) as f32 / 4.0)
                };
                let (lo, hi) = (q("lo"), q("hi"));
                let aabb = if op["ctr"] == 1 { Aabb3d::new((lo + hi) / 2.0, (hi - lo) / 2.0) } else { Aabb3d { min: lo, max: hi } };
                let b = HeightfieldBuilder { aabb, cell_size: gf(op, "cs2") / 2.0, cell_height: gf(op, "ch2") / 2.0 };
                match b.build() {
                    Err(e) => (format!("err:{e}"), Value::Null),
                    Ok(hf) => {
                        let p = json!({"w": hf.width, "h": hf.height, "cols": solid(&hf), "n": hf.allocated_spans.values().count(),
                                       "fr": frame(&hf.aabb, hf.cell_size, hf.cell_height)});
                        self.hf = Some(hf);
                        (ok, p)
                    }
                }
            }
            "bounds" => {
                let m = mesh_from(&op["m"], 0.25);
                match m.compute_aabb() {
                    None => (ok, json!([])),
                    Some(b) => {
                        let f = frame(&b, 0.0, 0.0);
                        (ok, json!([f["lo"], f["hi"]]))
                    }
                }
            }
            // a whole mesh at once: each item is a triangle inside one cell, or a flat rectangle
            "pop" => {
                let hf = self.hf();
                let at = |x, y, z| placed(hf, x, y, z);
                let mut m = TriMesh::default();
                for i in arr(&op["items"]) {
                    let (x0, z0, x1, z1) = (gi(i, "x0"), gi(i, "z0"), gi(i, "x1"), gi(i, "z1"));
                    let (lo, hi) = (gf(i, "lo"), gf(i, "hi"));
                    let (xa, xb, za, zb) = (x0 as f32 + 0.25, x1 as f32 + 0.75, z0 as f32 + 0.25, z1 as f32 + 0.75);
                    let n = m.vertices.len() as u32;
                    let mut tris = vec![[n, n + 1, n + 2]];
                    if x0 == x1 && z0 == z1 {
                        let zc = if i["k"] == 2 { za } else { zb };
                        m.vertices.extend([at(xa, lo, za), at((xa + xb) / 2.0, lo, zc), at(xb, hi, za)]);
                    } else {
                        m.vertices.extend([at(xa, lo, za), at(xa, lo, zb), at(xb, lo, zb), at(xb, lo, za)]);
                        tris.push([n, n + 2, n + 3]);
                    }
                    for t in tris {
                        let t = if i["k"] == 1 { [t[0], t[2], t[1]] } else { t };
                        m.indices.push(t.into());
                        m.area_types.push(AreaType(gi(i, "ar") as u8));
                    }
                }
                // the order of the vertices means nothing
                let (n, sh) = (m.vertices.len(), gi(op, "sh") as usize);
                if n > 0 {
                    m.vertices.rotate_left(sh % n);
                    for t in m.indices.iter_mut() {
                        *t = t.to_array().map(|v| ((v as usize + n - sh % n) % n) as u32).into();
                    }
                }
                let (h, c) = (gi(op, "h") as u16, gi(op, "c") as u16);
                let hf = self.hf();
                let r = if op["all"] == 1 { hf.populate_from_trimesh(m, h, c) } else { hf.rasterize_triangles(&m, c) };
                let res = r.map(|_| ok).unwrap_or_else(|e| format!("err:{e}"));
                (res, solid(self.hf()))
            }
            // the lowest span of every column, as looked up by position
            "lowest" => {
                let hf = self.hf();
                let mut out = vec![];
                for z in 0..hf.height {
                    for x in 0..hf.width {
                        let by_key = hf.span_key_at(x, z).map(|k| hf.span(k).clone());
                        let by_mut = hf.span_at_mut(x, z).cloned();
                        let s = hf.span_at(x, z).cloned();
                        let f = |s: Option<Span>| s.map(|s| json!([s.min, s.max, s.area.0])).unwrap_or(json!([]));
                        out.push(json!([f(s), f(by_key), f(by_mut)]));
                    }
                }
                (ok, json!(out))
            }
            // field with scaled geometry: coordinates are in 1/den cells (x,z) and 1/den cell heights (y)
            "field" => {
                let den = gf(op, "den");
                let (cs, ch) = (gf(op, "cs"), gf(op, "ch"));
                let o = &op["org"];
                let org = [iv(&o[0]) as f32 / den * cs, iv(&o[1]) as f32 / den * ch, iv(&o[2]) as f32 / den * cs];
                self.hf = Some(new_field(gi(op, "w"), gi(op, "h"), gi(op, "ymax") as f32 / den * ch, org, cs, ch));
                (ok, solid(self.hf()))
            }
            "tri" => {
                let den = gf(op, "den");
                let o = &op["org"];
                let hf = self.hf();
                let (cs, ch) = (hf.cell_size, hf.cell_height);
                let mut t = [Vec3A::ZERO; 3];
                for (i, v) in arr(&op["v"]).iter().enumerate() {
                    t[i] = Vec3A::new(
                        (iv(&v[0]) + iv(&o[0])) as f32 / den * cs,
                        (iv(&v[1]) + iv(&o[1])) as f32 / den * ch,
                        (iv(&v[2]) + iv(&o[2])) as f32 / den * cs,
                    );
                }
                let r = hf.rasterize_triangle(t, AreaType(gi(op, "ar") as u8), gi(op, "thr") as u16);
                let res = r.map(|_| ok).unwrap_or_else(|e| format!("err:{e}"));
                (res, solid(self.hf()))
            }
            "low" => {
                let c = gi(op, "c") as u16;
                self.hf().filter_low_hanging_walkable_obstacles(c);
                (ok, solid(self.hf()))
            }
            "ledge" => {
                let (h, c) = (gi(op, "h") as u16, gi(op, "c") as u16);
                self.hf().filter_ledge_spans(h, c);
                (ok, solid(self.hf()))
            }
            "head" => {
                let h = gi(op, "h") as u16;
                self.hf().filter_walkable_low_height_spans(h);
                (ok, solid(self.hf()))
            }
            // --- compact heightfield ---
            "compact" => {
                let hf = self.hf().clone();
                match hf.into_compact(gi(op, "h") as u16, gi(op, "c") as u16) {
                    Ok(c) => {
                        self.chf = Some(c);
                        let c = self.chf();
                        let mut p = chf_geom(c);
                        p["ar"] = areas(c);
                        (ok, p)
                    }
                    Err(e) => (format!("err:{e}"), Value::Null),
                }
            }
            "erode" => {
                let r = gi(op, "r") as u16;
                let c = self.chf();
                let before = chf_rest(c, "ar");
                c.erode_walkable_area(r);
                (ok, json!({"ar": areas(c), "same": before == chf_rest(c, "ar")}))
            }
            "vol" => {
                let den = gf(op, "den");
                let c = self.chf();
                let before = chf_rest(c, "ar");
                let (cs, ch) = (c.cell_size, c.cell_height);
                let o = c.aabb.min;
                let volume = ConvexVolume {
                    vertices: arr(&op["v"])
                        .iter()
                        .map(|p| Vec2::new(o.x + iv(&p[0]) as f32 / den * cs, o.z + iv(&p[1]) as f32 / den * cs))
                        .collect(),
                    min_y: o.y + gi(op, "lo") as f32 / den * ch,
                    max_y: o.y + gi(op, "hi") as f32 / den * ch,
                    area: AreaType(gi(op, "ar") as u8),
                };
                c.mark_convex_poly_area(volume);
                (ok, json!({"ar": areas(c), "same": before == chf_rest(c, "ar")}))
            }
            "dist" => {
                let c = self.chf();
                let before = chf_rest(c, "dist");
                c.build_distance_field();
                (ok, json!({"dist": c.dist, "maxd": c.max_distance, "same": before == chf_rest(c, "dist")}))
            }
            "regions" => {
                let (b, mi, mg) = (gi(op, "b") as u16, gi(op, "min") as u16, gi(op, "mrg") as u16);
                let c = self.chf();
                let before = chf_rest(c, "reg");
                let r = c.build_regions(b, mi, mg);
                let res = r.map(|_| ok).unwrap_or_else(|e| format!("err:{e}"));
                (res, json!({"reg": regs(c), "maxr": c.max_region.bits(), "bs": c.border_size,
                             "same": before == chf_rest(c, "reg")}))
            }
            "contours" => {
                let e = gi(op, "e10") as f32 / 10.0;
                let (len, fl) = (gi(op, "len") as u16, gi(op, "fl") as u8);
                let before = chf_rest(self.chf(), "");
                let cs = self.chf().build_contours(e, len, BuildContoursFlags::from_bits_retain(fl));
                let mut p = cset_json(&cs);
                p["same"] = json!(before == chf_rest(self.chf(), ""));
                self.cset = Some(cs);
                (ok, p)
            }
            // contours given directly
            "cset" => {
                let contours = arr(&op["cs"])
                    .iter()
                    .map(|c| Contour {
                        vertices: arr(&c["vs"])
                            .iter()
                            .map(|v| (glam::U16Vec3::new(iv(&v[0]) as u16, iv(&v[1]) as u16, iv(&v[2]) as u16), iv(&v[3]) as u32))
                            .collect(),
                        raw_vertices: vec![],
                        region: RegionId::from_bits_retain(gi(c, "reg") as u16),
                        area: AreaType(gi(c, "ar") as u8),
                    })
                    .collect();
                let cs = ContourSet {
                    contours,
                    width: gi(op, "w") as u16,
                    height: gi(op, "h") as u16,
                    border_size: gi(op, "b") as u16,
                    cell_size: 1.0,
                    cell_height: 1.0,
                    ..Default::default()
                };
                let p = cset_json(&cs);
                self.cset = Some(cs);
                (ok, p)
            }
            "poly" => {
                let cs = self.cset.clone().expect("HARNESS: no contours");
                match cs.into_polygon_mesh(gi(op, "nvp") as u16) {
                    Ok(m) => {
                        let p = pm_json(&m);
                        self.pm = Some(m);
                        (ok, p)
                    }
                    Err(e) => (format!("err:{e}"), Value::Null),
                }
            }
            // sample distance in halves of a cell, maximum error in eighths of a cell height
            "detail" => {
                let pm = self.pm.clone().expect("HARNESS: no polygon mesh");
                let c = self.chf();
                let sd = gf(op, "sd2") / 2.0 * c.cell_size;
                let se = gf(op, "se8") / 8.0 * c.cell_height;
                let before = chf_rest(c, "");
                match DetailNavmesh::new(&pm, c, sd, se) {
                    Ok(d) => {
                        let mut p = dm_json(&d, c);
                        p["same"] = json!(before == chf_rest(c, "") && pm == *self.pm.as_ref().unwrap());
                        self.dm = Some(d);
                        (ok, p)
                    }
                    Err(e) => (format!("err:{e}"), Value::Null),
                }
            }
            // --- triangle meshes ---
            "mesh" => {
                self.mesh = mesh_from(&op["m"], 1.0);
                (ok, mesh_json(&self.mesh))
            }
            "extend" => {
                let other = mesh_from(&op["m"], 1.0);
                self.mesh.extend(other);
                (ok, mesh_json(&self.mesh))
            }
            "slope" => {
                // angle given through its tangent squared p/q
                let ang = gf(op, "deg").to_radians();
                self.mesh.mark_walkable_triangles(ang);
                (ok, mesh_json(&self.mesh))
            }
            other => panic!("HARNESS: unknown op {other}"),
        }
    }
}
