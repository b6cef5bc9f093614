//! Drives the editor (events, resources, frames) and projects what it holds and draws to integers.
use crate::build::{self, BuildNavmesh, NavmeshAffector};
use crate::get_navmesh_input::{self, GetNavmeshInput};
use crate::source::{answer, arr, gi, image_from, image_json, ints, material_images, material_json, mesh_json, milli, tf_json, tri_json};
use crate::visualization::{self, AvailableGizmos, GizmosToDraw, Navmesh, VisualMesh};
use bevy::math::Vec3A;
use bevy::platform::collections::HashMap;
use bevy::prelude::*;
use bevy_rerecast_core::TriMeshFromBevyMesh as _;
use bevy_rerecast_core::rerecast::{self, DetailNavmesh, HeightfieldBuilder, PolygonNavmesh, TriMesh};
use serde_json::{Value, json};
use std::io::{Read, Write};
use std::sync::atomic::Ordering;

#[derive(Default)]
pub struct World {
    app: Option<App>,
    orig: Value,
}
impl Clone for World {
    fn clone(&self) -> Self {
        panic!("HARNESS: the editor cannot be copied")
    }
}
impl std::fmt::Debug for World {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "editor")
    }
}

const GIZMOS: [(&str, AvailableGizmos); 4] = [
    ("visual", AvailableGizmos::Visual),
    ("affector", AvailableGizmos::Affector),
    ("poly", AvailableGizmos::PolyMesh),
    ("detail", AvailableGizmos::DetailMesh),
];

fn point(p: Vec3) -> Value {
    json!([milli(p.x), milli(p.y), milli(p.z)])
}
/// The line strips of a gizmo, separated by points that are no numbers.
fn strips(a: &GizmoAsset) -> Vec<Vec<Vec3>> {
    let mut out: Vec<Vec<Vec3>> = vec![vec![]];
    let b = a.buffer();
    for p in b.strip_positions {
        if p.is_nan() {
            out.push(vec![]);
        } else {
            out.last_mut().unwrap().push(*p);
        }
    }
    for l in b.list_positions.chunks(2) {
        out.push(l.to_vec());
    }
    out.retain(|s| !s.is_empty());
    out
}
fn shown(v: Option<&Visibility>) -> i64 {
    (v != Some(&Visibility::Hidden)) as i64
}
/// The triangles of a mesh, by their corners.
fn triangles(m: &Mesh) -> Vec<[Vec3; 3]> {
    let p: Vec<Vec3> = m.attribute(Mesh::ATTRIBUTE_POSITION).and_then(|a| a.as_float3()).map(|v| v.iter().map(|p| Vec3::from(*p)).collect()).unwrap_or_default();
    let ix: Vec<usize> = m.indices().map(|i| i.iter().collect()).unwrap_or_default();
    ix.chunks(3).filter(|t| t.len() == 3 && t.iter().all(|i| *i < p.len())).map(|t| [p[t[0]], p[t[1]], p[t[2]]]).collect()
}
fn pm_json(m: &PolygonNavmesh) -> Value {
    let nvp = m.max_vertices_per_polygon as usize;
    json!({"nvp": nvp, "vs": m.vertices.iter().map(|v| json!([v.x, v.y, v.z])).collect::<Vec<_>>(),
           "ps": m.polygons.chunks(nvp).map(|c| json!(c)).collect::<Vec<_>>(), "ns": m.polygon_neighbors.chunks(nvp).map(|c| json!(c)).collect::<Vec<_>>(),
           "rg": m.regions.iter().map(|r| r.bits()).collect::<Vec<_>>(), "ar": m.areas.iter().map(|a| a.0).collect::<Vec<_>>(), "fl": m.flags,
           "bs": m.border_size, "lo": point(m.aabb.min), "hi": point(m.aabb.max), "cs": milli(m.cell_size), "ch": milli(m.cell_height), "e": milli(m.max_edge_error)})
}
fn dm_json(d: &DetailNavmesh) -> Value {
    json!({"ms": d.meshes.iter().map(|m| json!([m.base_vertex_index, m.vertex_count, m.base_triangle_index, m.triangle_count])).collect::<Vec<_>>(),
           "vs": d.vertices.iter().map(|v| point(*v)).collect::<Vec<_>>(), "ts": d.triangles, "fl": d.triangle_flags})
}

/// What the steps of a plan make of a mesh.
fn follow(plan: &Value, mut mesh: TriMesh) -> Result<(PolygonNavmesh, DetailNavmesh), String> {
    let mut hf = None;
    let mut chf = None;
    let mut cset = None;
    let mut pm = None;
    let mut dm = None;
    for s in arr(plan) {
        let name = s[0].as_str().expect("HARNESS: step");
        let n = |k: usize| s[k].as_i64().unwrap_or_else(|| panic!("HARNESS: step {s}"));
        let u = |k: usize| n(k) as u16;
        match name {
            "slope" => mesh.mark_walkable_triangles((n(1) as f32).to_radians()),
            "field" => {
                let aabb = mesh.compute_aabb().ok_or("nothing")?;
                hf = Some(HeightfieldBuilder { aabb, cell_size: n(1) as f32 / 1000.0, cell_height: n(2) as f32 / 1000.0 }.build().map_err(|e| e.to_string())?);
            }
            "raster" => hf.as_mut().unwrap().rasterize_triangles(&mesh, u(1)).map_err(|e| e.to_string())?,
            "low" => hf.as_mut().unwrap().filter_low_hanging_walkable_obstacles(u(1)),
            "ledge" => hf.as_mut().unwrap().filter_ledge_spans(u(1), u(2)),
            "head" => hf.as_mut().unwrap().filter_walkable_low_height_spans(u(1)),
            "compact" => chf = Some(hf.take().unwrap().into_compact(u(1), u(2)).map_err(|e| e.to_string())?),
            "erode" => chf.as_mut().unwrap().erode_walkable_area(u(1)),
            "dist" => chf.as_mut().unwrap().build_distance_field(),
            "regions" => chf.as_mut().unwrap().build_regions(u(1), u(2), u(3)).map_err(|e| e.to_string())?,
            "contours" => cset = Some(chf.as_mut().unwrap().build_contours(n(1) as f32 / 10.0, u(2), rerecast::BuildContoursFlags::from_bits_retain(n(3) as u8))),
            "poly" => pm = Some(cset.take().unwrap().into_polygon_mesh(u(1)).map_err(|e| e.to_string())?),
            "detail" => {
                dm = Some(
                    DetailNavmesh::new(pm.as_ref().unwrap(), chf.as_ref().unwrap(), n(1) as f32 / 1000.0, n(2) as f32 / 1000.0)
                        .map_err(|e| e.to_string())?,
                )
            }
            o => panic!("HARNESS: unknown step {o}"),
        }
    }
    Ok((pm.unwrap(), dm.unwrap()))
}

/// One request at the editor's port: answered with a scene, dropped, or answered with something else.  Whoever holds the
/// port is alone with its editor.
fn serve(kind: i64, body: Option<String>) -> std::thread::JoinHandle<()> {
    let listener = loop {
        match std::net::TcpListener::bind("127.0.0.1:15702") {
            Ok(l) => break l,
            Err(_) => std::thread::sleep(std::time::Duration::from_millis(3)),
        }
    };
    std::thread::spawn(move || {
        let Ok((mut s, _)) = listener.accept() else { return };
        let _ = s.set_read_timeout(Some(std::time::Duration::from_secs(5)));
        let mut got = vec![];
        let mut buf = [0u8; 4096];
        loop {
            let text = String::from_utf8_lossy(&got).to_lowercase();
            if let Some(h) = text.find("\r\n\r\n") {
                let len = text[..h].lines().find_map(|l| l.strip_prefix("content-length:").and_then(|v| v.trim().parse::<usize>().ok()));
                if len.map(|n| got.len() >= h + 4 + n).unwrap_or(text.ends_with("0\r\n\r\n") || !text.contains("chunked")) {
                    break;
                }
            }
            match s.read(&mut buf) {
                Ok(n) if n > 0 => got.extend_from_slice(&buf[..n]),
                _ => break,
            }
        }
        let ours = String::from_utf8_lossy(&got).contains("getNavmeshInput") || String::from_utf8_lossy(&got).contains(bevy_rerecast_editor_integration::brp::BRP_GET_NAVMESH_INPUT_METHOD);
        if kind == 0 || !ours {
            return;
        }
        let text = match kind {
            1 => json!({"jsonrpc": "2.0", "id": 1, "result": serde_json::from_str::<Value>(&body.unwrap()).unwrap()}).to_string(),
            2 => json!({"jsonrpc": "2.0", "id": 1, "error": {"code": -1, "message": "no"}}).to_string(),
            3 => json!({"jsonrpc": "2.0", "id": 1, "result": [1, 2]}).to_string(),
            _ => "<html>".to_string(),
        };
        let _ = s.write_all(format!("HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: {}\r\nConnection: close\r\n\r\n{text}", text.len()).as_bytes());
        let _ = s.flush();
        let _ = s.read(&mut buf);
    })
}

fn open() -> App {
    let mut app = App::new();
    app.add_plugins(bevy::transform::TransformPlugin);
    app.init_resource::<Assets<Mesh>>()
        .init_resource::<Assets<Image>>()
        .init_resource::<Assets<StandardMaterial>>()
        .init_resource::<Assets<GizmoAsset>>();
    app.add_plugins((get_navmesh_input::plugin, build::plugin, visualization::plugin));
    app
}

impl World {
    fn observe(&mut self) -> Value {
        let orig = if self.orig.is_null() { json!([]) } else { self.orig.clone() };
        let app = self.app.as_mut().expect("HARNESS: no editor");
        let w = app.world_mut();
        let on: Vec<&str> = GIZMOS.iter().filter(|g| w.resource::<GizmosToDraw>().contains(&g.1)).map(|g| g.0).collect();
        // the scene
        let mut q = w.query::<(Entity, &Mesh3d, &Transform, Option<&Gizmo>, Has<NavmeshAffector>, Has<VisualMesh>, Option<&MeshMaterial3d<StandardMaterial>>, Option<&Visibility>)>();
        let meshes = w.resource::<Assets<Mesh>>();
        let gizmos = w.resource::<Assets<GizmoAsset>>();
        let mats = w.resource::<Assets<StandardMaterial>>();
        let images = w.resource::<Assets<Image>>();
        let mut index: HashMap<Handle<Image>, u32> = HashMap::new();
        let mut imgs = vec![];
        let white = material_json(&StandardMaterial::from(Color::WHITE), &index);
        let (mut aff, mut vis) = (vec![], vec![]);
        for (e, m, t, g, a, v, mat, see) in q.iter(w) {
            let tf = GlobalTransform::from(*t);
            // to an eighth
            let tf: Vec<i64> = tf.affine().to_cols_array().iter().map(|x| (*x as f64 * 8.0).round() as i64).collect();
            let Some(mesh) = meshes.get(&m.0) else { continue };
            if a {
                let lines: Vec<Value> = g.and_then(|g| gizmos.get(&g.handle)).map(|g| strips(g).iter().map(|s| json!(s.iter().map(|p| point(*p)).collect::<Vec<_>>())).collect()).unwrap_or_default();
                aff.push((e, json!({"tf": tf, "mesh": TriMesh::from_mesh(mesh).map(|m| tri_json(&m))}), json!(lines)));
            }
            if v {
                let mat = mat.and_then(|h| mats.get(&h.0));
                for h in mat.map(material_images).unwrap_or_default().into_iter().flatten() {
                    if let (Some(img), false) = (images.get(&h), index.contains_key(&h)) {
                        index.insert(h, imgs.len() as u32);
                        imgs.push(image_json(img));
                    }
                }
                vis.push((tf, mesh_json(mesh), mat.cloned(), shown(see)));
            }
        }
        aff.sort_by_key(|a| a.0);
        let mats: Vec<Value> = vis.iter().map(|v| v.2.as_ref().map(|m| material_json(m, &index)).unwrap_or(json!(0))).collect();
        let vs: Vec<Value> = vis
            .iter()
            .enumerate()
            .map(|(i, v)| json!({"tf": v.0, "m": i, "t": if mats[i] == white { -1 } else { i as i64 }}))
            .collect();
        let sc = json!({"re": 1, "aff": aff.iter().map(|a| a.1.clone()).collect::<Vec<_>>(), "vis": vs,
                        "meshes": vis.iter().map(|v| v.1.clone()).collect::<Vec<_>>(), "mats": mats, "imgs": imgs, "orig": orig});
        // the navmesh and its picture
        let nav = w.get_resource::<Navmesh>().map(|n| (n.poly_mesh.clone(), n.detail_mesh.clone()));
        let mut q = w.query_filtered::<(Entity, &Gizmo, Option<&Mesh3d>, Option<&Visibility>), Without<NavmeshAffector>>();
        let meshes = w.resource::<Assets<Mesh>>();
        let gizmos = w.resource::<Assets<GizmoAsset>>();
        let mut ents: Vec<_> = q.iter(w).collect();
        // the marks of the two pictures are private; without them, the order of spawning tells
        let marked = |e: Entity, name: &str| w.entity(e).archetype().components().any(|c| w.components().get_name(c).is_some_and(|n| n.ends_with(name)));
        ents.sort_by_key(|e| (marked(e.0, "DetailMeshGizmo"), !marked(e.0, "PolyMeshGizmo"), e.0));
        let pics: Vec<(i64, Vec<Vec<Vec3>>, Vec<[Vec3; 3]>)> = ents
            .iter()
            .map(|(_, g, m, v)| {
                let lines = gizmos.get(&g.handle).map(strips).unwrap_or_default();
                (shown(*v), lines, m.and_then(|m| meshes.get(&m.0)).map(triangles).unwrap_or_default())
            })
            .collect();
        let pic = |k: usize, f: &dyn Fn(Vec3) -> Value| {
            pics.get(k).map(|(s, l, t)| {
                json!({"show": s, "lines": l.iter().map(|s| s.iter().map(|p| f(*p)).collect::<Vec<_>>()).collect::<Vec<_>>(),
                       "fill": t.iter().map(|t| t.iter().map(|p| f(*p)).collect::<Vec<_>>()).collect::<Vec<_>>()})
            }).unwrap_or(json!({"show": 0, "lines": [], "fill": []}))
        };
        // the polygon mesh is drawn in the units of its grid
        let grid = |p: Vec3| {
            let Some((m, _)) = &nav else { return json!([0, 0, 0]) };
            let g = (p - m.aabb.min) / Vec3::new(m.cell_size, m.cell_height, m.cell_size);
            let r = |v: f32| if (v - v.round()).abs() < 0.02 { v.round() as i64 } else { -9999 };
            json!([r(g.x), r(g.y), r(g.z)])
        };
        json!({"on": on, "sc": sc, "vshow": vis.iter().map(|v| v.3).collect::<Vec<_>>(), "alines": aff.iter().map(|a| a.2.clone()).collect::<Vec<_>>(),
               "nav": nav.as_ref().map(|n| json!({"pm": pm_json(&n.0), "dm": dm_json(&n.1)})).unwrap_or(json!({"pm": 0, "dm": 0})),
               "has": nav.is_some() as i64, "pics": pics.len(),
               "poly": pic(0, &grid), "detail": pic(1, &point)})
    }

    pub fn exec(&mut self, op: &Value) -> (String, Value) {
        let before = crate::ERRORS.load(Ordering::SeqCst);
        let mut extra = json!({});
        match op["a"].as_str().expect("HARNESS: op without name") {
            "eopen" => self.app = Some(open()),
            "efetch" => {
                let kind = gi(op, "srv");
                let said = answer(&op["scene"]);
                let (kind, body) = match (kind, said) {
                    (1, Ok(v)) => (1, Some(v.to_string())),
                    (1, Err(_)) => (2, None),
                    (k, _) => (k, None),
                };
                if kind == 1 {
                    self.orig = json!(arr(&op["scene"]["imgs"]).iter().map(|v| image_json(&image_from(v))).collect::<Vec<_>>());
                }
                let t = serve(kind, body);
                let w = self.app.as_mut().expect("HARNESS: no editor").world_mut();
                w.trigger(GetNavmeshInput);
                w.flush();
                let _ = t.join();
            }
            "ebuild" => {
                let w = self.app.as_mut().expect("HARNESS: no editor").world_mut();
                let mut q = w.query_filtered::<(&Mesh3d, &GlobalTransform), With<NavmeshAffector>>();
                let mut all = TriMesh::default();
                for (m, t) in q.iter(w) {
                    let Some(m) = w.resource::<Assets<Mesh>>().get(&m.0) else { continue };
                    let Some(mut m) = TriMesh::from_mesh(m) else { continue };
                    for v in &mut m.vertices {
                        *v = Vec3A::from(t.transform_point(Vec3::from(*v)));
                    }
                    all.extend(m);
                }
                extra = match follow(&op["plan"], all) {
                    Ok((p, d)) => json!({"ok": 1, "pm": pm_json(&p), "dm": dm_json(&d)}),
                    Err(_) => json!({"ok": 0}),
                };
                let c = rerecast::NavmeshConfigBuilder::default().build();
                extra["cfg"] = json!({"cs": milli(c.cell_size), "ch": milli(c.cell_height), "slope": milli(c.walkable_slope_angle.to_degrees()),
                    "h": c.walkable_height, "c": c.walkable_climb, "r": c.walkable_radius, "b": c.border_size, "len": c.max_edge_len,
                    "e": milli(c.max_simplification_error), "min": c.min_region_area, "mrg": c.merge_region_area, "nvp": c.max_vertices_per_polygon,
                    "sd": milli(c.detail_sample_dist), "se": milli(c.detail_sample_max_error), "fl": c.contour_flags.bits()});
                w.trigger(BuildNavmesh);
                w.flush();
            }
            "etoggle" => {
                let g = GIZMOS.iter().find(|g| op["k"] == g.0).expect("HARNESS: gizmo").1;
                self.app.as_mut().expect("HARNESS: no editor").world_mut().resource_mut::<GizmosToDraw>().toggle(g);
            }
            "eframe" => self.app.as_mut().expect("HARNESS: no editor").update(),
            o => panic!("HARNESS: unknown op {o}"),
        }
        let mut p = self.observe();
        p["err"] = json!((crate::ERRORS.load(Ordering::SeqCst) > before) as i64);
        p["ref"] = extra;
        ("ok".into(), p)
    }
}
