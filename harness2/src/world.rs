//! Executes abstract operations on the Bevy crates and projects what comes out to integers.
use avian3d::prelude::*;
use bevy::asset::RenderAssetUsages;
use bevy::image::*;
use bevy::math::{Affine2, Affine3A, DMat3, Vec3A};
use bevy::pbr::{OpaqueRendererMethod, ParallaxMappingMethod, UvChannel};
use bevy::platform::collections::HashMap;
use bevy::prelude::*;
use bevy::remote::{RemoteMethodSystemId, RemoteMethods};
use bevy::render::mesh::{Indices, PrimitiveTopology, VertexAttributeValues};
use bevy::render::render_resource::*;
use bevy::ecs::system::RunSystemOnce as _;
use bevy_rerecast_core::generator::NavmeshGenerator;
use bevy_rerecast_core::rerecast::{AreaType, NavmeshConfigBuilder, TriMesh};
use bevy_rerecast_core::{Mesh3dNavmeshPlugin, Navmesh, NavmeshAffectorBackend, NavmeshApp as _, RerecastPlugin, TriMeshFromBevyMesh as _};
use bevy_rerecast_editor_integration::brp::{BRP_GET_NAVMESH_INPUT_METHOD, NavmeshInputResponse};
use bevy_rerecast_editor_integration::transmission::{deserialize, serialize};
use bevy_rerecast_editor_integration::{EditorVisibilitySettings, EditorVisible, RerecastEditorIntegrationPlugin};
use serde_json::{Value, json};

/// A Bevy world whose affectors are asked for again and again (the other operations need none).
#[derive(Default)]
pub struct World {
    app: Option<App>,
    /// entities, each with the body of its collider
    ids: HashMap<i64, (Entity, Option<Entity>)>,
    meshes: HashMap<i64, Handle<Mesh>>,
    navmeshes: Vec<Handle<Navmesh>>,
}
impl Clone for World {
    fn clone(&self) -> Self {
        panic!("HARNESS: the world cannot be copied")
    }
}
impl std::fmt::Debug for World {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "world")
    }
}

pub fn gi(v: &Value, k: &str) -> i64 {
    v[k].as_i64().unwrap_or_else(|| panic!("HARNESS: missing int {k} in {v}"))
}
pub fn arr(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap_or_else(|| panic!("HARNESS: not an array: {v}"))
}
pub fn ints(v: &Value) -> Vec<i64> {
    arr(v).iter().map(|x| x.as_i64().unwrap_or_else(|| panic!("HARNESS: not an int: {x}"))).collect()
}
pub fn v3(v: &Value) -> Vec3 {
    let i = ints(v);
    Vec3::new(i[0] as f32, i[1] as f32, i[2] as f32)
}
pub fn milli(v: f32) -> i64 {
    (v as f64 * 1000.0).round() as i64
}
pub fn eighth(v: f32) -> i64 {
    let w = v as f64 * 8.0;
    if w.fract() == 0.0 && w.abs() < 1e8 { w as i64 } else { -99_999_999 }
}
pub fn tri_json(m: &TriMesh) -> Value {
    json!({
        "vs": m.vertices.iter().map(|v| json!([milli(v.x), milli(v.y), milli(v.z)])).collect::<Vec<_>>(),
        "is": m.indices.iter().map(|t| json!([t.x, t.y, t.z])).collect::<Vec<_>>(),
        "ar": m.area_types.iter().map(|a| a.0).collect::<Vec<_>>(),
    })
}
pub fn tf_json(t: &GlobalTransform) -> Value {
    json!(t.affine().to_cols_array().iter().map(|v| eighth(*v)).collect::<Vec<_>>())
}

// ---- colliders ----------------------------------------------------------------------------------
fn collider(s: &Value) -> Collider {
    let p: Vec<f32> = if s["p"].is_array() { ints(&s["p"]).iter().map(|v| *v as f32).collect() } else { vec![] };
    let pts = || arr(&s["v"]).iter().map(v3).collect::<Vec<_>>();
    match s["s"].as_str().expect("HARNESS: shape") {
        "cuboid" => Collider::cuboid(p[0], p[1], p[2]),
        "rcuboid" => Collider::round_cuboid(p[0], p[1], p[2], 0.25),
        "ball" => Collider::sphere(p[0]),
        "capsule" => Collider::capsule(p[0], p[1]),
        "cylinder" => Collider::cylinder(p[0], p[1]),
        "cone" => Collider::cone(p[0], p[1]),
        "tri" => {
            let v = pts();
            Collider::triangle(v[0], v[1], v[2])
        }
        "mesh" => Collider::trimesh(
            pts(),
            arr(&s["i"]).iter().map(|t| { let t = ints(t); [t[0] as u32, t[1] as u32, t[2] as u32] }).collect(),
        ),
        "segment" => Collider::segment(Vec3::ZERO, Vec3::ONE),
        "half" => Collider::half_space(Vec3::Y),
        "polyline" => Collider::polyline(vec![Vec3::ZERO, Vec3::X, Vec3::ONE], None),
        "compound" => Collider::compound(
            arr(&s["parts"])
                .iter()
                .map(|q| {
                    let m: Vec<f64> = ints(&q["m"]).iter().map(|v| *v as f64).collect();
                    // rows in the operation
                    let r = DMat3::from_cols_array(&[m[0], m[3], m[6], m[1], m[4], m[7], m[2], m[5], m[8]]);
                    let quat = bevy::math::DQuat::from_mat3(&r).normalize().as_quat();
                    (Position(v3(&q["t"])), Rotation(quat), collider(&q["shape"]))
                })
                .collect(),
        ),
        o => panic!("HARNESS: shape {o}"),
    }
}
fn backend(bodies: &[(String, Vec3, Collider)]) -> Vec<(GlobalTransform, TriMesh)> {
    let mut app = App::new();
    app.add_plugins(avian_rerecast::AvianRerecastPlugin::default());
    for (kind, x, c) in bodies {
        let w = app.world_mut();
        let body = match kind.as_str() {
            "static" => w.spawn(RigidBody::Static).id(),
            "dynamic" => w.spawn(RigidBody::Dynamic).id(),
            "kinematic" => w.spawn(RigidBody::Kinematic).id(),
            _ => w.spawn_empty().id(),
        };
        w.spawn((GlobalTransform::from_translation(*x), c.clone(), ColliderOf { body }));
    }
    let id = **app.world().resource::<NavmeshAffectorBackend>();
    app.world_mut().run_system(id).unwrap_or_else(|e| panic!("back end: {e}"))
}

// ---- meshes, images, materials --------------------------------------------------------------------
const TOPO: [PrimitiveTopology; 5] = [
    PrimitiveTopology::PointList,
    PrimitiveTopology::LineList,
    PrimitiveTopology::LineStrip,
    PrimitiveTopology::TriangleList,
    PrimitiveTopology::TriangleStrip,
];
fn attributes() -> [bevy::render::mesh::MeshVertexAttribute; 8] {
    [
        Mesh::ATTRIBUTE_POSITION,
        Mesh::ATTRIBUTE_NORMAL,
        Mesh::ATTRIBUTE_UV_0,
        Mesh::ATTRIBUTE_UV_1,
        Mesh::ATTRIBUTE_TANGENT,
        Mesh::ATTRIBUTE_COLOR,
        Mesh::ATTRIBUTE_JOINT_WEIGHT,
        Mesh::ATTRIBUTE_JOINT_INDEX,
    ]
}
fn mesh_from(v: &Value) -> Mesh {
    let mut m = Mesh::new(TOPO[gi(v, "topo") as usize], RenderAssetUsages::all());
    for a in arr(&v["att"]) {
        let id = a[0].as_i64().unwrap() as usize;
        let i = ints(&a[1]);
        let f: Vec<f32> = i.iter().map(|x| *x as f32 / 8.0).collect();
        let vals = match id {
            0 | 1 => VertexAttributeValues::Float32x3(f.chunks(3).map(|c| [c[0], c[1], c[2]]).collect()),
            2 | 3 => VertexAttributeValues::Float32x2(f.chunks(2).map(|c| [c[0], c[1]]).collect()),
            4..=6 => VertexAttributeValues::Float32x4(f.chunks(4).map(|c| [c[0], c[1], c[2], c[3]]).collect()),
            _ => VertexAttributeValues::Uint16x4(i.chunks(4).map(|c| [c[0] as u16, c[1] as u16, c[2] as u16, c[3] as u16]).collect()),
        };
        m.insert_attribute(attributes()[id], vals);
    }
    let ix = ints(&v["ix"]);
    match gi(v, "ik") {
        16 => m.insert_indices(Indices::U16(ix.iter().map(|x| *x as u16).collect())),
        32 => m.insert_indices(Indices::U32(ix.iter().map(|x| *x as u32).collect())),
        _ => {}
    }
    m
}
pub fn mesh_json(m: &Mesh) -> Value {
    let topo = TOPO.iter().position(|t| *t == m.primitive_topology()).unwrap();
    let mut att: Vec<(usize, Vec<i64>)> = vec![];
    for (a, vals) in m.attributes() {
        let id = attributes().iter().position(|x| x.id == a.id).unwrap_or(99);
        let i: Vec<i64> = match vals {
            VertexAttributeValues::Float32x2(v) => v.iter().flatten().map(|x| eighth(*x)).collect(),
            VertexAttributeValues::Float32x3(v) => v.iter().flatten().map(|x| eighth(*x)).collect(),
            VertexAttributeValues::Float32x4(v) => v.iter().flatten().map(|x| eighth(*x)).collect(),
            VertexAttributeValues::Uint16x4(v) => v.iter().flatten().map(|x| *x as i64).collect(),
            _ => vec![-77],
        };
        att.push((id, i));
    }
    att.sort();
    let (ik, ix): (i64, Vec<i64>) = match m.indices() {
        None => (0, vec![]),
        Some(Indices::U16(v)) => (16, v.iter().map(|x| *x as i64).collect()),
        Some(Indices::U32(v)) => (32, v.iter().map(|x| *x as i64).collect()),
    };
    json!({"topo": topo, "att": att.iter().map(|(a, b)| json!([a, b])).collect::<Vec<_>>(), "ik": ik, "ix": ix})
}

const FORMATS: [TextureFormat; 5] = [
    TextureFormat::Rgba8UnormSrgb,
    TextureFormat::Rgba8Unorm,
    TextureFormat::R8Unorm,
    TextureFormat::Bc1RgbaUnorm,
    TextureFormat::Rgba16Float,
];
const DIMS: [TextureDimension; 3] = [TextureDimension::D1, TextureDimension::D2, TextureDimension::D3];
const VDIMS: [TextureViewDimension; 3] = [TextureViewDimension::D2, TextureViewDimension::D2Array, TextureViewDimension::Cube];
const MODES: [ImageAddressMode; 4] =
    [ImageAddressMode::ClampToEdge, ImageAddressMode::Repeat, ImageAddressMode::MirrorRepeat, ImageAddressMode::ClampToBorder];
const FILTERS: [ImageFilterMode; 2] = [ImageFilterMode::Nearest, ImageFilterMode::Linear];
const ASPECTS: [TextureAspect; 3] = [TextureAspect::All, TextureAspect::StencilOnly, TextureAspect::DepthOnly];
fn pos<T: std::fmt::Debug>(xs: &[T], v: &T) -> i64 {
    xs.iter().position(|x| format!("{x:?}") == format!("{v:?}")).map(|p| p as i64).unwrap_or(99)
}
/// {"n": bytes or -1, "k": seed of the data, "d": [w, h, layers, mips, samples, dim, format, usage],
///  "s": [] or [u, v, w, mag, min, mip, lo, hi, clamp, label], "view": [] or [fmt, dim, usage, aspect, mip, mips, layer, layers]}
pub fn image_from(v: &Value) -> Image {
    let d = ints(&v["d"]);
    let (n, k) = (gi(v, "n"), gi(v, "k"));
    let mut img = Image::default();
    img.data = (n >= 0).then(|| (0..n).map(|i| ((i * 7 + k * 31 + i / 256) % 256) as u8).collect());
    img.texture_descriptor.size = Extent3d { width: d[0] as u32, height: d[1] as u32, depth_or_array_layers: d[2] as u32 };
    img.texture_descriptor.mip_level_count = d[3] as u32;
    img.texture_descriptor.sample_count = d[4] as u32;
    img.texture_descriptor.dimension = DIMS[d[5] as usize];
    img.texture_descriptor.format = FORMATS[d[6] as usize];
    img.texture_descriptor.usage = TextureUsages::from_bits_truncate(d[7] as u32);
    let s = ints(&v["s"]);
    img.sampler = if s.is_empty() {
        ImageSampler::Default
    } else {
        ImageSampler::Descriptor(ImageSamplerDescriptor {
            label: (s[9] >= 0).then(|| format!("l{}", s[9])),
            address_mode_u: MODES[s[0] as usize],
            address_mode_v: MODES[s[1] as usize],
            address_mode_w: MODES[s[2] as usize],
            mag_filter: FILTERS[s[3] as usize],
            min_filter: FILTERS[s[4] as usize],
            mipmap_filter: FILTERS[s[5] as usize],
            lod_min_clamp: s[6] as f32 / 8.0,
            lod_max_clamp: s[7] as f32 / 8.0,
            anisotropy_clamp: s[8] as u16,
            ..default()
        })
    };
    let w = ints(&v["view"]);
    img.texture_view_descriptor = (!w.is_empty()).then(|| TextureViewDescriptor {
        label: None,
        format: (w[0] >= 0).then(|| FORMATS[w[0] as usize]),
        dimension: (w[1] >= 0).then(|| VDIMS[w[1] as usize]),
        usage: (w[2] >= 0).then(|| TextureUsages::from_bits_truncate(w[2] as u32)),
        aspect: ASPECTS[w[3] as usize],
        base_mip_level: w[4] as u32,
        mip_level_count: (w[5] >= 0).then_some(w[5] as u32),
        base_array_layer: w[6] as u32,
        array_layer_count: (w[7] >= 0).then_some(w[7] as u32),
    });
    img
}
/// The same fields; the data as its length and two checksums.
pub fn image_json(img: &Image) -> Value {
    let t = &img.texture_descriptor;
    let (mut a, mut b) = (0i64, 0i64);
    if let Some(d) = &img.data {
        for (i, x) in d.iter().enumerate() {
            a = (a * 31 + *x as i64 + 1) % 1_000_003;
            b = (b + (*x as i64 + 3) * (i as i64 % 997 + 1)) % 999_983;
        }
    }
    let s: Vec<i64> = match &img.sampler {
        ImageSampler::Default => vec![],
        ImageSampler::Descriptor(d) => vec![
            pos(&MODES, &d.address_mode_u),
            pos(&MODES, &d.address_mode_v),
            pos(&MODES, &d.address_mode_w),
            pos(&FILTERS, &d.mag_filter),
            pos(&FILTERS, &d.min_filter),
            pos(&FILTERS, &d.mipmap_filter),
            eighth(d.lod_min_clamp),
            eighth(d.lod_max_clamp),
            d.anisotropy_clamp as i64,
            d.label.as_ref().map(|l| l[1..].parse().unwrap_or(-5)).unwrap_or(-1),
        ],
    };
    let w: Vec<i64> = img
        .texture_view_descriptor
        .as_ref()
        .map(|w| {
            vec![
                w.format.map(|f| pos(&FORMATS, &f)).unwrap_or(-1),
                w.dimension.map(|f| pos(&VDIMS, &f)).unwrap_or(-1),
                w.usage.map(|u| u.bits() as i64).unwrap_or(-1),
                pos(&ASPECTS, &w.aspect),
                w.base_mip_level as i64,
                w.mip_level_count.map(|x| x as i64).unwrap_or(-1),
                w.base_array_layer as i64,
                w.array_layer_count.map(|x| x as i64).unwrap_or(-1),
            ]
        })
        .unwrap_or_default();
    json!({"n": img.data.as_ref().map(|d| d.len() as i64).unwrap_or(-1), "a": a, "b": b,
           "d": [t.size.width as i64, t.size.height as i64, t.size.depth_or_array_layers as i64, t.mip_level_count as i64,
                 t.sample_count as i64, pos(&DIMS, &t.dimension), pos(&FORMATS, &t.format), t.usage.bits() as i64],
           "s": s, "view": w})
}

fn color(v: &[i64]) -> Color {
    let f = |i: usize| v[i] as f32 / 8.0;
    match v[0] {
        0 => Color::Srgba(Srgba::new(f(1), f(2), f(3), f(4))),
        1 => Color::LinearRgba(LinearRgba::new(f(1), f(2), f(3), f(4))),
        _ => Color::Hsla(Hsla::new(f(1), f(2), f(3), f(4))),
    }
}
fn color_ints(c: &Color) -> Vec<i64> {
    match c {
        Color::Srgba(c) => vec![0, eighth(c.red), eighth(c.green), eighth(c.blue), eighth(c.alpha)],
        Color::LinearRgba(c) => vec![1, eighth(c.red), eighth(c.green), eighth(c.blue), eighth(c.alpha)],
        Color::Hsla(c) => vec![2, eighth(c.hue), eighth(c.saturation), eighth(c.lightness), eighth(c.alpha)],
        _ => vec![9, 0, 0, 0, 0],
    }
}
macro_rules! floats {
    ($m:expr, $f:ident) => {
        $f!($m, emissive_exposure_weight, perceptual_roughness, metallic, reflectance, diffuse_transmission,
            specular_transmission, thickness, ior, attenuation_distance, clearcoat, clearcoat_perceptual_roughness,
            anisotropy_strength, anisotropy_rotation, depth_bias, parallax_depth_scale, max_parallax_layer_count,
            lightmap_exposure)
    };
}
macro_rules! channels {
    ($m:expr, $f:ident) => {
        $f!($m, base_color_channel, emissive_channel, metallic_roughness_channel, diffuse_transmission_channel,
            specular_transmission_channel, thickness_channel, normal_map_channel, occlusion_channel, specular_channel,
            specular_tint_channel, clearcoat_channel, clearcoat_roughness_channel, clearcoat_normal_channel,
            anisotropy_channel)
    };
}
macro_rules! textures {
    ($m:expr, $f:ident) => {
        $f!($m, base_color_texture, emissive_texture, metallic_roughness_texture, diffuse_transmission_texture,
            specular_transmission_texture, thickness_texture, normal_map_texture, occlusion_texture, specular_texture,
            specular_tint_texture, clearcoat_texture, clearcoat_roughness_texture, clearcoat_normal_texture,
            anisotropy_texture, depth_map)
    };
}
macro_rules! bools {
    ($m:expr, $f:ident) => {
        $f!($m, flip_normal_map_y, double_sided, unlit, fog_enabled)
    };
}
macro_rules! refs { ($m:expr, $($n:ident),*) => { [$(&mut $m.$n),*] } }
pub const FLOATS: i64 = 17;
pub const CHANNELS: i64 = 14;
pub const TEXTURES: i64 = 15;
const FACES: [Option<Face>; 3] = [None, Some(Face::Front), Some(Face::Back)];
const METHODS: [OpaqueRendererMethod; 3] = [OpaqueRendererMethod::Forward, OpaqueRendererMethod::Deferred, OpaqueRendererMethod::Auto];

/// {"co": 4 x [kind, a, b, c, d], "fl": 17, "ch": 14, "tx": 15 (image or -1), "bo": 4,
///  "en": [cull, alpha mode, mask, parallax, steps, method, pass], "uv": 6}
fn material_from(v: &Value, img: &[Handle<Image>]) -> StandardMaterial {
    let mut m = StandardMaterial::default();
    let co: Vec<Vec<i64>> = arr(&v["co"]).iter().map(ints).collect();
    m.base_color = color(&co[0]);
    m.specular_tint = color(&co[1]);
    m.attenuation_color = color(&co[2]);
    m.emissive = LinearRgba::new(co[3][1] as f32 / 8.0, co[3][2] as f32 / 8.0, co[3][3] as f32 / 8.0, co[3][4] as f32 / 8.0);
    for (f, x) in floats!(m, refs).into_iter().zip(ints(&v["fl"])) {
        *f = x as f32 / 8.0;
    }
    for (f, x) in channels!(m, refs).into_iter().zip(ints(&v["ch"])) {
        *f = if x == 0 { UvChannel::Uv0 } else { UvChannel::Uv1 };
    }
    for (f, x) in textures!(m, refs).into_iter().zip(ints(&v["tx"])) {
        *f = (x >= 0).then(|| img[x as usize].clone());
    }
    for (f, x) in bools!(m, refs).into_iter().zip(ints(&v["bo"])) {
        *f = x == 1;
    }
    let e = ints(&v["en"]);
    m.cull_mode = FACES[e[0] as usize];
    m.alpha_mode = match e[1] {
        0 => AlphaMode::Opaque,
        1 => AlphaMode::Mask(e[2] as f32 / 8.0),
        2 => AlphaMode::Blend,
        3 => AlphaMode::Premultiplied,
        4 => AlphaMode::AlphaToCoverage,
        5 => AlphaMode::Add,
        _ => AlphaMode::Multiply,
    };
    m.parallax_mapping_method =
        if e[3] == 0 { ParallaxMappingMethod::Occlusion } else { ParallaxMappingMethod::Relief { max_steps: e[4] as u32 } };
    m.opaque_render_method = METHODS[e[5] as usize];
    m.deferred_lighting_pass_id = e[6] as u8;
    let u: Vec<f32> = ints(&v["uv"]).iter().map(|x| *x as f32 / 8.0).collect();
    m.uv_transform = Affine2::from_cols_array(&[u[0], u[1], u[2], u[3], u[4], u[5]]);
    m
}
pub fn material_images(m: &StandardMaterial) -> Vec<Option<Handle<Image>>> {
    let mut m = m.clone();
    textures!(m, refs).iter().map(|x| (**x).clone()).collect()
}
pub fn material_json(m: &StandardMaterial, index: &HashMap<Handle<Image>, u32>) -> Value {
    let mut m = m.clone();
    let fl: Vec<i64> = floats!(m, refs).iter().map(|x| eighth(**x)).collect();
    let ch: Vec<i64> = channels!(m, refs).iter().map(|x| (**x != UvChannel::Uv0) as i64).collect();
    let bo: Vec<i64> = bools!(m, refs).iter().map(|x| **x as i64).collect();
    let tx: Vec<i64> = textures!(m, refs)
        .iter()
        .map(|x| x.as_ref().map(|h| index.get(h).map(|i| *i as i64).unwrap_or(-9)).unwrap_or(-1))
        .collect();
    let (am, mask) = match m.alpha_mode {
        AlphaMode::Opaque => (0, 0),
        AlphaMode::Mask(x) => (1, eighth(x)),
        AlphaMode::Blend => (2, 0),
        AlphaMode::Premultiplied => (3, 0),
        AlphaMode::AlphaToCoverage => (4, 0),
        AlphaMode::Add => (5, 0),
        AlphaMode::Multiply => (6, 0),
    };
    let (pa, steps) = match m.parallax_mapping_method {
        ParallaxMappingMethod::Occlusion => (0, 0),
        ParallaxMappingMethod::Relief { max_steps } => (1, max_steps as i64),
    };
    let em = vec![1, eighth(m.emissive.red), eighth(m.emissive.green), eighth(m.emissive.blue), eighth(m.emissive.alpha)];
    json!({"co": [color_ints(&m.base_color), color_ints(&m.specular_tint), color_ints(&m.attenuation_color), em],
           "fl": fl, "ch": ch, "tx": tx, "bo": bo,
           "en": [pos(&FACES, &m.cull_mode), am, mask, pa, steps, pos(&METHODS, &m.opaque_render_method), m.deferred_lighting_pass_id as i64],
           "uv": m.uv_transform.to_cols_array().iter().map(|x| eighth(*x)).collect::<Vec<_>>()})
}
fn trimesh_from(v: &Value) -> TriMesh {
    TriMesh {
        vertices: arr(&v["vs"]).iter().map(|p| Vec3A::from(v3(p)) / 1000.0).collect(),
        indices: arr(&v["is"]).iter().map(|t| { let t = ints(t); UVec3::new(t[0] as u32, t[1] as u32, t[2] as u32) }).collect(),
        area_types: ints(&v["ar"]).iter().map(|a| AreaType(*a as u8)).collect(),
    }
}
pub fn transform(v: &Value) -> GlobalTransform {
    let c: Vec<f32> = ints(v).iter().map(|x| *x as f32 / 8.0).collect();
    let mut a = [0.0f32; 12];
    a.copy_from_slice(&c);
    GlobalTransform::from(Affine3A::from_cols_array(&a))
}

/// What the application with the scene answers to the remote method.
pub fn answer(op: &Value) -> Result<Value, String> {
    let mut app = App::new();
    let auto = gi(op, "auto") == 1;
    let visibility_settings = if auto { EditorVisibilitySettings::AllMeshes } else { EditorVisibilitySettings::Manual };
    let mut plugin = RerecastEditorIntegrationPlugin::default();
    plugin.visibility_settings = visibility_settings;
    app.insert_resource(RemoteMethods::new());
    app.add_plugins(plugin);
    let (mut meshes, mut images, mut mats) = (Assets::<Mesh>::default(), Assets::<Image>::default(), Assets::<StandardMaterial>::default());
    let mut imgs: Vec<Handle<Image>> = arr(&op["imgs"]).iter().map(|v| images.add(image_from(v))).collect();
    let mut mhs: Vec<Handle<Mesh>> = arr(&op["meshes"]).iter().map(|v| meshes.add(mesh_from(v))).collect();
    imgs.push(images.reserve_handle());
    mhs.push(meshes.reserve_handle());
    let mut ths: Vec<Handle<StandardMaterial>> = arr(&op["mats"]).iter().map(|v| mats.add(material_from(v, &imgs))).collect();
    ths.push(mats.reserve_handle());
    app.insert_resource(meshes).insert_resource(images).insert_resource(mats);
    if gi(op, "backend") == 1 {
        let aff: Vec<(GlobalTransform, TriMesh)> = arr(&op["aff"]).iter().map(|a| (transform(&a["tf"]), trimesh_from(&a["mesh"]))).collect();
        app.set_navmesh_affector_backend(move || aff.clone());
    }
    for e in arr(&op["ents"]) {
        let w = app.world_mut();
        let vis = if gi(e, "vis") == 1 { InheritedVisibility::VISIBLE } else { InheritedVisibility::HIDDEN };
        let id = w.spawn(Mesh3d(mhs[gi(e, "m") as usize].clone())).insert((transform(&e["tf"]), vis)).id();
        if gi(e, "t") >= 0 {
            w.entity_mut(id).insert(MeshMaterial3d(ths[gi(e, "t") as usize].clone()));
        }
        if gi(e, "mark") == 1 {
            w.entity_mut(id).insert(EditorVisible);
        }
    }
    app.world_mut().run_schedule(Startup);
    app.world_mut().flush();
    let Some(RemoteMethodSystemId::Instant(id)) = app.world().resource::<RemoteMethods>().get(BRP_GET_NAVMESH_INPUT_METHOD).copied() else {
        return Err("missing method".into());
    };
    let params = (gi(op, "params") == 1).then(|| json!({"x": 1}));
    match app.world_mut().run_system_with(id, params) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(format!("err:{}", e.message)),
        Err(e) => panic!("HARNESS: system: {e}"),
    }
}

/// The whole way of a scene to the editor: the remote method, its answer, and the objects the editor makes of it.
fn scene(op: &Value) -> (String, Value) {
    let answer = match answer(op) {
        Ok(v) => v,
        Err(e) => return (e, Value::Null),
    };
    let answer: Value = serde_json::from_str(&answer.to_string()).unwrap();
    let r: NavmeshInputResponse = match deserialize(&answer) {
        Ok(r) => r,
        Err(e) => return (format!("unreadable: {e}"), Value::Null),
    };
    let re = serialize(&r).map(|v| v == answer).unwrap_or(false);
    let mut images = Assets::<Image>::default();
    let mut index: HashMap<u32, Handle<Image>> = HashMap::new();
    let mut made = vec![];
    for m in &r.materials {
        made.push(m.clone().into_standard_material(&mut index, &mut images, &r.images));
    }
    let back: HashMap<Handle<Image>, u32> = index.iter().map(|(a, b)| (b.clone(), *a)).collect();
    // the images as the materials see them
    let seen: Vec<Value> = r
        .images
        .iter()
        .enumerate()
        .map(|(i, im)| match index.get(&(i as u32)) {
            Some(h) => image_json(images.get(h).unwrap()),
            None => image_json(&im.clone().into_image()),
        })
        .collect();
    let post = json!({
        "aff": r.affector_meshes.iter().map(|a| json!({"tf": tf_json(&a.transform), "mesh": tri_json(&a.mesh)})).collect::<Vec<_>>(),
        "vis": r.visual_meshes.iter().map(|v| json!({"tf": tf_json(&v.transform), "m": v.mesh, "t": v.material.map(|x| x as i64).unwrap_or(-1)})).collect::<Vec<_>>(),
        "meshes": r.meshes.iter().map(|m| mesh_json(&m.clone().into_mesh())).collect::<Vec<_>>(),
        "mats": made.iter().map(|m| material_json(m, &back)).collect::<Vec<_>>(),
        "imgs": seen,
        "orig": arr(&op["imgs"]).iter().map(|v| image_json(&image_from(v))).collect::<Vec<_>>(),
        "re": re as i64,
    });
    ("ok".into(), post)
}

impl World {
    pub fn exec(&mut self, op: &Value) -> (String, Value) {
        match op["a"].as_str().expect("HARNESS: op without name") {
            "collider" => {
                let bodies: Vec<(String, Vec3, Collider)> = arr(&op["bodies"])
                    .iter()
                    .map(|b| (b["k"].as_str().unwrap().to_string(), v3(&b["x"]), collider(&b["shape"])))
                    .collect();
                let out: Vec<Value> = backend(&bodies)
                    .iter()
                    .map(|(t, m)| {
                        let x = t.translation();
                        json!({"x": [x.x as i64, x.y as i64, x.z as i64], "mesh": tri_json(m)})
                    })
                    .collect();
                // every primitive on its own
                let one = |s: &Value| {
                    let r = backend(&[("static".to_string(), Vec3::ZERO, collider(s))]);
                    json!(r.iter().map(|(_, m)| tri_json(m)).collect::<Vec<_>>())
                };
                let alone: Vec<Value> = arr(&op["bodies"])
                    .iter()
                    .map(|b| {
                        let s = &b["shape"];
                        if s["s"] == "compound" {
                            json!(arr(&s["parts"]).iter().map(|p| one(&p["shape"])).collect::<Vec<_>>())
                        } else {
                            json!([one(s)])
                        }
                    })
                    .collect();
                ("ok".into(), json!({"out": out, "alone": alone}))
            }
            "scene" => scene(op),
            // a Bevy mesh as navmesh input
            "bevymesh" => {
                let m = mesh_from(&op["m"]);
                match TriMesh::from_mesh(&m) {
                    Some(t) => ("ok".into(), json!({"some": 1, "mesh": tri_json(&t)})),
                    None => ("ok".into(), json!({"some": 0, "mesh": tri_json(&TriMesh::default())})),
                }
            }
            "wopen" => {
                let mut app = App::new();
                app.add_plugins((TaskPoolPlugin::default(), AssetPlugin::default(), bevy::transform::TransformPlugin, RerecastPlugin::default()));
                app.init_asset::<Mesh>();
                self.app = Some(app);
                ("ok".into(), json!(0))
            }
            o => ("ok".into(), world_op(self, o, op)),
        }
    }
}
fn local(v: &Value) -> Transform {
    let i: Vec<f32> = ints(v).iter().map(|x| *x as f32 / 8.0).collect();
    let m = Affine3A::from_cols_array(&i.try_into().expect("HARNESS: transform"));
    Transform::from_matrix(Mat4::from(m))
}
fn body(w: &mut bevy::ecs::world::World, e: Entity, kind: &str) {
    w.entity_mut(e).remove::<RigidBody>();
    let kind = match kind {
        "static" => RigidBody::Static,
        "dynamic" => RigidBody::Dynamic,
        "kinematic" => RigidBody::Kinematic,
        _ => return,
    };
    w.entity_mut(e).insert(kind);
}
fn world_op(me: &mut World, name: &str, op: &Value) -> Value {
    let app = me.app.as_mut().expect("HARNESS: no world");
    let handle = |k: i64, meshes: &mut HashMap<i64, Handle<Mesh>>, app: &App| {
        meshes.entry(k).or_insert_with(|| app.world().resource::<Assets<Mesh>>().reserve_handle()).clone()
    };
    match name {
        "wback" => match op["b"].as_str().unwrap() {
            "mesh" => Mesh3dNavmeshPlugin::default().build(app),
            "avian" => avian_rerecast::AvianRerecastPlugin::default().build(app),
            _ => {
                let at = GlobalTransform::from_translation(Vec3::new(gi(op, "n") as f32, 0.0, 0.0));
                app.set_navmesh_affector_backend(move || vec![(at, TriMesh::default())]);
            }
        },
        "wasset" => {
            let h = handle(gi(op, "k"), &mut me.meshes, app);
            app.world_mut().resource_mut::<Assets<Mesh>>().insert(&h, mesh_from(&op["m"]));
        }
        "wdrop" => {
            let h = handle(gi(op, "k"), &mut me.meshes, app);
            app.world_mut().resource_mut::<Assets<Mesh>>().remove(&h);
        }
        "wspawn" => {
            let w = app.world_mut();
            let e = w.spawn(local(&op["tf"])).id();
            if gi(op, "par") >= 0 {
                let p = me.ids[&gi(op, "par")].0;
                w.entity_mut(e).insert(ChildOf(p));
            }
            let mut b = None;
            if op["shape"]["s"] != "none" {
                let of = w.spawn_empty().id();
                body(w, of, op["kind"].as_str().unwrap());
                w.entity_mut(e).insert((collider(&op["shape"]), ColliderOf { body: of }));
                b = Some(of);
            }
            me.ids.insert(gi(op, "id"), (e, b));
            if gi(op, "m") >= 0 {
                let h = handle(gi(op, "m"), &mut me.meshes, app);
                app.world_mut().entity_mut(e).insert(Mesh3d(h));
            }
        }
        "wmove" => {
            let e = me.ids[&gi(op, "id")].0;
            app.world_mut().entity_mut(e).insert(local(&op["tf"]));
        }
        "wmesh" => {
            let e = me.ids[&gi(op, "id")].0;
            if gi(op, "m") >= 0 {
                let h = handle(gi(op, "m"), &mut me.meshes, app);
                app.world_mut().entity_mut(e).insert(Mesh3d(h));
            } else {
                app.world_mut().entity_mut(e).remove::<Mesh3d>();
            }
        }
        "wkind" => {
            if let Some(of) = me.ids[&gi(op, "id")].1 {
                body(app.world_mut(), of, op["kind"].as_str().unwrap());
            }
        }
        "wgone" => {
            let (e, _) = me.ids.remove(&gi(op, "id")).expect("HARNESS: entity");
            app.world_mut().entity_mut(e).despawn();
        }
        "wask" => {
            app.update();
            let Some(id) = app.world().get_resource::<NavmeshAffectorBackend>().map(|r| **r) else { return json!({"has": 0, "out": []}) };
            let r = app.world_mut().run_system(id).unwrap_or_else(|e| panic!("back end: {e}"));
            // rotations are not exact
            let out: Vec<Value> = r
                .iter()
                .map(|(t, m)| {
                    json!({"tf": t.affine().to_cols_array().iter().map(|x| (*x as f64 * 8.0).round() as i64).collect::<Vec<_>>(), "mesh": tri_json(m)})
                })
                .collect();
            return json!({"has": 1, "out": out});
        }
        "wgen" => {
            let h = app
                .world_mut()
                .run_system_once(|mut g: NavmeshGenerator<()>| g.generate(NavmeshConfigBuilder::default().build()))
                .unwrap_or_else(|e| panic!("generator: {e}"));
            let n = me.navmeshes.iter().position(|o| *o == h).unwrap_or(me.navmeshes.len());
            me.navmeshes.push(h);
            return json!(n);
        }
        o => panic!("HARNESS: unknown op {o}"),
    }
    json!(0)
}
