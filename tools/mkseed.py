#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from a definition file and confirms it in a scratch copy of /repo.

  mkseed.py DEF.py...      each DEF.py defines: ID, PROPERTY, FILE, EDITS [(old, new)], NEEDS, BREAKS, DEMO (rust main.rs)
The patch must apply, build, pass the stable tests; the demonstration must pass without it and fail with it.
"""
import json, os, re, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COPY = "/tmp/w/seedcopy"
SH = '''#!/bin/bash
# exit 0 when the property holds for the demonstrated input
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
rerecast = { path = "$repo/crates/rerecast" }
glam = "0.29"
[profile.dev]
debug = false
incremental = false
TOML
cp "$here/Cargo.lock.demo" "$tmp/Cargo.lock"
export HOME=/root PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/target" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset RUSTC_WRAPPER RUSTFLAGS
cd "$tmp"
cargo build --offline -q || exit 2
timeout 60 "$tmp/target/debug/demo"
'''
BEVY_SH = '''#!/bin/bash
# exit 0 when the property holds for the demonstrated input
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
. /opt/vp/env.sh
unset RUSTFLAGS
cd "$repo"
cargo test --workspace --all-features --features bevy/x11 --no-run --offline --message-format=json > "$tmp/msgs" 2> "$tmp/err" || { tail -20 "$tmp/err"; exit 2; }
python3 - "$tmp/msgs" > "$tmp/args" <<'PY'
import json, sys
want = {"bevy", "avian3d", "avian_rerecast", "bevy_rerecast_core", "bevy_rerecast_editor_integration", "serde_json"}
ext, nat = {}, set()
for l in open(sys.argv[1]):
    if not l.startswith("{"):
        continue
    m = json.loads(l)
    if m.get("reason") == "build-script-executed":
        nat.update(m.get("linked_paths", []))
    elif m.get("reason") == "compiler-artifact" and not m["profile"]["test"] and m["target"]["name"] in want and "lib" in m["target"]["kind"]:
        for f in m["filenames"]:
            if f.endswith(".rlib"):
                ext[m["target"]["name"]] = f
print("\\n".join(["-L\\n" + n for n in sorted(nat)] + [f"--extern\\n{k}={v}" for k, v in ext.items()]))
PY
mapfile -t args < "$tmp/args"
rustc --edition 2024 "$here/main.rs" -A warnings --crate-name demo -o "$tmp/demo" -L "dependency=$repo/target/debug/deps" "${args[@]}" || exit 2
timeout 60 "$tmp/demo"
'''
# the editor is a binary: its modules are included by path
EDITOR_SH = BEVY_SH.replace('"serde_json"}', '"serde_json", "bevy_rerecast", "rerecast", "anyhow", "ureq"}').replace(
    'rustc --edition 2024 "$here/main.rs"', 'sed "s|@REPO@|$repo|" "$here/main.rs" > "$tmp/main.rs"\nCARGO_MANIFEST_DIR="$repo/crates/bevy_rerecast_editor" rustc --edition 2024 "$tmp/main.rs"')
EDITOR_PRE = """#![allow(dead_code, unused_imports, unused_variables)]
#[path = "@REPO@/crates/bevy_rerecast_editor/src/build.rs"]
mod build;
#[path = "@REPO@/crates/bevy_rerecast_editor/src/get_navmesh_input.rs"]
mod get_navmesh_input;
#[path = "@REPO@/crates/bevy_rerecast_editor/src/visualization.rs"]
mod visualization;
use bevy::asset::RenderAssetUsages;
use bevy::prelude::*;
use bevy::render::mesh::{Indices, PrimitiveTopology};
use build::{BuildNavmesh, NavmeshAffector};
use get_navmesh_input::GetNavmeshInput;
use visualization::{AvailableGizmos, GizmosToDraw, Navmesh, VisualMesh};

fn editor() -> App {
    let _ = bevy::ecs::error::GLOBAL_ERROR_HANDLER.set(bevy::ecs::error::warn);
    let mut app = App::new();
    app.add_plugins(bevy::transform::TransformPlugin);
    app.init_resource::<Assets<Mesh>>().init_resource::<Assets<Image>>().init_resource::<Assets<StandardMaterial>>().init_resource::<Assets<GizmoAsset>>();
    app.add_plugins((get_navmesh_input::plugin, build::plugin, visualization::plugin));
    app.update();
    app
}
/// A square floor.
fn floor(app: &mut App, size: f32, at: Transform) -> Entity {
    let mesh = Mesh::new(PrimitiveTopology::TriangleList, RenderAssetUsages::all())
        .with_inserted_attribute(Mesh::ATTRIBUTE_POSITION, vec![[0.0, 0.0, 0.0], [size, 0.0, 0.0], [size, 0.0, size], [0.0, 0.0, size]])
        .with_inserted_indices(Indices::U32(vec![0, 2, 1, 0, 3, 2]));
    let mesh = app.world_mut().resource_mut::<Assets<Mesh>>().add(mesh);
    let gizmo = app.world_mut().resource_mut::<Assets<GizmoAsset>>().add(GizmoAsset::new());
    app.world_mut().spawn((at, Mesh3d(mesh), NavmeshAffector, Visibility::Hidden, Gizmo { handle: gizmo, ..default() })).id()
}
fn build_now(app: &mut App) {
    app.world_mut().trigger(BuildNavmesh);
    app.world_mut().flush();
}

"""
BEVY_PRE = "#![allow(dead_code, unused_imports, unused_variables)]\n"
PRE = '''#![allow(dead_code, unused_imports, unused_variables)]
use glam::*;
use rerecast::*;

/// A heightfield of unit cells with the given columns of (min, max, area), x fastest.
fn field(w: u16, h: u16, cols: &[Vec<(u16, u16, u8)>]) -> Heightfield {
    let mut hf = HeightfieldBuilder {
        aabb: Aabb3d { min: Vec3::ZERO, max: Vec3::new(w as f32, 100.0, h as f32) },
        cell_size: 1.0,
        cell_height: 1.0,
    }
    .build()
    .unwrap();
    for (i, c) in cols.iter().enumerate() {
        let mut next = None;
        for s in c.iter().rev() {
            next = Some(hf.allocated_spans.insert(Span { min: s.0, max: s.1, area: AreaType(s.2), next }));
        }
        hf.spans[i] = next;
    }
    hf
}
fn columns(hf: &Heightfield) -> Vec<Vec<(u16, u16, u8)>> {
    hf.spans
        .iter()
        .map(|first| {
            let mut out = vec![];
            let mut k = *first;
            while let Some(key) = k {
                let s = hf.span(key);
                out.push((s.min, s.max, s.area.0));
                k = s.next;
            }
            out
        })
        .collect()
}
/// A floor drawn with characters: ' ' nothing, a digit an area; all at one height.
fn plan(rows: &[&str]) -> CompactHeightfield {
    let (w, h) = (rows[0].len() as u16, rows.len() as u16);
    let mut cols = vec![];
    for r in rows {
        for ch in r.chars() {
            cols.push(if ch == ' ' { vec![] } else { vec![(0, 5, ch.to_digit(10).unwrap() as u8)] });
        }
    }
    field(w, h, &cols).into_compact(3, 1).unwrap()
}

'''


def sh(cmd, cwd=None, ok=True, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if ok and p.returncode:
        raise SystemExit(f"{cmd}: {p.stdout[-3000:]}")
    return p.returncode, p.stdout


def tests():
    """The tests that pass in the scratch copy; chainboom's reference data is incomplete."""
    sh(f"rm -rf {COPY}/crates/rerecast/tests/reference_data/chainboom")
    rc, o = sh(f"sed s,/repo,{COPY},g /opt/vp/env.sh > /tmp/w/env.sh; . /tmp/w/env.sh; cargo test --workspace --all-features "
               "--features bevy/x11 --no-fail-fast --offline -- --test-threads 8", cwd=COPY, ok=False)
    sh(["git", "-C", COPY, "checkout", "-q", "--", "."])
    if "error: could not compile" in o:
        raise SystemExit(o[-2000:])
    return set(re.sub(r" - .*?#", " #", re.sub(r"\(line \d+\)", "", l)) for l in o.splitlines() if l.startswith("test ") and l.endswith(" ok"))


def main():
    sh(f"mkdir -p /tmp/w && rsync -a --delete --exclude target /repo/ {COPY}/ 2>/dev/null || (rm -rf {COPY} && cp -a /repo {COPY})")
    clean = tests()
    print(len(clean), 'tests pass')
    for path in sys.argv[1:]:
        d = {}
        exec(open(path).read(), d)
        out = os.path.join(VERIF, "seeded", d["ID"])
        sh(["git", "-C", COPY, "checkout", "-q", "--", "."])
        os.makedirs(out, exist_ok=True)
        with open(os.path.join(out, "main.rs"), "w") as f:
            f.write((EDITOR_PRE if d.get("EDITOR") else BEVY_PRE if d.get("BEVY") else PRE) + d["DEMO"].lstrip("\n"))
        with open(os.path.join(out, "demo.sh"), "w") as f:
            sh_text = EDITOR_SH if d.get("EDITOR") else BEVY_SH if d.get("BEVY") else SH
            if d.get("SERDE"):
                sh_text = sh_text.replace('crates/rerecast" }', 'crates/rerecast", features = ["serialize"] }\nserde_json = "1"')
            f.write(sh_text)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        if not d.get("BEVY") and not d.get("EDITOR"):
            shutil.copy(os.path.join(VERIF, "harness", "Cargo.lock"), os.path.join(out, "Cargo.lock.demo"))
        rc, o = sh([os.path.join(out, "demo.sh")], cwd=COPY, ok=False)
        if rc:
            print(d["ID"], "DEMO FAILS ON CLEAN TREE", rc, o[-1500:]); continue
        for edit in d["EDITS"]:
            file, (old, new) = (d["FILE"], edit) if len(edit) == 2 else (edit[0], edit[1:])
            p = os.path.join(COPY, file)
            s = open(p).read()
            if s.count(old) != 1:
                raise SystemExit(f"{d['ID']}: {s.count(old)} matches of {old!r}")
            open(p, "w").write(s.replace(old, new))
        _, diff = sh(["git", "-C", COPY, "diff"])
        with open(os.path.join(out, "patch.diff"), "w") as f:
            f.write(diff)
        rc, o = sh([os.path.join(out, "demo.sh")], cwd=COPY, ok=False)
        if rc in (0, 2):
            print(d["ID"], "DEMO NOT FAILING WITH PATCH", rc, o[-1500:]); continue
        print(d["ID"], "demo:", o.strip().splitlines()[-1][:150] if o.strip() else rc)
        want, got = clean, tests()
        if want - got:
            print(d["ID"], "TESTS FAIL", sorted(want - got)); continue
        with open(os.path.join(out, "meta.json"), "w") as f:
            json.dump({"property": d["PROPERTY"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, f, indent=1)
        print(d["ID"], "OK")


main()
