#!/usr/bin/env python3
"""Decides one property:  tools/check.py <ID> [quick|thorough].

  1. builds the conformance harness from /repo's working tree;
  2. checks the property exhaustively on the specification (TLC, small constants);
  3. replays behaviours that TLC generated from the specification on the real code;
  4. records random behaviours of the real code and has TLC validate them against the specification.
Exit 0: held; 1: VIOLATION line; 2: the check itself failed.
"""
import json, os, resource, shutil, subprocess, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from tlc import run_tlc, ToolError, VERIF
import plans

HARNESS = os.path.join(VERIF, "harness")
REPLAYS = os.path.join(VERIF, "replays")


def build():
    env = dict(os.environ)
    env.update(HOME="/root", PATH="/root/.cargo/bin:" + env.get("PATH", "/usr/bin:/bin"),
               RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
               CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
    env.pop("RUSTFLAGS", None)
    p = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=HARNESS, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=800)
    if p.returncode != 0:
        raise ToolError("harness build failed:\n" + p.stdout[-4000:])
    return os.path.join(HARNESS, "target", "debug", "rr-harness")


def build2(which=2):
    """The harness of the Bevy crates: compiled with rustc against the libraries that /repo's own (vendored, locked)
    workspace builds, because a separate crate cannot resolve Bevy without a network."""
    env = dict(os.environ)
    env.update(HOME="/root", PATH="/root/.cargo/bin:" + env.get("PATH", "/usr/bin:/bin"),
               RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
               CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
    env.pop("RUSTFLAGS", None)
    p = subprocess.run(["cargo", "test", "--workspace", "--all-features", "--features", "bevy/x11", "--no-run", "--offline",
                        "--message-format=json"], cwd="/repo", env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       text=True, timeout=800)
    if p.returncode != 0:
        raise ToolError("workspace build failed:\n" + p.stderr[-3000:])
    want = ["bevy", "avian3d", "avian_rerecast", "bevy_rerecast_core", "bevy_rerecast_editor_integration", "rerecast", "serde_json",
            "anyhow", "ureq", "bevy_rerecast"]
    ext, native = {}, []
    for line in p.stdout.splitlines():
        if not line.startswith("{"):
            continue
        m = json.loads(line)
        if m.get("reason") == "build-script-executed":
            native += m.get("linked_paths", [])
        elif m.get("reason") == "compiler-artifact" and not m["profile"]["test"] and m["target"]["name"] in want \
                and "lib" in m["target"]["kind"]:
            r = [f for f in m["filenames"] if f.endswith(".rlib")]
            if r:
                ext[m["target"]["name"]] = r[0]
    missing = [w for w in want if w not in ext]
    if missing:
        raise ToolError(f"no library for {missing}")
    os.makedirs(os.path.join(VERIF, "work"), exist_ok=True)
    out = os.path.join(VERIF, "work", f"rr-harness{which}-{os.getpid()}")
    cmd = ["rustc", "--edition", "2024", os.path.join(VERIF, f"harness{which}", "src", "main.rs"), "--crate-name", f"rr_harness{which}",
           "-C", "debug-assertions=on", "-C", "overflow-checks=on", "-A", "warnings", "-o", out,
           "-L", "dependency=/repo/target/debug/deps"]
    for n in sorted(set(native)):
        cmd += ["-L", n]
    for k, v in ext.items():
        cmd += ["--extern", f"{k}={v}"]
    # Bevy's derive macros look up crate paths in this manifest
    env["CARGO_MANIFEST_DIR"] = "/repo/crates/bevy_rerecast_editor"
    p = subprocess.run(cmd, cwd=VERIF, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if p.returncode != 0:
        raise ToolError(f"harness{which} build failed:\n" + p.stdout[-4000:])
    return out


def limit_memory():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.plan = plans.PLANS[pid]
        self.work = os.path.join(VERIF, "work", f"{pid}_{os.getpid()}")
        self.states = self.transitions = self.traces = self.events = self.vectors = 0
        self.samples, self.parts, self.violations, self.known = [], [], [], []
        self.rejected_ids = set()

    def thorough(self):
        return self.tier == "thorough"

    # ---- findings -----------------------------------------------------------------------------
    def violation(self, kind, what, record):
        key = f"{kind}: {what}"
        for k in plans.known_findings(self.pid):
            if plans.matches(k, kind, what, record):
                if k["what"] not in self.known:
                    self.known.append(k["what"])
                return
        if len(self.violations) < 5:
            os.makedirs(REPLAYS, exist_ok=True)
            path = os.path.join(REPLAYS, f"{self.pid}_{self.tier}_{len(self.violations)}.json")
            with open(path, "w") as f:
                json.dump({"property": self.pid, "kind": kind, "what": what, "record": record}, f)
            self.violations.append((key, path))
        else:
            self.violations.append((key, self.violations[0][1]))

    # ---- running the code -----------------------------------------------------------------------
    def harness(self, args, out):
        """The code may take the process down (stack, memory): what ran then is the behaviour that fails."""
        p = subprocess.run([self.bin, *args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=800,
                           preexec_fn=limit_memory)
        if p.returncode < 0:
            head, _, dots = open(out + ".cur").read().partition("\n")
            ops = json.loads(head)[:max(1, len(dots))]
            ev = [dict(o, res="ok", post=0) for o in ops]
            ev[-1]["res"] = "abort"
            if ev[-1]["a"] in self.plan["checked"]:
                self.violation("trace", f"{ev[-1]['a']}: abort", {"id": "abort", "step": len(ev), "ev": ev})
            elif not os.path.getsize(out):
                raise ToolError(f"the code aborts in {ev[-1]['a']}")
        elif p.returncode:
            raise ToolError(f"{' '.join(args)} exited with {p.returncode}: {p.stderr[-2000:]}")
        return p.returncode, p.stdout

    # ---- 2. the specification itself ----------------------------------------------------------
    def model(self, m):
        tier = m.get(self.tier, m.get("quick"))
        if tier is None:
            return
        r = run_tlc(m["module"], self.work, m.get("tag", m["module"]), consts=dict(m.get("consts", {}), **tier),
                    spec=m.get("spec", "Spec"), invariants=m.get("inv", []), properties=m.get("props", []))
        if r["violated"]:
            raise ToolError(f"specification {m['module']} violates {r['violated']} (see {r['out']})")
        self.states += r["distinct"]
        self.transitions += max(r["generated"] - 0, 0)
        self.parts.append(f"{m['module']}[{m.get('tag','')}]: {r['distinct']} states, {r['generated']} generated")
        vec = [b for k, b in r["lines"] if k == "VEC"]
        ops = [b for k, b in r["lines"] if k == "OPS"]
        if m.get("emits") and not vec and not ops:
            raise ToolError(f"{m['module']} emitted no behaviours")
        if vec:
            self.replay(m.get("tag", m["module"]), vec)
        if ops:
            path = os.path.join(self.work, "ops.ndjson")
            with open(path, "w") as f:
                f.write("\n".join(ops) + "\n")
            out = os.path.join(self.work, "ops_tr.ndjson")
            self.harness(["run", path, out], out)
            self.validate(m.get("tag", m["module"]) + "_gen", out)

    # ---- 3. specification behaviours on the real code -----------------------------------------
    def replay(self, tag, vec):
        path = os.path.join(self.work, tag + ".vec")
        with open(path, "w") as f:
            f.write("\n".join(vec) + "\n")
        out = os.path.join(self.work, tag + ".mis")
        rc, s = self.harness(["replay", path, out], out)
        w = s.split() if rc == 0 else ["REPLAYED", "0", "MISMATCHES", "0"]
        if w[:1] != ["REPLAYED"] or (rc == 0 and int(w[1]) != len(vec) and w[3] == "0"):
            raise ToolError("replay: " + s)
        self.vectors += len(vec)
        self.traces += len(vec)
        self.parts.append(f"{tag}: {len(vec)} specification steps replayed on the code, {w[3]} differ")
        if len(self.samples) < 3:
            self.samples.append({"replayed": json.loads(vec[len(vec) // 2])})
        if int(w[3]):
            with open(out) as f:
                for line in f:
                    rec = json.loads(line)
                    last = rec["ev"][-1]
                    self.violation("replay", f"{tag}: {last['a']} -> {last['res']} {last.get('msg', '')}".strip(), rec)

    # ---- 4. behaviours of the real code -------------------------------------------------------
    def validate(self, tag, path):
        lines = [l for l in open(path).read().splitlines() if l.endswith("}")]
        if not lines and self.violations:
            return
        if not lines:
            raise ToolError("no traces recorded")
        # bounded batches keep TLC's memory flat
        size = self.plan.get("batch", 4000)
        for b in range(0, len(lines), size):
            part = lines[b:b + size]
            p = os.path.join(self.work, f"{tag}_{b}.tr")
            with open(p, "w") as f:
                f.write("\n".join(part) + "\n")
            checked = "{" + ", ".join(f'"{c}"' for c in self.plan["checked"]) + "}"
            r = run_tlc("Trace", self.work, f"{tag}_{b}", consts={"Checked": checked}, spec="TSpec", post="AllConsumed",
                        env={"TRACE": p})
            self.states += r["distinct"]
            self.transitions += r["generated"] - len(part)
            self.traces += len(part)
            seen = set()
            for kind, body in r["lines"]:
                if kind != "REJECT":
                    continue
                j = json.loads(body)
                key = (j["tr"], j["step"])
                if key in seen:
                    continue
                seen.add(key)
                rec = json.loads(part[j["tr"] - 1])
                if any("HARNESS" in c for c in j["clauses"]):
                    raise ToolError(f"harness clause {j}")
                ev = rec["ev"][j["step"] - 1]
                self.violation("trace", f"{j['action']}: {', '.join(sorted(j['clauses']))} {ev.get('msg', '')}".strip(),
                               {"id": rec["id"], "step": j["step"], "ev": rec["ev"]})
            os.remove(p)
        n = sum(len(json.loads(l)["ev"]) for l in lines)
        self.events += n
        self.parts.append(f"{tag}: {len(lines)} recorded behaviours ({n} steps) validated")
        if len(self.samples) < 3:
            s = json.loads(min(lines[: 50], key=len))
            self.samples.append({"recorded": s})

    def family(self, f):
        n = f.get(self.tier, f["quick"])
        out = os.path.join(self.work, f["name"] + ".ndjson")
        self.harness(["gen", f["name"], str(self.seed), str(n), out], out)
        self.validate(f["name"], out)

    def go(self):
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        t0 = time.time()
        self.bin = build2(self.plan["harness"]) if "harness" in self.plan else build()
        tb = time.time() - t0
        for m in self.plan.get("models", []):
            self.model(m)
        for f in self.plan.get("families", []):
            self.family(f)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "replayed_steps": self.vectors, "recorded_steps": self.events,
                "parts": self.parts, "samples": self.samples,
                "explanation": self.plan["explain"],
            },
            "assumptions": self.plan.get("assumptions", []),
            "wall_s": round(time.time() - t0, 1), "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for p in self.parts:
            print("  " + p)
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {k}")
        print(f"{self.pid} {self.tier} seed={self.seed}: {self.states} states, {self.traces} traces, "
              f"{len(self.violations)} violations, build {tb:.0f}s, total {time.time()-t0:.0f}s")
        if self.violations:
            for key, path in self.violations[:5]:
                print(f"  {key[:300]}")
            print(f"VIOLATION property={self.pid} replay={self.violations[0][1]}")
            return 1
        return 0


def main():
    pid = sys.argv[1]
    if pid == "--setup":
        print(build())
        b = build2()
        print(b)
        os.remove(b)
        return
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    run = Run(pid, tier, seed)
    try:
        rc = run.go()
    except (ToolError, subprocess.TimeoutExpired, OSError, KeyError, ValueError) as e:
        traceback.print_exc()
        print(f"{pid}: the check itself failed: {e}", file=sys.stderr)
        rc = 2
    if rc != 2 or not os.environ.get("KEEP"):
        shutil.rmtree(run.work, ignore_errors=True)
    if "harness" in run.plan and os.path.exists(getattr(run, "bin", "")):
        os.remove(run.bin)
    sys.exit(rc)


if __name__ == '__main__':
    main()
