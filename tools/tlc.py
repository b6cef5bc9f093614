"""Running TLC on the modules of /verif/spec with constants given as TLA+ expressions."""
import os, re, subprocess, json

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def run_tlc(module, work, tag, consts=None, spec="Spec", invariants=(), properties=(), post=None,
            env=None, timeout=800, extra=(), heap="8g", workers=8):
    """Returns a dict(generated, distinct, lines=printed payloads, violated=[names], out=path)."""
    os.makedirs(work, exist_ok=True)
    name = f"R_{tag}"
    consts = consts or {}
    with open(os.path.join(work, name + ".tla"), "w") as f:
        f.write(f"---- MODULE {name} ----\nEXTENDS {module}\n")
        for k, v in consts.items():
            f.write(f"c_{k} == {v}\n")
        f.write("====\n")
    with open(os.path.join(work, name + ".cfg"), "w") as f:
        f.write(f"SPECIFICATION {spec}\nCHECK_DEADLOCK FALSE\n")
        for k in consts:
            f.write(f"CONSTANT {k} <- c_{k}\n")
        for i in invariants:
            f.write(f"INVARIANT {i}\n")
        for i in properties:
            f.write(f"PROPERTY {i}\n")
        if post:
            f.write(f"POSTCONDITION {post}\n")
    out = os.path.join(work, name + ".out")
    cmd = ["java", "-Xss64m", f"-Xmx{heap}", "-XX:+UseParallelGC", f"-DTLA-Library={SPEC}", "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", os.path.join(work, "st_" + tag), "-noGenerateSpecTE",
           "-config", name + ".cfg", *extra, name + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    with open(out, "w") as f:
        try:
            p = subprocess.run(cmd, cwd=work, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC timed out after {timeout}s on {module}")
    res = {"generated": 0, "distinct": 0, "lines": [], "violated": [], "out": out, "rc": rc}
    finished = False
    with open(out, errors="replace") as f:
        for line in f:
            if line.startswith('"VEC ') or line.startswith('"OPS ') or line.startswith('"REJECT '):
                s = json.loads(line.rstrip("\n"))
                kind, _, body = s.partition(" ")
                res["lines"].append((kind, body))
                continue
            m = re.match(r"(\d+) states generated, (\d+) distinct states found, 0 states left", line.replace(",", ",")) \
                or re.match(r"([\d,]+) states generated, ([\d,]+) distinct states found, 0 states left", line)
            if m:
                res["generated"] = int(m.group(1).replace(",", ""))
                res["distinct"] = int(m.group(2).replace(",", ""))
            m = re.match(r"Error: Invariant (\S+) is violated", line)
            if m:
                res["violated"].append(m.group(1))
            m = re.match(r"Error: (?:Action property|Temporal properties) ?(\S*)", line)
            if m:
                res["violated"].append(m.group(1))
            if "Model checking completed. No error has been found" in line:
                finished = True
    if res["violated"]:
        return res
    if rc != 0 or not finished:
        tail = subprocess.run(["tail", "-n", "25", out], capture_output=True, text=True).stdout
        raise ToolError(f"TLC failed on {module} ({tag}), exit {rc}:\n{tail[-3000:]}")
    return res
