//! Conformance driver: executes behaviours of the TLA+ specification on the real crate and
//! records traces (one JSON object per behaviour) for validation by TLC.
use serde_json::{Value, json};
use std::io::{BufRead, Seek, SeekFrom, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::{Arc, Mutex, mpsc};
use std::time::Duration;
use crate::families;
use crate::world::World;

/// What is running right now, for the case that the code takes the process down with it: the
/// operations of the behaviour, then one dot per operation begun.
static CURRENT: Mutex<Option<std::fs::File>> = Mutex::new(None);
fn current(f: impl FnOnce(&mut std::fs::File)) {
    if let Some(file) = CURRENT.lock().unwrap().as_mut() {
        f(file);
    }
}
fn current_file(out: &str) {
    *CURRENT.lock().unwrap() = Some(std::fs::File::create(format!("{out}.cur")).unwrap());
}
const LIMIT: Duration = Duration::from_secs(20);
const MAX_HANGS: usize = 2;

/// Runs a list of operations; every event carries its arguments, `res` and `post`.
fn run_ops(ops: &[Value], sink: &Mutex<Vec<Value>>) {
    let mut w = World::default();
    for op in ops {
        current(|f| drop(f.write_all(b".")));
        {
            let mut e = op.clone();
            e["res"] = json!("hang");
            e["post"] = json!(0);
            sink.lock().unwrap().push(e);
        }
        // the same operation on an equal state has to give an equal result
        let twice = op["twice"] == 1;
        let mut again = Value::Null;
        let r = catch_unwind(AssertUnwindSafe(|| {
            let other = twice.then(|| w.clone());
            let first = w.exec(op);
            if let Some(mut o) = other {
                let second = o.exec(op);
                let same = first == second && format!("{w:?}") == format!("{o:?}");
                again = json!(if same { 1 } else { 0 });
            }
            first
        }));
        let mut s = sink.lock().unwrap();
        let last = s.last_mut().unwrap();
        match r {
            Ok((res, post)) => {
                let stop = res != "ok";
                if let Some(m) = res.strip_prefix("err:") {
                    last["res"] = json!("err");
                    last["msg"] = json!(m);
                } else {
                    last["res"] = json!(res);
                }
                if twice {
                    last["again"] = again;
                }
                last["post"] = if post.is_null() { json!(0) } else { post };
                if stop {
                    return;
                }
            }
            Err(p) => {
                let msg = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_else(|| "?".into());
                if msg.starts_with("HARNESS") {
                    eprintln!("{msg}");
                    std::process::exit(3);
                }
                last["res"] = json!("panic");
                last["msg"] = json!(msg);
                return;
            }
        }
    }
}

/// A behaviour that does not come back within the limit keeps "hang" as the outcome of its last
/// step (its thread is abandoned).
fn run_guarded(ops: Vec<Value>, hangs: &mut usize) -> Vec<Value> {
    current(|f| {
        let _ = f.set_len(0);
        let _ = f.seek(SeekFrom::Start(0));
        let _ = f.write_all(format!("{}\n", Value::Array(ops.clone())).as_bytes());
    });
    let sink = Arc::new(Mutex::new(vec![]));
    let (tx, rx) = mpsc::channel();
    let s2 = sink.clone();
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            run_ops(&ops, &s2);
            let _ = tx.send(());
        })
        .unwrap();
    if rx.recv_timeout(LIMIT).is_err() {
        *hangs += 1;
    }
    sink.lock().unwrap().clone()
}

pub fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let usage = "usage: rr-harness gen PROP SEED COUNT OUT | run OPS.ndjson OUT";
    match args.get(1).map(|s| s.as_str()) {
        // generate behaviours of a family from the seed, run them, write traces
        Some("gen") => {
            let prop = &args[2];
            let seed: u64 = args[3].parse().expect(usage);
            let count: usize = args[4].parse().expect(usage);
            let mut out = std::io::BufWriter::new(std::fs::File::create(&args[5]).unwrap());
            current_file(&args[5]);
            let mut hangs = 0;
            for (i, (id, ops)) in families::scenes(prop, seed, count).into_iter().enumerate() {
                let ev = run_guarded(ops, &mut hangs);
                writeln!(out, "{}", json!({"id": format!("{id}#{i}"), "ev": ev})).unwrap();
                out.flush().unwrap();
                if hangs >= MAX_HANGS {
                    break;
                }
            }
            out.flush().unwrap();
        }
        // run behaviours given as {"id":..,"ops":[..]} (generated by TLC, or a saved violation)
        Some("run") => {
            let f = std::io::BufReader::new(std::fs::File::open(&args[2]).unwrap());
            let mut out = std::io::BufWriter::new(std::fs::File::create(&args[3]).unwrap());
            current_file(&args[3]);
            let mut hangs = 0;
            for line in f.lines() {
                let line = line.unwrap();
                if line.trim().is_empty() {
                    continue;
                }
                let v: Value = serde_json::from_str(&line).expect("bad ops line");
                let ops = v.get("ops").or(v.get("ev")).and_then(|o| o.as_array()).expect("no ops").clone();
                let ops: Vec<Value> = ops
                    .into_iter()
                    .map(|mut o| {
                        if let Some(m) = o.as_object_mut() {
                            m.remove("res");
                            m.remove("post");
                            m.remove("msg");
                            m.remove("again");
                        }
                        o
                    })
                    .collect();
                let ev = run_guarded(ops, &mut hangs);
                writeln!(out, "{}", json!({"id": v["id"], "ev": ev})).unwrap();
                out.flush().unwrap();
                if hangs >= MAX_HANGS {
                    break;
                }
            }
            out.flush().unwrap();
        }
        // compare the outcome of spec-generated single steps with what the spec says:
        // {"ops":[..], "exp": <expected post of the last op>}
        Some("replay") => {
            let f = std::io::BufReader::new(std::fs::File::open(&args[2]).unwrap());
            let mut out = std::io::BufWriter::new(std::fs::File::create(&args[3]).unwrap());
            current_file(&args[3]);
            let (mut n, mut bad, mut hangs) = (0u64, 0u64, 0);
            for line in f.lines() {
                let line = line.unwrap();
                if line.trim().is_empty() {
                    continue;
                }
                let v: Value = serde_json::from_str(&line).expect("bad vector");
                let ops = v["ops"].as_array().expect("no ops").clone();
                let ev = run_guarded(ops.clone(), &mut hangs);
                n += 1;
                let last = ev.last().unwrap();
                let mut ok = ev.len() == ops.len() && last["res"] == "ok";
                if ok {
                    // `exp` may name a subset of the fields of the projected state
                    ok = match (&v["exp"], &last["post"]) {
                        (Value::Object(e), Value::Object(p)) => e.iter().all(|(k, x)| p.get(k) == Some(x)),
                        (e, p) => e == p,
                    };
                }
                if !ok {
                    bad += 1;
                    if bad <= 20 {
                        writeln!(out, "{}", json!({"id": format!("vec{n}"), "ev": ev, "exp": v["exp"]})).unwrap();
                        out.flush().unwrap();
                    }
                }
                if hangs >= MAX_HANGS {
                    break;
                }
            }
            out.flush().unwrap();
            println!("REPLAYED {n} MISMATCHES {bad}");
        }
        _ => {
            eprintln!("{usage}");
            std::process::exit(3);
        }
    }
    std::process::exit(0);
}
