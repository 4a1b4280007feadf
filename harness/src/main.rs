//! Replays scenarios against the real crate and records what it did.
//! usage: harness SCENARIOS.ndjson TRACES.ndjson   (SCRATCH: a directory this process may fill)
mod adapt;
mod bulk;
mod misc;
mod cli;
mod det;
mod huge;
mod server;
mod src;

use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// The events of the scenario that is running.
pub static LOG: Mutex<Vec<Value>> = Mutex::new(Vec::new());
static CURRENT: Mutex<Option<(Value, Instant)>> = Mutex::new(None);
static OUT: Mutex<Option<std::fs::File>> = Mutex::new(None);
static DONE: AtomicU64 = AtomicU64::new(0);

const HANG: Duration = Duration::from_secs(20);

pub fn log(v: Value) {
    LOG.lock().unwrap_or_else(|e| e.into_inner()).push(v);
}

pub fn bytes(b: &[u8]) -> Value {
    Value::Array(b.iter().map(|x| Value::from(*x)).collect())
}

pub fn get_bytes(v: &Value) -> Vec<u8> {
    match v {
        Value::String(s) => s.bytes().collect(),
        Value::Array(a) => a.iter().map(|x| x.as_u64().unwrap() as u8).collect(),
        _ => vec![],
    }
}

fn finish(mut head: Value) {
    server::free_disk();
    let ev = std::mem::take(&mut *LOG.lock().unwrap_or_else(|e| e.into_inner()));
    head["ev"] = Value::Array(ev);
    let mut out = OUT.lock().unwrap_or_else(|e| e.into_inner());
    let f = out.as_mut().unwrap();
    let mut line = serde_json::to_vec(&head).unwrap();
    line.push(b'\n');
    f.write_all(&line).unwrap();
    f.flush().unwrap();
}

fn scratch_root() -> std::path::PathBuf {
    std::env::var_os("SCRATCH").expect("SCRATCH").into()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    *OUT.lock().unwrap() =
        Some(std::fs::OpenOptions::new().create(true).append(true).open(&args[2]).unwrap());
    std::panic::set_hook(Box::new(|_| {}));

    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(500));
        let cur = CURRENT.lock().unwrap_or_else(|e| e.into_inner()).clone();
        if let Some((head, t)) = cur {
            let long = if head["kind"] == "huge" { 10 } else { 1 };
            if t.elapsed() > HANG * long {
                log(json!({"op": "hang", "faults": [], "post": 0}));
                finish(head);
                std::process::exit(75);
            }
        }
    });

    let scen = std::io::BufReader::new(std::fs::File::open(&args[1]).unwrap());
    for line in scen.lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let sc: Value = serde_json::from_str(&line).unwrap();
        // what the specification needs to know about the scenario
        let mut head = json!({"id": sc["id"], "kind": sc["kind"]});
        if let Some(m) = sc.get("spec").and_then(|m| m.as_object()) {
            for (k, v) in m {
                head[k] = v.clone();
            }
        }
        for k in ["body", "bnd"] {
            if let Some(v) = sc.get(k) {
                head[k] = bytes(&get_bytes(v));
            }
        }
        *CURRENT.lock().unwrap_or_else(|e| e.into_inner()) = Some((head.clone(), Instant::now()));
        let dir = scratch_root().join(format!("s{}", DONE.load(Ordering::SeqCst)));
        std::fs::create_dir_all(&dir).unwrap();
        std::env::set_current_dir(&dir).unwrap();
        let res = catch_unwind(AssertUnwindSafe(|| match sc["kind"].as_str().unwrap() {
            "server" => server::run(&sc, &dir),
            "client" => cli::run(&sc, &dir),
            "detect" => det::run(&sc, &dir),
            "intercept" => det::run_intercept(&sc, &dir),
            "mock" => misc::run_mock(&sc),
            "tee" => misc::run_tee(&sc),
            "dir" => misc::run_dir(&sc, &dir),
            "adapt" => adapt::run(&sc, &dir),
            "bulk" => bulk::run(&sc, &dir),
            "huge" => huge::run(&sc, &dir),
            other => panic!("unknown scenario kind {}", other),
        }));
        if let Err(p) = res {
            let msg = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            let op = if msg == src::FUEL_MSG { "hang" } else { "panic" };
            log(json!({"op": op, "faults": [], "post": 0, "msg": msg}));
        }
        *CURRENT.lock().unwrap_or_else(|e| e.into_inner()) = None;
        finish(head);
        let _ = std::env::set_current_dir(scratch_root());
        let _ = std::fs::remove_dir_all(&dir);
        DONE.fetch_add(1, Ordering::SeqCst);
    }
}
