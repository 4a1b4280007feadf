//! Mock transports, the tee writer, the life of a save directory.
use crate::{bytes, get_bytes, log};
use multipart::mock;
use multipart::server::save::SaveDir;
use multipart::server::Multipart;
use serde_json::{json, Value};
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::unix::io::AsRawFd;
use std::path::Path;

fn num(v: &Value) -> usize {
    v.as_u64().unwrap_or(0) as usize
}

pub fn run_mock(sc: &Value) {
    let pre = get_bytes(&sc["pre"]);
    let bnd = sc["bnd"].as_str().unwrap_or("bnd").to_string();
    let len = sc["len"].as_u64();
    let mut b = if pre.is_empty() {
        mock::HttpBuffer::new_empty(bnd.clone(), len)
    } else {
        mock::HttpBuffer::with_buf(pre, bnd.clone(), len)
    };
    for w in sc["writes"].as_array().unwrap() {
        let d = get_bytes(&w["b"]);
        if w["all"].as_bool().unwrap_or(false) {
            let r = b.write_all(&d);
            log(json!({"op": "writeall", "b": bytes(&d), "res": if r.is_ok() {"ok"} else {"err"}, "buf": bytes(&b.buf)}));
        } else {
            match b.write(&d) {
                Ok(k) => log(json!({"op": "write", "b": bytes(&d), "res": "ok", "k": k, "buf": bytes(&b.buf)})),
                Err(_) => log(json!({"op": "write", "b": bytes(&d), "res": "err", "k": 0, "buf": bytes(&b.buf)})),
            }
        }
    }
    let direct = sc["direct"].as_bool().unwrap_or(false);
    let all = b.buf.clone();
    let mut s = if direct { mock::ServerRequest::new(&all, &bnd) } else { b.for_server() };
    log(json!({"op": "server", "bnd": bytes(s.boundary.as_bytes()), "len": s.content_len.iter().collect::<Vec<_>>(),
        "data": bytes(s.data), "direct": direct}));
    let sizes = sc["reads"].as_array().unwrap();
    let mut ends = 0;
    let mut k = 0;
    while ends < 2 && k < 20000 {
        let n = if k < sizes.len() { num(&sizes[k]) } else { num(sizes.last().unwrap()).max(1) };
        k += 1;
        let mut o = vec![0xEE; n];
        match s.read(&mut o) {
            Ok(c) => {
                let clean = o[c.min(n)..].iter().all(|x| *x == 0xEE);
                log(json!({"op": "sread", "n": n, "res": "ok", "out": bytes(&o[..c.min(n)]), "k": c, "clean": clean}));
                if c == 0 && n > 0 {
                    ends += 1;
                }
            }
            Err(_) => {
                log(json!({"op": "sread", "n": n, "res": "err", "out": [], "k": 0, "clean": true}));
                ends += 1;
            }
        }
    }
}

/// An inner writer that accepts few bytes at a time and can fail.
struct Inner {
    got: Vec<u8>,
    max: Vec<usize>,
    calls: usize,
    failat: usize,
    /// what a flush makes of it: nothing, passes on what was held back, an error
    hold: bool,
    held: Vec<u8>,
    flushfail: bool,
}
impl Write for Inner {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let m = self.max[self.calls % self.max.len()].max(1);
        self.calls += 1;
        if self.failat > 0 && self.calls == self.failat {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "scripted"));
        }
        let n = b.len().min(m);
        if self.hold { &mut self.held } else { &mut self.got }.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        if self.flushfail {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "scripted"));
        }
        self.got.append(&mut self.held);
        Ok(())
    }
}

pub fn run_tee(sc: &Value) {
    let max: Vec<usize> = sc["max"].as_array().unwrap().iter().map(num).collect();
    let mut inner = Inner { got: vec![], max, calls: 0, failat: num(&sc["failat"]), hold: sc["hold"] == true, held: vec![],
        flushfail: sc["flushfail"] == true };
    let mut tmp = tempfile::tempfile().unwrap();
    let out = std::io::stdout();
    out.lock().flush().unwrap();
    let saved = unsafe { libc::dup(1) };
    unsafe { libc::dup2(tmp.as_raw_fd(), 1) };
    let mut evs = vec![];
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut failed = false;
        let mut tee = mock::StdoutTee::new(&mut inner, &out);
        for w in sc["writes"].as_array().unwrap() {
            if failed {
                break;
            }
            let d = get_bytes(&w["b"]);
            if w["all"].as_bool().unwrap_or(false) {
                let r = tee.write_all(&d);
                failed = r.is_err();
                evs.push(json!({"op": "twriteall", "b": bytes(&d), "res": if r.is_ok() {"ok"} else {"err"}, "k": d.len()}));
            } else {
                match tee.write(&d) {
                    Ok(k) => evs.push(json!({"op": "twrite", "b": bytes(&d), "res": "ok", "k": k})),
                    Err(_) => {
                        failed = true;
                        evs.push(json!({"op": "twrite", "b": bytes(&d), "res": "err", "k": 0}))
                    }
                }
            }
        }
        let r = tee.flush();
        evs.push(json!({"op": "tflush", "res": if r.is_ok() {"ok"} else {"err"}}));
    }));
    if inner.flushfail {
        inner.got.append(&mut inner.held);
    }
    out.lock().flush().unwrap();
    unsafe {
        libc::dup2(saved, 1);
        libc::close(saved);
    }
    let mut got = vec![];
    tmp.seek(SeekFrom::Start(0)).unwrap();
    tmp.read_to_end(&mut got).unwrap();
    for e in evs {
        log(e);
    }
    if r.is_err() {
        panic!("tee");
    }
    log(json!({"op": "tdone", "inner": bytes(&inner.got), "stdout": bytes(&got), "failed": sc["failat"].as_u64().unwrap_or(0) > 0
        && inner.calls >= num(&sc["failat"])}));
}

/// What the caller holds of a saved request.
enum Held {
    Entries(multipart::server::Entries),
    Dir(SaveDir),
    Nothing,
}

struct Saved {
    held: Held,
    path: std::path::PathBuf,
    files: Vec<(std::path::PathBuf, Vec<u8>)>,
}

/// The lives of save directories: fill them, then keep, move, delete, drop.
pub fn run_dir(sc: &Value, dir: &Path) {
    std::fs::create_dir_all(dir.join("tmp")).unwrap();
    std::env::set_var("TMPDIR", dir.join("tmp"));
    // the current directory is that of the scenario
    let base = if sc["rel"].as_bool().unwrap_or(false) { "save".into() } else { dir.join("save") };
    let precious = sc["precious"].as_bool().unwrap_or(false);
    if precious {
        std::fs::create_dir_all(&base).unwrap();
        std::fs::write(base.join("precious"), b"precious").unwrap();
    }
    let mut all: Vec<Saved> = vec![];
    let look = |all: &[Saved], op: &str, h: usize, mut e: Value| {
        let looks: Vec<Value> = all
            .iter()
            .map(|s| {
                json!({"exists": s.path.is_dir(), "files": s.files.len(),
                       "intact": s.files.iter().all(|(p, c)| std::fs::read(p).ok().as_ref() == Some(c)),
                       "gone": s.files.iter().all(|(p, _)| !p.exists())})
            })
            .collect();
        e["op"] = json!(op);
        e["h"] = json!(h + 1);
        e["looks"] = json!(looks);
        e["precious"] = json!(!precious || std::fs::read(base.join("precious")).ok() == Some(b"precious".to_vec()));
        log(e);
    };
    // the files of a result, and whether those that are new have new names inside the directory
    let files = |all: &[Saved], h: usize, e: &multipart::server::Entries| {
        let mut fresh = true;
        let mut fs = vec![];
        for f in e.fields.values().flatten() {
            if let multipart::server::save::SavedData::File(p, _) = &f.data {
                let old = all.get(h).and_then(|s| s.files.iter().find(|x| &x.0 == p));
                fresh &= p.parent() == Some(e.save_dir.as_path());
                fresh &= !fs.iter().any(|x: &(std::path::PathBuf, Vec<u8>)| &x.0 == p);
                fresh &= !all.iter().enumerate().any(|(i, s)| i != h && s.files.iter().any(|x| &x.0 == p && x.0.exists()));
                fs.push((p.clone(), old.map(|x| x.1.clone()).unwrap_or_else(|| std::fs::read(p).unwrap_or_default())));
            }
        }
        (fs, fresh)
    };
    for op in sc["ops"].as_array().unwrap() {
        let o = op["op"].as_str().unwrap();
        let h = op["h"].as_u64().unwrap_or(1) as usize - 1;
        if o == "save" || o == "more" {
            let body = get_bytes(&op["body"]);
            let mut m = Multipart::with_body(&body[..], "bnd");
            let mut b = m.save().memory_threshold(num(&op["mem"]) as u64);
            if op["count"].is_u64() {
                b = b.count_limit(op["count"].as_u64().unwrap() as u32);
            }
            let target = op["target"].as_str().unwrap_or("");
            let r = if o == "more" {
                match std::mem::replace(&mut all[h].held, Held::Nothing) {
                    Held::Entries(e) => b.with_entries(e),
                    x => {
                        all[h].held = x;
                        continue;
                    }
                }
            } else {
                match target {
                    "dir" => b.with_dir(&base),
                    "prefix" => b.temp_with_prefix("pre"),
                    "tempdir" => b.with_temp_dir(tempfile::Builder::new().tempdir_in(dir).unwrap()),
                    _ => b.temp(),
                }
            };
            use multipart::server::save::SaveResult::*;
            let entries = match r {
                Full(e) => e,
                Partial(p, _) => match op["how"].as_str().unwrap_or("") {
                    "keep" => p.keep_partial(),
                    "field" => p.entries,
                    _ => p.into(),
                },
                Error(e) => panic!("{}", e),
            };
            let at = if o == "more" { h } else { all.len() };
            let (fs, fresh) = files(&all, at, &entries);
            let res = if entries.save_dir.is_temporary() { "temp" } else { "perm" };
            let path = entries.save_dir.as_path().to_path_buf();
            if o == "more" {
                let same = path == all[h].path;
                all[h].held = Held::Entries(entries);
                all[h].files = fs;
                look(&all, "more", h, json!({"res": res, "n": op["n"], "fresh": fresh && same, "target": ""}));
            } else {
                // the caller may put more into it, which goes with it
                if sc["nested"] == true {
                    std::fs::create_dir_all(path.join("nested").join("deep")).unwrap();
                    std::fs::write(path.join("nested").join("deep").join("own"), b"own").unwrap();
                }
                all.push(Saved { held: Held::Entries(entries), path, files: fs });
                look(&all, "saved", at, json!({"res": res, "n": op["n"], "fresh": fresh, "target": if target == "dir" {"dir"} else {"temp"}}));
            }
            continue;
        }
        if o == "read" {
            look(&all, "read", 0, json!({"res": "ok"}));
            continue;
        }
        if h >= all.len() {
            continue;
        }
        let path = all[h].path.clone();
        let kind = |d: &SaveDir| if d.is_temporary() { "temp" } else if d.as_path() != path || d.as_ref() != path { "moved" } else { "perm" };
        let held = std::mem::replace(&mut all[h].held, Held::Nothing);
        let (res, held) = match (o, held) {
            (_, Held::Nothing) => continue,
            ("keep", Held::Entries(mut e)) => {
                e.save_dir.keep();
                (kind(&e.save_dir), Held::Entries(e))
            }
            ("keep", Held::Dir(mut d)) => {
                d.keep();
                (kind(&d), Held::Dir(d))
            }
            ("takedir", Held::Entries(e)) => ("ok", Held::Dir(e.save_dir)),
            ("takedir", x) => ("ok", x),
            ("drop", x) => {
                if op["how"].as_str() == Some("unwind") {
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                        let _x = x;
                        std::panic::resume_unwind(Box::new(()))
                    }));
                    assert!(r.is_err());
                } else {
                    drop(x);
                }
                ("ok", Held::Nothing)
            }
            (_, x) => {
                let d = match x {
                    Held::Entries(e) => e.save_dir,
                    Held::Dir(d) => d,
                    Held::Nothing => unreachable!(),
                };
                if o == "intopath" {
                    (if d.into_path() == path { "perm" } else { "moved" }, Held::Nothing)
                } else {
                    (if d.delete().is_ok() { "ok" } else { "err" }, Held::Nothing)
                }
            }
        };
        all[h].held = held;
        look(&all, o, h, json!({"res": res}));
    }
    for s in all.iter_mut() {
        s.held = Held::Nothing;
    }
    look(&all, "over", 0, json!({"res": "ok"}));
}
