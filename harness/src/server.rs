//! Server side: iterating, reading and saving.
use crate::src::{steps, Sink, Src};
use crate::{bytes, get_bytes, log};
use multipart::server::save::{PartialReason, SaveBuilder, SaveResult, SavedData, SavedField};
use multipart::server::{
    Entries, FieldHeaders, Multipart, MultipartData, MultipartField, ReadEntry, ReadEntryResult,

};
use serde_json::{json, Value};
use std::collections::{BTreeMap, VecDeque};
use std::io::{BufRead, Read};
use std::os::unix::fs::{OpenOptionsExt, PermissionsExt};
use std::path::{Path, PathBuf};

type M = Multipart<Src>;

pub struct Cx<'a> {
    src: Src,
    ops: VecDeque<Value>,
    peek: usize,
    drained: bool,
    extra: i64,
    nexts: usize,
    terminal: bool,
    style: String,
    dir: &'a Path,
    entries: Option<Entries>,
    pids: BTreeMap<PathBuf, usize>,
    nfile: usize,
}

pub fn head_json(h: &FieldHeaders, istext: bool) -> Value {
    json!({
        "name": bytes(h.name.as_bytes()),
        "filename": h.filename.iter().map(|f| bytes(f.as_bytes())).collect::<Vec<_>>(),
        "ctype": h.content_type.iter().map(|m| bytes(m.as_ref().as_bytes())).collect::<Vec<_>>(),
        "istext": istext,
    })
}

fn merge(mut a: Value, b: Value) -> Value {
    for (k, v) in b.as_object().unwrap() {
        a[k] = v.clone();
    }
    a
}

/// All files (with their contents) and directories below `root`.
pub fn snapshot(root: &Path) -> BTreeMap<PathBuf, Option<Vec<u8>>> {
    let mut out = BTreeMap::new();
    let mut todo = vec![root.to_path_buf()];
    while let Some(d) = todo.pop() {
        if let Ok(rd) = std::fs::read_dir(&d) {
            for e in rd.flatten() {
                let p = e.path();
                if p.is_dir() {
                    out.insert(p.clone(), None);
                    todo.push(p);
                } else {
                    out.insert(p.clone(), Some(std::fs::read(&p).unwrap_or_default()));
                }
            }
        }
    }
    out
}

pub fn data_json(d: &SavedData, dir: Option<&Path>, pids: &mut BTreeMap<PathBuf, usize>) -> Value {
    let mut read = vec![];
    let ok = d.readable().and_then(|mut r| r.read_to_end(&mut read)).is_ok();
    let (kind, raw) = match d {
        SavedData::Text(s) => ("text", s.as_bytes().to_vec()),
        SavedData::Bytes(b) => ("bytes", b.clone()),
        SavedData::File(p, _) => ("file", std::fs::read(p).unwrap_or_default()),
    };
    let kind = if !ok || raw != read || d.is_memory() != (kind != "file") { "unreadable" } else { kind };
    let mut v = json!({"kind": kind, "bytes": bytes(&read), "size": d.size(), "indir": true, "pid": 0, "private": false});
    if let SavedData::File(p, _) = d {
        v["private"] = json!(std::fs::metadata(p).map_or(false, |m| m.permissions().mode() & 0o77 == 0));
        let n = pids.len() + 1;
        v["pid"] = json!(*pids.entry(p.clone()).or_insert(n));
        if let Some(dir) = dir {
            // (the names below a relative directory are relative themselves)
            let cwd = std::env::current_dir().unwrap();
            v["indir"] = json!(cwd.join(p).parent() == Some(cwd.join(dir).as_path()));
        }
    }
    v
}

/// While it lives no file can grow beyond n bytes, as on a disk that is full.
struct Disk;

impl Disk {
    fn new(n: &Value) -> Option<Disk> {
        n.as_u64().map(|n| {
            Disk::set(n);
            Disk
        })
    }
    fn set(n: u64) {
        unsafe {
            libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
            let mut l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            assert_eq!(libc::getrlimit(libc::RLIMIT_FSIZE, &mut l), 0);
            l.rlim_cur = n.min(l.rlim_max);
            assert_eq!(libc::setrlimit(libc::RLIMIT_FSIZE, &l), 0);
        }
    }
    pub fn free() {
        Disk::set(libc::RLIM_INFINITY)
    }
}

impl Drop for Disk {
    fn drop(&mut self) {
        Disk::free()
    }
}

/// Undoes what a save that does not return has left.
pub fn free_disk() {
    Disk::free()
}

fn reason(r: &PartialReason) -> &'static str {
    match r {
        PartialReason::CountLimit => "count",
        PartialReason::SizeLimit => "size",
        PartialReason::IoError(_) => "io",
        PartialReason::Utf8Error(_) => "utf8",
    }
}

fn lim(v: &Value) -> Option<u64> {
    v.as_i64().filter(|x| *x >= 0).map(|x| x as u64)
}

fn configure<S>(mut b: SaveBuilder<S>, o: &Value) -> SaveBuilder<S> {
    // a setting may be made several times, the last one counts
    if let Some(n) = o["before"].as_i64() {
        let n = if n < 0 { None } else { Some(n as u64) };
        b = b.memory_threshold(n.unwrap_or(u64::MAX)).size_limit(n).mod_open_opts(|p| {
            p.write(false);
        });
        if o["text"].as_str().map_or(false, |t| t != "default") {
            b = b.force_text().ignore_text();
        }
    }
    // the order of the settings does not matter
    let mut order = vec![0, 1, 2, 3];
    order.rotate_left(o["turn"].as_u64().unwrap_or(0) as usize % 4);
    if o["turn"].as_u64().unwrap_or(0) >= 4 {
        order.reverse();
    }
    for k in order {
        b = match k {
            0 => b.size_limit(lim(&o["size"])),
            1 => b.memory_threshold(lim(&o["mem"]).unwrap_or(u64::MAX)),
            2 => match o["open"].as_str() {
                Some("replace") => b.mod_open_opts(|p| {
                    p.create_new(false).create(true).truncate(true).write(false);
                }),
                Some("private") => b.mod_open_opts(|p| {
                    p.mode(0o600);
                }),
                Some("none") => b.mod_open_opts(|_| ()),
                _ => b,
            },
            _ => match o["text"].as_str().unwrap_or("default") {
                "try" => b.try_text(),
                "force" => b.force_text(),
                "ignore" => b.ignore_text(),
                _ => b,
            },
        };
    }
    b
}

/// Options as the specification sees them: "default" is "try".
fn opts_json(o: &Value) -> Value {
    let mut o = o.clone();
    if o.get("text").is_none() || o["text"] == "default" {
        o["text"] = json!("try");
    }
    if o.get("count").is_none() {
        o["count"] = json!(-1);
    }
    if o.get("open").is_none() {
        o["open"] = json!("none");
    }
    o
}

impl<'a> Cx<'a> {
    fn ev(&self, v: Value) {
        let (faults, post) = self.src.take_log();
        log(merge(v, json!({"faults": faults, "post": post})));
    }

    fn at_next(&self) -> bool {
        match self.ops.front() {
            Some(op) => matches!(op["op"].as_str(), Some("next") | Some("saveall") | Some("dropents")),
            None => false,
        }
    }

    /// The operations on one field, up to the next request for an entry.
    fn field<R: ReadEntry>(&mut self, data: &mut MultipartData<R>) {
        self.peek = 0;
        self.drained = false;
        while !self.at_next() {
            match self.ops.pop_front() {
                Some(op) => self.field_op(data, &op),
                None => {
                    if !self.drained {
                        self.field_op(data, &json!({"op": "readall"}));
                    }
                    return;
                }
            }
        }
    }

    fn field_op<R: ReadEntry>(&mut self, data: &mut MultipartData<R>, op: &Value) {
        let n = op["n"].as_i64().unwrap_or(0);
        match op["op"].as_str().unwrap() {
            "read" => {
                let mut buf = vec![0xEE; n as usize];
                match data.read(&mut buf) {
                    Ok(k) => {
                        self.peek = self.peek.saturating_sub(k);
                        let clean = k <= buf.len() && buf[k.min(buf.len())..].iter().all(|b| *b == 0xEE);
                        let res = if clean { "ok" } else { "overrun" };
                        self.ev(json!({"op": "read", "n": n, "res": res, "out": bytes(&buf[..k.min(buf.len())])}))
                    }
                    Err(_) => self.ev(json!({"op": "read", "n": n, "res": "err", "out": []})),
                }
            }
            "fill" => {
                let r = data.fill_buf().map(|b| b.to_vec());
                match r {
                    Ok(b) => {
                        self.peek = b.len();
                        self.ev(json!({"op": "fill", "res": "ok", "out": bytes(&b)}))
                    }
                    Err(_) => self.ev(json!({"op": "fill", "res": "err", "out": []})),
                }
            }
            "consume" => {
                // n < 0: all but -n-1 of what was shown
                let k = if n < 0 {
                    self.peek.saturating_sub((-n - 1) as usize)
                } else {
                    self.peek.min(n as usize)
                };
                data.consume(k);
                self.peek -= k;
                self.ev(json!({"op": "consume", "n": k}));
            }
            "setmin" => {
                data.set_min_buf_size(n as usize);
                self.ev(json!({"op": "setmin", "n": n}));
            }
            // read everything with one kind of call
            "readall" => {
                let mut out = vec![];
                let r = data.read_to_end(&mut out);
                self.drained = r.is_ok();
                self.peek = 0;
                self.ev(json!({"op": "readall", "res": if r.is_ok() {"ok"} else {"err"}, "out": bytes(&out)}));
            }
            // peek and consume until nothing is left
            "drain" => {
                for _ in 0..20000 {
                    let mut stop = false;
                    let k = match data.fill_buf().map(|b| b.to_vec()) {
                        Ok(b) => {
                            let k = if n > 0 { b.len().min(n as usize) } else { b.len() };
                            self.ev(json!({"op": "fill", "res": "ok", "out": bytes(&b)}));
                            k
                        }
                        Err(_) => {
                            self.ev(json!({"op": "fill", "res": "err", "out": []}));
                            stop = op["stop"].as_bool().unwrap_or(false);
                            if stop { 0 } else { usize::MAX }
                        }
                    };
                    if k == 0 || stop {
                        self.drained = !stop;
                        break;
                    }
                    if k != usize::MAX {
                        data.consume(k);
                        self.ev(json!({"op": "consume", "n": k}));
                    }
                }
                self.peek = 0;
            }
            // read pieces of n bytes until nothing is left
            "pieces" => {
                for _ in 0..20000 {
                    let mut buf = vec![0; n.max(1) as usize];
                    match data.read(&mut buf) {
                        Ok(k) => {
                            self.ev(json!({"op": "read", "n": n.max(1), "res": "ok", "out": bytes(&buf[..k])}));
                            if k == 0 {
                                self.drained = true;
                                break;
                            }
                        }
                        Err(_) => self.ev(json!({"op": "read", "n": n.max(1), "res": "err", "out": []})),
                    }
                }
                self.peek = 0;
            }
            // read exactly n bytes, unless the field ends before
            "skip" => {
                let mut left = n.max(0) as usize;
                for _ in 0..20000 {
                    if left == 0 {
                        break;
                    }
                    let mut buf = vec![0; left];
                    match data.read(&mut buf) {
                        Ok(k) => {
                            self.ev(json!({"op": "read", "n": left, "res": "ok", "out": bytes(&buf[..k.min(left)])}));
                            if k == 0 {
                                break;
                            }
                            left -= k.min(left);
                        }
                        Err(_) => self.ev(json!({"op": "read", "n": left, "res": "err", "out": []})),
                    }
                }
                self.peek = 0;
            }
            "save" => self.save(data, op),
            "writeto" => {
                let sink = Sink::new(steps(&op["w"]), op["wtail"].as_str().map(String::from));
                let o = opts_json(&op["o"]);
                let mut b = configure(data.save(), &op["o"]);
                let (res, why, k) = match b.write_to(sink.clone()) {
                    SaveResult::Full(k) => ("full", "none", k),
                    SaveResult::Partial(k, r) => ("partial", reason(&r), k),
                    SaveResult::Error(_) => ("error", "io", 0),
                };
                self.peek = 0;
                let wf = sink.take_faults().iter().any(|f| f != "Interrupted");
                self.ev(json!({"op": "writeto", "o": o, "res": res, "why": why, "n": k,
                    "wfault": wf, "out": bytes(&sink.got())}));
            }
            "end" => self.drained = true,
            other => panic!("unknown field op {}", other),
        }
    }

    fn save<R: ReadEntry>(&mut self, data: &mut MultipartData<R>, op: &Value) {
        let o = opts_json(&op["o"]);
        let mut b = configure(data.save(), &op["o"]);
        // the same builder may be used again
        for _ in 0..op["times"].as_u64().unwrap_or(1) {
            self.save_once(&mut b, op, &o);
        }
    }

    fn save_once<R: ReadEntry>(&mut self, b: &mut SaveBuilder<&mut MultipartData<R>>, op: &Value, o: &Value) {
        let replace = op["o"]["open"] == "replace";
        let target = op["target"].as_str().unwrap_or("path");
        self.nfile += 1;
        let name = format!("f{}", self.nfile);
        let given = op["name"].as_str().map(|n| n.replace('#', &self.nfile.to_string())).unwrap_or(name);
        let root = self.dir.to_path_buf();
        let tmp = root.join("tmp");
        let mut bad = false;
        // where a file may appear: exactly one path, or any direct child of a directory
        let (path, within): (Option<PathBuf>, Option<PathBuf>) = match target {
            "dir" | "reldir" => (None, Some(root.join("d"))),
            "temp" => (None, Some(tmp.clone())),
            "filename" => (Some(tmp.join(&given)), None),
            "deep" => (Some(root.join("x").join("y").join(&given)), None),
            "exists" => {
                let p = root.join(&given);
                std::fs::write(&p, b"precious").unwrap();
                bad = !replace;
                (Some(p), None)
            }
            "notdir" => {
                std::fs::write(root.join("plain"), b"precious").unwrap();
                bad = true;
                (Some(root.join("plain").join(&given)), None)
            }
            _ => (Some(root.join(&given)), None),
        };
        let before = snapshot(&root);
        let disk = Disk::new(&op["disk"]);
        let res = match target {
            "dir" => b.with_dir(root.join("d")),
            "reldir" => b.with_dir("d"),
            "relpath" => b.with_path(&given),
            "temp" => b.temp(),
            "filename" => b.with_filename(&given),
            _ => b.with_path(path.clone().unwrap()),
        };
        let (res, why, d) = match res {
            SaveResult::Full(d) => ("full", "none", Some(d)),
            SaveResult::Partial(d, r) => ("partial", reason(&r), Some(d)),
            SaveResult::Error(_) => ("error", "io", None),
        };
        drop(disk);
        self.peek = 0;
        let after = snapshot(&root);
        let (mut newf, mut newd, mut stray) = (0, 0, 0);
        for (p, c) in &after {
            if before.get(p) == Some(c) {
                continue;
            }
            let allowed = Some(p) == path.as_ref() || (within.is_some() && p.parent() == within.as_deref());
            let leads = path.as_ref().map_or(false, |q| q.starts_with(p))
                || within.as_ref().map_or(false, |q| q.starts_with(p));
            match c {
                None if leads && !before.contains_key(p) => newd += 1,
                Some(_) if allowed && (replace || !before.contains_key(p)) => newf += 1,
                _ => stray += 1,
            }
        }
        stray += before.keys().filter(|p| !after.contains_key(*p)).count();
        if newf == 0 {
            newf = newd; // "no file or directory of its own"
        } else if newf == 1 {
            // the saved path is the one that appeared
            if let Some(SavedData::File(p, _)) = &d {
                let p = root.join(p); // which changes nothing unless it is relative
                let right = path.as_ref().map_or(p.parent() == within.as_deref(), |q| q == &p);
                if !right {
                    stray += 1;
                }
            }
        }
        let r: Vec<Value> = d.iter().map(|d| data_json(d, None, &mut self.pids)).collect();
        self.ev(json!({"op": "save", "o": o, "res": res, "why": why, "r": r, "badtarget": bad,
            "disk": op["disk"].as_u64().into_iter().collect::<Vec<_>>(), "newfiles": newf, "strayfiles": stray}));
    }

    fn entry<R: ReadEntry>(&mut self, f: &MultipartField<R>) {
        let v = merge(json!({"op": "next", "res": "entry"}), head_json(&f.headers, f.is_text()));
        self.ev(v);
    }

    fn over(&mut self, res: &str) {
        self.terminal = true;
        self.ev(json!({"op": "next", "res": res}));
    }

    /// The style of the next request for an entry, None when the scenario is over.
    fn next_style(&mut self) -> Option<String> {
        loop {
            match self.ops.front() {
                Some(op) => match op["op"].as_str().unwrap() {
                    "next" => {
                        let s = op["style"].as_str().unwrap_or(&self.style).to_string();
                        self.ops.pop_front();
                        self.nexts += 1;
                        return Some(s);
                    }
                    "saveall" => return Some("saveall".into()),
                    "dropents" => return Some("dropents".into()),
                    _ => {
                        self.ops.pop_front(); // not in a field: does not apply
                    }
                },
                None => {
                    if self.terminal {
                        self.extra -= 1;
                    }
                    self.nexts += 1;
                    if self.extra < 0 || self.nexts > 200 {
                        return None;
                    }
                    return Some(self.style.clone());
                }
            }
        }
    }

    fn groups(&mut self, e: &Entries) -> (Vec<Value>, usize) {
        let dir = e.save_dir.as_path().to_path_buf();
        let mut total = 0;
        let mut out = vec![];
        for (name, fields) in &e.fields {
            let mut fs = vec![];
            for f in fields {
                total += 1;
                fs.push(self.field_json(f, &dir, name));
            }
            out.push(json!({"name": bytes(name.as_bytes()), "fields": fs}));
        }
        (out, total)
    }

    fn field_json(&mut self, f: &SavedField, dir: &Path, _key: &str) -> Value {
        let istext = f.headers.content_type.as_ref().map_or(true, |m| m.type_() == "text");
        merge(head_json(&f.headers, istext), json!({"r": data_json(&f.data, Some(dir), &mut self.pids)}))
    }

    fn saveall(&mut self, m: &mut M) {
        let op = self.ops.pop_front().unwrap();
        let o = opts_json(&op["o"]);
        let root = self.dir.to_path_buf();
        let mut b = configure(m.save(), &op["o"]);
        b = b.count_limit(lim(&o["count"]).map(|c| c as u32));
        let before = snapshot(&root);
        let mut bad = false;
        let target = op["target"].as_str().unwrap_or("temp");
        let disk = Disk::new(&op["disk"]);
        // where the save directory has to be: this very one, or one in this directory with a name
        // that starts like this
        let tmp = (root.join("tmp"), op["name"].as_str().unwrap_or("pre").to_string());
        let (exact, inside) = match (&self.entries, target) {
            (Some(e), _) => (Some(root.join(e.save_dir.as_path())), None),
            (_, "dir") | (_, "reldir") => (Some(root.join("d").join("e")), None),
            (_, "prefix") => (None, Some(tmp.clone())),
            (_, "tempdir") => (None, Some((root.clone(), String::new()))),
            (_, "notdir") => (None, None),
            _ => (None, Some((tmp.0.clone(), String::new()))),
        };
        let res = match self.entries.take() {
            Some(e) => b.with_entries(e),
            None => match target {
                "dir" => b.with_dir(root.join("d").join("e")),
                "reldir" => b.with_dir(Path::new("d").join("e")),
                "prefix" => b.temp_with_prefix(&tmp.1),
                "tempdir" => b.with_temp_dir(tempfile::Builder::new().tempdir_in(&root).unwrap()),
                "notdir" => {
                    std::fs::write(root.join("plain"), b"precious").unwrap();
                    bad = true;
                    b.with_dir(root.join("plain").join("e"))
                }
                _ => b.temp(),
            },
        };
        drop(disk);
        let full: Vec<u64> = op["disk"].as_u64().into_iter().collect();
        let (faults, post) = self.src.take_log();
        let (res, why, mut entries, partial) = match res {
            SaveResult::Full(e) => ("full", "none", e, None),
            SaveResult::Partial(p, r) => ("partial", reason(&r), p.entries, p.partial),
            SaveResult::Error(_) => {
                log(json!({"op": "saveall", "o": o, "res": "error", "why": "io", "groups": [], "count": 0,
                    "partial": [], "strayfiles": 0, "badtarget": bad, "disk": full, "faults": faults, "post": post}));
                self.terminal = true;
                return;
            }
        };
        // the number the entries claim, taken before anything recounts them
        let count = entries.fields_count();
        let dir = root.join(entries.save_dir.as_path());
        let (groups, _) = self.groups(&entries);
        let pj: Vec<Value> = partial
            .iter()
            .map(|p| {
                let dest: Vec<Value> =
                    p.dest.iter().map(|d| data_json(d, Some(&dir), &mut self.pids)).collect();
                merge(head_json(&p.source.headers, p.source.is_text()), json!({"dest": dest}))
            })
            .collect();
        // every file in the save directory belongs to an entry or to the partial field;
        // nothing else in the scratch directory changed
        let mut known: Vec<PathBuf> = vec![];
        for f in entries.fields.values().flatten() {
            if let SavedData::File(p, _) = &f.data {
                known.push(root.join(p));
            }
        }
        if let Some(SavedData::File(p, _)) = partial.as_ref().and_then(|p| p.dest.as_ref()) {
            known.push(root.join(p));
        }
        let after = snapshot(&root);
        let hard = faults.iter().any(|f| f != "Interrupted") || !full.is_empty();
        let mut stray = before.keys().filter(|p| !after.contains_key(*p)).count();
        stray += exact.map_or(0, |p| (p != dir) as usize);
        stray += inside.map_or(0, |(p, name)| {
            let fits = dir.file_name().map_or(false, |n| n.to_string_lossy().starts_with(&name));
            !(dir.parent() == Some(&p) && fits) as usize
        });
        for (p, c) in &after {
            match before.get(p) {
                Some(old) if old == c => {}
                Some(_) => stray += 1,
                None => match c {
                    None => stray += if dir.starts_with(p) { 0 } else { 1 },
                    // a file whose save failed may be left behind in the save directory
                    Some(_) => {
                        stray += if known.contains(p) || (hard && p.parent() == Some(&dir)) { 0 } else { 1 }
                    }
                },
            }
        }
        log(json!({"op": "saveall", "o": o, "res": res, "why": why, "groups": groups, "count": count,
            "partial": pj, "strayfiles": stray, "badtarget": bad, "disk": full, "faults": faults, "post": post}));
        if res == "full" || (res == "partial" && partial.is_none()) {
            self.terminal = true;
        }
        if let Some(mut p) = partial {
            let keep = op["keep"].as_bool().unwrap_or(false);
            if keep && p.dest.is_some() {
                let dest = data_json(p.dest.as_ref().unwrap(), Some(&dir), &mut self.pids);
                let f = merge(head_json(&p.source.headers, p.source.is_text()), json!({"r": dest}));
                self.ev(json!({"op": "keep", "f": f}));
                let pe = multipart::server::save::PartialEntries { entries, partial: Some(p) };
                entries = pe.keep_partial();
            } else if op["rest"].as_bool().unwrap_or(true) {
                self.field_op(&mut p.source.data, &json!({"op": "readall"}));
            }
        }
        self.entries = Some(entries);
    }

    /// In a field that borrows the reader: run its operations and go on from it for as long as the
    /// scenario continues in a style that starts at a field.
    fn borrowed(&mut self, mut f: MultipartField<&mut M>) {
        loop {
            self.entry(&f);
            self.field(&mut f.data);
            let cont = self.ops.front().map_or(self.style.clone(), |op| {
                if op["op"] == "next" {
                    op["style"].as_str().unwrap_or(&self.style).to_string()
                } else {
                    String::new()
                }
            });
            match cont.as_str() {
                "bcont" => {
                    if self.next_style().is_none() {
                        return;
                    }
                    match f.next_entry() {
                        ReadEntryResult::Entry(g) => f = g,
                        ReadEntryResult::End(_) => return self.over("end"),
                        ReadEntryResult::Error(..) => return self.over("err"),
                    }
                }
                "binplace" => loop {
                    if self.next_style().is_none() {
                        return;
                    }
                    match f.next_entry_inplace().map(|o| o.is_some()) {
                        Ok(true) => break,
                        Ok(false) => self.over("end"),
                        Err(_) => self.over("err"),
                    }
                    // ask the same field again if that is the style
                    let again = self.ops.front().map_or(self.style == "binplace", |op| {
                        op["op"] == "next" && op["style"] == "binplace"
                    });
                    if !again {
                        return;
                    }
                },
                _ => return,
            }
        }
    }
}

enum Cur {
    Idle(M),
    Field(MultipartField<M>),
}

fn step(cx: &mut Cx, cur: Cur, style: &str) -> Cur {
    match (cur, style) {
        (Cur::Field(f), "cont") => match f.next_entry() {
            ReadEntryResult::Entry(mut g) => {
                cx.entry(&g);
                cx.field(&mut g.data);
                Cur::Field(g)
            }
            ReadEntryResult::End(m) => {
                cx.over("end");
                Cur::Idle(m)
            }
            ReadEntryResult::Error(m, _) => {
                cx.over("err");
                Cur::Idle(m)
            }
        },
        (Cur::Field(mut f), "inplace") => {
            match f.next_entry_inplace().map(|o| o.is_some()) {
                Ok(true) => {
                    cx.entry(&f);
                    cx.field(&mut f.data);
                }
                Ok(false) => cx.over("end"),
                Err(_) => cx.over("err"),
            }
            Cur::Field(f)
        }
        (Cur::Field(f), s) => {
            let m = f.data.into_inner();
            step(cx, Cur::Idle(m), s)
        }
        (Cur::Idle(m), "owned") | (Cur::Idle(m), "cont") | (Cur::Idle(m), "inplace") => match m.into_entry() {
            ReadEntryResult::Entry(mut g) => {
                cx.entry(&g);
                cx.field(&mut g.data);
                Cur::Field(g)
            }
            ReadEntryResult::End(m) => {
                cx.over("end");
                Cur::Idle(m)
            }
            ReadEntryResult::Error(m, _) => {
                cx.over("err");
                Cur::Idle(m)
            }
        },
        (Cur::Idle(mut m), "foreach") => {
            let mut first = true;
            let r = m.foreach_entry(|mut f| {
                if !first {
                    // the request for this entry was made by the loop
                    if cx.at_next() && cx.ops.front().map_or(false, |o| o["op"] == "next") {
                        cx.ops.pop_front();
                    }
                    cx.nexts += 1;
                }
                first = false;
                cx.entry(&f);
                cx.field(&mut f.data);
            });
            if !first && cx.at_next() && cx.ops.front().map_or(false, |o| o["op"] == "next") {
                cx.ops.pop_front();
            }
            cx.over(if r.is_ok() { "end" } else { "err" });
            Cur::Idle(m)
        }
        (Cur::Idle(mut m), "mut") => {
            match m.read_entry_mut() {
                ReadEntryResult::Entry(f) => cx.borrowed(f),
                ReadEntryResult::End(_) => cx.over("end"),
                ReadEntryResult::Error(..) => cx.over("err"),
            }
            Cur::Idle(m)
        }
        (Cur::Idle(mut m), "saveall") => {
            cx.saveall(&mut m);
            Cur::Idle(m)
        }
        (Cur::Idle(m), "dropents") => {
            let op = cx.ops.pop_front().unwrap();
            if let Some(e) = cx.entries.as_mut() {
                let name = String::from_utf8(get_bytes(&op["name"])).unwrap();
                // field_count() is documented to be stale after this
                e.fields.remove(&*name);
                cx.ev(json!({"op": "dropents", "name": bytes(name.as_bytes())}));
            }
            Cur::Idle(m)
        }
        (Cur::Idle(mut m), _) => {
            match Multipart::read_entry(&mut m) {
                Ok(Some(f)) => cx.borrowed(f),
                Ok(None) => cx.over("end"),
                Err(_) => cx.over("err"),
            }
            Cur::Idle(m)
        }
    }
}

pub fn run(sc: &Value, dir: &Path) {
    std::fs::create_dir_all(dir.join("tmp")).unwrap();
    std::env::set_var("TMPDIR", dir.join("tmp"));
    let src = Src::new(get_bytes(&sc["body"]), steps(&sc["src"]), sc["tail"].as_str().map(String::from));
    let m = Multipart::with_body(src.clone(), String::from_utf8(get_bytes(&sc["bnd"])).unwrap());
    let mut cx = Cx {
        src,
        ops: sc["ops"].as_array().cloned().unwrap_or_default().into(),
        peek: 0,
        drained: false,
        extra: sc["extra"].as_i64().unwrap_or(2),
        nexts: 0,
        terminal: false,
        style: sc["style"].as_str().unwrap_or("borrow").to_string(),
        dir,
        entries: None,
        pids: BTreeMap::new(),
        nfile: 0,
    };
    let mut cur = Cur::Idle(m);
    while let Some(style) = cx.next_style() {
        cur = step(&mut cx, cur, &style);
    }
    drop(cx.entries.take());
    drop(cur);
}
