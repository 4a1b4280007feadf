//! Requests of many bytes: what a call delivers is recorded as a count and whether it is the next
//! part of the data.
use crate::log;
use crate::src::{steps, Sink, Src};
use multipart::server::save::{PartialReason, SaveBuilder, SaveResult, SavedData};
use multipart::server::{Entries, Multipart, MultipartData, ReadEntry};
use serde_json::{json, Value};
use std::io::{BufRead, Read};
use std::path::Path;

const BND: &str = "bnd";

struct Part {
    data: Vec<u8>,
}

fn content(i: usize, len: usize, text: bool) -> Vec<u8> {
    let mut d: Vec<u8> = (0..len)
        .map(|j| {
            let h = ((j as u64 + 1) * (i as u64 * 2 + 7)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
            b'a' + ((h >> 40) % 26) as u8
        })
        .collect();
    // almost delimiters
    let frag = b"\r\n--bn!";
    let mut p = 1019;
    while p + frag.len() < len {
        d[p..p + frag.len()].copy_from_slice(frag);
        p += 4093;
    }
    if !text && len > 0 {
        d[len - 1] = 0xff;
        d[len / 2] = 0xfe;
    }
    d
}

fn lim(v: &Value) -> Option<u64> {
    v.as_i64().filter(|x| *x >= 0).map(|x| x as u64)
}

fn opts(o: &Value) -> Value {
    let g = |k: &str| if o.get(k).map_or(true, |v| v.is_null()) { json!(-2) } else { o[k].clone() };
    let text = o["text"].as_str().unwrap_or("try");
    // the setters called, in this order, if not just those for the values given
    let calls = o["calls"].as_array().cloned().unwrap_or_default();
    json!({"size": g("size"), "mem": g("mem"), "count": g("count"), "text": text, "calls": calls})
}

fn set<S>(b: SaveBuilder<S>, k: &str, n: &Value, t: &str) -> SaveBuilder<S> {
    match (k, t) {
        ("size", _) => b.size_limit(lim(n)),
        ("mem", _) => b.memory_threshold(lim(n).unwrap_or(u64::MAX)),
        ("open", _) => b.mod_open_opts(|_| ()),
        ("text", "force") => b.force_text(),
        ("text", "ignore") => b.ignore_text(),
        ("text", "try") => b.try_text(),
        _ => b,
    }
}

fn configure<S>(mut b: SaveBuilder<S>, o: &Value, count: impl Fn(SaveBuilder<S>, Option<u32>) -> SaveBuilder<S>) -> SaveBuilder<S> {
    let num = |n: &Value| lim(n).map(|c| c as u32);
    if let Some(calls) = o["calls"].as_array() {
        for c in calls {
            b = match c["k"].as_str().unwrap() {
                "count" => count(b, num(&c["n"])),
                k => set(b, k, &c["n"], c["t"].as_str().unwrap()),
            };
        }
        return b;
    }
    for k in ["size", "mem"] {
        if !o[k].is_null() {
            b = set(b, k, &o[k], "");
        }
    }
    if !o["count"].is_null() {
        b = count(b, num(&o["count"]));
    }
    set(b, "text", &json!(0), o["text"].as_str().unwrap_or(""))
}

fn reason(r: &PartialReason) -> &'static str {
    match r {
        PartialReason::CountLimit => "count",
        PartialReason::SizeLimit => "size",
        PartialReason::IoError(_) => "io",
        PartialReason::Utf8Error(_) => "utf8",
    }
}

/// What was kept of `want`.
fn kept(i: usize, d: &SavedData, want: &[u8]) -> Value {
    let mut got = vec![];
    let ok = d.readable().and_then(|mut r| r.read_to_end(&mut got)).is_ok();
    let (kind, disk) = match d {
        SavedData::Text(_) => ("text", 0),
        SavedData::Bytes(_) => ("bytes", 0),
        SavedData::File(p, _) => ("file", std::fs::metadata(p).map(|m| m.len()).unwrap_or(u64::MAX >> 40)),
    };
    let same = ok && want.starts_with(&got) && d.is_memory() == (kind != "file");
    json!({"i": i, "kind": kind, "n": got.len(), "size": d.size(), "same": same, "disk": disk})
}

struct Cx<'a> {
    src: Src,
    parts: Vec<Part>,
    cur: usize,
    off: usize,
    dir: &'a Path,
    nfile: usize,
}

impl<'a> Cx<'a> {
    fn ev(&self, mut v: Value) {
        let (faults, post) = self.src.take_log();
        v["faults"] = json!(faults);
        v["post"] = json!(post);
        log(v);
    }

    fn rest(&self) -> &[u8] {
        &self.parts[self.cur - 1].data[self.off..]
    }

    fn op<R: ReadEntry>(&mut self, data: &mut MultipartData<R>, op: &Value) {
        match op["op"].as_str().unwrap() {
            k @ "read" | k @ "fill" => {
                let piece = op["n"].as_u64().unwrap_or(4096) as usize;
                let stop = op["stop"].as_u64().map_or(usize::MAX, |x| x as usize);
                let (mut n, mut same, mut done) = (0, true, false);
                // the least that was shown of what is left
                let mut least = self.rest().len();
                if !op["min"].is_null() {
                    data.set_min_buf_size(op["min"].as_u64().unwrap() as usize);
                }
                let mut buf = vec![0; piece];
                while n < stop {
                    let m = if k == "read" {
                        let want = piece.min(stop - n);
                        let m = data.read(&mut buf[..want]).unwrap_or(usize::MAX);
                        same = same && m <= want && self.rest().get(n..n + m) == Some(&buf[..m.min(want)]);
                        m
                    } else {
                        let m = match data.fill_buf() {
                            Ok(b) => {
                                let rest = &self.parts[self.cur - 1].data[self.off..];
                                same = same && rest.get(n..n + b.len()) == Some(b);
                                if same && b.len() < rest.len() - n {
                                    least = least.min(b.len());
                                }
                                b.len().min(piece).min(stop - n)
                            }
                            Err(_) => usize::MAX,
                        };
                        if m != usize::MAX {
                            data.consume(m);
                        }
                        m
                    };
                    if m == 0 {
                        done = true;
                        break;
                    }
                    if !same || m == usize::MAX {
                        same = false;
                        break;
                    }
                    n += m;
                }
                let min = if k == "fill" { op["min"].as_u64().unwrap_or(0) } else { 0 };
                self.ev(json!({"op": "bread", "n": n, "same": same, "done": done, "least": least, "min": min}));
                self.off += n;
            }
            "writeto" => {
                let sink = Sink::new(steps(&op["w"]), None);
                let mut b = configure(data.save(), &op["o"], |b, _| b);
                let (res, why, k) = match b.write_to(sink.clone()) {
                    SaveResult::Full(k) => ("full", "none", k),
                    SaveResult::Partial(k, r) => ("partial", reason(&r), k),
                    SaveResult::Error(_) => ("error", "io", 0),
                };
                let got = sink.got();
                let same = got.len() as u64 == k && self.rest().starts_with(&got);
                self.ev(json!({"op": "bwriteto", "o": opts(&op["o"]), "res": res, "why": why, "n": k, "same": same}));
                self.off += (k as usize).min(self.rest().len());
            }
            "save" => {
                self.nfile += 1;
                let path = self.dir.join(format!("f{}", self.nfile));
                let mut b = configure(data.save(), &op["o"], |b, _| b);
                let res = match op["target"].as_str() {
                    Some("dir") => b.with_dir(self.dir.join("tmp")),
                    Some("temp") => b.temp(),
                    _ => b.with_path(&path),
                };
                let (res, why, d) = match res {
                    SaveResult::Full(d) => ("full", "none", Some(d)),
                    SaveResult::Partial(d, r) => ("partial", reason(&r), Some(d)),
                    SaveResult::Error(_) => ("error", "io", None),
                };
                let r: Vec<Value> = d.iter().map(|d| kept(self.cur, d, self.rest())).collect();
                self.ev(json!({"op": "bsave", "o": opts(&op["o"]), "res": res, "why": why, "r": r}));
                if let Some(r) = r.first() {
                    self.off += (r["n"].as_u64().unwrap() as usize).min(self.rest().len());
                }
            }
            other => panic!("unknown bulk op {}", other),
        }
    }

    fn saveall(&mut self, m: &mut Multipart<Src>, ents: Option<Entries>, op: &Value) -> Option<Entries> {
        let b = configure(m.save(), &op["o"], |b, c| b.count_limit(c));
        let before = ents.as_ref().map_or(0, |e| e.fields.values().map(Vec::len).sum());
        let res = match ents {
            Some(e) => b.with_entries(e),
            None if op["target"] == "dir" => b.with_dir(self.dir.join("d")),
            None => b.temp(),
        };
        let (res, why, ents, part) = match res {
            SaveResult::Full(e) => ("full", "none", e, None),
            SaveResult::Partial(p, r) => ("partial", reason(&r), p.entries, p.partial),
            SaveResult::Error(_) => {
                self.ev(json!({"op": "bsaveall", "o": opts(&op["o"]), "res": "error", "why": "io", "got": [], "part": [],
                    "count": 0, "total": 0}));
                return None;
            }
        };
        let idx = |name: &str| name[1..].parse::<usize>().unwrap_or(0);
        let mut got: Vec<Value> = vec![];
        let mut total = 0;
        for (name, fs) in &ents.fields {
            let i = idx(name);
            total += fs.len();
            for f in fs {
                if i > before || before == 0 {
                    got.push(kept(i, &f.data, &self.parts[i - 1].data));
                }
            }
        }
        got.sort_by_key(|v| v["i"].as_u64());
        let part: Vec<Value> = part
            .iter()
            .map(|p| {
                let i = idx(&p.source.headers.name);
                match &p.dest {
                    Some(d) => kept(i, d, &self.parts[i - 1].data),
                    None => json!({"i": i, "kind": "none", "n": 0, "size": 0, "same": true, "disk": 0}),
                }
            })
            .collect();
        self.ev(json!({"op": "bsaveall", "o": opts(&op["o"]), "res": res, "why": why, "got": got, "part": part,
            "count": ents.fields_count(), "total": total}));
        Some(ents)
    }
}

pub fn run(sc: &Value, dir: &Path) {
    std::fs::create_dir_all(dir.join("tmp")).unwrap();
    std::env::set_var("TMPDIR", dir.join("tmp"));
    let mut body = vec![];
    let mut parts = vec![];
    for (k, p) in sc["spec"]["parts"].as_array().unwrap().iter().enumerate() {
        let data = content(k + 1, p["len"].as_u64().unwrap() as usize, p["text"].as_bool().unwrap());
        body.extend_from_slice(format!("--{}\r\nContent-Disposition: form-data; name=\"p{}\"\r\n", BND, k + 1).as_bytes());
        if !p["plain"].as_bool().unwrap() {
            body.extend_from_slice(b"Content-Type: image/png\r\n");
        }
        body.extend_from_slice(b"\r\n");
        body.extend_from_slice(&data);
        body.extend_from_slice(b"\r\n");
        parts.push(Part { data });
    }
    body.extend_from_slice(format!("--{}--\r\n", BND).as_bytes());
    // the portions are repeated for ever
    let pat: Vec<Value> = sc["src"].as_array().cloned().unwrap_or_default();
    let mut script = vec![];
    let mut n = 0;
    while !pat.is_empty() && n < body.len() {
        for s in &pat {
            n += s["n"].as_u64().unwrap_or(1) as usize;
            script.push(s.clone());
        }
    }
    let src = Src::new(body, steps(&json!(script)), None);
    let mut m = Multipart::with_body(src.clone(), BND);
    let mut cx = Cx { src, parts, cur: 0, off: 0, dir, nfile: 0 };
    let mut ents = None;
    let ops = sc["ops"].as_array().unwrap();
    let mut k = 0;
    while k < ops.len() {
        let op = &ops[k];
        k += 1;
        if op["op"] == "saveall" {
            ents = cx.saveall(&mut m, ents.take(), op);
            if ents.is_none() {
                return;
            }
            continue;
        }
        // "next", followed by what is done with the field
        let here = ops[k..].iter().take_while(|o| o["op"] != "next" && o["op"] != "saveall").count();
        match Multipart::read_entry(&mut m) {
            Ok(Some(mut f)) => {
                cx.cur = f.headers.name[1..].parse().unwrap_or(0);
                cx.off = 0;
                cx.ev(json!({"op": "bnext", "res": "entry", "i": cx.cur, "istext": f.is_text()}));
                for op in &ops[k..k + here] {
                    cx.op(&mut f.data, op);
                }
            }
            Ok(None) => {
                cx.ev(json!({"op": "bnext", "res": "end", "i": 0, "istext": false}));
                return;
            }
            Err(_) => {
                cx.ev(json!({"op": "bnext", "res": "err", "i": 0, "istext": false}));
                return;
            }
        }
        k += here;
    }
    drop(ents);
}
