//! Conversions of results, saved data in the caller's hands.
use crate::src::{kind_of, steps, Sink};
use crate::{bytes, get_bytes, log};
use multipart::server::save::{PartialEntries, PartialReason, PartialSavedField, SaveDir, SaveResult, SavedData};
use multipart::server::{Entries, FieldHeaders, Multipart, MultipartField, ReadEntryResult, SavedField};
use serde_json::{json, Value};
use std::io::{self, BufRead, Cursor, Read};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;

type M = Multipart<Cursor<Vec<u8>>>;

fn text(v: &Value) -> String {
    String::from_utf8(get_bytes(v)).unwrap()
}

fn error(v: &Value) -> io::Error {
    io::Error::new(kind_of(v["ekind"].as_str().unwrap_or("Other")), text(&v["err"]))
}

fn errs(e: Option<io::Error>) -> Value {
    json!(e.iter().map(|e| bytes(e.to_string().as_bytes())).collect::<Vec<_>>())
}

fn why(v: &Value) -> PartialReason {
    match v["why"].as_str().unwrap() {
        "count" => PartialReason::CountLimit,
        "size" => PartialReason::SizeLimit,
        "utf8" => PartialReason::Utf8Error(std::str::from_utf8(&[0x61, 0xff]).unwrap_err()),
        _ => PartialReason::IoError(error(v)),
    }
}

fn why_name(r: &PartialReason) -> &'static str {
    match r {
        PartialReason::CountLimit => "count",
        PartialReason::SizeLimit => "size",
        PartialReason::IoError(_) => "io",
        PartialReason::Utf8Error(_) => "utf8",
    }
}

fn data(v: &Value, dir: &Path) -> SavedData {
    let b = get_bytes(&v["bytes"]);
    match v["kind"].as_str().unwrap() {
        "text" => SavedData::from(String::from_utf8(b).unwrap()),
        "bytes" => SavedData::from(b),
        _ => {
            let n = std::fs::read_dir(dir).unwrap().count();
            let p = dir.join(format!("data{}", n));
            std::fs::write(&p, &b).unwrap();
            SavedData::File(p, b.len() as u64)
        }
    }
}

fn data_of(d: &SavedData) -> Value {
    let mut out = vec![];
    let ok = d.readable().and_then(|mut r| r.read_to_end(&mut out)).is_ok();
    let kind = match d {
        SavedData::Text(_) => "text",
        SavedData::Bytes(_) => "bytes",
        SavedData::File(..) => "file",
    };
    let kind = if ok && d.size() == out.len() as u64 && d.is_memory() == (kind != "file") { kind } else { "unreadable" };
    json!({"kind": kind, "bytes": bytes(&out)})
}

fn headers(name: &str) -> FieldHeaders {
    FieldHeaders { name: name.into(), filename: None, content_type: None }
}

fn field_of(name: &str) -> MultipartField<M> {
    let b = format!("--b\r\nContent-Disposition: form-data; name=\"{}\"\r\n\r\nrest\r\n--b--\r\n", name);
    match Multipart::with_body(Cursor::new(b.into_bytes()), "b").into_entry() {
        ReadEntryResult::Entry(f) => f,
        _ => panic!("no entry"),
    }
}

/// A payload the specification can compare.
trait Render: Sized {
    fn render(&self) -> Value;
    fn mark(self) -> Self;
}

fn payload() -> Value {
    json!({"n": 0, "kind": "none", "bytes": [], "ents": [], "cnt": 0})
}

impl Render for u64 {
    fn render(&self) -> Value {
        let mut p = payload();
        p["n"] = json!(self);
        p
    }
    fn mark(self) -> u64 {
        self + 1
    }
}

impl Render for SavedData {
    fn render(&self) -> Value {
        let mut p = payload();
        let d = data_of(self);
        p["kind"] = d["kind"].clone();
        p["bytes"] = d["bytes"].clone();
        p
    }
    fn mark(self) -> SavedData {
        let mut b = vec![];
        self.readable().unwrap().read_to_end(&mut b).unwrap();
        b.push(33);
        SavedData::Bytes(b)
    }
}

impl Render for Entries {
    fn render(&self) -> Value {
        let mut p = payload();
        let mut names: Vec<_> = self.fields.keys().cloned().collect();
        names.sort();
        let ents: Vec<Value> = names
            .iter()
            .map(|n| {
                let fs = &self.fields[n];
                let same = fs.iter().all(|f| f.headers.name == *n);
                json!({"name": if same { bytes(n.as_bytes()) } else { bytes(b"wrong") },
                    "datas": fs.iter().map(|f| data_of(&f.data)).collect::<Vec<_>>()})
            })
            .collect();
        p["ents"] = json!(ents);
        p["cnt"] = json!(self.fields_count());
        p
    }
    fn mark(mut self) -> Entries {
        self.fields.insert("zz".into(), vec![SavedField { headers: headers("zz"), data: SavedData::Bytes(vec![33]) }]);
        self
    }
}

fn entries(p: &Value, dir: &Path) -> Entries {
    let mut e = Entries::new(SaveDir::Perm(dir.to_path_buf()));
    for g in p["ents"].as_array().unwrap() {
        let name = text(&g["name"]);
        let fs = g["datas"].as_array().unwrap().iter().map(|d| SavedField { headers: headers(&name), data: data(d, dir) }).collect();
        e.fields.insert(name.as_str().into(), fs);
    }
    e.recount_fields();
    e
}

fn some<T: Render>(x: &Option<T>) -> Value {
    json!(x.iter().map(|x| x.render()).collect::<Vec<_>>())
}

fn died<T>(f: impl FnOnce() -> T) -> (Option<T>, bool, Value) {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => (Some(v), false, json!([])),
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            (None, true, bytes(m.as_bytes()))
        }
    }
}

/// Conversions any save result offers.
fn convert<S: Render, P: Into<S>>(r: SaveResult<S, P>, ops: &[Value]) {
    let k = ops[0]["op"].as_str().unwrap();
    match k {
        "map" => {
            let mut calls = 0;
            let r = r.map(|x| {
                calls += 1;
                x.mark()
            });
            let (v, w, e, s) = match &r {
                SaveResult::Full(x) => ("full", "none", String::new(), vec![x.render()]),
                SaveResult::Partial(x, PartialReason::IoError(e)) => ("partial", "io", e.to_string(), vec![x.render()]),
                SaveResult::Partial(x, w) => ("partial", why_name(w), String::new(), vec![x.render()]),
                SaveResult::Error(e) => ("error", "none", e.to_string(), vec![]),
            };
            log(json!({"op": "map", "calls": calls, "v": v, "why": w, "err": bytes(e.as_bytes()), "some": s}));
            if ops.len() > 1 {
                convert::<S, S>(r, &ops[1..]);
            }
        }
        "okish" => log(json!({"op": k, "some": some(&r.okish()), "errs": []})),
        "both" => {
            let (s, e) = r.into_opt_both();
            log(json!({"op": k, "some": some(&s), "errs": errs(e)}));
        }
        "result" | "strict" => {
            let (s, e) = match if k == "result" { r.into_result() } else { r.into_result_strict() } {
                Ok(x) => (Some(x), None),
                Err(e) => (None, Some(e)),
            };
            log(json!({"op": k, "some": some(&s), "errs": errs(e)}));
        }
        "unwraperr" | "expecterr" => {
            let given = text(&ops[0]["given"]);
            if let SaveResult::Partial(_, w) = r {
                let (e, panicked, msg) = died(|| if k == "unwraperr" { w.unwrap_err() } else { w.expect_err(&given) });
                let given = if k == "unwraperr" { "" } else { &given };
                log(json!({"op": k, "errs": errs(e), "panicked": panicked, "msg": msg, "given": bytes(given.as_bytes())}));
            }
        }
        other => panic!("unknown conversion {}", other),
    }
}

fn result(sc: &Value, dir: &Path) {
    let v = &sc["spec"]["value"];
    let ops = sc["ops"].as_array().unwrap();
    match v["t"].as_str().unwrap() {
        "count" => {
            let n = v["p"]["n"].as_u64().unwrap();
            convert::<u64, u64>(made(v, n, n), ops)
        }
        "field" if v["v"] == "error" => convert::<SavedData, SavedData>(SaveResult::Error(error(v)), ops),
        "field" => {
            let d = data(&v["p"], dir);
            let r = if v["v"] == "full" { SaveResult::Full(d) } else { SaveResult::Partial(d, why(v)) };
            convert::<SavedData, SavedData>(r, ops)
        }
        _ => {
            let es = entries(&v["p"], dir);
            let r: SaveResult<Entries, PartialEntries<M>> = match v["v"].as_str().unwrap() {
                "full" => SaveResult::Full(es),
                "error" => SaveResult::Error(error(v)),
                _ => {
                    let partial = v["part"].get(0).map(|p| PartialSavedField {
                        source: field_of(&text(&p["name"])),
                        dest: p["dest"].get(0).map(|d| data(d, dir)),
                    });
                    SaveResult::Partial(PartialEntries { entries: es, partial }, why(v))
                }
            };
            match ops[0]["op"].as_str().unwrap() {
                "intoentries" => log(json!({"op": "intoentries", "some": some(&r.into_entries()), "errs": []})),
                k @ ("discard" | "keeppartial") => {
                    if let SaveResult::Partial(p, _) = r {
                        let e: Entries = if k == "discard" { p.into() } else { p.keep_partial() };
                        log(json!({"op": k, "some": [e.render()]}));
                    }
                }
                _ => convert(r, ops),
            }
        }
    }
}

fn made<S>(v: &Value, full: S, partial: S) -> SaveResult<S, S> {
    match v["v"].as_str().unwrap() {
        "full" => SaveResult::Full(full),
        "partial" => SaveResult::Partial(partial, why(v)),
        _ => SaveResult::Error(error(v)),
    }
}

fn next(sc: &Value) {
    let v = &sc["spec"]["value"];
    let m: M = Multipart::with_body(Cursor::new(vec![]), "b");
    let r: ReadEntryResult<M, u64> = match v["v"].as_str().unwrap() {
        "entry" => ReadEntryResult::Entry(v["n"].as_u64().unwrap()),
        "end" => ReadEntryResult::End(m),
        _ => ReadEntryResult::Error(m, error(v)),
    };
    let op = &sc["ops"][0];
    let (g, g2) = (text(&op["given"]), text(&op["given2"]));
    let mut err = None;
    let (got, panicked, msg) = died(|| match op["op"].as_str().unwrap() {
        "result" => r.into_result().unwrap_or_else(|e| {
            err = Some(e);
            None
        }),
        "unwrap" => Some(r.unwrap()),
        "expect" => Some(r.expect(&g)),
        "expectalt" => Some(r.expect_alt(&g, &g2)),
        "unwrapopt" => r.unwrap_opt(),
        _ => r.expect_opt(&g),
    });
    let got: Vec<u64> = got.into_iter().flatten().collect();
    log(json!({"op": op["op"], "some": got, "errs": errs(err), "panicked": panicked, "msg": msg, "given": bytes(g.as_bytes()),
        "given2": bytes(g2.as_bytes())}));
}

fn saved(sc: &Value, dir: &Path) {
    let d = data(&sc["spec"]["value"], dir);
    let kind = match d {
        SavedData::Text(_) => "text",
        SavedData::Bytes(_) => "bytes",
        SavedData::File(..) => "file",
    };
    log(json!({"op": "made", "kind": kind, "size": d.size(), "mem": d.is_memory()}));
    let mut r = None;
    for op in sc["ops"].as_array().unwrap() {
        let n = op["n"].as_u64().unwrap_or(0) as usize;
        let k = op["op"].as_str().unwrap();
        match k {
            "open" => {
                let o = d.readable();
                log(json!({"op": "open", "res": if o.is_ok() {"ok"} else {"err"}}));
                r = o.ok();
            }
            "dread" | "dall" => {
                let mut buf = vec![0; n];
                let res = if k == "dread" {
                    r.as_mut().unwrap().read(&mut buf).map(|n| buf.truncate(n))
                } else {
                    r.as_mut().unwrap().read_to_end(&mut buf).map(|_| ())
                };
                log(json!({"op": k, "n": n, "res": if res.is_ok() {"ok"} else {"err"}, "out": bytes(&buf)}));
            }
            "dfill" => {
                let (res, out) = match r.as_mut().unwrap().fill_buf() {
                    Ok(b) => ("ok", b.to_vec()),
                    Err(_) => ("err", vec![]),
                };
                log(json!({"op": k, "res": res, "out": bytes(&out)}));
            }
            _ => {
                // as much of what is buffered
                let n = n.min(r.as_mut().unwrap().fill_buf().map_or(0, |b| b.len()));
                let out = r.as_mut().unwrap().fill_buf().unwrap().to_vec();
                log(json!({"op": "dfill", "res": "ok", "out": bytes(&out)}));
                r.as_mut().unwrap().consume(n);
                log(json!({"op": "dconsume", "n": n}));
            }
        }
    }
}

fn ents(sc: &Value, dir: &Path) {
    let mut e = Entries::new(SaveDir::Perm(dir.to_path_buf()));
    for op in sc["ops"].as_array().unwrap() {
        let k = op["op"].as_str().unwrap();
        match k {
            "put" => {
                let name = text(&op["name"]);
                let d = data(&op["d"], dir);
                let b = get_bytes(&op["d"]["bytes"]);
                e.fields.entry(name.as_str().into()).or_insert_with(Vec::new).push(SavedField { headers: headers(&name), data: d });
                log(json!({"op": k, "name": bytes(name.as_bytes()), "bytes": bytes(&b)}));
            }
            "drop" => {
                let name = text(&op["name"]);
                e.fields.remove(name.as_str());
                log(json!({"op": k, "name": bytes(name.as_bytes())}));
            }
            "count" => log(json!({"op": k, "n": e.fields_count()})),
            "recount" => log(json!({"op": k, "n": e.recount_fields()})),
            "empty" => log(json!({"op": k, "is": e.is_empty()})),
            _ => {
                let sink = Sink::new(steps(&op["w"]), None);
                let r = e.write_debug(sink.clone());
                let wf = sink.take_faults().iter().any(|f| f != "Interrupted");
                log(json!({"op": "debug", "res": if r.is_ok() {"ok"} else {"err"}, "wfault": wf, "out": bytes(&sink.got())}));
            }
        }
    }
}

pub fn run(sc: &Value, dir: &Path) {
    match sc["spec"]["what"].as_str().unwrap() {
        "result" => result(sc, dir),
        "next" => next(sc),
        "data" => saved(sc, dir),
        _ => ents(sc, dir),
    }
}
