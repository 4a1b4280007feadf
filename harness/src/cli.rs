//! Client side: streaming, measured, lazy and prepared requests over a scripted transport.
use crate::src::{kind_of, steps, Sink, Src};
use crate::{bytes, get_bytes, log};
use hyper::net::{NetworkConnector, NetworkStream};
use multipart::client::lazy;
use multipart::client::{HttpRequest, HttpStream, Multipart, SizedRequest};
use multipart::mock;
use multipart::server::{Multipart as Server, ReadEntryResult};
use serde_json::{json, Value};
use std::io::{self, Read, Write};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// What the transport saw, in order.
#[derive(Clone, Default)]
struct Wire(Arc<Mutex<WireState>>);

#[derive(Default)]
struct WireState {
    tev: Vec<Value>,
    hardt: Vec<String>,
}

impl Wire {
    fn push(&self, v: Value) {
        self.0.lock().unwrap().tev.push(v);
    }
    fn hard(&self, s: &str) {
        self.0.lock().unwrap().hardt.push(s.into());
    }
    fn out(&self, b: &[u8]) {
        let mut s = self.0.lock().unwrap();
        if let Some(last) = s.tev.last_mut() {
            if last["t"] == "out" {
                last["b"].as_array_mut().unwrap().extend(b.iter().map(|x| Value::from(*x)));
                return;
            }
        }
        s.tev.push(json!({"t": "out", "b": bytes(b)}));
    }
    fn take_log(&self) -> (Vec<Value>, Vec<String>) {
        let mut s = self.0.lock().unwrap();
        (std::mem::take(&mut s.tev), std::mem::take(&mut s.hardt))
    }
}

struct Req {
    wire: Wire,
    sink: Sink,
    refuse: bool,
    openfail: Option<String>,
    finfail: Option<String>,
    flushfail: Option<String>,
}

struct Stream {
    wire: Wire,
    sink: Sink,
    finfail: Option<String>,
    flushfail: Option<String>,
}

fn opt_len(l: Option<u64>) -> Value {
    json!(l.iter().collect::<Vec<_>>())
}

impl HttpRequest for Req {
    type Stream = Stream;
    type Error = io::Error;
    fn apply_headers(&mut self, boundary: &str, content_len: Option<u64>) -> bool {
        self.wire.push(json!({"t": "apply", "bnd": bytes(boundary.as_bytes()), "len": opt_len(content_len),
            "ok": !self.refuse}));
        if self.refuse {
            self.wire.hard("refuse");
        }
        !self.refuse
    }
    fn open_stream(self) -> io::Result<Stream> {
        self.wire.push(json!({"t": "open", "ok": self.openfail.is_none()}));
        if let Some(k) = self.openfail {
            self.wire.hard("open");
            return Err(io::Error::new(kind_of(&k), "scripted"));
        }
        Ok(Stream { wire: self.wire, sink: self.sink, finfail: self.finfail, flushfail: self.flushfail })
    }
}

impl Write for Stream {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = self.sink.write(b)?;
        if n > 0 {
            self.wire.out(&b[..n]);
        }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if let Some(k) = &self.flushfail {
            self.sink.fault("flush");
            return Err(io::Error::new(kind_of(k), "scripted"));
        }
        Ok(())
    }
}

impl HttpStream for Stream {
    type Request = Req;
    type Response = u32;
    type Error = io::Error;
    fn finish(self) -> io::Result<u32> {
        self.wire.push(json!({"t": "fin", "ok": self.finfail.is_none()}));
        if let Some(k) = self.finfail {
            self.wire.hard("fin");
            return Err(io::Error::new(kind_of(&k), "scripted"));
        }
        Ok(7)
    }
}

struct Fld {
    t: String,
    name: String,
    data: Vec<u8>,
    filename: Option<String>,
    ctype: Option<mime::Mime>,
    path: Option<PathBuf>,
    src: Src,
}

struct Cx {
    wire: Wire,
    sink: Sink,
    srcs: Vec<Src>,
    sent: Vec<u8>,
    bnd: String,
}

impl Cx {
    fn ev(&mut self, mut v: Value) {
        let (tev, hardt) = self.wire.take_log();
        for t in &tev {
            if t["t"] == "apply" {
                self.bnd = String::from_utf8(get_bytes(&t["bnd"])).unwrap();
            }
            if t["t"] == "out" {
                self.sent.extend(get_bytes(&t["b"]));
            }
        }
        let hardw: Vec<String> = self.sink.take_faults().into_iter().filter(|f| f != "Interrupted").collect();
        let mut hards = vec![];
        let mut softs = 0;
        let mut post = 0;
        for s in &self.srcs {
            let (f, p) = s.take_log();
            post = post.max(p);
            for x in f {
                if x == "Interrupted" {
                    softs += 1;
                } else {
                    hards.push(x);
                }
            }
        }
        v["tev"] = json!(tev);
        v["hardt"] = json!(hardt);
        v["hardw"] = json!(hardw);
        v["hards"] = json!(hards);
        v["softs"] = json!(softs);
        v["post"] = json!(post);
        log(v);
    }

    /// What this library's own server side makes of the bytes that were sent.
    fn reread(&mut self) {
        let mut m = Server::with_body(&self.sent[..], self.bnd.clone());
        let mut entries = vec![];
        let res = loop {
            match m.into_entry() {
                ReadEntryResult::Entry(mut e) => {
                    let mut d = vec![];
                    if e.data.read_to_end(&mut d).is_err() {
                        break "err";
                    }
                    let mut v = crate::server::head_json(&e.headers, e.is_text());
                    v["data"] = bytes(&d);
                    entries.push(v);
                    m = e.data.into_inner();
                }
                ReadEntryResult::End(_) => break "end",
                ReadEntryResult::Error(..) => break "err",
            }
        };
        self.ev(json!({"op": "reread", "res": res, "entries": entries}));
    }
}

fn fields(sc: &Value, dir: &Path) -> Vec<Fld> {
    let mut out = vec![];
    for (i, f) in sc["fields"].as_array().unwrap().iter().enumerate() {
        let data = get_bytes(&f["data"]);
        let t = f["t"].as_str().unwrap().to_string();
        let path = if t == "file" {
            let p = dir.join(format!("up{}", i)).join(f["filename"].as_str().unwrap());
            if !f["missing"].as_bool().unwrap_or(false) {
                std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                if f["link"].as_bool().unwrap_or(false) {
                    std::fs::write(dir.join(format!("behind{}", i)), &data).unwrap();
                    std::os::unix::fs::symlink(dir.join(format!("behind{}", i)), &p).unwrap();
                } else {
                    std::fs::write(&p, &data).unwrap();
                }
            }
            Some(p)
        } else {
            None
        };
        out.push(Fld {
            t,
            name: f["name"].as_str().unwrap().into(),
            src: Src::new(data.clone(), steps(&f["src"]), f["tail"].as_str().map(String::from)),
            data,
            filename: f["filename"].as_str().map(String::from),
            ctype: f["ctype"].as_str().map(|s| s.parse().unwrap()),
            path,
        });
    }
    out
}

fn res<T, E>(r: &Result<T, E>) -> &'static str {
    if r.is_ok() {
        "ok"
    } else {
        "err"
    }
}

fn add<S: HttpStream>(m: &mut Multipart<S>, f: &mut Fld) -> &'static str {
    match f.t.as_str() {
        "text" if f.data.len() % 3 == 0 => res(&m.write_text(f.name.clone(), String::from_utf8(f.data.clone()).unwrap())),
        "text" => res(&m.write_text(&f.name, std::str::from_utf8(&f.data).unwrap())),
        "file" if f.data.len() % 3 == 0 => res(&m.write_file(f.name.clone(), f.path.as_ref().unwrap().to_str().unwrap())),
        "file" => res(&m.write_file(&f.name, f.path.as_ref().unwrap())),
        _ => res(&m.write_stream(&f.name, &mut f.src, f.filename.as_ref().map(|s| &**s), f.ctype.clone())),
    }
}

/// Writes all fields; stops at the first failure unless the scenario goes on.
fn stream<S: HttpStream>(cx: &mut Cx, sc: &Value, mut m: Multipart<S>, fs: &mut [Fld]) -> bool {
    let on = sc["goon"].as_bool().unwrap_or(false);
    for (i, f) in fs.iter_mut().enumerate() {
        let r = add(&mut m, f);
        cx.ev(json!({"op": "add", "i": i + 1, "res": r}));
        if r == "err" && !on {
            return false;
        }
    }
    let r = m.send();
    cx.ev(json!({"op": "send", "res": res(&r), "errname": []}));
    r.is_ok()
}

fn lazy_of<'a>(fs: &'a [Fld]) -> lazy::Multipart<'a, 'a> {
    let mut m = lazy::Multipart::new();
    lazy_add(&mut m, fs);
    m
}

fn lazy_add<'a>(m: &mut lazy::Multipart<'a, 'a>, fs: &'a [Fld]) {
    use multipart::client::lazy::IntoCowPath;
    use std::borrow::Cow;
    // all the forms in which names, texts and paths may be given
    for (i, f) in fs.iter().enumerate() {
        let form = i + f.data.len() + f.name.len();
        let path = || f.path.as_ref().unwrap();
        let text = || std::str::from_utf8(&f.data).unwrap();
        match (f.t.as_str(), form % 5) {
            ("text", 0) => m.add_text(f.name.clone(), text().to_string()),
            ("text", 1) => m.add_text(Cow::Borrowed(&*f.name), Cow::Borrowed(text())),
            ("text", 2) => m.add_text(Cow::Owned::<str>(f.name.clone()), text()),
            ("text", _) => m.add_text(&*f.name, text()),
            ("file", 0) => m.add_file(f.name.clone(), path().clone().into_cow_path()),
            ("file", 1) => m.add_file(&*f.name, path().to_str().unwrap()),
            ("file", 2) => m.add_file(Cow::Borrowed(&*f.name), path().to_str().unwrap().to_string().into_cow_path()),
            ("file", 3) => m.add_file(&*f.name, Cow::Borrowed(path().as_path())),
            ("file", _) => m.add_file(&*f.name, path().as_path()),
            (_, 0) => m.add_stream(f.name.clone(), f.src.clone(), f.filename.clone(), f.ctype.clone()),
            _ => m.add_stream(&*f.name, f.src.clone(), f.filename.as_ref().map(|s| &**s), f.ctype.clone()),
        };
    }
}

fn errname<E>(e: &lazy::LazyError<E>) -> Vec<Value> {
    e.field_name.iter().map(|n| bytes(n.as_bytes())).collect()
}

/// The boundaries of n requests of all kinds.
fn boundaries(n: u64) -> Vec<Value> {
    let mut list = vec![];
    let mut reused = lazy::Multipart::new();
    for i in 0..n {
        let w = Wire::default();
        let r = Req { wire: w.clone(), sink: Sink::default(), refuse: false, openfail: None, finfail: None, flushfail: None };
        match i % 4 {
            0 => drop(Multipart::from_request(r).map(|m| m.send())),
            1 => drop(Multipart::<SizedRequest<Req>>::from_request_sized(r).map(|m| m.send())),
            2 => drop(lazy::Multipart::new().send(r)),
            _ => drop(reused.add_text("a", "b").send(r)),
        }
        for t in w.take_log().0 {
            if t["t"] == "apply" {
                list.push(t["bnd"].clone());
            }
        }
    }
    list
}

/// Prepares a request and reads it out: None if that failed, else whether it came to its end.
fn prepared(cx: &mut Cx, wire: &Wire, m: &mut lazy::Multipart, bufs: &Value, stop: Option<usize>) -> Option<bool> {
    match m.prepare() {
        Err(e) => {
            cx.ev(json!({"op": "prep", "res": "err", "errname": errname(&e)}));
            None
        }
        Ok(mut p) => {
            wire.push(json!({"t": "apply", "bnd": bytes(p.boundary().as_bytes()), "len": opt_len(p.content_len()), "ok": true}));
            wire.push(json!({"t": "open", "ok": true}));
            cx.ev(json!({"op": "prep", "res": "ok", "errname": []}));
            let bufs: Vec<usize> = bufs.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
            let mut ends = 0;
            let mut hards = 0;
            let mut k = 0;
            while ends < 2 && hards < 4 && k < 30000 {
                if stop == Some(k) {
                    return Some(false);
                }
                let n = if k < bufs.len() { bufs[k] } else { (*bufs.last().unwrap()).max(1) };
                k += 1;
                let mut b = vec![0xEE; n];
                match p.read(&mut b) {
                    Ok(c) => {
                        if c > 0 {
                            wire.out(&b[..c.min(n)]);
                        } else if n > 0 {
                            ends += 1;
                        }
                        cx.ev(json!({"op": "pread", "n": n, "res": "ok", "k": c}));
                    }
                    Err(e) => {
                        hards += (e.kind() != io::ErrorKind::Interrupted) as usize;
                        cx.ev(json!({"op": "pread", "n": n, "res": "err", "k": 0}));
                    }
                }
            }
            if ends < 2 && hards < 4 {
                cx.ev(json!({"op": "hang"}));
            }
            if ends >= 2 {
                Some(true)
            } else {
                None
            }
        }
    }
}

pub fn run(sc: &Value, dir: &Path) {
    let mode = sc["mode"].as_str().unwrap();
    let mut fs = fields(sc, dir);
    let sink = Sink::new(steps(&sc["sink"]), sc["sinktail"].as_str().map(String::from));
    sink.0.lock().unwrap().sticky = sc["sticky"].as_bool().unwrap_or(false);
    let wire = Wire::default();
    let mut cx = Cx {
        wire: wire.clone(),
        sink: sink.clone(),
        srcs: fs.iter().map(|f| f.src.clone()).collect(),
        sent: vec![],
        bnd: String::new(),
    };
    let req = Req {
        wire: wire.clone(),
        sink,
        refuse: sc["refuse"].as_bool().unwrap_or(false),
        openfail: sc["openfail"].as_str().map(String::from),
        finfail: sc["finfail"].as_str().map(String::from),
        flushfail: sc["flushfail"].as_str().map(String::from),
    };
    let done = match mode {
        "eager" => {
            let m = Multipart::from_request(req);
            cx.ev(json!({"op": "new", "res": res(&m)}));
            match m {
                Ok(m) => stream(&mut cx, sc, m, &mut fs),
                Err(_) => false,
            }
        }
        "sized" => {
            let m = Multipart::<SizedRequest<Req>>::from_request_sized(req);
            match m {
                Ok(m) => {
                    cx.ev(json!({"op": "new", "res": "ok"}));
                    stream(&mut cx, sc, m, &mut fs)
                }
                Err(_) => {
                    cx.ev(json!({"op": "new", "res": "err"}));
                    false
                }
            }
        }
        "mock" | "mocksized" => {
            let fin = |cx: &mut Cx, r: Result<mock::HttpBuffer, io::Error>| {
                if let Ok(b) = &r {
                    wire.push(json!({"t": "apply", "bnd": bytes(b.boundary.as_bytes()), "len": opt_len(b.content_len), "ok": true}));
                    wire.push(json!({"t": "open", "ok": true}));
                    if !b.buf.is_empty() {
                        wire.out(&b.buf);
                    }
                    wire.push(json!({"t": "fin", "ok": true}));
                }
                cx.ev(json!({"op": "send", "res": res(&r), "errname": []}));
                r.is_ok()
            };
            if mode == "mock" {
                let mut m = Multipart::from_request(mock::ClientRequest::default()).unwrap();
                for (i, f) in fs.iter_mut().enumerate() {
                    let r = add(&mut m, f);
                    cx.ev(json!({"op": "add", "i": i + 1, "res": r}));
                }
                fin(&mut cx, m.send())
            } else {
                let mut m = Multipart::from_request_sized(mock::ClientRequest::default()).unwrap();
                for (i, f) in fs.iter_mut().enumerate() {
                    let r = add(&mut m, f);
                    cx.ev(json!({"op": "add", "i": i + 1, "res": r}));
                }
                fin(&mut cx, m.send())
            }
        }
        "lazy" | "prepared" => {
            let rounds: Vec<usize> = sc["rounds"].as_array().map_or(vec![fs.len()], |a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect());
            let mut req = Some(req);
            let mut m = lazy::Multipart::new();
            let mut lo = 0;
            let mut done = false;
            for (k, n) in rounds.iter().enumerate() {
                if k > 0 {
                    cx.ev(json!({"op": "next"}));
                    cx.sent.clear();
                }
                lazy_add(&mut m, &fs[lo..lo + n]);
                lo += n;
                let mine = || Req { wire: wire.clone(), sink: cx.sink.clone(), refuse: false, openfail: None, finfail: None, flushfail: None };
                done = if mode == "lazy" {
                    let q = req.take().unwrap_or_else(mine);
                    let r = m.send(q);
                    let en = r.as_ref().err().map_or(vec![], errname);
                    cx.ev(json!({"op": "send", "res": res(&r), "errname": en}));
                    if r.is_err() {
                        return;
                    }
                    true
                } else {
                    match prepared(&mut cx, &wire, &mut m, if sc["rounds"].is_array() { &sc["bufs"][k] } else { &sc["bufs"] },
                                   sc["stops"][k].as_u64().map(|x| x as usize)) {
                        Some(d) => d,
                        None => return,
                    }
                };
                if done {
                    cx.reread();
                }
            }
            false
        }
        "hyper" | "hypersized" | "hyperlazy" | "hyperclient" => hyper_run(&mut cx, mode, sc, &mut fs),
        "many" => {
            let n = sc["n"].as_u64().unwrap();
            let threads = sc["threads"].as_u64().unwrap_or(1);
            let each = n / threads;
            let list: Vec<Value> = if threads == 1 {
                boundaries(n)
            } else {
                let hs: Vec<_> = (0..threads).map(|_| std::thread::spawn(move || boundaries(each))).collect();
                hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
            };
            cx.ev(json!({"op": "bnds", "list": list, "n": sc["n"]}));
            false
        }
        other => panic!("unknown client mode {}", other),
    };
    if done {
        cx.reread();
    }
}

// ---------------------------------------------------------------- hyper

#[derive(Clone)]
struct Net {
    sent: Arc<Mutex<Vec<u8>>>,
    reply: Arc<Mutex<io::Cursor<Vec<u8>>>>,
}

impl Read for Net {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.reply.lock().unwrap().read(b)
    }
}
impl Write for Net {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.sent.lock().unwrap().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl NetworkStream for Net {
    fn peer_addr(&mut self) -> io::Result<std::net::SocketAddr> {
        Ok("127.0.0.1:80".parse().unwrap())
    }
    fn set_read_timeout(&self, _: Option<Duration>) -> io::Result<()> {
        Ok(())
    }
    fn set_write_timeout(&self, _: Option<Duration>) -> io::Result<()> {
        Ok(())
    }
}

struct Conn(Net);
impl NetworkConnector for Conn {
    type Stream = Net;
    fn connect(&self, _: &str, _: u16, _: &str) -> hyper::Result<Net> {
        Ok(self.0.clone())
    }
}

/// The parts of an HTTP/1.1 request: header lines (lower-case name, value), body without chunking.
pub fn split_http(raw: &[u8]) -> (Vec<(String, Vec<u8>)>, Vec<u8>) {
    let end = match raw.windows(4).position(|w| w == b"\r\n\r\n") {
        Some(e) => e,
        None => return (vec![], vec![]),
    };
    let headtxt = &raw[..end];
    let mut hs = vec![];
    for l in headtxt.split(|b| *b == b'\n').skip(1) {
        let l = if l.ends_with(b"\r") { &l[..l.len() - 1] } else { l };
        if let Some(c) = l.iter().position(|b| *b == b':') {
            let mut v = &l[c + 1..];
            while v.first() == Some(&b' ') {
                v = &v[1..];
            }
            hs.push((String::from_utf8_lossy(&l[..c]).to_lowercase(), v.to_vec()));
        }
    }
    let mut rest = &raw[end + 4..];
    let chunked = hs.iter().any(|(n, v)| n == "transfer-encoding" && v.eq_ignore_ascii_case(b"chunked"));
    if !chunked {
        return (hs, rest.to_vec());
    }
    let mut body = vec![];
    loop {
        let e = match rest.windows(2).position(|w| w == b"\r\n") {
            Some(e) => e,
            None => return (hs, body),
        };
        let n = usize::from_str_radix(std::str::from_utf8(&rest[..e]).unwrap_or("x").trim(), 16).unwrap_or(0);
        rest = &rest[e + 2..];
        if n == 0 || rest.len() < n + 2 {
            return (hs, body);
        }
        body.extend_from_slice(&rest[..n]);
        rest = &rest[n + 2..];
    }
}

fn hyper_run(cx: &mut Cx, mode: &str, sc: &Value, fs: &mut [Fld]) -> bool {
    let net = Net {
        sent: Default::default(),
        reply: Arc::new(Mutex::new(io::Cursor::new(
            b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\nConnection: close\r\n\r\n".to_vec(),
        ))),
    };
    let method = if sc["method"].as_str() == Some("GET") { hyper::method::Method::Get } else { hyper::method::Method::Post };
    // headers the caller's request already has: the ones about the body are replaced
    let stale: Vec<&str> = sc["stale"].as_array().map_or(vec![], |a| a.iter().filter_map(|x| x.as_str()).collect());
    let mkreq = || {
        let mut req =
            hyper::client::Request::with_connector(method, "http://localhost/".parse().unwrap(), &Conn(net.clone())).unwrap();
        for s in &stale {
            match *s {
                "type" => req.headers_mut().set(hyper::header::ContentType("multipart/form-data; boundary=old".parse().unwrap())),
                "length" => req.headers_mut().set(hyper::header::ContentLength(7)),
                _ => req.headers_mut().set(hyper::header::UserAgent("probe".to_string())),
            }
        }
        req
    };
    let r = match mode {
        "hyper" => {
            let mut m = Multipart::from_request(mkreq()).unwrap();
            let mut ok = true;
            for f in fs.iter_mut() {
                ok &= add(&mut m, f) == "ok";
            }
            ok & m.send().is_ok()
        }
        "hypersized" => {
            let mut m = Multipart::from_request_sized(mkreq()).unwrap();
            let mut ok = true;
            for f in fs.iter_mut() {
                ok &= add(&mut m, f) == "ok";
            }
            ok & m.send().is_ok()
        }
        "hyperlazy" => lazy_of(fs).send(mkreq()).is_ok(),
        _ => {
            let client = hyper::Client::with_connector(Conn(net.clone()));
            let set: Vec<&str> = sc["mutate"].as_array().map_or(vec![], |a| a.iter().filter_map(|x| x.as_str()).collect());
            let mut lazy = lazy_of(fs);
            if set.is_empty() {
                lazy.client_request(&client, "http://localhost/").is_ok()
            } else {
                // what the caller's closure says of the body is overwritten, as documented
                let r = lazy.client_request_mut(&client, "http://localhost/", |mut b| {
                    for s in set {
                        b = match s {
                            "type" => b.header(hyper::header::ContentType("text/plain; boundary=x".parse().unwrap())),
                            "length" => b.header(hyper::header::ContentLength(7)),
                            "body" => b.body("not this"),
                            _ => b.header(hyper::header::UserAgent("probe".to_string())),
                        };
                    }
                    b
                });
                r.is_ok()
            }
        }
    };
    let raw = net.sent.lock().unwrap().clone();
    let (hs, body) = split_http(&raw);
    let get = |n: &str| hs.iter().filter(|(k, _)| k == n).map(|(_, v)| v.clone()).collect::<Vec<_>>();
    if !raw.is_empty() {
        let ct = get("content-type");
        let cl = get("content-length");
        // what is announced: the boundary parameter of the one content type
        let ct0 = if ct.len() == 1 { String::from_utf8_lossy(&ct[0]).into_owned() } else { String::new() };
        let low = ct0.to_lowercase();
        let bnd = match low.find("boundary=") {
            Some(p) if low.starts_with("multipart/form-data") => ct0[p + 9..].split(';').next().unwrap().trim().trim_matches('"').to_string(),
            _ => String::new(),
        };
        let lens: Vec<u64> = cl.iter().filter_map(|v| String::from_utf8_lossy(v).parse().ok()).collect();
        cx.wire.push(json!({"t": "apply", "bnd": bytes(bnd.as_bytes()), "len": lens, "ok": true}));
        cx.wire.push(json!({"t": "open", "ok": true}));
        if !body.is_empty() {
            cx.wire.out(&body);
        }
        if r {
            cx.wire.push(json!({"t": "fin", "ok": true}));
        }
    } else if mode == "hypersized" && sc["method"].as_str() == Some("GET") {
        cx.wire.hard("refuse");
    }
    cx.ev(json!({"op": "send", "res": if r {"ok"} else {"err"}, "errname": []}));
    r
}
