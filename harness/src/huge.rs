//! More bytes than 32-bit counters hold. Lengths are counted in units of 64 KiB; the data is made
//! up as it is read and compared as it arrives.
use crate::log;
use multipart::client::lazy;
use multipart::client::{HttpRequest, HttpStream, Multipart as Client};
use multipart::server::save::{PartialReason, SaveBuilder, SaveResult};
use multipart::server::Multipart;
use serde_json::{json, Value};
use std::io::{self, Read, Write};
use std::path::Path;
use std::sync::{Arc, Mutex};

const UNIT: u64 = 65536;

/// The data: every unit starts with its number, unless it is all zeros.
#[derive(Clone)]
struct Gen {
    pos: u64,
    len: u64,
    unit: u64,
    buf: Arc<Vec<u8>>,
    zeros: bool,
}

impl Gen {
    fn new(units: u64, zeros: bool) -> Gen {
        let buf = (0..UNIT).map(|j| if zeros { 0 } else { b'a' + ((j * 7919 + j / 26) % 26) as u8 }).collect();
        Gen { pos: 0, len: units * UNIT, unit: u64::MAX, buf: Arc::new(buf), zeros }
    }
    /// The next bytes, at most `n` and none beyond their unit.
    fn peek(&mut self, n: usize) -> &[u8] {
        let unit = self.pos / UNIT;
        if unit != self.unit && !self.zeros {
            self.unit = unit;
            let num = format!("{:08x}", unit);
            Arc::make_mut(&mut self.buf)[..8].copy_from_slice(num.as_bytes());
        }
        let at = self.pos % UNIT;
        let n = (n as u64).min(UNIT - at).min(self.len - self.pos);
        &self.buf[at as usize..(at + n) as usize]
    }
    /// Are these the next bytes?
    fn next_is(&mut self, mut b: &[u8]) -> bool {
        while !b.is_empty() {
            let want = self.peek(b.len());
            let n = want.len();
            if n == 0 || want != &b[..n] {
                return false;
            }
            self.pos += n as u64;
            b = &b[n..];
        }
        true
    }
}

impl Read for Gen {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        let b = self.peek(out.len());
        let n = b.len();
        out[..n].copy_from_slice(b);
        self.pos += n as u64;
        Ok(n)
    }
}

fn pair(n: u64) -> Value {
    json!([n / UNIT, n % UNIT])
}

struct Check<'a>(&'a mut Gen, bool);

impl<'a> Write for Check<'a> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.1 = self.1 && self.0.next_is(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn limit<S>(b: SaveBuilder<S>, o: &Value) -> SaveBuilder<S> {
    let l = |k: &str| Some(&o[k]).and_then(|v| v.as_i64()).filter(|x| *x >= 0).map(|x| x as u64 * UNIT);
    b.size_limit(l("size")).memory_threshold(l("mem").unwrap_or(u64::MAX))
}

fn why(r: &PartialReason) -> &'static str {
    match r {
        PartialReason::SizeLimit => "size",
        PartialReason::CountLimit => "count",
        PartialReason::IoError(_) => "io",
        PartialReason::Utf8Error(_) => "utf8",
    }
}

fn ev(mut v: Value) {
    v["faults"] = json!([]);
    v["post"] = json!(0);
    log(v);
}

fn server(sc: &Value) {
    let mut body: Box<dyn Read> = Box::new(io::empty());
    let mut gens = vec![];
    for (k, p) in sc["spec"]["parts"].as_array().unwrap().iter().enumerate() {
        let g = Gen::new(p["len"].as_u64().unwrap(), false);
        let head = format!("--bnd\r\nContent-Disposition: form-data; name=\"p{}\"\r\n\r\n", k + 1);
        body = Box::new(body.chain(io::Cursor::new(head.into_bytes())).chain(g.clone()).chain(&b"\r\n"[..]));
        gens.push(g);
    }
    let body = body.chain(&b"--bnd--\r\n"[..]);
    let mut m = Multipart::with_body(body, "bnd");
    let ops = sc["ops"].as_array().unwrap();
    let mut k = 0;
    while k < ops.len() {
        k += 1;
        let here = ops[k..].iter().take_while(|o| o["op"] != "next").count();
        let mut f = match Multipart::read_entry(&mut m) {
            Ok(Some(f)) => f,
            r => {
                let res = if r.is_ok() { "end" } else { "err" };
                return ev(json!({"op": "bnext", "res": res, "i": 0, "istext": false}));
            }
        };
        let cur: usize = f.headers.name[1..].parse().unwrap_or(0);
        ev(json!({"op": "bnext", "res": "entry", "i": cur, "istext": f.is_text()}));
        let mut gen = gens[cur - 1].clone();
        for op in &ops[k..k + here] {
            let o = json!({"size": op["o"]["size"], "mem": op["o"]["mem"], "count": -1, "text": "ignore", "calls": []});
            let from = gen.pos;
            match op["op"].as_str().unwrap() {
                "read" => {
                    let stop = op["stop"].as_u64().map_or(u64::MAX, |s| s * UNIT);
                    let mut buf = vec![0; op["n"].as_u64().unwrap() as usize];
                    let (mut same, mut done) = (true, false);
                    while same && !done && gen.pos - from < stop {
                        let want = (buf.len() as u64).min(stop - (gen.pos - from)) as usize;
                        match f.data.read(&mut buf[..want]) {
                            Ok(0) => done = true,
                            Ok(n) => same = gen.next_is(&buf[..n]),
                            Err(_) => same = false,
                        }
                    }
                    ev(json!({"op": "bread", "n": (gen.pos - from) / UNIT, "same": same, "done": done, "least": 0, "min": 0}));
                }
                "writeto" => {
                    let mut check = Check(&mut gen, true);
                    let res = limit(f.data.save(), &op["o"]).write_to(&mut check);
                    let same = check.1;
                    let (res, why, n) = match res {
                        SaveResult::Full(n) => ("full", "none", n),
                        SaveResult::Partial(n, r) => ("partial", why(&r), n),
                        SaveResult::Error(_) => ("error", "io", 0),
                    };
                    let got = gen.pos - from;
                    let same = same && n == got && (res == "partial" || got % UNIT == 0);
                    ev(json!({"op": "bwriteto", "o": o, "res": res, "why": why, "n": (got + UNIT - 1) / UNIT, "same": same}));
                }
                // a file that keeps nothing: only the size that was reported is known
                "save" => {
                    let res = limit(f.data.save(), &op["o"]).ignore_text().mod_open_opts(|o| { o.create_new(false); }).with_path("/dev/null");
                    let (res, why, d) = match res {
                        SaveResult::Full(d) => ("full", "none", Some(d)),
                        SaveResult::Partial(d, r) => ("partial", why(&r), Some(d)),
                        SaveResult::Error(_) => ("error", "io", None),
                    };
                    let r: Vec<Value> = d.iter().map(|d| {
                        let n = (d.size() + UNIT - 1) / UNIT;
                        let same = !d.is_memory() && (res == "partial" || d.size() % UNIT == 0);
                        json!({"i": cur, "kind": if d.is_memory() { "bytes" } else { "file" }, "n": n, "size": n, "same": same, "disk": n})
                    }).collect();
                    gen.pos += d.map_or(0, |d| d.size()).min(gen.len - gen.pos);
                    ev(json!({"op": "bsave", "o": o, "res": res, "why": why, "r": r}));
                }
                other => panic!("unknown huge op {}", other),
            }
        }
        k += here;
    }
}

/// Takes the request apart as it arrives.
struct Wire {
    ann: Option<u64>,
    bnd: String,
    head: Vec<u8>,
    in_head: bool,
    data: Gen,
    same: bool,
    tail: Vec<u8>,
    total: u64,
    finished: bool,
}

impl Wire {
    fn take(&mut self, mut b: &[u8]) {
        self.total += b.len() as u64;
        while self.in_head && !b.is_empty() {
            self.head.push(b[0]);
            b = &b[1..];
            self.in_head = !self.head.ends_with(b"\r\n\r\n") && self.head.len() < 4096;
        }
        let n = (b.len() as u64).min(self.data.len - self.data.pos) as usize;
        self.same = self.same && self.data.next_is(&b[..n]);
        if self.same {
            let rest = &b[n..];
            self.tail.extend_from_slice(&rest[..rest.len().min(4096)]);
        }
    }
    fn complete(&self) -> bool {
        let head = String::from_utf8_lossy(&self.head).into_owned();
        let tail = String::from_utf8_lossy(&self.tail).into_owned();
        let head = head.strip_prefix("\r\n").unwrap_or(&head);
        head.starts_with(&format!("--{}\r\n", self.bnd))
            && head.contains("; name=\"big\"")
            && !self.bnd.is_empty()
            && tail.strip_suffix("\r\n").unwrap_or(&tail) == format!("\r\n--{}--", self.bnd)
    }
}

#[derive(Clone)]
struct Net(Arc<Mutex<Wire>>);

impl Write for Net {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.lock().unwrap().take(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl HttpRequest for Net {
    type Stream = Net;
    type Error = io::Error;
    fn apply_headers(&mut self, boundary: &str, content_len: Option<u64>) -> bool {
        let mut w = self.0.lock().unwrap();
        w.bnd = boundary.into();
        w.ann = content_len;
        true
    }
    fn open_stream(self) -> io::Result<Net> {
        Ok(self)
    }
}

impl HttpStream for Net {
    type Request = Net;
    type Response = ();
    type Error = io::Error;
    fn finish(self) -> io::Result<()> {
        self.0.lock().unwrap().finished = true;
        Ok(())
    }
}

fn client(sc: &Value, dir: &Path) {
    let how = sc["how"].as_str().unwrap();
    let units = sc["spec"]["parts"][0]["len"].as_u64().unwrap();
    let file = how.ends_with("file");
    let path = dir.join("big.bin");
    if file {
        // sparse: takes no room
        std::fs::File::create(&path).and_then(|f| f.set_len(units * UNIT)).unwrap();
    }
    let net = Net(Arc::new(Mutex::new(Wire {
        ann: None,
        bnd: String::new(),
        head: vec![],
        in_head: true,
        data: Gen::new(units, file),
        same: true,
        tail: vec![],
        total: 0,
        finished: false,
    })));
    let mut gen = Gen::new(units, false);
    let text = how.ends_with("text");
    let mut all = String::new();
    if text {
        gen.clone().read_to_string(&mut all).unwrap();
    }
    macro_rules! written {
        ($m:expr) => {{
            let mut m = $m;
            let ok = if file {
                m.write_file("big", &path).is_ok()
            } else if text {
                m.write_text("big", &all).is_ok()
            } else {
                m.write_stream("big", &mut gen, Some("f"), None).is_ok()
            };
            ok && m.send().is_ok()
        }};
    }
    let ok = if how.starts_with("eager") {
        written!(Client::from_request(net.clone()).unwrap())
    } else if how.starts_with("sized") {
        written!(Client::from_request_sized(net.clone()).unwrap())
    } else {
        let mut m = lazy::Multipart::new();
        if file {
            m.add_file("big", path.clone());
        } else if text {
            m.add_text("big", all);
        } else {
            m.add_stream::<_, _, String>("big", gen, None, None);
        }
        if how.starts_with("lazy") {
            m.send(net.clone()).is_ok()
        } else {
            let mut net = net.clone();
            match m.prepare() {
                Ok(mut p) => {
                    net.apply_headers(p.boundary(), p.content_len());
                    let mut buf = vec![0; sc["n"].as_u64().unwrap_or(UNIT) as usize];
                    loop {
                        match p.read(&mut buf) {
                            Ok(0) => break net.finish().is_ok(),
                            Ok(n) => net.write_all(&buf[..n]).unwrap(),
                            Err(_) => break false,
                        }
                    }
                }
                Err(_) => false,
            }
        }
    };
    let w = net.0.lock().unwrap();
    let ann: Vec<Value> = w.ann.iter().map(|n| pair(*n)).collect();
    ev(json!({"op": "bsent", "ok": ok && w.finished, "sized": how.starts_with("sized") || (!how.starts_with("eager") && !how.ends_with("stream")), "ann": ann, "total": pair(w.total),
        "n": w.data.pos / UNIT, "same": w.same && w.data.pos == w.data.len, "complete": w.complete()}));
}

pub fn run(sc: &Value, dir: &Path) {
    if sc["how"].is_null() {
        server(sc)
    } else {
        client(sc, dir)
    }
}
