//! Server integrations: which requests are multipart, and the iron middleware.
use crate::server::{data_json, head_json, snapshot};
use crate::src::{steps, Src};
use crate::{bytes, get_bytes, log};
use hyper::buffer::BufReader;
use hyper::net::NetworkStream;
use multipart::mock;
use multipart::server::hyper::Switch;
use multipart::server::iron::{FileCountLimitError, FileSizeLimitError, Intercept, LimitBehavior};
use multipart::server::nickel::{Maybe, MultipartBody};
use multipart::server::save::SavedData;
use multipart::server::{Entries, HttpRequest, Multipart, ReadEntryResult};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{self, Read, Write};
use std::net::SocketAddr;
use std::path::Path;
use std::sync::{Arc, Mutex};
use std::time::Duration;

struct Net(Src);
impl Read for Net {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.0.read(b)
    }
}
impl Write for Net {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl NetworkStream for Net {
    fn peer_addr(&mut self) -> io::Result<SocketAddr> {
        Ok(addr())
    }
    fn set_read_timeout(&self, _: Option<Duration>) -> io::Result<()> {
        Ok(())
    }
    fn set_write_timeout(&self, _: Option<Duration>) -> io::Result<()> {
        Ok(())
    }
}

fn addr() -> SocketAddr {
    "127.0.0.1:80".parse().unwrap()
}

/// The request as it goes over the wire; the body plain or in chunks.
fn raw_request(sc: &Value) -> (Vec<u8>, usize) {
    let body = get_bytes(&sc["body"]);
    let mut raw = format!("{} /p HTTP/1.1\r\nHost: localhost\r\n", sc["method"].as_str().unwrap()).into_bytes();
    for c in sc["ctypes"].as_array().unwrap() {
        raw.extend_from_slice(sc["ctname"].as_str().unwrap_or("Content-Type").as_bytes());
        raw.extend_from_slice(sc["ctsep"].as_str().unwrap_or(": ").as_bytes());
        raw.extend(get_bytes(c));
        raw.extend_from_slice(b"\r\n");
    }
    raw.extend_from_slice(b"X-Other: 1\r\n");
    let head;
    match sc["te"].as_array() {
        Some(sizes) => {
            raw.extend_from_slice(b"Transfer-Encoding: chunked\r\n\r\n");
            head = raw.len();
            let mut p = 0;
            let mut k = 0;
            while p < body.len() {
                let n = (sizes[k % sizes.len()].as_u64().unwrap() as usize).max(1).min(body.len() - p);
                k += 1;
                raw.extend_from_slice(format!("{:x}\r\n", n).as_bytes());
                raw.extend_from_slice(&body[p..p + n]);
                raw.extend_from_slice(b"\r\n");
                p += n;
            }
            raw.extend_from_slice(b"0\r\n\r\n");
        }
        None => {
            raw.extend_from_slice(format!("Content-Length: {}\r\n\r\n", body.len()).as_bytes());
            head = raw.len();
            raw.extend(body);
        }
    }
    (raw, head)
}

fn source(sc: &Value) -> Src {
    let (raw, head) = raw_request(sc);
    let mut st = steps(&sc["src"]);
    if !st.is_empty() {
        st.push_front(crate::src::Step::Data(head));
    }
    Src::new(raw, st, None)
}

fn boundary(b: Option<&str>) -> Vec<Value> {
    b.iter().map(|b| bytes(b.as_bytes())).collect()
}

fn detected(b: Option<&str>) {
    log(json!({"op": "detect", "bnd": boundary(b)}));
}

fn take(multi: bool) {
    log(json!({"op": "take", "res": if multi { "multi" } else { "back" }}));
}

fn entries<R: Read>(mut m: Multipart<R>) {
    let mut entries = vec![];
    let res = loop {
        match m.into_entry() {
            ReadEntryResult::Entry(mut e) => {
                let mut d = vec![];
                if e.data.read_to_end(&mut d).is_err() {
                    break "err";
                }
                let mut v = head_json(&e.headers, e.is_text());
                v["data"] = bytes(&d);
                entries.push(v);
                m = e.data.into_inner();
            }
            ReadEntryResult::End(_) => break "end",
            ReadEntryResult::Error(..) => break "err",
        }
    };
    log(json!({"op": "entries", "res": res, "entries": entries}));
}

fn rest<R: Read>(mut body: R, method: &str, ctypes: Vec<Value>) {
    let mut out = vec![];
    let _ = body.read_to_end(&mut out);
    log(json!({"op": "rest", "out": bytes(&out), "method": bytes(method.as_bytes()), "ctypes": ctypes}));
}

macro_rules! raw_ctypes {
    ($h:expr) => {
        $h.get_raw("Content-Type").map_or(vec![], |l| l.iter().map(|v| bytes(v)).collect::<Vec<_>>())
    };
}

/// What the handlers of the dispatcher saw.
#[derive(Default)]
struct Seen {
    multi: usize,
    normal: usize,
    log: Vec<Value>,
}

fn with_log<F: FnOnce()>(seen: &Mutex<Seen>, f: F) {
    let before = crate::LOG.lock().unwrap().len();
    f();
    let new: Vec<Value> = crate::LOG.lock().unwrap().drain(before..).collect();
    seen.lock().unwrap().log.extend(new);
}

pub fn run(sc: &Value, _dir: &Path) {
    let integ = sc["integ"].as_str().unwrap();
    let via = sc["via"].as_str().unwrap_or("owned");
    let src = source(sc);
    let mut net = Net(src);
    match integ {
        "hyper" => {
            let mut rd = BufReader::new(&mut net as &mut dyn NetworkStream);
            let mut req = hyper::server::Request::new(&mut rd, addr()).unwrap();
            match via {
                "ref" => {
                    detected((&mut req).multipart_boundary());
                    let r = Multipart::from_request(&mut req);
                    match r {
                        Ok(m) => {
                            take(true);
                            entries(m);
                        }
                        Err(req) => {
                            take(false);
                            let (m, c) = (req.method.to_string(), raw_ctypes!(req.headers));
                            rest(req, &m, c);
                        }
                    }
                }
                "switch" => {
                    let seen: Arc<Mutex<Seen>> = Default::default();
                    let (s1, s2) = (seen.clone(), seen.clone());
                    let normal = move |req: hyper::server::Request, _res: hyper::server::Response| {
                        s1.lock().unwrap().normal += 1;
                        with_log(&s1, || {
                            let (m, c) = (req.method.to_string(), raw_ctypes!(req.headers));
                            rest(req, &m, c);
                        });
                    };
                    let multi = move |m: Multipart<hyper::server::Request>, _res: hyper::server::Response| {
                        s2.lock().unwrap().multi += 1;
                        with_log(&s2, || entries(m));
                    };
                    let sw = Switch::new(normal, multi);
                    let mut out = vec![];
                    let mut hs = hyper::header::Headers::new();
                    let res = hyper::server::Response::new(&mut out, &mut hs);
                    hyper::server::Handler::handle(&sw, req, res);
                    let mut s = seen.lock().unwrap();
                    log(json!({"op": "switch", "multi": s.multi, "normal": s.normal}));
                    for e in std::mem::take(&mut s.log) {
                        log(e);
                    }
                }
                _ => {
                    detected(req.multipart_boundary());
                    match Multipart::from_request(req) {
                        Ok(m) => {
                            take(true);
                            entries(m);
                        }
                        Err(req) => {
                            take(false);
                            let (m, c) = (req.method.to_string(), raw_ctypes!(req.headers));
                            rest(req, &m, c);
                        }
                    }
                }
            }
        }
        "iron" => {
            let mut rd = BufReader::new(&mut net as &mut dyn NetworkStream);
            let hreq = hyper::server::Request::new(&mut rd, addr()).unwrap();
            let mut req = iron::Request::from_http(hreq, addr(), &iron::Protocol::http()).unwrap();
            detected((&mut req).multipart_boundary());
            match Multipart::from_request(&mut req) {
                Ok(m) => {
                    take(true);
                    entries(m);
                }
                Err(req) => {
                    take(false);
                    let (m, c) = (req.method.to_string(), raw_ctypes!(req.headers));
                    rest(&mut req.body, &m, c);
                }
            }
        }
        "nickel" => {
            let mut rd = BufReader::new(&mut net as &mut dyn NetworkStream);
            let hreq = hyper::server::Request::new(&mut rd, addr()).unwrap();
            let data = ();
            let mut req = nickel::Request::from_internal(hreq, &data);
            detected(Maybe(&mut req).multipart_boundary());
            let got = if via == "ext" {
                match req.multipart_body() {
                    Some(m) => {
                        take(true);
                        entries(m);
                        true
                    }
                    None => false,
                }
            } else {
                match Multipart::from_request(Maybe(&mut req)) {
                    Ok(m) => {
                        take(true);
                        entries(m);
                        true
                    }
                    Err(_) => false,
                }
            };
            if !got {
                take(false);
                let (m, c) = (req.origin.method.to_string(), raw_ctypes!(req.origin.headers));
                rest(&mut req.origin, &m, c);
            }
        }
        "tiny" => {
            let server = tiny_http::Server::http("127.0.0.1:0").expect("loopback");
            let to = server.server_addr();
            let (raw, _) = raw_request(sc);
            let th = std::thread::spawn(move || {
                let mut s = std::net::TcpStream::connect(to).unwrap();
                let _ = s.write_all(&raw);
                let _ = s.shutdown(std::net::Shutdown::Write);
                let _ = s.set_read_timeout(Some(Duration::from_secs(5)));
                let mut v = vec![];
                let _ = s.read_to_end(&mut v);
            });
            let mut req = server.recv_timeout(Duration::from_secs(10)).unwrap().expect("request");
            detected((&mut req).multipart_boundary());
            let got = match Multipart::from_request(&mut req) {
                Ok(m) => {
                    take(true);
                    entries(m);
                    true
                }
                Err(_) => false,
            };
            if !got {
                take(false);
                let m = req.method().to_string();
                let c = req
                    .headers()
                    .iter()
                    .filter(|h| h.field.equiv("Content-Type"))
                    .map(|h| bytes(h.value.as_str().as_bytes()))
                    .collect();
                rest(req.as_reader(), &m, c);
            }
            let _ = req.respond(tiny_http::Response::from_string("x"));
            drop(server);
            let _ = th.join();
        }
        "mock" => {
            let body = get_bytes(&sc["body"]);
            let bnd = sc["mockbnd"].as_str().unwrap();
            let buf = mock::HttpBuffer::with_buf(body.clone(), bnd.to_string(), Some(body.len() as u64));
            let req = if via == "direct" { mock::ServerRequest::new(&body, bnd) } else { buf.for_server() };
            detected(req.multipart_boundary());
            match Multipart::from_request(req) {
                Ok(m) => {
                    take(true);
                    entries(m);
                }
                Err(_) => take(false),
            }
        }
        other => panic!("unknown integration {}", other),
    }
}

// ---------------------------------------------------------------- the iron middleware

/// (directories, files) below `p`
fn census(p: &Path) -> (usize, usize) {
    let s = snapshot(p);
    let d = s.values().filter(|v| v.is_none()).count();
    (d, s.len() - d)
}

pub fn run_intercept(sc: &Value, dir: &Path) {
    let tmp = dir.join("tmp");
    std::fs::create_dir_all(&tmp).unwrap();
    std::env::set_var("TMPDIR", &tmp);
    let mut ic = Intercept::default();
    let strict = matches!(ic.limit_behavior, LimitBehavior::ThrowError);
    log(json!({"op": "defaults", "size": ic.file_size_limit, "count": ic.file_count_limit, "strict": strict}));
    if !sc["usedefault"].as_bool().unwrap_or(false) {
        ic = ic
            .file_size_limit(sc["size"].as_u64().unwrap())
            .file_count_limit(sc["count"].as_u64().unwrap() as u32)
            .limit_behavior(if sc["strict"].as_bool().unwrap() { LimitBehavior::ThrowError } else { LimitBehavior::Continue });
    }
    let parent = match sc["parent"].as_str() {
        Some("missing") => dir.join("up").join("load"),
        Some("there") => {
            std::fs::create_dir_all(dir.join("there")).unwrap();
            dir.join("there")
        }
        _ => tmp.clone(),
    };
    if sc["parent"].is_string() {
        ic = ic.temp_dir_path(&parent);
    }
    let src = source(sc);
    let mut net = Net(src.clone());
    let mut rd = BufReader::new(&mut net as &mut dyn NetworkStream);
    let hreq = hyper::server::Request::new(&mut rd, addr()).unwrap();
    let mut req = iron::Request::from_http(hreq, addr(), &iron::Protocol::http()).unwrap();
    let mut r = iron::BeforeMiddleware::before(&ic, &mut req);
    let mut v = json!({"op": "before", "res": "ok", "why": "none", "errname": [], "errfile": [], "errnums": [], "texts": [],
        "stored": 0, "groups": [], "count": 0, "out": []});
    if let Err(e) = &mut r {
        v["res"] = json!("err");
        // what the error says and what the client is told
        let mut told = vec![];
        if let Some(b) = e.response.body.as_mut() {
            let _ = b.write_body(&mut told);
        }
        let texts = vec![e.error.to_string().into_bytes(), told];
        v["texts"] = json!(texts.iter().map(|t| bytes(t)).collect::<Vec<_>>());
        if let Some(x) = e.error.downcast_ref::<FileSizeLimitError>() {
            v["why"] = json!("size");
            v["errname"] = json!([bytes(x.field.name.as_bytes())]);
            v["errfile"] = json!(x.field.filename.iter().map(|f| bytes(f.as_bytes())).collect::<Vec<_>>());
        } else if let Some(x) = e.error.downcast_ref::<FileCountLimitError>() {
            v["why"] = json!("count");
            let nums: Vec<u64> = x.to_string().split(|c: char| !c.is_ascii_digit()).filter_map(|s| s.parse().ok()).collect();
            v["errnums"] = json!(nums);
        } else {
            v["why"] = json!("other");
        }
    }
    if let Some(e) = req.extensions.get::<Entries>() {
        let d = e.save_dir.as_path().to_path_buf();
        let mut pids = BTreeMap::new();
        let mut groups = vec![];
        let mut files = 0;
        for (name, fields) in &e.fields {
            let mut fs = vec![];
            for f in fields {
                let mut j = head_json(&f.headers, true);
                j["r"] = data_json(&f.data, Some(&d), &mut pids);
                if let SavedData::File(p, _) = &f.data {
                    files += 1;
                    if !p.starts_with(&parent) {
                        j["r"]["indir"] = json!(false);
                    }
                }
                fs.push(j);
            }
            groups.push(json!({"name": bytes(name.as_bytes()), "fields": fs}));
        }
        // one directory, holding the files of the entries and nothing else
        let extra = census(&d).1 != files || census(&parent) != (1, files);
        v["stored"] = json!(if extra || pids.len() != files { 2 } else { 1 });
        v["count"] = json!(e.fields_count());
        v["groups"] = json!(groups);
    }
    let (d, f) = census(&parent);
    let (faults, post) = src.take_log();
    if r.is_ok() && v["stored"] == 0 {
        let mut out = vec![];
        let _ = req.body.read_to_end(&mut out);
        v["out"] = bytes(&out);
    }
    v["dirs"] = json!(d);
    v["files"] = json!(f);
    v["parent"] = json!(parent.is_dir());
    v["faults"] = json!(faults);
    v["post"] = json!(post);
    log(v);
    drop(r);
    drop(req);
    let (d, f) = census(&parent);
    log(json!({"op": "dropped", "dirs": d, "files": f}));
}
