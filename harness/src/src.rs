//! The scripted transport: hands out the body in the scripted portions and raises the scripted
//! errors; remembers what it did during each observed call.
use serde_json::Value;
use std::collections::VecDeque;
use std::io::{self, ErrorKind, Read, Write};
use std::sync::{Arc, Mutex};

pub const FUEL: usize = 3000;
pub const FUEL_MSG: &str = "FUEL: the source was read again and again after its end";

#[derive(Clone, Debug)]
pub enum Step {
    Data(usize),
    Err(String),
}

pub fn kind_of(s: &str) -> ErrorKind {
    match s {
        "Interrupted" => ErrorKind::Interrupted,
        "WouldBlock" => ErrorKind::WouldBlock,
        "TimedOut" => ErrorKind::TimedOut,
        "ConnectionReset" => ErrorKind::ConnectionReset,
        "UnexpectedEof" => ErrorKind::UnexpectedEof,
        "BrokenPipe" => ErrorKind::BrokenPipe,
        "InvalidData" => ErrorKind::InvalidData,
        "ConnectionAborted" => ErrorKind::ConnectionAborted,
        "ConnectionRefused" => ErrorKind::ConnectionRefused,
        "NotConnected" => ErrorKind::NotConnected,
        "NotFound" => ErrorKind::NotFound,
        "PermissionDenied" => ErrorKind::PermissionDenied,
        "AlreadyExists" => ErrorKind::AlreadyExists,
        "InvalidInput" => ErrorKind::InvalidInput,
        "WriteZero" => ErrorKind::WriteZero,
        "OutOfMemory" => ErrorKind::OutOfMemory,
        "AddrInUse" => ErrorKind::AddrInUse,
        "StorageFull" => ErrorKind::StorageFull,
        "Unsupported" => ErrorKind::Unsupported,
        "NetworkDown" => ErrorKind::NetworkDown,
        _ => ErrorKind::Other,
    }
}

pub fn steps(v: &Value) -> VecDeque<Step> {
    v.as_array()
        .map(|a| {
            a.iter()
                .map(|s| match s.get("e") {
                    Some(e) => Step::Err(e.as_str().unwrap().to_string()),
                    None => Step::Data(s.get("n").unwrap_or(s).as_u64().unwrap() as usize),
                })
                .collect()
        })
        .unwrap_or_default()
}

#[derive(Default)]
pub struct SrcState {
    pub body: Vec<u8>,
    pub pos: usize,
    pub script: VecDeque<Step>,
    pub tail_err: Option<String>,
    pub faults: Vec<String>,
    pub post: usize,
    pub reads: usize,
}

#[derive(Clone)]
pub struct Src(pub Arc<Mutex<SrcState>>);

impl Src {
    pub fn new(body: Vec<u8>, script: VecDeque<Step>, tail_err: Option<String>) -> Src {
        Src(Arc::new(Mutex::new(SrcState { body, script, tail_err, ..Default::default() })))
    }
    /// Errors raised and reads after the end since the last call.
    pub fn take_log(&self) -> (Vec<String>, usize) {
        let mut s = self.0.lock().unwrap_or_else(|e| e.into_inner());
        let post = s.post;
        s.post = 0;
        (std::mem::take(&mut s.faults), post)
    }
}

impl Read for Src {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        let mut s = self.0.lock().unwrap_or_else(|e| e.into_inner());
        s.reads += 1;
        if out.is_empty() {
            return Ok(0);
        }
        let left = s.body.len() - s.pos;
        let n = match s.script.pop_front() {
            Some(Step::Err(k)) => {
                s.faults.push(k.clone());
                return Err(io::Error::new(kind_of(&k), "scripted"));
            }
            Some(Step::Data(n)) if left > 0 => {
                let m = n.min(out.len());
                if m < n {
                    s.script.push_front(Step::Data(n - m));
                }
                m.max(1)
            }
            _ => out.len(),
        };
        if left == 0 {
            s.post += 1;
            if s.post > FUEL {
                s.post = 0;
                drop(s);
                panic!("{}", FUEL_MSG);
            }
            if let Some(k) = s.tail_err.clone() {
                s.faults.push(k.clone());
                return Err(io::Error::new(kind_of(&k), "scripted"));
            }
            return Ok(0);
        }
        let n = n.min(left).min(out.len());
        let p = s.pos;
        out[..n].copy_from_slice(&s.body[p..p + n]);
        s.pos += n;
        Ok(n)
    }
}

/// The scripted receiver: accepts the scripted portions, raises the scripted errors.
#[derive(Default)]
pub struct SinkState {
    pub got: Vec<u8>,
    pub script: VecDeque<Step>,
    pub tail_err: Option<String>,
    pub faults: Vec<String>,
    pub flush_faults: usize,
    pub calls: usize,
    pub zeros: usize,
    /// a portion larger than a write is for the following writes, too
    pub sticky: bool,
}

#[derive(Clone, Default)]
pub struct Sink(pub Arc<Mutex<SinkState>>);

impl Sink {
    pub fn new(script: VecDeque<Step>, tail_err: Option<String>) -> Sink {
        Sink(Arc::new(Mutex::new(SinkState { script, tail_err, ..Default::default() })))
    }
    pub fn take_faults(&self) -> Vec<String> {
        std::mem::take(&mut self.0.lock().unwrap_or_else(|e| e.into_inner()).faults)
    }
    pub fn fault(&self, k: &str) {
        self.0.lock().unwrap_or_else(|e| e.into_inner()).faults.push(k.into());
    }
    pub fn got(&self) -> Vec<u8> {
        self.0.lock().unwrap_or_else(|e| e.into_inner()).got.clone()
    }
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut s = self.0.lock().unwrap_or_else(|e| e.into_inner());
        s.calls += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        let n = match s.script.pop_front() {
            Some(Step::Err(k)) => {
                s.faults.push(k.clone());
                return Err(io::Error::new(kind_of(&k), "scripted"));
            }
            Some(Step::Data(0)) => {
                s.faults.push("WriteZero".into());
                return Ok(0);
            }
            Some(Step::Data(n)) => {
                if s.sticky && n > buf.len() {
                    s.script.push_front(Step::Data(n - buf.len()));
                }
                n.min(buf.len())
            }
            None => {
                if s.tail_err.as_ref().map_or(false, |k| k == "WriteZero") {
                    s.faults.push("WriteZero".into());
                    s.zeros += 1;
                    if s.zeros > FUEL {
                        s.zeros = 0;
                        drop(s);
                        panic!("{}", FUEL_MSG);
                    }
                    return Ok(0);
                }
                if let Some(k) = s.tail_err.clone() {
                    s.faults.push(k.clone());
                    return Err(io::Error::new(kind_of(&k), "scripted"));
                }
                buf.len()
            }
        };
        s.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
