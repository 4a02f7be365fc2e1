//! The editor: speaks LSP over the simulated stdio pipes of a server process running
//! the real `main`.

use crate::core::rng::Rng;
use crate::core::sched::{sim, vnow};
use crate::fw::workers::*;
use crate::fw::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, VecDeque};

pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;

static mut ARGV: *mut *const libc::c_char = std::ptr::null_mut();
#[used]
#[link_section = ".init_array"]
static CAPTURE: extern "C" fn(libc::c_int, *mut *const libc::c_char, *mut *const libc::c_char) = {
    extern "C" fn cap(_c: libc::c_int, v: *mut *const libc::c_char, _e: *mut *const libc::c_char) {
        unsafe { ARGV = v }
    }
    cap
};
/// Overwrite the process's arguments (std::env::args reads them in place).
pub fn set_args(args: &[&str]) {
    unsafe {
        for i in 0..8usize {
            let p = match args.get(i) {
                Some(a) => std::ffi::CString::new(*a).unwrap().into_raw() as *const libc::c_char,
                None => std::ptr::null(),
            };
            *ARGV.add(i) = p;
        }
    }
}

pub const SERVER: u32 = 7;

/// Start the server process (group SERVER) with its stdio on simulated pipes.
pub fn start_server(args: &[&str], cap_in: usize, cap_out: usize) -> (u32, u32) {
    set_args(args);
    let s = sim();
    let (i, o) = s.attach_stdio(SERVER, cap_in, cap_out);
    spawn_in_group(SERVER, || {
        // a panic of the main thread ends the process
        let code = std::panic::catch_unwind(rfl_inst::server_main::run).unwrap_or(101);
        unsafe { crate::core::proc::exit(code) }
    });
    (i, o)
}

#[derive(Clone, Debug)]
pub struct Req {
    pub id: i64,
    pub method: String,
    pub sent_at: u64,
    pub sent_seq: u64,
    pub answered: Option<Result<Value, Value>>,
    pub answered_at: u64,
    pub answered_seq: u64,
    pub answers: u32,
    pub tag: u64,
    pub cancelled: bool,
}

#[derive(Clone, Debug)]
pub enum Event {
    Diagnostics { uri: String, items: Vec<Value> },
    Status(Value),
    Other(String),
}

pub struct Client {
    pub inp: u32,
    pub out: u32,
    buf: Vec<u8>,
    pub reqs: BTreeMap<i64, Req>,
    next_id: i64,
    pub seq: u64,
    /// (time, seq, event)
    pub events: Vec<(u64, u64, Event)>,
    pub diags: BTreeMap<String, (u64, Vec<Value>)>,
    /// server-to-client requests to be answered: (due, id, reply)
    pending_replies: VecDeque<(u64, Value, Value)>,
    pub reply_delay: (u64, u64),
    pub rng: Rng,
    pub eof: bool,
    pub bad: Option<String>,
    pub server_reqs: u64,
    /// answer registerCapability etc with errors
    pub refuse: bool,
    /// the editor's process, if it says
    pub pid: Option<i32>,
}

impl Client {
    pub fn new(pipes: (u32, u32), rng: Rng) -> Client {
        Client {
            inp: pipes.0,
            out: pipes.1,
            buf: Vec::new(),
            reqs: BTreeMap::new(),
            next_id: 1,
            seq: 0,
            events: vec![],
            diags: BTreeMap::new(),
            pending_replies: VecDeque::new(),
            reply_delay: (0, 0),
            rng,
            eof: false,
            bad: None,
            server_reqs: 0,
            refuse: false,
            pid: None,
        }
    }
    pub fn send(&mut self, v: &Value) {
        let b = serde_json::to_vec(v).unwrap();
        let mut m = format!("Content-Length: {}\r\n\r\n", b.len()).into_bytes();
        m.extend_from_slice(&b);
        self.seq += 1;
        sim().pipe_push(self.inp, &m);
        sim().point();
    }
    pub fn notify(&mut self, method: &str, params: Value) {
        self.send(&json!({"jsonrpc": "2.0", "method": method, "params": params}));
    }
    pub fn request(&mut self, method: &str, params: Value, tag: u64) -> i64 {
        let id = self.next_id;
        self.next_id += 1;
        let r = Req { id, method: method.into(), sent_at: vnow(), sent_seq: self.seq, answered: None, answered_at: 0, answered_seq: 0, answers: 0, tag, cancelled: false };
        self.reqs.insert(id, r);
        let mut m = json!({"jsonrpc": "2.0", "id": id, "method": method});
        if !params.is_null() {
            m["params"] = params;
        }
        self.send(&m);
        id
    }
    pub fn cancel(&mut self, id: i64) {
        if let Some(r) = self.reqs.get_mut(&id) {
            r.cancelled = true;
        }
        self.notify("$/cancelRequest", json!({"id": id}));
    }
    /// close the server's stdin
    pub fn hangup(&mut self) {
        sim().pipe_close_w(self.inp);
    }
    /// read whatever the server wrote; answer its requests that are due
    pub fn pump(&mut self) {
        let d = sim().pipe_drain(self.out);
        self.buf.extend_from_slice(&d);
        while let Some(m) = self.frame() {
            self.handle(m);
        }
        if sim().pipes[self.out as usize].wclosed && sim().pipes[self.out as usize].buf.is_empty() {
            self.eof = true;
        }
        let now = vnow();
        while self.pending_replies.front().is_some_and(|(t, _, _)| *t <= now) {
            let (_, id, reply) = self.pending_replies.pop_front().unwrap();
            let mut m = json!({"jsonrpc": "2.0", "id": id});
            if self.refuse {
                m["error"] = json!({"code": -32601, "message": "refused"});
            } else {
                m["result"] = reply;
            }
            self.send(&m);
        }
    }
    fn frame(&mut self) -> Option<Value> {
        let h = self.buf.windows(4).position(|w| w == b"\r\n\r\n")?;
        let head = String::from_utf8_lossy(&self.buf[..h]).into_owned();
        let n: usize = match head.lines().find_map(|l| l.strip_prefix("Content-Length: ")).and_then(|x| x.trim().parse().ok()) {
            Some(n) => n,
            None => {
                self.bad = Some(format!("bad header from the server: {head:?}"));
                self.buf.clear();
                return None;
            }
        };
        if self.buf.len() < h + 4 + n {
            return None;
        }
        let body: Vec<u8> = self.buf[h + 4..h + 4 + n].to_vec();
        self.buf.drain(..h + 4 + n);
        match serde_json::from_slice(&body) {
            Ok(v) => Some(v),
            Err(e) => {
                self.bad = Some(format!("bad message from the server: {e}"));
                None
            }
        }
    }
    fn handle(&mut self, m: Value) {
        self.seq += 1;
        let now = vnow();
        let method = m.get("method").and_then(|x| x.as_str()).map(|s| s.to_string());
        match (method, m.get("id")) {
            (Some(method), Some(id)) => {
                self.server_reqs += 1;
                let reply = match method.as_str() {
                    "workspace/configuration" => {
                        let n = m["params"]["items"].as_array().map_or(0, |a| a.len());
                        Value::Array(vec![Value::Null; n])
                    }
                    _ => Value::Null,
                };
                let (lo, hi) = self.reply_delay;
                let d = if hi > lo { lo + self.rng.next() % (hi - lo) } else { lo };
                let due = self.pending_replies.back().map_or(0, |(t, _, _)| *t).max(now + d);
                self.pending_replies.push_back((due, id.clone(), reply));
            }
            (Some(method), None) => {
                let p = &m["params"];
                let ev = match method.as_str() {
                    "textDocument/publishDiagnostics" => {
                        let uri = p["uri"].as_str().unwrap_or("").to_string();
                        let items = p["diagnostics"].as_array().cloned().unwrap_or_default();
                        self.diags.insert(uri.clone(), (self.seq, items.clone()));
                        Event::Diagnostics { uri, items }
                    }
                    "ruby-fast-lsp/indexing/statusChanged" => Event::Status(p.clone()),
                    _ => Event::Other(method),
                };
                self.events.push((now, self.seq, ev));
            }
            (None, Some(id)) => {
                let id = id.as_i64().unwrap_or(-1);
                let seq = self.seq;
                match self.reqs.get_mut(&id) {
                    Some(r) => {
                        r.answers += 1;
                        r.answered_at = now;
                        r.answered_seq = seq;
                        r.answered = Some(if let Some(e) = m.get("error") { Err(e.clone()) } else { Ok(m.get("result").cloned().unwrap_or(Value::Null)) });
                    }
                    None => self.bad = Some(format!("answer to a request never made: {m}")),
                }
            }
            (None, None) => self.bad = Some(format!("message that is neither request, response nor notification: {m}")),
        }
    }
    /// Let simulated time pass while reading; stops early when `done`.
    pub fn run_for(&mut self, ns: u64, mut done: impl FnMut(&mut Client) -> bool) -> bool {
        let end = vnow() + ns;
        loop {
            self.pump();
            if done(self) {
                return true;
            }
            if vnow() >= end || self.eof {
                return false;
            }
            let due = self.pending_replies.front().map_or(end, |x| x.0.min(end));
            if sim().pipes[self.out as usize].buf.is_empty() {
                sim().pipe_wait(self.out, Some(due));
            }
        }
    }
    pub fn wait_answer(&mut self, id: i64, limit: u64) -> Option<Result<Value, Value>> {
        self.run_for(limit, |c| c.reqs[&id].answered.is_some());
        self.reqs[&id].answered.clone()
    }
    pub fn call(&mut self, method: &str, params: Value, limit: u64) -> Option<Result<Value, Value>> {
        let id = self.request(method, params, 0);
        self.wait_answer(id, limit)
    }
    /// Run until nothing has been written and nothing is runnable for `quiet` of simulated time.
    pub fn settle(&mut self, quiet: u64, limit: u64) -> bool {
        let end = vnow() + limit;
        let mut last = vnow();
        // a stalled machine makes time jump: what counts is also how often the server was
        // found with nothing to do
        let mut calm = 0;
        loop {
            let before = self.seq;
            let step = (quiet / 4).max(1);
            self.run_for(step, |_| false);
            if self.eof {
                return true;
            }
            wait_idle(SEC * 3600);
            self.pump();
            if self.seq != before || !self.pending_replies.is_empty() || self.reqs.values().any(|r| r.answered.is_none()) {
                last = vnow();
                calm = 0;
            } else {
                calm += 1;
            }
            if vnow() - last >= quiet && calm >= 5 {
                return true;
            }
            if vnow() > end {
                return false;
            }
        }
    }
    pub fn initialize(&mut self, folders: &[String], opts: Value) -> Option<Value> {
        let fs: Vec<Value> = folders.iter().map(|f| json!({"uri": uri(f), "name": f})).collect();
        let p = json!({"processId": self.pid, "rootUri": null, "capabilities": {"workspace": {"didChangeWatchedFiles": {"dynamicRegistration": false}}},
            "initializationOptions": opts, "workspaceFolders": fs});
        let r = self.call("initialize", p, SEC * 600)?.ok();
        self.notify("initialized", json!({}));
        r
    }
    pub fn open(&mut self, path: &str, version: i64, text: &str) {
        self.notify("textDocument/didOpen", json!({"textDocument": {"uri": uri(path), "languageId": "ruby", "version": version, "text": text}}));
    }
    pub fn change(&mut self, path: &str, version: i64, text: &str) {
        self.notify("textDocument/didChange", json!({"textDocument": {"uri": uri(path), "version": version}, "contentChanges": [{"text": text}]}));
    }
    pub fn save(&mut self, path: &str) {
        self.notify("textDocument/didSave", json!({"textDocument": {"uri": uri(path)}}));
    }
    pub fn close(&mut self, path: &str) {
        self.notify("textDocument/didClose", json!({"textDocument": {"uri": uri(path)}}));
    }
    /// typ: 1 created, 2 changed, 3 deleted
    pub fn watched(&mut self, changes: &[(String, u8)]) {
        let cs: Vec<Value> = changes.iter().map(|(p, t)| json!({"uri": uri(p), "type": t})).collect();
        self.notify("workspace/didChangeWatchedFiles", json!({"changes": cs}));
    }
}

pub fn uri(path: &str) -> String {
    format!("file://{path}")
}

/// Panics of the target recorded by the panic hook.
pub fn target_panics() -> Vec<String> {
    sim().panics.clone()
}
pub fn server_stderr() -> String {
    let s = sim();
    String::from_utf8_lossy(s.procs.stderr.get(&SERVER).map_or(&[][..], |v| &v[..])).into_owned()
}
pub fn server_exit() -> Option<i32> {
    sim().procs.exited.get(&SERVER).copied()
}
