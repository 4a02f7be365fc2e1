//! An editor working on a generated project through the real server, and the questions
//! asked of it afterwards.

use crate::client::*;
use crate::core::rng::Rng;
use crate::core::sched::{sim, vnow};
use crate::core::vfs::Vfs;
use crate::fw::*;
use crate::world::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub const ROOT: &str = "/sim/ws/p";

#[derive(Clone, Debug, Default)]
pub struct FileSt {
    pub disk: Option<Src>,
    pub buf: Option<Src>,
    pub version: i64,
    /// the server saw an edit of the buffer since it was opened
    pub touched: bool,
}
impl FileSt {
    pub fn effective(&self) -> Option<&Src> {
        self.buf.as_ref().or(self.disk.as_ref())
    }
    pub fn dirty(&self) -> bool {
        self.buf.is_some() && self.buf != self.disk
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Open(String),
    Edit(String, Src),
    Burst(String, Vec<Src>),
    Save(String),
    Close(String),
    CloseDirty(String),
    /// outside program writes the file; torn: it is first truncated for that long
    ExtWrite(String, Src, u64),
    ExtDel(String),
    Ask(u8, String, usize, Option<u64>),
    Wait(u64),
    StallClient(u64),
    /// the project's .ruby-version is written by another program
    VersionFile(u8),
    /// the configured Ruby version changes: 0 is auto
    Config(u8),
    /// the project folder leaves the workspace; how long until it comes back (0: same message)
    Refolder(u64),
    /// another program changes many files at once; all events arrive together after that long
    Branch(Vec<(String, Option<Src>)>, Option<u64>),
}

pub struct Ed {
    pub c: Client,
    pub files: BTreeMap<String, FileSt>,
    /// (due, path, type)
    pub events: Vec<(u64, String, u8)>,
    /// (due, path): editor reloads a clean buffer from disk
    pub reloads: Vec<(u64, String)>,
    pub rng: Rng,
    pub asked: BTreeMap<i64, Asked>,
    /// texts the server was sent per path, in order, with the client sequence number
    pub sent_texts: BTreeMap<String, Vec<(u64, Option<Src>)>>,
    pub ruby: (Option<u8>, Option<u8>),
    /// delay of every file event, instead of a random one
    pub event_delay: Option<u64>,
}
#[derive(Clone, Debug)]
pub struct Asked {
    pub kind: u8,
    pub path: String,
    pub mark: Option<Mark>,
    pub sent_seq: u64,
}

pub fn base_vfs() -> Vfs {
    let mut v = Vfs::new();
    for n in ["30", "31", "32"] {
        v.put(&format!("/sim/ext/stubs/rubystubs{n}/object.rb"), STUBS.as_bytes());
    }
    v.mkdirs("/sim/home");
    v.mkdirs("/sim/tmp");
    v.mkdirs("/sim/bin");
    v.commit();
    v
}
pub fn opts() -> Value {
    json!({"extensionPath": "/sim/ext"})
}

pub fn version_text(n: u8) -> String {
    format!("3.{n}.1\n")
}
pub fn ruby_name(n: u8) -> String {
    if n == 0 { "auto".into() } else { format!("3.{n}") }
}
pub fn write_disk(path: &str, text: Option<&str>) {
    let s = sim();
    match text {
        Some(t) => {
            s.vfs.put(path, t.as_bytes());
            let n = s.now() as i64;
            s.vfs.set_mtime(path, 1_700_000_000_000_000_000 + n);
        }
        None => s.vfs.del(path),
    }
}

impl Ed {
    pub fn new(c: Client, rng: Rng) -> Ed {
        Ed { c, files: BTreeMap::new(), events: vec![], reloads: vec![], rng, asked: BTreeMap::new(), sent_texts: BTreeMap::new(), ruby: (None, None), event_delay: None }
    }
    fn sent(&mut self, p: &str, s: Option<Src>) {
        let q = self.c.seq;
        self.sent_texts.entry(p.into()).or_default().push((q, s));
    }
    pub fn open(&mut self, p: &str) {
        let f = self.files.entry(p.into()).or_default();
        let (Some(d), None) = (f.disk.clone(), f.buf.clone()) else { return };
        f.buf = Some(d.clone());
        f.version = 1;
        f.touched = false;
        self.c.open(p, 1, &d.text());
        self.sent(p, Some(d));
    }
    pub fn edit(&mut self, p: &str, s: Src) {
        let f = self.files.entry(p.into()).or_default();
        if f.buf.is_none() {
            return;
        }
        f.version += 1;
        f.touched = true;
        let v = f.version;
        f.buf = Some(s.clone());
        self.c.change(p, v, &s.text());
        self.sent(p, Some(s));
    }
    /// What the server says about local variables and inferred types comes from the last
    /// time it processed the document; have it do so now (an insertion undone at once).
    pub fn touch(&mut self, p: &str) {
        let Some(f) = self.files.get(p) else { return };
        if let Some(b) = f.buf.clone() {
            let mut s = b.clone();
            s.pad += 1;
            self.edit(p, s);
            self.settle();
            self.edit(p, b);
            self.settle();
        }
    }
    pub fn save(&mut self, p: &str) {
        let f = self.files.entry(p.into()).or_default();
        let Some(b) = f.buf.clone() else { return };
        let existed = f.disk.is_some();
        f.disk = Some(b.clone());
        write_disk(p, Some(&b.text()));
        self.c.save(p);
        self.event(p, if existed { 2 } else { 1 });
    }
    pub fn close(&mut self, p: &str, discard: bool) {
        let f = self.files.entry(p.into()).or_default();
        if f.buf.is_none() || (f.dirty() && !discard) {
            return;
        }
        f.buf = None;
        self.c.close(p);
        self.sent(p, None);
    }
    /// tell the server later that the file changed on disk
    pub fn event(&mut self, p: &str, t: u8) {
        let d = match self.rng.below(5) {
            _ if self.event_delay.is_some() => self.event_delay.unwrap(),
            0 => 0,
            1 => self.rng.next() % (5 * MS),
            2 => self.rng.next() % (120 * MS),
            _ => self.rng.next() % (20 * MS),
        };
        // events about one path keep their order
        let last = self.events.iter().filter(|e| e.1 == p).map(|e| e.0).max().unwrap_or(0);
        let due = (vnow() + d).max(last);
        self.events.push((due, p.into(), t));
        if self.rng.chance(1, 8) {
            self.events.push((due + self.rng.next() % (150 * MS), p.into(), t));
        }
    }
    pub fn ext_write(&mut self, p: &str, s: Src, torn: u64) {
        let existed = self.files.get(p).is_some_and(|f| f.disk.is_some());
        if torn > 0 {
            let t = s.text();
            write_disk(p, Some(&t[..t.len() / 2]));
            self.run(torn);
        }
        write_disk(p, Some(&s.text()));
        let f = self.files.entry(p.into()).or_default();
        let clean = f.buf.is_some() && f.buf == f.disk;
        f.disk = Some(s);
        self.event(p, if existed { 2 } else { 1 });
        if clean {
            let due = vnow() + self.rng.next() % (50 * MS);
            self.reloads.push((due, p.into()));
        }
    }
    pub fn ext_del(&mut self, p: &str) {
        let f = self.files.entry(p.into()).or_default();
        if f.disk.is_none() || f.buf.is_some() {
            return;
        }
        f.disk = None;
        write_disk(p, None);
        self.event(p, 3);
    }
    /// deliver due events and reloads
    pub fn tick(&mut self) {
        let now = vnow();
        let mut due: Vec<(u64, String, u8)> = self.events.iter().filter(|e| e.0 <= now).cloned().collect();
        self.events.retain(|e| e.0 > now);
        if !due.is_empty() {
            due.sort_by_key(|e| e.0);
            let ch: Vec<(String, u8)> = due.into_iter().map(|e| (e.1, e.2)).collect();
            ctx().op(format!("{}us file events {ch:?}", vnow() / 1000));
            self.c.watched(&ch);
        }
        let rl: Vec<String> = self.reloads.iter().filter(|e| e.0 <= now).map(|e| e.1.clone()).collect();
        self.reloads.retain(|e| e.0 > now);
        for p in rl {
            let f = &self.files[&p];
            if let (Some(_), Some(d)) = (&f.buf, f.disk.clone()) {
                if f.buf.as_ref() != Some(&d) {
                    self.edit(&p, d);
                }
            }
        }
    }
    pub fn run(&mut self, ns: u64) {
        let end = vnow() + ns;
        loop {
            self.tick();
            let next = self.events.iter().map(|e| e.0).chain(self.reloads.iter().map(|e| e.0)).min().unwrap_or(end).min(end);
            let now = vnow();
            if next > now {
                self.c.run_for(next - now, |_| false);
            } else {
                self.c.pump();
            }
            if vnow() >= end || self.c.eof {
                self.tick();
                return;
            }
        }
    }
    pub fn drain(&mut self) {
        for _ in 0..200 {
            if self.events.is_empty() && self.reloads.is_empty() {
                break;
            }
            self.run(50 * MS);
        }
    }
    pub fn settle(&mut self) -> bool {
        self.drain();
        self.c.settle(2 * SEC, 3600 * SEC)
    }
    pub fn ask(&mut self, kind: u8, p: &str, mi: usize, cancel: Option<u64>) {
        let Some(b) = self.files.get(p).and_then(|f| f.buf.clone()) else { return };
        let r = b.render();
        let mark = if r.marks.is_empty() { None } else { Some(r.marks[mi % r.marks.len()].clone()) };
        let (m, params) = question(kind, p, mark.as_ref());
        let q = self.c.seq;
        let id = self.c.request(m, params, kind as u64);
        self.asked.insert(id, Asked { kind, path: p.into(), mark, sent_seq: q });
        if let Some(d) = cancel {
            if d > 0 {
                self.run(d);
            }
            self.c.cancel(id);
        }
    }
    pub fn apply(&mut self, op: &Op) {
        match op {
            Op::Open(p) => self.open(p),
            Op::Edit(p, s) => self.edit(p, s.clone()),
            Op::Burst(p, ss) => {
                for s in ss {
                    self.edit(p, s.clone());
                }
            }
            Op::Save(p) => self.save(p),
            Op::Close(p) => self.close(p, false),
            Op::CloseDirty(p) => self.close(p, true),
            Op::ExtWrite(p, s, t) => self.ext_write(p, s.clone(), *t),
            Op::ExtDel(p) => self.ext_del(p),
            Op::Ask(k, p, m, c) => self.ask(*k, p, *m, *c),
            Op::Wait(n) => self.run(*n),
            Op::VersionFile(n) => {
                let p = format!("{ROOT}/.ruby-version");
                write_disk(&p, Some(&version_text(*n)));
                let t = if self.ruby.0.is_some() { 2 } else { 1 };
                self.ruby.0 = Some(*n);
                self.event(&p, t);
            }
            Op::Config(n) => {
                self.ruby.1 = Some(*n);
                self.c.notify("workspace/didChangeConfiguration", json!({"settings": {"rubyFastLsp": {"rubyVersion": ruby_name(*n)}}}));
            }
            Op::Refolder(d) => {
                let f = json!([{"uri": uri(ROOT), "name": ROOT}]);
                if *d == 0 {
                    self.c.notify("workspace/didChangeWorkspaceFolders", json!({"event": {"removed": f, "added": f}}));
                } else {
                    self.c.notify("workspace/didChangeWorkspaceFolders", json!({"event": {"removed": f, "added": []}}));
                    self.run(*d);
                    self.c.notify("workspace/didChangeWorkspaceFolders", json!({"event": {"removed": [], "added": f}}));
                }
            }
            Op::Branch(ch, d) => {
                self.event_delay = *d;
                for (p, s) in ch {
                    match s {
                        Some(s) => self.ext_write(p, s.clone(), 0),
                        None => self.ext_del(p),
                    }
                }
                self.event_delay = None;
            }
            Op::StallClient(n) => {
                sim().block(crate::core::sched::State::Sleep, Some(vnow() + n));
            }
        }
        self.tick();
        self.c.pump();
    }
    pub fn effective(&self) -> BTreeMap<String, Src> {
        self.files.iter().filter_map(|(p, f)| f.effective().map(|s| (p.clone(), s.clone()))).collect()
    }
    pub fn open_docs(&self) -> Vec<String> {
        self.files.iter().filter(|(_, f)| f.buf.is_some()).map(|(p, _)| p.clone()).collect()
    }
}

/// What must hold of every conversation with the server, whatever happened in it.
pub fn manners(c: &mut Client) {
    if ctx().case.record {
        ctx().op(format!("server log:\n{}", server_stderr()));
    }
    for p in target_panics() {
        violation("P17", "panic", p);
    }
    let bad = c.bad.clone();
    check("P17", "protocol", bad.is_none(), || bad.unwrap());
    check("P17", "died", !c.eof, || format!("the server closed its output: exit {:?}; stderr: {}", server_exit(), tail(&server_stderr())));
    for r in c.reqs.values() {
        let (m, n) = (r.method.clone(), r.answers);
        check("P17", "answer-count", n == 1, || format!("request {m} was answered {n} times"));
    }
}
pub fn tail(s: &str) -> String {
    let n = s.chars().count();
    s.chars().skip(n.saturating_sub(800)).collect()
}
/// End the conversation one of the ways editors do; the process must go away.
pub fn farewell(c: &mut Client, r: &mut Rng) {
    manners(c);
    let polite = r.chance(3, 4);
    if polite {
        let a = c.call("shutdown", Value::Null, 600 * SEC);
        check("P17", "shutdown", matches!(a, Some(Ok(Value::Null))), || format!("shutdown was answered {a:?}"));
        c.notify("exit", Value::Null);
    }
    c.hangup();
    c.run_for(120 * SEC, |_| server_exit().is_some());
    check("P17", "exit", server_exit().is_some(), || format!("the server did not exit after {} its input was closed", if polite { "exit and" } else { "" }));
    if polite {
        check("P17", "exit-code", server_exit() == Some(0), || format!("exit code {:?} after shutdown and exit; stderr: {}", server_exit(), tail(&server_stderr())));
    }
    for p in target_panics() {
        violation("P17", "panic", p);
    }
}

pub const NKIND: usize = 12;
/// request kinds used during a history
pub fn question(kind: u8, p: &str, mark: Option<&Mark>) -> (&'static str, Value) {
    let td = json!({"uri": uri(p)});
    let (l, c) = mark.map_or((0, 0), |m| (m.line, m.col));
    let pos = json!({"line": l, "character": c});
    match kind {
        0 => ("textDocument/definition", json!({"textDocument": td, "position": pos})),
        1 => ("textDocument/documentSymbol", json!({"textDocument": td})),
        2 => ("textDocument/hover", json!({"textDocument": td, "position": pos})),
        3 => ("textDocument/references", json!({"textDocument": td, "position": pos, "context": {"includeDeclaration": true}})),
        4 => ("textDocument/completion", json!({"textDocument": td, "position": {"line": l, "character": c + 1}})),
        5 => ("textDocument/semanticTokens/full", json!({"textDocument": td})),
        6 => ("textDocument/inlayHint", json!({"textDocument": td, "range": {"start": {"line": 0, "character": 0}, "end": {"line": 400, "character": 0}}})),
        7 => ("textDocument/codeLens", json!({"textDocument": td})),
        8 => ("textDocument/foldingRange", json!({"textDocument": td})),
        9 => ("ruby/namespaceTree", json!({"uri": uri(p)})),
        10 => ("workspace/symbol", json!({"query": "C"})),
        11 => ("textDocument/documentHighlight", json!({"textDocument": td, "position": pos})),
        12 => ("textDocument/implementation", json!({"textDocument": td, "position": pos})),
        13 => ("textDocument/prepareTypeHierarchy", json!({"textDocument": td, "position": pos})),
        14 => ("textDocument/prepareCallHierarchy", json!({"textDocument": td, "position": pos})),
        _ => ("ruby-fast-lsp/indexing/status", json!({})),
    }
}

/// Fields that depend on the order in which facts arrived by design (a removed
/// superclass keeps its resolved edge, inference keeps the first proven return type) or
/// are counters of the past; no property speaks about them.
const IGNORED: &[&str] = &["files_indexed", "return_type", "mro", "children"];
pub fn norm(v: &Value) -> Value {
    match v {
        Value::Array(a) => {
            let mut x: Vec<Value> = a.iter().map(norm).collect();
            // an inlay hint of an inferred return type
            x.retain(|e| !(e.get("position").is_some() && e.get("label").is_some_and(|l| l.to_string().contains("->"))));
            x.retain(|e| !e.get("detail").and_then(|d| d.as_str()).is_some_and(|d| d.contains("definition not found")));
            if !x.iter().all(|e| e.is_number()) {
                x.sort_by_cached_key(|e| e.to_string());
                x.dedup();
            }
            Value::Array(x)
        }
        Value::Object(o) => Value::Object(
            o.iter()
                .filter(|(k, _)| !IGNORED.contains(&k.as_str()))
                .map(|(k, v)| match v.as_str().and_then(|s| s.split_once(" -> ")) {
                    Some((head, _)) if k == "detail" => (k.clone(), json!(head)),
                    _ => (k.clone(), norm(v)),
                })
                .collect(),
        ),
        x => x.clone(),
    }
}

fn drop_key(v: Value, k: &str) -> Value {
    match v {
        Value::Array(a) => Value::Array(a.into_iter().map(|e| drop_key(e, k)).collect()),
        Value::Object(o) => Value::Object(o.into_iter().filter(|(n, _)| n != k).map(|(n, e)| (n, drop_key(e, k))).collect()),
        x => x,
    }
}

/// Separates mixin edges to names that have no definition from the rest of the graph.
fn split_dangling(mut g: Value) -> (Value, Value) {
    let mut dangling = vec![];
    if let Some(nodes) = g.get_mut("nodes").and_then(|n| n.as_object_mut()) {
        let names: BTreeSet<String> = nodes.keys().cloned().collect();
        for (n, node) in nodes.iter_mut() {
            for k in ["includes", "prepends", "extends"] {
                if let Some(Value::Array(a)) = node.get_mut(k) {
                    a.retain(|t| {
                        let ok = t.as_str().is_none_or(|t| names.contains(t));
                        if !ok {
                            dangling.push(json!([n, k, t]));
                        }
                        ok
                    });
                }
            }
        }
    }
    (g, Value::Array(dangling))
}

pub type Answers = BTreeMap<String, Value>;

/// Ask everything about the given open documents; the questions depend only on the
/// texts, so two servers holding the same texts get the same ones.
pub fn query_all(c: &mut Client, docs: &[(String, Src)], roots: &[String], depth: usize, round: u8, many: bool) -> Answers {
    let core = round < 2;
    let mut out = Answers::new();
    let mut ask = |c: &mut Client, key: String, m: &str, p: Value| -> Option<Value> {
        let r = c.call(m, p, 600 * SEC);
        let v = match &r {
            None => json!("NO ANSWER"),
            Some(Ok(v)) if key.ends_with(" graph") => {
                let (g, dangling) = split_dangling(drop_key(norm(v), "superclass"));
                out.insert(format!("{round} {key}-dangling"), dangling);
                g
            }
            // an answer lists a hundred symbols at most
            Some(Ok(Value::Array(a))) if m == "workspace/symbol" && a.len() >= 100 => json!("full"),
            // what a call is inferred to return depends on the order of arrival by design
            Some(Ok(v)) if m == "textDocument/hover" && key.contains(" Call(") => json!(!v.is_null()),
            Some(Ok(v)) => norm(v),
            Some(Err(e)) => json!({"error": e.get("code").cloned().unwrap_or(Value::Null)}),
        };
        out.insert(format!("{round} {key}"), v);
        match r {
            Some(Ok(v)) => Some(v),
            _ => None,
        }
    };
    for (p, s) in docs {
        let r = s.render();
        let tag = p.rsplit('/').next().unwrap();
        for k in if core { &[1u8, 5, 7, 8][..] } else { &[1u8, 5, 6, 7, 8][..] } {
            let k = *k;
            let (m, q) = question(k, p, None);
            ask(c, format!("{tag} {m}"), m, q);
        }
        let mut seen: BTreeMap<u8, usize> = BTreeMap::new();
        for mk in r.marks.iter() {
            let class = match mk.kind {
                Mk::ClassDef(_) => 0,
                Mk::ConstDef(_) => 1,
                Mk::ConstRef(_) => 2,
                Mk::MethodDef(..) => 3,
                Mk::Call(..) => 4,
                Mk::LocalVar(_) => 5,
            };
            if core && class >= 4 {
                continue;
            }
            let n = seen.entry(class).or_insert(0);
            *n += 1;
            if *n > depth {
                continue;
            }
            let at = format!("{tag}:{}:{} {:?}", mk.line, mk.col, mk.kind);
            let ks: &[u8] = match class {
                // a name defined since is found in other documents once those are saved
                _ if round == 1 && class < 3 => &[0, 3],
                _ if core => &[0],
                0 => &[0, 2, 3, 12, 11],
                1 => &[0, 2, 3],
                2 => &[0, 2, 3, 4],
                3 => &[0, 2],
                4 => &[0, 2, 4],
                _ => &[0, 2, 3, 11],
            };
            for k in ks {
                let (m, q) = question(*k, p, Some(mk));
                ask(c, format!("{at} {m}"), m, q);
            }
            if class == 0 && !core && *seen.get(&0).unwrap() == 1 {
                let (m, q) = question(13, p, Some(mk));
                if let Some(Value::Array(items)) = ask(c, format!("{at} {m}"), m, q) {
                    for it in items.iter().take(1) {
                        for m in ["typeHierarchy/supertypes", "typeHierarchy/subtypes"] {
                            ask(c, format!("{at} {m}"), m, json!({"item": it}));
                        }
                    }
                }
            }
        }
    }
    let mut qs: Vec<String> = ["C", "M", "K", "m", "N"].iter().map(|s| s.to_string()).collect();
    if many {
        qs.extend((2..20).map(|i| format!("K{i}")));
    }
    for q in qs {
        ask(c, format!("symbols {q}"), "workspace/symbol", json!({"query": q}));
    }
    for r in roots {
        let u = uri(&format!("{r}/x.rb"));
        let (m, _) = question(9, r, None);
        ask(c, format!("{r} tree"), m, json!({"uri": u}));
        ask(c, format!("{r} graph"), "ruby/exportGraph", json!({"uri": u}));
        ask(c, format!("{r} stats"), "ruby-fast-lsp/debug/stats", json!({"uri": u}));
        for id in 0..NCLS {
            ask(c, format!("{r} methods {}", cls_path(id)), "ruby-fast-lsp/debug/methods", json!({"class": cls_path(id), "uri": u}));
        }
    }
    out
}

/// the differences between two answer sets
pub fn diffs(a: &Answers, b: &Answers) -> Vec<(String, Value, Value)> {
    let keys: BTreeSet<&String> = a.keys().chain(b.keys()).collect();
    let mut out = vec![];
    for k in keys {
        let (x, y) = (a.get(k).cloned().unwrap_or(Value::Null), b.get(k).cloned().unwrap_or(Value::Null));
        if x != y {
            out.push((k.clone(), x, y));
        }
    }
    out
}
/// where two JSON values first differ
pub fn jdiff(a: &Value, b: &Value) -> String {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            let mut ks: Vec<&String> = x.keys().chain(y.keys()).collect();
            ks.sort();
            ks.dedup();
            for k in ks {
                let (p, q) = (x.get(k).unwrap_or(&Value::Null), y.get(k).unwrap_or(&Value::Null));
                if p != q {
                    return format!(".{k}{}", jdiff(p, q));
                }
            }
            String::new()
        }
        (Value::Array(x), Value::Array(y)) => {
            if x.len() == y.len() && x.len() == 1 {
                return format!("[0]{}", jdiff(&x[0], &y[0]));
            }
            let only: Vec<String> = x.iter().filter(|e| !y.contains(e)).map(|e| e.to_string()).collect();
            let miss: Vec<String> = y.iter().filter(|e| !x.contains(e)).map(|e| e.to_string()).collect();
            if only.len() == 1 && miss.len() == 1 {
                let p = x.iter().find(|e| !y.contains(e)).unwrap();
                let q = y.iter().find(|e| !x.contains(e)).unwrap();
                return format!("[]{}", jdiff(p, q));
            }
            let cut = |v: Vec<String>| { let s = v.join(", "); s.chars().take(600).collect::<String>() };
            format!(": extra [{}], missing [{}]", cut(only), cut(miss))
        }
        _ => format!(": {} instead of {}", short(a), short(b)),
    }
}
pub fn short(v: &Value) -> String {
    let s = v.to_string();
    if s.len() > 700 { format!("{}…", s.chars().take(700).collect::<String>()) } else { s }
}

/// last published diagnostics per path under the workspace, normalised
pub fn diags(c: &Client) -> BTreeMap<String, Value> {
    c.diags.iter().filter(|(_, (_, d))| !d.is_empty()).map(|(u, (_, d))| (u.trim_start_matches("file://").to_string(), norm(&Value::Array(d.clone())))).collect()
}

/// What was last published for an open document must show its syntax errors, and only its own.
pub fn syntax_shown(ed: &Ed, when: &str) {
    for p in ed.open_docs() {
        let Some(s) = ed.files[&p].buf.as_ref() else { continue };
        let d = ed.c.diags.get(&uri(&p)).map(|e| e.1.clone()).unwrap_or_default();
        let shown = d.iter().any(|d| d["severity"] == 1 && d.get("code").map_or(true, |c| c.is_null()));
        check("P16", "syntax-errors", shown == s.broken, || format!("{p} {when}: the text has {} syntax error, last published: {}", if s.broken { "a" } else { "no" }, short(&Value::Array(d.clone()))));
    }
}

// --------------------------------------------------------------- generation

pub struct GenCfg {
    pub files: usize,
    pub ops: usize,
    pub ext: bool,
    pub broken: bool,
    pub dirty_close: bool,
    pub asks: bool,
}
pub fn gen_world(r: &mut Rng, root: &str, n: usize) -> BTreeMap<String, Src> {
    let big = r.chance(1, 3);
    (0..n)
        .map(|i| {
            let mut s = Src::gen(r, i as u8);
            if big {
                s.bulk = ([2, 10, 80][r.below(3)], [2, 10, 80][r.below(3)]);
            }
            (format!("{root}/lib/f{i}.rb"), s)
        })
        .collect()
}
pub fn slot_of(p: &str) -> u8 {
    let n = p.trim_end_matches(".rb").chars().last().unwrap() as u8 - b'0';
    if p.contains("new") { 5 + n } else { n }
}
pub fn delay(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 | 1 => 0,
        2 => r.next() % (20_000),
        3 => r.next() % (2 * MS),
        4 => r.next() % (20 * MS),
        5 => 60 * MS + r.next() % (80 * MS),
        6 => r.next() % (400 * MS),
        _ => r.next() % (3 * SEC),
    }
}
pub fn gen_ops(r: &mut Rng, root: &str, world: &BTreeMap<String, Src>, g: &GenCfg) -> Vec<Op> {
    let mut out = vec![];
    let mut cur: BTreeMap<String, Src> = world.clone();
    let mut open: BTreeSet<String> = BTreeSet::new();
    let mut paths: Vec<String> = world.keys().cloned().collect();
    for i in 0..2 {
        paths.push(format!("{root}/lib/new{i}.rb"));
    }
    while out.len() < g.ops {
        let p = r.pick(&paths).clone();
        let o = open.contains(&p);
        let known = cur.contains_key(&p);
        match r.below(20) {
            0..=3 if !o && known && open.len() < 6 => {
                open.insert(p.clone());
                out.push(Op::Open(p));
            }
            0..=6 if o => {
                if r.chance(1, 6) {
                    let mut v = vec![];
                    let mut s = cur[&p].clone();
                    for _ in 0..r.range(2, 5) {
                        s = s.mutate(r, g.broken);
                        v.push(s.clone());
                    }
                    cur.insert(p.clone(), s);
                    out.push(Op::Burst(p, v));
                } else {
                    let s = cur[&p].mutate(r, g.broken);
                    cur.insert(p.clone(), s.clone());
                    out.push(Op::Edit(p, s));
                }
            }
            7 | 8 if o => out.push(Op::Save(p)),
            9 if o => {
                if g.dirty_close && r.chance(1, 2) {
                    out.push(Op::CloseDirty(p.clone()));
                } else {
                    out.push(Op::Save(p.clone()));
                    out.push(Op::Close(p.clone()));
                }
                open.remove(&p);
            }
            10..=12 if g.ext => {
                let s = match cur.get(&p) {
                    Some(s) => s.mutate(r, g.broken),
                    None => Src::gen(r, slot_of(&p)),
                };
                cur.insert(p.clone(), s.clone());
                let torn = if r.chance(1, 6) { 1 + r.next() % (5 * MS) } else { 0 };
                out.push(Op::ExtWrite(p.clone(), s, torn));
                // another program changes a file just before it is looked at
                if !o && open.len() < 6 && r.chance(1, 2) {
                    if r.chance(1, 3) {
                        out.push(Op::Wait(r.next() % (150 * MS)));
                    }
                    open.insert(p.clone());
                    out.push(Op::Open(p));
                }
            }
            13 if g.ext && !o && known => {
                cur.remove(&p);
                out.push(Op::ExtDel(p));
            }
            14 | 15 if g.asks && o => {
                let cancel = if r.chance(1, 3) { Some(if r.chance(1, 2) { 0 } else { r.next() % MS }) } else { None };
                out.push(Op::Ask(r.below(NKIND) as u8, p, r.below(40), cancel));
            }
            16 | 17 => {
                let d = delay(r);
                if d > 0 {
                    out.push(Op::Wait(d));
                }
            }
            18 if r.chance(1, 4) => out.push(Op::StallClient(r.next() % (200 * MS))),
            _ => {}
        }
    }
    out
}
