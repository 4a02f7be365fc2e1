//! Cold indexing of one or more project folders, with damaged inputs, while an editor
//! already opens documents and navigates; and what must be known when it has settled.

use crate::client::*;
use crate::core::rng::Rng;
use crate::core::sched::{sim, vnow};
use crate::core::vfs::*;
use crate::fw::*;
use crate::session::*;
use crate::world::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub type Locs = BTreeSet<(String, u32, u32)>;

/// (path, start line, start column) of every location in an answer
pub fn locs(v: &Value) -> Locs {
    let mut out = Locs::new();
    let one = |v: &Value, out: &mut Locs| {
        let (u, r) = if v.get("targetUri").is_some() { (&v["targetUri"], &v["targetRange"]) } else { (&v["uri"], &v["range"]) };
        if let Some(u) = u.as_str() {
            out.insert((u.trim_start_matches("file://").to_string(), r["start"]["line"].as_u64().unwrap_or(9999) as u32, r["start"]["character"].as_u64().unwrap_or(9999) as u32));
        }
    };
    match v {
        Value::Array(a) => a.iter().for_each(|e| one(e, &mut out)),
        Value::Null => {}
        v => one(v, &mut out),
    }
    out
}
pub fn syms_of(v: &Value) -> Vec<Sym> {
    let mut s: Vec<Sym> = v
        .as_array()
        .map(|a| {
            a.iter()
                .map(|e| Sym { name: e["name"].as_str().unwrap_or("?").to_string(), line: e["range"]["start"]["line"].as_u64().unwrap_or(9999) as u32, kids: syms_of(&e["children"]) })
                .collect()
        })
        .unwrap_or_default();
    s.sort();
    s
}
pub fn sorted(v: &[Sym]) -> Vec<Sym> {
    let mut s: Vec<Sym> = v.iter().map(|e| Sym { name: e.name.clone(), line: e.line, kids: sorted(&e.kids) }).collect();
    s.sort();
    s
}

/// Compare what the settled server says with what the texts of the projects say.
/// `skip`: names about which nothing is claimed.
pub struct Exact<'a> {
    pub prop: &'a str,
    pub iso: &'a str,
    pub roots: &'a [String],
    pub texts: &'a BTreeMap<String, Src>,
    pub open: &'a [String],
    pub skip: &'a dyn Fn(&str) -> bool,
}
impl Exact<'_> {
    fn root_of(&self, p: &str) -> &str {
        self.roots.iter().filter(|r| p.starts_with(&format!("{r}/"))).max_by_key(|r| r.len()).map_or("", |r| r.as_str())
    }
    pub fn facts(&self, root: &str) -> Facts {
        Facts::of(self.texts.iter().filter(|(p, _)| self.root_of(p) == root))
    }
    pub fn check(&self, c: &mut Client) {
        let all: BTreeMap<&str, Facts> = self.roots.iter().map(|r| (r.as_str(), self.facts(r))).collect();
        let mut want: BTreeMap<char, BTreeSet<(String, String, u32, u32)>> = BTreeMap::new();
        for f in all.values() {
            for (n, ls) in f.defs.iter().chain(f.methods.iter()) {
                if (self.skip)(n) {
                    continue;
                }
                let short = n.rsplit(['#', '.', ':']).next().unwrap().to_string();
                for l in ls {
                    want.entry(short.chars().next().unwrap()).or_default().insert((short.clone(), l.0.clone(), l.1, l.2));
                }
            }
        }
        for q in ['C', 'M', 'K', 'N', 'm'] {
            let Some(Ok(v)) = c.call("workspace/symbol", json!({"query": q.to_string()}), 600 * SEC) else {
                violation(self.prop, "symbols", format!("workspace/symbol {q} was not answered"));
                continue;
            };
            let got: BTreeSet<(String, String, u32, u32)> = v
                .as_array()
                .cloned()
                .unwrap_or_default()
                .iter()
                .filter_map(|e| {
                    let n = e["name"].as_str()?.to_string();
                    let l = locs(&json!([e["location"]])).into_iter().next()?;
                    (n.starts_with(q) && l.0.starts_with("/sim/ws/") && !l.0.contains("/bad")).then_some((n, l.0, l.1, l.2))
                })
                .collect();
            let w = want.remove(&q).unwrap_or_default();
            let miss: Vec<_> = w.difference(&got).take(4).collect();
            check(self.prop, "symbol-missing", miss.is_empty(), || format!("workspace/symbol {q} does not list {miss:?}"));
            let extra: Vec<_> = got.difference(&w).filter(|e| !(self.skip)(&e.0) && self.texts.contains_key(&e.1)).take(4).collect();
            check(self.prop, "symbol-extra", extra.is_empty(), || format!("workspace/symbol {q} lists {extra:?}, which no text defines there"));
            let gone: Vec<_> = got.iter().filter(|e| !self.texts.contains_key(&e.1) && !(self.skip)(&e.0)).take(4).collect();
            check(self.prop, "symbol-of-removed-file", gone.is_empty(), || format!("workspace/symbol {q} lists {gone:?} of files that do not exist"));
        }
        for p in self.open {
            let Some(s) = self.texts.get(p) else { continue };
            if s.broken {
                continue;
            }
            let root = self.root_of(p);
            let f = &all[root];
            let r = s.render();
            if let Some(Ok(v)) = c.call("textDocument/documentSymbol", json!({"textDocument": {"uri": uri(p)}}), 600 * SEC) {
                let (got, w) = (syms_of(&v), sorted(&r.syms));
                check(self.prop, "outline", got == w, || format!("{p}: outline {got:?} instead of {w:?}"));
            }
            for m in r.marks.iter() {
                let Mk::ConstRef(n) = &m.kind else { continue };
                if (self.skip)(n) {
                    continue;
                }
                let (me, q) = question(0, p, Some(m));
                let a = c.call(me, q, 600 * SEC);
                let Some(Ok(v)) = a else {
                    violation(self.prop, "definition", format!("{p}:{}:{} definition of {n}: answered {a:?}", m.line, m.col));
                    continue;
                };
                let got = locs(&v);
                let w = f.defs.get(n).cloned().unwrap_or_default();
                let out: Vec<_> = got.iter().filter(|l| l.0.starts_with("/sim/ws/") && self.root_of(&l.0) != root).collect();
                check(self.iso, "foreign-definition", out.is_empty(), || format!("{p}:{}:{} definition of {n} leads into another project: {out:?}", m.line, m.col));
                check(self.prop, "definition", got == w, || format!("{p}:{}:{} definition of {n}: {got:?} instead of {w:?}", m.line, m.col));
            }
            for m in r.marks.iter() {
                let (Mk::ClassDef(n) | Mk::ConstDef(n)) = &m.kind else { continue };
                if (self.skip)(n) {
                    continue;
                }
                let (me, q) = question(3, p, Some(m));
                let a = c.call(me, q, 600 * SEC);
                let Some(Ok(v)) = a else {
                    violation(self.prop, "references", format!("{p}:{}:{} references of {n}: answered {a:?}", m.line, m.col));
                    continue;
                };
                let got = locs(&v);
                let w: Locs = f.refs.iter().filter(|e| &e.3 == n).map(|e| (e.0.clone(), e.1, e.2)).collect();
                let out: Vec<_> = got.iter().filter(|l| l.0.starts_with("/sim/ws/") && self.root_of(&l.0) != root).collect();
                check(self.iso, "foreign-reference", out.is_empty(), || format!("{p}:{}:{} references of {n} list another project: {out:?}", m.line, m.col));
                let miss: Vec<_> = w.difference(&got).collect();
                check(self.prop, "reference-missing", miss.is_empty(), || format!("{p}:{}:{} references of {n}: {got:?} lack {miss:?}", m.line, m.col));
                // declarations are listed too
                let decl: Locs = f.defs.get(n).cloned().unwrap_or_default();
                let extra: Vec<_> = got.difference(&w).filter(|l| !l.0.contains("/bad") && !decl.iter().any(|d| d.0 == l.0 && d.1 == l.1)).collect();
                check(self.prop, "reference-extra", extra.is_empty(), || format!("{p}:{}:{} references of {n}: {extra:?} are none", m.line, m.col));
            }
            // unresolved constants are reported exactly
            let got: BTreeSet<(u32, u32)> = c
                .diags
                .get(&uri(p))
                .map(|(_, d)| d.iter().filter(|d| d["code"] == "unresolved-constant").map(|d| (d["range"]["start"]["line"].as_u64().unwrap() as u32, d["range"]["start"]["character"].as_u64().unwrap() as u32)).collect())
                .unwrap_or_default();
            for m in r.marks.iter() {
                let Mk::ConstRef(n) = &m.kind else { continue };
                let head = n.split("::").next().unwrap();
                if (self.skip)(n) || (self.skip)(head) || (n.contains("::") && !f.defined(head)) {
                    continue;
                }
                let is = got.contains(&(m.line, m.col)) || got.contains(&(m.line, m.head_col));
                if n.contains("::") {
                    check("P16", "unresolved-constant", f.defined(n) != is, || format!("{p}:{}:{} {n} is {}defined but {}reported as unresolved", m.line, m.col, if is { "" } else { "not " }, if is { "" } else { "not " }));
                } else if !f.defined(n) {
                    check("P16", "unresolved-constant", is, || format!("{p}:{}:{} {n} is not defined but not reported; unresolved reports: {got:?}", m.line, m.col));
                } else {
                    check("P16", "unresolved-constant", !got.contains(&(m.line, m.col)) || r.marks.iter().any(|o| o.line == m.line && o.head_col == m.col && o.col != m.col), || format!("{p}:{}:{} {n} is defined but reported as unresolved", m.line, m.col));
                }
            }
        }
    }
}

// ------------------------------------------------------------------ status

const PHASES: &[&str] = &["discovered", "queued", "resolvingRuntime", "discoveringInputs", "indexingCore", "indexingProject", "projectNavigationReady", "indexingDependencies", "resolvingSemantics", "dependencyNavigationReady", "publishingDiagnostics", "ready"];
fn rank(p: &str) -> usize {
    PHASES.iter().position(|x| *x == p).unwrap_or(20)
}
pub fn terminal(p: &str) -> bool {
    matches!(p, "ready" | "failed" | "cancelled")
}
#[derive(Default)]
pub struct StatusWatch {
    at: usize,
    seq: u64,
    /// root -> (generation, sequence, phase, completed, total)
    last: BTreeMap<String, (u64, u64, String, Option<u64>, Option<u64>)>,
}
impl StatusWatch {
    pub fn one(&mut self, v: &Value, prop: &str) {
        let q = v["sequence"].as_u64().unwrap_or(0);
        let prev = self.seq;
        check(prop, "sequence", q > prev, || format!("status sequence {q} after {prev}"));
        self.seq = q;
        let mut counts: BTreeMap<&str, u64> = BTreeMap::new();
        for p in v["projects"].as_array().cloned().unwrap_or_default() {
            let root = p["root"].as_str().unwrap_or("?").trim_end_matches('/').to_string();
            let (g, s, ph) = (p["generation"].as_u64().unwrap_or(0), p["sequence"].as_u64().unwrap_or(0), p["phase"].as_str().unwrap_or("?").to_string());
            let (c, t) = (p["completed"].as_u64(), p["total"].as_u64());
            check(prop, "progress", c.is_some() == t.is_some() && c.unwrap_or(0) <= t.unwrap_or(0), || format!("{root}: progress {c:?} of {t:?}"));
            *counts
                .entry(match ph.as_str() {
                    "discovered" => "discovered",
                    "queued" => "queued",
                    "ready" => "ready",
                    "failed" => "failed",
                    "cancelled" => "cancelled",
                    _ => "active",
                })
                .or_insert(0) += 1;
            if let Some((g0, s0, ph0, c0, t0)) = self.last.get(&root).cloned() {
                check(prop, "generation", g >= g0, || format!("{root}: generation {g} after {g0}"));
                check(prop, "project-sequence", s >= s0, || format!("{root}: project sequence {s} after {s0}"));
                if g == g0 {
                    check(prop, "left-terminal", !terminal(&ph0) || ph == ph0, || format!("{root}: phase {ph} after {ph0} in generation {g}"));
                    check(prop, "phase-order", terminal(&ph) || rank(&ph) >= rank(&ph0), || format!("{root}: phase {ph} after {ph0} in generation {g}"));
                    if ph == ph0 {
                        check(prop, "progress-back", c.unwrap_or(0) >= c0.unwrap_or(0) || c.is_none(), || format!("{root}: {ph} progress {c:?} after {c0:?}"));
                        check(prop, "total-changed", t.is_none() || t0.is_none() || t == t0, || format!("{root}: {ph} total {t:?} after {t0:?}"));
                    }
                }
            }
            self.last.insert(root, (g, s, ph, c, t));
        }
        for k in ["discovered", "queued", "active", "ready", "failed", "cancelled"] {
            let (a, b) = (v["aggregate"][k].as_u64().unwrap_or(999), counts.get(k).copied().unwrap_or(0));
            // active counts held permits, which outlive the last phase by a moment
            if k == "active" {
                check(prop, "concurrency", a <= v["aggregate"]["concurrencyLimit"].as_u64().unwrap_or(0), || format!("more active than the limit: {}", short(v)));
                continue;
            }
            check(prop, "aggregate", a == b, || format!("aggregate.{k} is {a}, the projects listed give {b}: {}", short(v)));
        }
    }
    pub fn feed(&mut self, c: &Client, prop: &str) {
        while self.at < c.events.len() {
            if let Event::Status(v) = &c.events[self.at].2 {
                let v = v.clone();
                self.one(&v, prop);
            }
            self.at += 1;
        }
    }
    /// every root must have ended in `want` once the server is quiet
    pub fn settled(&self, roots: &[String], want: &str, prop: &str) {
        for r in roots {
            let g = self.last.get(r).cloned();
            check(prop, "not-terminal", g.as_ref().is_some_and(|g| g.2 == want), || format!("{r}: last announced {g:?}, the server is quiet; expected {want}"));
        }
    }
}

// ------------------------------------------------------------------ scenario

pub fn index() {
    index_with(0)
}
/// more files than the indexer takes in one batch
pub fn index_big() {
    let n = ctx().rng(31).range(500, 1100);
    index_with(n)
}
fn index_with(extra: usize) {
    ctx().liveness = "P17".into();
    let mut r = ctx().rng(1);
    let nroots = [1, 1, 2, 2, 3][r.below(5)];
    let roots: Vec<String> = (0..nroots).map(|i| format!("/sim/ws/{}", ["p", "q", "pp"][i])).collect();
    let mut texts: BTreeMap<String, Src> = BTreeMap::new();
    let mut v = base_vfs();
    for root in &roots {
        let n = r.range(1, 5);
        for (p, mut s) in gen_world(&mut r, root, n) {
            s.broken = r.chance(1, 12);
            // files named after a constant are brought forward when it is asked for
            let k = s.slot as usize;
            let stem = match r.below(6) {
                0 | 1 => format!("c{}", 2 * k),
                2 => format!("c{}", 2 * k + 1),
                3 => format!("m{k}"),
                4 => format!("n{k}"),
                _ => format!("f{k}"),
            };
            texts.insert(p.replace(&format!("f{k}.rb"), &format!("{stem}.rb")), s);
        }
        v.mkdirs(root);
    }
    for (p, s) in &texts {
        v.put(p, s.text().as_bytes());
        ctx().op(format!("disk {p}:\n{}", s.text()));
    }
    // tiny further files of one project, each defining one constant
    let mut er = ctx().rng(32);
    let zs: Vec<String> = (0..extra)
        .map(|i| {
            // some are named after constants asked for, like the files that define them
            let stem = if i % 20 == 3 { format!("{}{}", ["c", "n", "m", "k"][er.below(4)], er.below(10)) } else { format!("z{i}") };
            format!("{}/lib/z{i}/{stem}.rb", roots[0])
        })
        .collect();
    for (i, p) in zs.iter().enumerate() {
        v.put(p, format!("Z{i} = {i}\n").as_bytes());
    }
    if extra > 0 {
        ctx().op(format!("{extra} further files /sim/ws/p/lib/z*/z*.rb"));
    }
    // damaged inputs own the names of slot 5 and 6
    let mut bad: Vec<String> = vec![];
    let mut fc = FaultCfg { shuffle_readdir: true, ..Default::default() };
    if r.chance(1, 2) {
        for k in 0..r.range(1, 2) {
            let root = r.pick(&roots).clone();
            let p = format!("{root}/lib/bad{k}.rb");
            let s = Src::gen(&mut r, 5 + k as u8);
            let t = s.text();
            match r.below(12) {
                0 => {
                    let mut b = t.into_bytes();
                    let i = r.below(b.len() + 1);
                    b.insert(i, 0xff);
                    v.put(&p, &b);
                    ctx().op(format!("disk {p}: not UTF-8 at byte {i}"));
                }
                1 => {
                    v.mkdirs(&p);
                    v.put(&format!("{p}/x.txt"), b"x");
                    ctx().op(format!("disk {p}: a directory"));
                }
                2 => {
                    v.put(&p, &b"\0".repeat(64));
                    ctx().op(format!("disk {p}: zero bytes"));
                }
                3 | 9..=11 => {
                    let junk = ["class (((\ndef \n", "require \u{e9}\"\n", "gem \u{fc}\u{1f600}'\n", "require \"\ngem '\nrequire_relative '\u{e9}\n", "\u{feff}class \u{c9}\n", "$-\u{e9} = @@ = ::\n", "=begin\n", "<<A + <<B\n", "__END__\nclass C1\n", "# typed: \u{e9}\n#: (\nsig {\n"];
                    let j = if r.chance(1, 3) { r.pick(&junk).repeat(r.range(1, 20)) } else { soup(&mut r) };
                    ctx().op(format!("disk {p}: not Ruby {j:?}"));
                    v.put(&p, j.as_bytes());
                }
                // signatures are read as well
                4 => {
                    let q = format!("{root}/sig/bad{k}.rbs");
                    match r.below(3) {
                        0 => v.put(&q, b"class C1\xff0\nend\n"),
                        1 => v.put(&q, "class ((( def\n".repeat(9).as_bytes()),
                        _ => {
                            v.put(&q, b"class C10\n  def m1: () -> String\nend\n");
                            if fc.scope.is_empty() {
                                fc = FaultCfg { scope: format!("bad{k}.rbs"), rate_pm: [1000, 500][r.below(2)], kinds: vec![[F_OPEN_EIO, F_READ_EIO, F_OPEN_ENOENT][r.below(3)]], max: 1 << 30, ..fc };
                            }
                        }
                    }
                    ctx().op(format!("disk {q}: damaged signature"));
                }
                // a directory that cannot be read, or disappears while it is
                5 | 6 => {
                    let q = format!("{root}/{}/badd{k}", ["lib", "sig", "doc"][r.below(3)]);
                    v.put(&format!("{q}/bad{k}.rb"), t.as_bytes());
                    if fc.scope.is_empty() {
                        fc = FaultCfg { scope: format!("/badd{k}"), rate_pm: [1000, 500][r.below(2)], kinds: vec![[F_DIR_EACCES, F_DIR_ENOENT][r.below(2)]], max: 1 << 30, ..fc };
                    }
                    ctx().op(format!("disk {q}: a directory failing with {:?}", fc.kinds));
                }
                _ => {
                    v.put(&p, t.as_bytes());
                    let kind = [F_OPEN_EIO, F_READ_EIO, F_OPEN_ENOENT, F_STAT_EIO][r.below(4)];
                    if fc.scope.is_empty() {
                        fc.scope = format!("bad{k}.rb");
                        fc.rate_pm = [1000, 500][r.below(2)];
                        fc.kinds = vec![kind];
                        fc.max = 1 << 30;
                    }
                    ctx().op(format!("disk {p}: fails with {}", fault_name(kind)));
                }
            }
            bad.push(p);
        }
    }
    v.commit();
    start_sim(swarm(ctx().case.seed, 0), v, fc);
    sim().procs.fragment = r.chance(1, 2);
    let pipes = start_server(&["ruby-fast-lsp", "--stdio"], 1 << 16, if r.chance(1, 4) { 4096 } else { 1 << 18 });
    let mut ed = Ed::new(Client::new(pipes, ctx().rng(9)), ctx().rng(8));
    ed.c.reply_delay = if r.chance(1, 3) { (0, 30 * MS) } else { (0, 0) };
    for (p, s) in &texts {
        ed.files.insert(p.clone(), FileSt { disk: Some(s.clone()), buf: None, version: 0, touched: false });
    }
    if ed.c.initialize(&roots, opts()).is_none() {
        violation("P17", "no-initialize", "initialize was not answered".into());
        return;
    }
    // while the index is built: open, navigate, ask for the status
    let paths: Vec<String> = texts.keys().cloned().collect();
    let mut ops: Vec<(u8, String, usize, u64)> = vec![];
    for _ in 0..r.below(14) {
        ops.push((r.below(6) as u8, r.pick(&paths).clone(), r.below(100), delay(&mut r) / 4));
    }
    let ops = ctx().filter_ops(ops);
    let mut nav: Vec<(i64, String, Mark)> = vec![];
    let mut watch = StatusWatch::default();
    // or only once the first project is being read
    let mid = extra > 0 && r.chance(2, 3);
    if mid {
        let t0 = vnow();
        let busy = |c: &Client| c.events.iter().any(|(_, _, e)| matches!(e, Event::Status(v) if v["projects"].as_array().is_some_and(|a| a.iter().any(|x| x["phase"] == "indexingProject"))));
        while vnow() - t0 < 100 * SEC && !busy(&ed.c) {
            ed.run(200_000);
            ed.c.pump();
        }
    }
    for (i, (k, p, n, d)) in ops {
        let d = if mid { d % (3 * MS) } else { d };
        if d > 0 {
            ed.run(d);
        }
        ed.c.pump();
        watch.feed(&ed.c, "P18");
        match k {
            0 | 1 => {
                ctx().op(format!("{}us op{i} open {p}", vnow() / 1000));
                ed.open(&p)
            }
            2..=4 => {
                let Some(s) = ed.files[&p].buf.clone() else { continue };
                let marks: Vec<Mark> = s.render().marks.into_iter().filter(|m| matches!(m.kind, Mk::ConstRef(_))).collect();
                if marks.is_empty() {
                    continue;
                }
                let m = marks[n % marks.len()].clone();
                let (me, q) = question(0, &p, Some(&m));
                let id = ed.c.request(me, q, 0);
                ctx().op(format!("{}us op{i} request {id} definition of {:?} at {p}:{}:{}", vnow() / 1000, m.kind, m.line, m.col));
                nav.push((id, p, m));
            }
            _ => {
                let id = ed.c.request("ruby-fast-lsp/indexing/status", json!({}), 1);
                let _ = id;
            }
        }
    }
    ed.settle();
    watch.feed(&ed.c, "P18");
    let skip = |n: &str| bad_name(n);
    let ex = Exact { prop: "P22", iso: "P19", roots: &roots, texts: &texts, open: &ed.open_docs(), skip: &skip };
    // P23: navigation while indexing
    let mut navs = 0;
    for (id, p, m) in &nav {
        let Mk::ConstRef(n) = &m.kind else { continue };
        if bad_name(n) {
            continue;
        }
        let root = ex.root_of(p).to_string();
        let f = ex.facts(&root);
        let want = f.defs.get(n).cloned().unwrap_or_default();
        match ed.c.reqs[id].answered.clone() {
            None => violation("P17", "unanswered", format!("definition request {id} was not answered")),
            Some(Ok(v)) => {
                let got = locs(&v);
                navs += 1;
                let wrong: Vec<_> = got.difference(&want).collect();
                let foreign = wrong.iter().any(|l| ex.root_of(&l.0) != root);
                check(if foreign { "P19" } else { "P23" }, "wrong-target", wrong.is_empty(), || format!("request {id}: definition of {n} at {p}:{}:{} while indexing: {wrong:?} is no definition of it", m.line, m.col));
                check("P23", "denied", want.is_empty() || !got.is_empty(), || format!("request {id}: definition of {n} at {p}:{}:{} while indexing: answered none although {want:?} defines it", m.line, m.col));
            }
            Some(Err(e)) => {
                let code = e["code"].as_i64().unwrap_or(0);
                check("P23", "error", [-32802, -32801, -32800].contains(&code), || format!("request {id}: definition of {n}: error {e}"));
                // giving up is excused only while the project is not yet navigable
                let rq = &ed.c.reqs[id];
                let stage = if want.is_empty() { "dependencyNavigationReady" } else { "projectNavigationReady" };
                let since = ed.c.events.iter().find_map(|(at, _, e)| match e {
                    Event::Status(v) => v["projects"]
                        .as_array()
                        .is_some_and(|ps| ps.iter().any(|x| x["root"].as_str().map(|s| s.trim_end_matches('/')) == Some(root.as_str()) && rank(x["phase"].as_str().unwrap_or("?")) >= rank(stage) && x["phase"] != "failed" && x["phase"] != "cancelled"))
                        .then_some(*at),
                    _ => None,
                });
                let late = since.is_some_and(|s| rq.answered_at > s.max(rq.sent_at) + 2 * SEC);
                check("P23", "gave-up", code != -32802 || !late, || format!("request {id}: definition of {n} at {p}:{}:{} gave up {} ms after the project was announced as navigable: {e}", m.line, m.col, (rq.answered_at - since.unwrap_or(0)) / MS));
            }
        }
    }
    if navs > 0 {
        sim().probe("navigation-answers-during-indexing");
    }
    watch.settled(&roots, "ready", "P18");
    if let Some(Ok(v)) = ed.c.call("ruby-fast-lsp/indexing/status", json!({}), 600 * SEC) {
        watch.feed(&ed.c, "P18");
        watch.one(&v, "P18");
        watch.settled(&roots, "ready", "P18");
    }
    // the settled index
    let opened: Vec<String> = paths.iter().filter(|_| r.chance(1, 2)).take(4).cloned().collect();
    for p in &opened {
        ed.open(p);
    }
    ed.settle();
    syntax_shown(&ed, "once indexed");
    let docs = ed.open_docs();
    if bad.is_empty() {
        Exact { open: &docs, ..ex }.check(&mut ed.c);
    } else {
        Exact { prop: "P20", open: &docs, ..ex }.check(&mut ed.c);
    }
    if extra > 0 {
        // asked for in pieces: an answer lists only so many symbols
        let mut miss = vec![];
        for _ in 0..40 {
            let i = r.below(extra);
            let a = ed.c.call("workspace/symbol", json!({"query": format!("Z{i}")}), 600 * SEC);
            let p = zs[i].clone();
            let ok = matches!(&a, Some(Ok(v)) if v.as_array().is_some_and(|a| a.iter().any(|e| e["name"] == format!("Z{i}").as_str() && e["location"]["uri"] == uri(&p).as_str())));
            if !ok {
                miss.push(p);
            }
        }
        check("P22", "symbol-missing", miss.is_empty(), || format!("of {extra} files, what {miss:?} define is not listed by workspace/symbol"));
    }
    farewell(&mut ed.c, &mut ctx().rng(77));
    ctx().out.nontrivial = !texts.is_empty();
}
/// names owned by the damaged inputs
pub fn bad_name(n: &str) -> bool {
    n.rsplit(['#', '.']).next_back().unwrap().split("::").any(|s| {
        let k: u32 = s[1..].parse().unwrap_or(0);
        match s.as_bytes()[0] {
            b'C' => k >= 10,
            b'M' | b'K' | b'N' => k >= 5,
            _ => false,
        }
    })
}
#[allow(dead_code)]
fn _unused(_: &mut Rng) {}
