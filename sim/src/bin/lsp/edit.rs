//! Histories of edits, saves, closes and outside changes; the server must end up as if it
//! had just been started on the final texts.

use crate::client::*;
use crate::core::rng::Rng;
use crate::core::sched::sim;
use crate::core::vfs::FaultCfg;
use crate::fw::*;
use crate::session::*;
use crate::world::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Default)]
pub struct Final {
    pub disk: BTreeMap<String, Src>,
    pub open: Vec<String>,
    pub answers: Answers,
    pub diags: BTreeMap<String, Value>,
    /// what was shown before the editor saved everything once more
    pub quiet: BTreeMap<String, Value>,
    /// .ruby-version and the configured version
    pub ruby: (Option<u8>, Option<u8>),
}

fn reference(fin: &Final, depth: usize) {
    let mut v = base_vfs();
    for (p, s) in &fin.disk {
        v.put(p, s.text().as_bytes());
    }
    let mut o = opts();
    if let Some(n) = fin.ruby.0 {
        v.put(&format!("{ROOT}/.ruby-version"), version_text(n).as_bytes());
    }
    if let Some(n) = fin.ruby.1 {
        o["rubyVersion"] = Value::String(ruby_name(n));
    }
    v.commit();
    start_sim(calm(ctx().case.seed, 1), v, FaultCfg::default());
    let pipes = start_server(&["ruby-fast-lsp", "--stdio"], 1 << 20, 1 << 20);
    let mut ed = Ed::new(Client::new(pipes, ctx().rng(9)), ctx().rng(8));
    for (p, s) in &fin.disk {
        ed.files.insert(p.clone(), FileSt { disk: Some(s.clone()), buf: None, version: 0, touched: false });
    }
    if ed.c.initialize(&[ROOT.to_string()], o).is_none() {
        ctx().out.harness_error = Some("reference server did not initialise".into());
        finish_run();
    }
    ed.settle();
    for p in &fin.open {
        ed.open(p);
    }
    ed.settle();
    let quiet = diags(&ed.c);
    let a = rounds(&mut ed, depth);
    ctx().out.blob = serde_json::to_vec(&Final { answers: a, diags: diags(&ed.c), quiet, ..Default::default() }).unwrap();
}

fn rounds(ed: &mut Ed, depth: usize) -> Answers {
    let many = ctx().case.scenario == "branch";
    let open = ed.open_docs();
    let docs: Vec<(String, Src)> = open.iter().map(|p| (p.clone(), ed.files[p].buf.clone().unwrap())).collect();
    // a save makes the server read a document again: ask before that as well
    let mut a = query_all(&mut ed.c, &docs, &[ROOT.to_string()], depth, 0, many);
    for p in &open {
        ed.save(p);
    }
    ed.settle();
    a.extend(query_all(&mut ed.c, &docs, &[ROOT.to_string()], depth, 1, many));
    for p in &open {
        ed.touch(p);
    }
    for p in &open {
        ed.save(p);
    }
    ed.settle();
    a.extend(query_all(&mut ed.c, &docs, &[ROOT.to_string()], depth, 2, many));
    a
}

fn history(world: BTreeMap<String, Src>, ops: Vec<Op>, depth: usize) {
    let mut r = ctx().rng(3);
    let ops = ctx().filter_ops(ops);
    let mut v = base_vfs();
    for (p, s) in &world {
        v.put(p, s.text().as_bytes());
    }
    v.commit();
    let cfg = swarm(ctx().case.seed, 0);
    start_sim(cfg, v, FaultCfg { shuffle_readdir: true, ..Default::default() });
    sim().procs.fragment = r.chance(1, 2);
    let small = r.chance(1, 4);
    let pipes = start_server(&["ruby-fast-lsp", "--stdio"], 1 << 16, if small { 4096 } else { 1 << 18 });
    let mut ed = Ed::new(Client::new(pipes, ctx().rng(9)), ctx().rng(8));
    ed.c.reply_delay = if r.chance(1, 3) { (0, 30 * MS) } else { (0, 0) };
    for (p, s) in &world {
        ctx().op(format!("disk {p}:\n{}", s.text()));
        ed.files.insert(p.clone(), FileSt { disk: Some(s.clone()), buf: None, version: 0, touched: false });
    }
    if ed.c.initialize(&[ROOT.to_string()], opts()).is_none() {
        violation("P17", "no-initialize", "initialize was not answered".into());
        return;
    }
    if r.chance(1, 2) {
        ed.settle();
    }
    for (i, op) in &ops {
        ctx().op(format!("{}us op{i} {}", crate::core::sched::vnow() / 1000, show(op)));
        ed.apply(op);
    }
    ed.settle();
    syntax_shown(&ed, "after the history");
    let eff = ed.effective();
    let open = ed.open_docs();
    for (p, s) in &eff {
        ctx().op(format!("final {p} open={}:\n{}", open.contains(p), s.text()));
    }
    let quiet = diags(&ed.c);
    let a = rounds(&mut ed, depth);
    let d = diags(&ed.c);
    farewell(&mut ed.c, &mut ctx().rng(77));
    ctx().out.nontrivial = ops.len() >= 2;
    ctx().out.blob = serde_json::to_vec(&Final { disk: eff, open, answers: a, diags: d, quiet, ruby: ed.ruby }).unwrap();
}

pub fn show(op: &Op) -> String {
    match op {
        Op::Edit(p, s) => format!("edit {p}:\n{}", s.text()),
        Op::Burst(p, ss) => format!("burst {p}: {}", ss.iter().map(|s| s.text()).collect::<Vec<_>>().join("\n--\n")),
        Op::Branch(ch, d) => format!("branch switch, events after {d:?}: {}", ch.iter().map(|(p, s)| format!("{p}:\n{}", s.as_ref().map_or("deleted\n".into(), |s| s.text()))).collect::<String>()),
        Op::ExtWrite(p, s, t) => format!("outside write {p} (torn {t}):\n{}", s.text()),
        o => format!("{o:?}"),
    }
}

pub fn edit_history() {
    let mut r = ctx().rng(2);
    let g = GenCfg { files: r.range(2, 5), ops: [4, 8, 14, 24][r.below(4)], ext: r.chance(2, 3), broken: r.chance(1, 4), dirty_close: r.chance(1, 2), asks: r.chance(1, 2) };
    let mut r = ctx().rng(1);
    let world = gen_world(&mut r, ROOT, g.files);
    let ops = gen_ops(&mut r, ROOT, &world, &g);
    against_fresh(world, ops);
}

/// The shortest history of the known finding: a mixin is removed from its file while a
/// class of a closed file includes it and an open document calls a method of that class.
pub fn removed_mixin() {
    let f = |slot, items| Src { slot, pad: 0, items, broken: false, bulk: (0, 0) };
    let path = |k| format!("{ROOT}/lib/f{k}.rb");
    let world: BTreeMap<String, Src> = [
        (path(0), f(0, vec![Item::Mod { id: 0, defs: vec![] }])),
        (path(1), f(1, vec![Item::Cls { id: 2, sup: false, incl: Some(0), defs: vec![] }])),
        (path(2), f(2, vec![Item::Top(Rf::Call(2, 5))])),
    ]
    .into_iter()
    .collect();
    let ops = vec![Op::Wait(20 * SEC), Op::Open(path(2)), Op::Open(path(0)), Op::Wait(20 * SEC), Op::Edit(path(0), f(0, vec![Item::Konst(0)])), Op::Wait(20 * SEC)];
    against_fresh(world, ops);
}

/// Other programs change up to hundreds of files at once, as switching branches does,
/// while documents are opened, edited and asked about.
pub fn branch() {
    let mut r = ctx().rng(2);
    let g = GenCfg { files: r.range(2, 5), ops: [1, 3, 6, 10][r.below(4)], ext: r.chance(1, 3), broken: r.chance(1, 6), dirty_close: r.chance(1, 2), asks: r.chance(1, 3) };
    let nz = [0, 5, 40, 70, 100, 200][r.below(6)];
    let mut r = ctx().rng(1);
    let mut world = gen_world(&mut r, ROOT, g.files);
    let mut ops = gen_ops(&mut r, ROOT, &world, &g);
    let z = |r: &mut Rng, i: usize| {
        let items = (0..r.range(1, 2)).map(|_| Item::Konst((20 + i + r.below(2)) as u8)).collect();
        Src { slot: 0, pad: r.below(3) as u8, items, broken: false, bulk: (0, 0) }
    };
    let zp = |i: usize| format!("{ROOT}/lib/z/z{i}.rb");
    let mut have: BTreeMap<String, Src> = world.clone();
    for i in 0..nz {
        if r.chance(3, 4) {
            let s = z(&mut r, i);
            have.insert(zp(i), s.clone());
            world.insert(zp(i), s);
        }
    }
    let mut at = 0;
    for _ in 0..r.range(1, 3) {
        let share = [1, 5, 10][r.below(3)];
        let mut ch: Vec<(String, Option<Src>)> = vec![];
        let paths: Vec<String> = have.keys().cloned().chain((0..nz).map(zp)).chain((0..2).map(|i| format!("{ROOT}/lib/new{i}.rb"))).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
        for p in paths {
            if r.below(10) >= share {
                continue;
            }
            let old = have.get(&p).cloned();
            let new = match (&old, p.strip_prefix(&format!("{ROOT}/lib/z/z"))) {
                (Some(_), _) if r.chance(1, 6) => None,
                (_, Some(i)) => Some(z(&mut r, i.trim_end_matches(".rb").parse().unwrap())),
                (Some(s), _) => Some(s.mutate(&mut r, false)),
                (None, _) => Some(Src::gen(&mut r, slot_of(&p))),
            };
            match &new {
                Some(s) => have.insert(p.clone(), s.clone()),
                None => have.remove(&p),
            };
            ch.push((p, new));
        }
        if r.chance(1, 2) {
            for i in (1..ch.len()).rev() {
                ch.swap(i, r.below(i + 1));
            }
        }
        at = (at + r.below(ops.len() + 1)).min(ops.len());
        let d = if r.chance(2, 3) { Some(delay(&mut r) % (150 * MS)) } else { None };
        ops.insert(at, Op::Branch(ch, d));
        at += 1;
    }
    against(world, ops, ("P15", "P16"));
}

fn against_fresh(world: BTreeMap<String, Src>, ops: Vec<Op>) {
    against(world, ops, ("P13", "P16"))
}
fn against(world: BTreeMap<String, Src>, ops: Vec<Op>, (a, d): (&str, &str)) {
    let depth = 3;
    ctx().liveness = "P17".into();
    let b = phase(0, || history(world, ops, depth));
    let Ok(fin) = serde_json::from_slice::<Final>(&b) else { return };
    let b = phase(1, || reference(&fin, depth));
    let Ok(re) = serde_json::from_slice::<Final>(&b) else { return };
    ctx().out.checks += fin.answers.len() as u64;
    compare(a, d, &fin, &re, "after the history, against a fresh server");
}

/// As edit_history, with the Ruby version, the configuration or the workspace folders
/// changing in between, each of which makes the server start over.
pub fn reconf() {
    let mut r = ctx().rng(2);
    let g = GenCfg { files: r.range(2, 5), ops: [3, 6, 10, 16][r.below(4)], ext: r.chance(1, 2), broken: r.chance(1, 6), dirty_close: r.chance(1, 2), asks: r.chance(1, 3) };
    let mut r = ctx().rng(1);
    let world = gen_world(&mut r, ROOT, g.files);
    let mut ops = gen_ops(&mut r, ROOT, &world, &g);
    let which = r.below(4);
    for _ in 0..r.range(1, 3) {
        let at = r.below(ops.len() + 1);
        let op = match if which == 3 { r.below(3) } else { which } {
            0 => Op::VersionFile(r.below(3) as u8),
            1 => Op::Config(r.below(3) as u8),
            _ => Op::Refolder(if r.chance(1, 3) { 0 } else { 1 + delay(&mut r) }),
        };
        ops.insert(at, op);
    }
    against(world, ops, ("P26", "P26"));
}

/// Report differences between two servers holding the same texts.
pub fn compare(answers: &str, diags: &str, fin: &Final, re: &Final, how: &str) {
    let d = diffs(&fin.answers, &re.answers);
    // the core of a project without any file is loaded by its first edit only
    let empty = fin.disk.is_empty();
    let mut stale_edges = vec![];
    for (k, x, y) in d.iter().filter(|e| !e.0.ends_with("-dangling")) {
        if k.ends_with(" tree") && old_edge_places(x, y) {
            stale_edges.push((k, x, y));
            continue;
        }
        if empty && (k.ends_with(" graph") || k.ends_with(" stats")) {
            continue;
        }
        violation(answers, &class_of(k), format!("{k}: {how} {}", jdiff(x, y)));
    }
    // only open documents: what is shown about closed files is refreshed lazily by design
    let mut method_only = vec![];
    for p in &fin.open {
        let get = |f: &Final| f.quiet.get(p).cloned().unwrap_or(Value::Array(vec![]));
        let m = |v: &Value| v.as_array().unwrap().iter().filter(|d| d["code"] != "unresolved-method").cloned().collect::<Vec<_>>();
        let (x, y) = (get(fin), get(re));
        check(diags, "shown-diagnostics", diags == "P26" || m(&x) == m(&y), || format!("{p}: before saving, last published against what a fresh server publishes: {}", jdiff(&y, &x)));
        let get = |f: &Final| f.diags.get(p).cloned().unwrap_or(Value::Array(vec![]));
        let (x, y) = (get(fin), get(re));
        let m = |v: &Value| v.as_array().unwrap().iter().filter(|d| d["code"] != "unresolved-method").cloned().collect::<Vec<_>>();
        ctx().out.checks += 1;
        if m(&x) != m(&y) {
            violation(diags, "open-diagnostics", format!("{p}: last published {} but a fresh server publishes {}", short(&x), short(&y)));
        } else if x != y {
            let more = y.as_array().unwrap().iter().all(|d| x.as_array().unwrap().contains(d));
            let class = if more && missing_ancestor(&fin.disk) { "method-of-removed-ancestor" } else { "method-diagnostics" };
            method_only.push((class, format!("{p}: last published {} but a fresh server publishes {}", short(&x), short(&y))));
        }
    }
    // last: these classes carry a known finding
    method_only.sort_by_key(|e| e.0 == "method-of-removed-ancestor");
    for (c, m) in method_only {
        violation(if c == "method-of-removed-ancestor" { "P16" } else { diags }, c, m);
    }
    // an edge kept while its name was gone, seen once the name is back
    for (k, x, y) in stale_edges {
        violation("P13", "edge-to-removed-name", format!("{k}: {how} {}", jdiff(x, y)));
    }
    for (k, x, y) in d.iter().filter(|e| e.0.ends_with("-dangling")) {
        let more = y.as_array().is_some_and(|y| x.as_array().is_some_and(|x| y.iter().all(|e| x.contains(e))));
        violation(if more { "P13" } else { answers }, if more { "edge-to-removed-name" } else { "graph" }, format!("{k}: {how} {}", jdiff(x, y)));
    }
}
/// The trees differ only in that mixin edges of the first list further places.
fn old_edge_places(x: &Value, y: &Value) -> bool {
    match (x, y) {
        (Value::Object(a), Value::Object(b)) => a.len() == b.len() && a.iter().all(|(k, v)| b.get(k).is_some_and(|w| v == w || old_edge_places(v, w) || (k == "locations" && w.as_array().is_some_and(|w| v.as_array().is_some_and(|v| w.iter().all(|e| v.contains(e))))))),
        (Value::Array(a), Value::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(v, w)| v == w || old_edge_places(v, w)),
        _ => x == y,
    }
}
/// Some class names a superclass or mixin that no text defines.
pub fn missing_ancestor(eff: &BTreeMap<String, Src>) -> bool {
    let f = Facts::of(eff.iter());
    eff.values().flat_map(|s| &s.items).any(|i| match i {
        Item::Cls { id, incl, .. } => incl.is_some_and(|m| !f.defined(&format!("M{m}"))) || sup_of(*id).is_some_and(|c| !f.defined(&cls_path(c))),
        _ => false,
    })
}
fn class_of(k: &str) -> String {
    k.rsplit(' ').find(|s| s.contains('/') || !s.contains(|c: char| c.is_ascii_digit())).unwrap_or("other").trim_start_matches("textDocument/").to_string()
}
