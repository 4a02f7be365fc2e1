//! Answers about a document that is being edited: each must be the answer to one text the
//! editor sent, never one older than an earlier answer already reflected, and the latest
//! once the server is quiet.

use crate::client::*;
use crate::core::sched::{sim, vnow};
use crate::core::vfs::FaultCfg;
use crate::edit::show;
use crate::fw::*;
use crate::session::*;
use crate::world::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Serialize, Deserialize, Clone)]
struct Rec {
    id: i64,
    path: String,
    kind: u8,
    params: Value,
    sent_seq: u64,
    answered_seq: u64,
    answer: Option<Value>,
    /// sent after the server had gone quiet
    quiet: bool,
}
#[derive(Serialize, Deserialize, Default)]
struct Log {
    /// per document: (message number, text) for each text sent; no text: closed
    texts: BTreeMap<String, Vec<(u64, Option<Src>)>>,
    recs: Vec<Rec>,
}
#[derive(Serialize, Deserialize, Default)]
struct Table {
    /// (document, text, question) -> answer
    t: Vec<(String, String, String, Value)>,
}
/// answered from the document's own text alone
const KINDS: &[u8] = &[1, 5, 8];

fn qkey(kind: u8, p: &Value) -> String {
    format!("{kind} {}", p["position"])
}

fn race(world: BTreeMap<String, Src>, ops: Vec<Op>) {
    let mut r = ctx().rng(3);
    let ops = ctx().filter_ops(ops);
    let mut v = base_vfs();
    for (p, s) in &world {
        v.put(p, s.text().as_bytes());
        ctx().op(format!("disk {p}:\n{}", s.text()));
    }
    v.commit();
    start_sim(swarm(ctx().case.seed, 0), v, FaultCfg { shuffle_readdir: true, ..Default::default() });
    sim().procs.fragment = r.chance(1, 2);
    let pipes = start_server(&["ruby-fast-lsp", "--stdio"], 1 << 16, if r.chance(1, 4) { 4096 } else { 1 << 18 });
    let mut ed = Ed::new(Client::new(pipes, ctx().rng(9)), ctx().rng(8));
    ed.c.reply_delay = if r.chance(1, 3) { (0, 30 * MS) } else { (0, 0) };
    for (p, s) in &world {
        ed.files.insert(p.clone(), FileSt { disk: Some(s.clone()), buf: None, version: 0, touched: false });
    }
    if ed.c.initialize(&[ROOT.to_string()], opts()).is_none() {
        violation("P17", "no-initialize", "initialize was not answered".into());
        return;
    }
    if r.chance(2, 3) {
        ed.settle();
    }
    let mut quiet: BTreeSet<i64> = BTreeSet::new();
    for (i, op) in &ops {
        ctx().op(format!("{}us op{i} {}", vnow() / 1000, show(op)));
        // a long wait is a pause until the server has nothing left to do
        if matches!(op, Op::Wait(n) if *n >= 2 * SEC) {
            ed.settle();
            continue;
        }
        ed.apply(op);
    }
    ed.settle();
    for p in ed.open_docs() {
        for k in KINDS {
            let before: BTreeSet<i64> = ed.asked.keys().cloned().collect();
            ed.ask(*k, &p, 0, None);
            quiet.extend(ed.asked.keys().filter(|i| !before.contains(i)));
            ed.settle();
        }
    }
    let mut log = Log { texts: ed.sent_texts.clone(), recs: vec![] };
    for (id, a) in &ed.asked {
        let rq = &ed.c.reqs[id];
        let (_, params) = question(a.kind, &a.path, a.mark.as_ref());
        let answer = match &rq.answered {
            Some(Ok(v)) => Some(norm(v)),
            Some(Err(e)) => {
                let code = e["code"].as_i64().unwrap_or(0);
                check("P14", "error", rq.cancelled || [-32802, -32801, -32800].contains(&code), || format!("request {id} {} about {} failed: {e}", rq.method, a.path));
                check("P14", "refused-when-quiet", !quiet.contains(id), || format!("request {id} {} about {} failed although nothing else was going on: {e}", rq.method, a.path));
                None
            }
            None => None,
        };
        log.recs.push(Rec { id: *id, path: a.path.clone(), kind: a.kind, params, sent_seq: a.sent_seq, answered_seq: rq.answered_seq, answer, quiet: quiet.contains(id) });
    }
    farewell(&mut ed.c, &mut ctx().rng(77));
    ctx().out.nontrivial = ops.len() >= 2;
    ctx().out.blob = serde_json::to_vec(&log).unwrap();
}

fn answers(log: &Log, world: &BTreeMap<String, Src>) {
    let mut v = base_vfs();
    for (p, s) in world {
        v.put(p, s.text().as_bytes());
    }
    v.commit();
    start_sim(calm(ctx().case.seed, 1), v, FaultCfg::default());
    let pipes = start_server(&["ruby-fast-lsp", "--stdio"], 1 << 20, 1 << 20);
    let mut ed = Ed::new(Client::new(pipes, ctx().rng(9)), ctx().rng(8));
    for (p, s) in world {
        ed.files.insert(p.clone(), FileSt { disk: Some(s.clone()), buf: None, version: 0, touched: false });
    }
    if ed.c.initialize(&[ROOT.to_string()], opts()).is_none() {
        ctx().out.harness_error = Some("reference server did not initialise".into());
        finish_run();
    }
    ed.settle();
    let mut out = Table::default();
    for (p, texts) in &log.texts {
        let mut qs: BTreeMap<String, (u8, Value)> = BTreeMap::new();
        for r in log.recs.iter().filter(|r| &r.path == p) {
            qs.insert(qkey(r.kind, &r.params), (r.kind, r.params.clone()));
        }
        ed.open(p);
        let mut done: BTreeSet<String> = BTreeSet::new();
        for s in texts.iter().filter_map(|t| t.1.as_ref()) {
            if !done.insert(s.text()) {
                continue;
            }
            ed.edit(p, s.clone());
            ed.c.settle(SEC, 3600 * SEC);
            for (k, (kind, q)) in &qs {
                let (m, _) = question(*kind, p, None);
                match ed.c.call(m, q.clone(), 600 * SEC) {
                    Some(Ok(v)) => out.t.push((p.clone(), s.text(), k.clone(), norm(&v))),
                    x => {
                        ctx().out.harness_error = Some(format!("reference answer to {m}: {x:?}"));
                        finish_run();
                    }
                }
            }
        }
    }
    ctx().out.blob = serde_json::to_vec(&out).unwrap();
}

pub fn live() {
    ctx().liveness = "P17".into();
    let mut r = ctx().rng(1);
    let n = [1, 1, 2, 3][r.below(4)];
    let world = gen_world(&mut r, ROOT, n);
    let paths: Vec<String> = world.keys().cloned().collect();
    let broken = r.chance(1, 4);
    let mut cur = world.clone();
    let mut open: BTreeSet<String> = BTreeSet::new();
    let mut ops = vec![];
    let want = [6, 12, 24, 40][r.below(4)];
    let fast = r.chance(1, 2);
    while ops.len() < want {
        let p = r.pick(&paths).clone();
        if !open.contains(&p) {
            open.insert(p.clone());
            ops.push(Op::Open(p));
            continue;
        }
        match r.below(20) {
            0..=5 => {
                let s = cur[&p].mutate(&mut r, broken);
                cur.insert(p.clone(), s.clone());
                ops.push(Op::Edit(p, s));
            }
            6 => {
                let mut v = vec![];
                let mut s = cur[&p].clone();
                for _ in 0..r.range(2, 6) {
                    s = s.mutate(&mut r, broken);
                    v.push(s.clone());
                }
                cur.insert(p.clone(), s);
                ops.push(Op::Burst(p, v));
            }
            7..=13 => {
                let k = KINDS[r.below(KINDS.len())];
                let cancel = if r.chance(1, 10) { Some(if r.chance(1, 2) { 0 } else { r.next() % MS }) } else { None };
                ops.push(Op::Ask(k, p, 0, cancel));
            }
            14 | 15 => {
                let d = if fast { [0, r.next() % 20_000, r.next() % MS, r.next() % (5 * MS)][r.below(4)] } else { delay(&mut r) };
                ops.push(Op::Wait(d));
            }
            16 => ops.push(Op::Save(p)),
            17 if r.chance(1, 3) => {
                open.remove(&p);
                ops.push(Op::Save(p.clone()));
                ops.push(Op::Close(p));
            }
            18 if r.chance(1, 3) => ops.push(Op::Wait(3 * SEC)),
            19 if r.chance(1, 3) => ops.push(Op::StallClient(r.next() % (50 * MS))),
            _ => {}
        }
    }
    let b = phase(0, || race(world.clone(), ops));
    let Ok(log) = serde_json::from_slice::<Log>(&b) else { return };
    let b = phase(1, || answers(&log, &world));
    let Ok(tab) = serde_json::from_slice::<Table>(&b) else { return };
    judge(&log, &tab);
}

fn judge(log: &Log, tab: &Table) {
    let table: BTreeMap<(&str, &str, &str), &Value> = tab.t.iter().map(|(p, t, q, v)| ((p.as_str(), t.as_str(), q.as_str()), v)).collect();
    let rendered: BTreeMap<&String, Vec<Option<String>>> = log.texts.iter().map(|(p, t)| (p, t.iter().map(|x| x.1.as_ref().map(|s| s.text())).collect())).collect();
    // what an answered request showed the document to be at least as new as
    let mut shown: Vec<(u64, String, usize, i64)> = vec![];
    let mut recs: Vec<&Rec> = log.recs.iter().filter(|r| r.answer.is_some()).collect();
    recs.sort_by_key(|r| r.answered_seq);
    for r in recs {
        let Some(texts) = log.texts.get(&r.path) else { continue };
        let ans = r.answer.as_ref().unwrap();
        let key = qkey(r.kind, &r.params);
        let last = texts.iter().rposition(|t| t.0 <= r.sent_seq);
        let Some(last) = last else { continue };
        let floor = shown.iter().filter(|s| s.1 == r.path && s.0 <= r.sent_seq).map(|s| s.2).max().unwrap_or(0);
        let floor = if r.quiet { last } else { floor };
        let fits: Vec<usize> = texts
            .iter()
            .enumerate()
            .filter(|(i, t)| {
                t.0 <= r.answered_seq
                    && match &rendered[&r.path][*i] {
                        None => true,
                        Some(x) => table.get(&(r.path.as_str(), x.as_str(), key.as_str())).is_some_and(|v| *v == ans),
                    }
            })
            .map(|e| e.0)
            .collect();
        // before the document is open there is nothing to answer from
        let unopened = floor == 0 && !r.quiet && (ans.is_null() || ans.as_array().is_some_and(|a| a.is_empty()) || ans.get("data").and_then(|d| d.as_array()).is_some_and(|d| d.is_empty()));
        ctx().out.checks += 1;
        let (m, _) = question(r.kind, &r.path, None);
        let all = fits.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(", ");
        check("P14", "no-such-text", !fits.is_empty() || unopened, || format!("request {} {m} about {}: the answer fits none of the {} texts sent: {}", r.id, r.path, texts.len(), short(ans)));
        let ok = fits.iter().any(|i| *i >= floor);
        check("P14", if r.quiet { "stale-when-quiet" } else { "went-back" }, ok || unopened || fits.is_empty(), || format!("request {} {m} about {}: the answer fits only text {all}, but text {floor} {}", r.id, r.path, if r.quiet { "is the last one sent and the server is quiet" } else { "had been answered from before" }));
        if let Some(i) = fits.iter().find(|i| **i >= floor) {
            shown.push((r.answered_seq, r.path.clone(), *i, r.id));
        }
    }
}
