//! Documents that contain anything at all: programs in the middle of being typed, words of Ruby
//! in no order, templates. Every request at every position is answered, nothing panics, and
//! once the text makes sense again so do the answers.

use crate::client::*;
use crate::core::rng::Rng;
use crate::core::vfs::FaultCfg;
use crate::fw::*;
use crate::index::{locs, Locs};
use crate::session::*;
use crate::world::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;

const ROOT: &str = "/sim/ws/p";

fn mangle(r: &mut Rng, t: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    for _ in 0..r.range(1, 6) {
        let i = r.below(c.len() + 1);
        match r.below(4) {
            0 => {
                let n = (i + r.range(1, 12)).min(c.len());
                c.drain(i..n);
            }
            1 => {
                c.truncate(i);
            }
            2 => {
                let w: Vec<char> = soup(r).chars().take(12).collect();
                c.splice(i..i, w);
            }
            _ => {
                if let Some(x) = c.get_mut(i) {
                    *x = *r.pick(&['@', '$', ':', '.', '(', '"', '\'', '#', '=', '<', '|', ' ', '\n', '\u{e9}', '\u{1f600}', '\r']);
                }
            }
        }
    }
    c.into_iter().collect()
}
fn text(r: &mut Rng, slot: u8, erb: bool) -> String {
    let mut t = match r.below(4) {
        0 => soup(r),
        1 => (0..r.range(1, 5)).map(|_| soup(r)).collect::<Vec<_>>().join("\n"),
        _ => {
            let s = Src::gen(r, slot).text();
            mangle(r, &s)
        }
    };
    if erb {
        t = t.lines().map(|l| if r.chance(1, 3) { format!("<p>{l}</p>\n") } else { format!("<{}{l} %>\n", ["%", "%=", "%#", "%-"][r.below(4)]) }).collect();
    }
    t
}
#[derive(Clone, Debug)]
enum E {
    Text(usize, String),
    Save(usize),
    Close(usize),
    Ask(usize, u64),
    Wait(u64),
}
const MORE: [&str; 9] = ["textDocument/signatureHelp", "textDocument/codeAction", "textDocument/prepareRename", "textDocument/rename", "textDocument/selectionRange", "textDocument/formatting", "textDocument/onTypeFormatting", "textDocument/semanticTokens/range", "ruby-fast-lsp/debug/lookup"];

fn ask(p: &str, t: &str, x: u64) -> (&'static str, Value) {
    let mut r = Rng::new(x);
    let lines: Vec<&str> = t.split('\n').collect();
    let l = r.below(lines.len() + 1);
    // beyond the end now and then
    let c = r.below(lines.get(l).map_or(0, |s| s.encode_utf16().count()) + 2);
    let pos = json!({"line": l, "character": c});
    let k = r.below(24);
    if k < 15 {
        let (m, mut q) = question(k as u8, p, None);
        if q.get("position").is_some() {
            q["position"] = pos;
        }
        return (m, q);
    }
    let td = json!({"uri": uri(p)});
    let m = MORE[k - 15];
    let range = json!({"start": {"line": 0, "character": 0}, "end": pos});
    (
        m,
        json!({"textDocument": td, "position": pos, "range": range, "positions": [pos], "newName": "zz", "ch": "\n", "query": "a", "options": {"tabSize": 2, "insertSpaces": true}, "context": {"diagnostics": []}, "name": "C0", "fqn": "C0"}),
    )
}

pub fn typing() {
    ctx().liveness = "P17".into();
    let mut r = ctx().rng(1);
    let mut world = gen_world(&mut r, ROOT, 2);
    // what the strange documents contain in the end belongs to names of its own
    let docs = [format!("{ROOT}/lib/w5.rb"), format!("{ROOT}/app/v.html.erb"), format!("{ROOT}/lib/w6.rb")];
    let last: Vec<Src> = vec![Src::gen(&mut r, 5), Src::empty(), Src::gen(&mut r, 6)];
    let mut ops: Vec<E> = vec![];
    for _ in 0..[6, 12, 25, 40][r.below(4)] {
        let d = [0, 0, 0, 1, 2][r.below(5)];
        ops.push(match r.below(10) {
            0..=4 => E::Text(d, text(&mut r, if d == 2 { 6 } else { 5 }, d == 1)),
            5..=7 => E::Ask(d, r.next()),
            8 if r.chance(1, 2) => E::Save(d),
            8 => E::Wait(delay(&mut r)),
            _ if r.chance(1, 4) => E::Close(d),
            _ => E::Ask(d, r.next()),
        });
    }
    let ops = ctx().filter_ops(ops);
    // other files refer to what the documents define
    for s in world.values_mut() {
        for id in 10..14 {
            if r.chance(1, 3) {
                s.items.push(Item::Top(Rf::Class(id)));
            }
        }
    }
    let on_disk = r.chance(1, 2);
    run(&world, &docs, &last, ops.clone(), on_disk);
    ctx().out.nontrivial = !ops.is_empty();
}

fn run(world: &BTreeMap<String, Src>, docs: &[String], last: &[Src], ops: Vec<(u32, E)>, on_disk: bool) {
    let mut v = base_vfs();
    for (p, s) in world {
        v.put(p, s.text().as_bytes());
    }
    let first = ops.iter().find_map(|e| if let E::Text(0, t) = &e.1 { Some(t.clone()) } else { None });
    if let (true, Some(t)) = (on_disk, &first) {
        v.put(&docs[0], t.as_bytes());
        ctx().op(format!("disk {}: {t:?}", docs[0]));
    }
    v.commit();
    start_sim(swarm(ctx().case.seed, 0), v, FaultCfg { shuffle_readdir: true, ..Default::default() });
    let pipes = start_server(&["ruby-fast-lsp", "--stdio"], 1 << 18, 1 << 18);
    let mut ed = Ed::new(Client::new(pipes, ctx().rng(9)), ctx().rng(8));
    for (f, s) in world {
        ed.files.insert(f.clone(), FileSt { disk: Some(s.clone()), buf: None, version: 0, touched: false });
    }
    if ed.c.initialize(&[ROOT.to_string()], opts()).is_none() {
        violation("P17", "no-initialize", "initialize was not answered".into());
        return;
    }
    let mut cur: Vec<Option<String>> = vec![None; docs.len()];
    let mut ver = 1;
    let mut asked: Vec<(i64, String)> = vec![];
    let mut put = |ed: &mut Ed, cur: &mut Vec<Option<String>>, d: usize, t: &str| {
        ver += 1;
        if cur[d].is_none() {
            ed.c.open(&docs[d], ver, t);
        } else {
            ed.c.change(&docs[d], ver, t);
        }
        cur[d] = Some(t.to_string());
    };
    for (i, op) in &ops {
        ctx().op(format!("op{i} {op:?}"));
        match op {
            E::Text(d, t) => put(&mut ed, &mut cur, *d, t),
            E::Save(d) if cur[*d].is_some() => ed.c.save(&docs[*d]),
            E::Close(d) if cur[*d].is_some() => {
                ed.c.close(&docs[*d]);
                cur[*d] = None;
            }
            E::Ask(d, x) => {
                if let Some(t) = cur[*d].clone() {
                    let (m, q) = ask(&docs[*d], &t, *x);
                    let id = ed.c.request(m, q.clone(), 0);
                    asked.push((id, format!("{m} {q}")));
                }
            }
            E::Wait(n) => {
                ed.c.run_for(*n, |_| false);
            }
            _ => {}
        }
    }
    for (id, what) in asked {
        let ok = ed.c.wait_answer(id, 600 * SEC).is_some();
        if !ok {
            let why = target_panics().join(" / ");
            violation("P17", "unanswered", format!("{what} was not answered {why}"));
            return;
        }
    }
    for p in target_panics() {
        violation("P17", "panic", p);
        return;
    }
    // the documents make sense again
    for d in [0, 2] {
        put(&mut ed, &mut cur, d, &last[d].text());
    }
    if cur[1].is_some() {
        put(&mut ed, &mut cur, 1, "");
    }
    for p in world.keys() {
        ed.open(p);
    }
    ed.settle();
    for p in [0, 2] {
        ed.c.save(&docs[p]);
    }
    ed.settle();
    let mut all = world.clone();
    all.insert(docs[0].clone(), last[0].clone());
    all.insert(docs[2].clone(), last[2].clone());
    let f = Facts::of(all.iter());
    for (p, s) in &all {
        for m in s.render().marks {
            let Mk::ConstRef(name) = &m.kind else { continue };
            let (me, q) = question(0, p, Some(&m));
            let Some(Ok(v)) = ed.c.call(me, q, 600 * SEC) else { continue };
            let got: Locs = locs(&v).into_iter().filter(|l| !l.0.starts_with("/sim/ext/")).collect();
            let want = f.defs.get(name).cloned().unwrap_or_default();
            check("P13", "definition-after", got == want, || format!("{p}:{}:{} definition of {name} once the documents make sense again: {got:?} instead of {want:?}", m.line, m.col));
        }
    }
    for p in target_panics() {
        violation("P17", "panic", p);
    }
}
