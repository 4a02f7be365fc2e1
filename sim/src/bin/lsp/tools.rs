//! External linter and formatter programs that hang, crash, answer nonsense, answer slowly,
//! write before they read, never read, or do not exist.

use crate::client::*;
use crate::core::proc::{ProgOut, SpawnReq};
use crate::core::rng::{draw, Rng};
use crate::core::sched::{sim, vnow};
use crate::core::vfs::FaultCfg;
use crate::fw::*;
use crate::session::*;
use serde_json::{json, Value};


#[derive(Clone, Copy, Debug, PartialEq)]
enum B {
    Good,
    Slow,
    TooSlow,
    Missing,
    Denied,
    Crash,
    Signal,
    Garbage,
    NonUtf8,
    Empty,
    HangAfterRead,
    HangClosed,
    Deaf,
    Eager,
    IgnoreStdin,
    SlowRead,
    ManyErr,
    TooSlowRead,
}
const ALL: &[B] = &[
    B::Slow, B::TooSlow, B::Missing, B::Denied, B::Crash, B::Signal, B::Garbage, B::NonUtf8, B::Empty, B::HangAfterRead,
    B::HangClosed, B::Deaf, B::Eager, B::IgnoreStdin, B::SlowRead, B::ManyErr, B::TooSlowRead,
];
static mut SEED: u64 = 0;
/// share of misbehaving runs, of 8
static mut MISCHIEF: u64 = 0;
/// the one misbehaviour of this case, if it has only one
static mut ONLY: Option<usize> = None;

fn behaviour(nth: u64) -> B {
    unsafe {
        let d = draw(SEED, 71, nth);
        if d % 8 >= MISCHIEF {
            return B::Good;
        }
        ALL[ONLY.unwrap_or((d >> 8) as usize % ALL.len())]
    }
}
fn hash(s: &[u8]) -> u64 {
    s.iter().fold(0xcbf2_9ce4_8422_2325u64, |h, b| (h ^ *b as u64).wrapping_mul(0x1000_0000_01b3))
}
fn is_lint(q: &SpawnReq) -> bool {
    q.argv.iter().any(|a| a == "json")
}
fn prefix(lint: bool) -> Vec<u8> {
    if lint { " \n".repeat(100_000).into_bytes() } else { "# early\n".repeat(25_000).into_bytes() }
}
fn offence(text: &[u8]) -> String {
    format!("seen {:016x}", hash(text))
}
fn report(text: &[u8]) -> String {
    json!({"files": [{"path": "x", "offenses": [{"severity": "convention", "message": offence(text), "cop_name": "Sim/Seen", "correctable": true,
        "location": {"start_line": 1, "start_column": 1, "last_line": 1, "last_column": 1}}]}]})
    .to_string()
}
fn formatted(text: &[u8]) -> Vec<u8> {
    let mut v = format!("# formatted {:016x}\n", hash(text)).into_bytes();
    v.extend_from_slice(text);
    v
}
fn program(q: &SpawnReq, input: &[u8]) -> ProgOut {
    let lint = is_lint(q);
    let b = behaviour(q.nth);
    let good = if lint { report(input).into_bytes() } else { formatted(input) };
    let d = unsafe { draw(SEED, 72, q.nth) };
    let mut o = ProgOut { stdout: good, status: if d & 1 == 1 { 1 << 8 } else { 0 }, delay_ns: (d >> 3) % (20 * MS), ..Default::default() };
    match b {
        B::Good | B::Missing | B::Denied => {}
        B::Slow => o.delay_ns = (d >> 3) % (8 * SEC),
        B::TooSlow => o.delay_ns = 11 * SEC + (d >> 3) % (200 * SEC),
        B::Crash => {
            o.status = 2 << 8;
            o.stderr = b"rubocop: internal error\n".to_vec();
        }
        B::Signal => o.status = 11,
        B::Garbage => o.stdout = b"not json\n".to_vec(),
        B::NonUtf8 => o.stdout = vec![0x22, 0xff, 0xfe, 0x22],
        B::Empty => o.stdout = vec![],
        B::HangAfterRead => {
            o.hang = true;
            o.hang_after_read = true;
        }
        B::HangClosed => o.hang = true,
        B::Deaf => {
            o.hang = true;
            o.deaf = true;
        }
        B::Eager => o.early_stdout = prefix(lint),
        B::IgnoreStdin => {
            o.ignore_stdin = true;
            o.stdout = if lint { br#"{"files": []}"#.to_vec() } else { vec![] };
        }
        B::SlowRead => o.read_delay_ns = 20 * MS,
        B::TooSlowRead => o.read_delay_ns = 3 * SEC,
        B::ManyErr => o.stderr = b"warning\n".repeat(40_000),
    }
    o
}
fn resolve(q: &SpawnReq) -> Result<crate::core::proc::Program, i32> {
    match q.prog.as_str() {
        "lint" | "fmt" | "bundle" => match behaviour(q.nth) {
            B::Missing => Err(libc::ENOENT),
            B::Denied => Err(libc::EACCES),
            _ => Ok(program),
        },
        _ => Err(libc::ENOENT),
    }
}
/// what a run with this input and behaviour must come to; None: nothing
fn outcome(b: B, lint: bool, text: &str) -> Vec<Option<Vec<u8>>> {
    let t = text.as_bytes();
    let good = if lint { offence(t).into_bytes() } else { formatted(t) };
    let chunks = t.len().div_ceil(4096) as u64;
    match b {
        B::Good | B::Slow | B::ManyErr => vec![Some(good)],
        B::SlowRead => vec![Some(good)],
        B::TooSlowRead if chunks <= 2 => vec![Some(good)],
        B::TooSlowRead if chunks <= 4 => vec![Some(good), None],
        B::Eager => vec![Some(if lint { good } else { [prefix(false), good].concat() })],
        B::Garbage if !lint => vec![Some(b"not json\n".to_vec())],
        B::IgnoreStdin if !lint => vec![None],
        _ => vec![None],
    }
}

#[derive(Clone, Debug)]
enum T {
    Open(usize),
    Change(usize, String),
    Save(usize),
    Close(usize),
    Format(usize),
    Fix(usize),
    Ask(usize),
    Wait(u64),
    Quiet,
}
fn text(r: &mut Rng, n: usize) -> String {
    let mut s = format!("# é version {n}\n");
    for i in 0..[0, 0, 3, 60, 900][r.below(5)] {
        s.push_str(&format!("# {i} this line says nothing about the program this line says nothing about the program\n"));
    }
    s.push_str(&format!("class T{n}\n  def m\n  end\nend\n"));
    if r.chance(1, 5) {
        s.push_str("def (\n");
    }
    match r.below(4) {
        0 => s.push_str("# 😀 é"),
        1 => s = s.replace('\n', "\r\n"),
        2 => s.push_str("T0"),
        _ => {}
    }
    s
}
/// end position of the text, in UTF-16 units
fn end_of(t: &str) -> (u64, u64) {
    let l = t.matches('\n').count() as u64;
    let last = t.rsplit('\n').next().unwrap_or("");
    (l, last.encode_utf16().count() as u64)
}
fn whole(e: &Value, t: &str) -> bool {
    let (l, c) = end_of(t);
    let (sl, sc) = (e["range"]["start"]["line"].as_u64(), e["range"]["start"]["character"].as_u64());
    let (el, ec) = (e["range"]["end"]["line"].as_u64().unwrap_or(0), e["range"]["end"]["character"].as_u64().unwrap_or(0));
    // an end beyond the text means its end
    sl == Some(0) && sc == Some(0) && (el, ec) >= (l, c)
}

struct Doc {
    path: String,
    disk: String,
    buf: Option<String>,
    version: i64,
    sent: Vec<String>,
    /// the last message about it: 0 closed, 1 opened or saved, 2 changed
    last: u8,
    lints: usize,
}

pub fn tools() {
    ctx().liveness = "P25".into();
    let mut r = ctx().rng(1);
    unsafe {
        SEED = ctx().case.seed;
        MISCHIEF = [0, 2, 4, 7, 8][r.below(5)];
        ONLY = if r.chance(1, 2) { Some(r.below(ALL.len())) } else { None };
    }
    let n = r.range(1, 3);
    let mut docs: Vec<Doc> = (0..n).map(|i| Doc { path: format!("{ROOT}/lib/d{i}.rb"), disk: text(&mut r, i), buf: None, version: 0, sent: vec![], last: 0, lints: 0 }).collect();
    let linter = ["none", "rubocop", "rubocop", "standard"][r.below(4)];
    let formatter = ["none", "rubocop", "standard", "rubocop"][r.below(4)];
    let custom = r.chance(2, 3);
    let mut ops = vec![];
    let want = [3, 8, 16, 30][r.below(4)];
    while ops.len() < want {
        let d = r.below(n);
        ops.push(match r.below(16) {
            0 | 1 => T::Open(d),
            2..=4 => {
                let k = 10 + ops.len();
                T::Change(d, text(&mut r, k))
            }
            5 | 6 => T::Save(d),
            7 if r.chance(1, 2) => T::Close(d),
            8 | 9 => T::Format(d),
            10 | 11 => T::Fix(d),
            12 => T::Ask(d),
            13 => T::Quiet,
            14 => T::Wait([0, r.next() % (5 * MS), r.next() % (500 * MS), r.next() % (20 * SEC)][r.below(4)]),
            _ => continue,
        });
    }
    let ops = ctx().filter_ops(ops);
    let mut v = base_vfs();
    for d in &docs {
        v.put(&d.path, d.disk.as_bytes());
    }
    v.commit();
    let mut cfg = swarm(ctx().case.seed, 0);
    // the tools' own delays matter here, on a machine that is not so slow that every
    // tool runs into its time limit
    cfg.stall_pm = 0;
    cfg.ns_per_edge = cfg.ns_per_edge.min(20);
    start_sim(cfg, v, FaultCfg { shuffle_readdir: true, ..Default::default() });
    sim().procs.fragment = r.chance(1, 2);
    sim().procs.resolver = Some(resolve);
    let pipes = start_server(&["ruby-fast-lsp", "--stdio"], 1 << 18, 1 << 18);
    let mut c = Client::new(pipes, ctx().rng(9));
    let mut o = json!({"extensionPath": "/sim/ext", "linter": linter, "formatter": formatter});
    if custom {
        o["linterCommand"] = json!(["lint"]);
        o["formatterCommand"] = json!(["fmt", "--x"]);
    }
    ctx().op(format!("options {o} mischief {} only {:?}", unsafe { MISCHIEF }, unsafe { ONLY.map(|i| ALL[i]) }));
    if c.initialize(&[ROOT.to_string()], o).is_none() {
        violation("P17", "no-initialize", "initialize was not answered".into());
        return;
    }
    if r.chance(2, 3) {
        c.settle(3 * SEC, 3600 * SEC);
    }
    // (request, document, spawns before, quiet, fix)
    let mut asked: Vec<(i64, usize, usize, bool, bool)> = vec![];
    // outlines of documents no tool has anything to do with
    let mut plain: Vec<i64> = vec![];
    let mut quiet = false;
    for (i, op) in &ops {
        ctx().op(format!("{}us op{i} {}", vnow() / 1000, show(op)));
        let was_quiet = std::mem::replace(&mut quiet, false);
        match op {
            T::Open(d) => {
                let d = &mut docs[*d];
                if d.buf.is_none() {
                    d.buf = Some(d.disk.clone());
                    d.sent.push(d.disk.clone());
                    d.version = 1;
                    d.last = 1;
                    d.lints += 1;
                    c.open(&d.path, 1, &d.disk.clone());
                }
            }
            T::Change(d, t) => {
                let d = &mut docs[*d];
                if d.buf.is_some() {
                    d.version += 1;
                    d.buf = Some(t.clone());
                    d.sent.push(t.clone());
                    d.last = 2;
                    c.change(&d.path, d.version, t);
                }
            }
            T::Save(d) => {
                let d = &mut docs[*d];
                if let Some(b) = d.buf.clone() {
                    write_disk(&d.path, Some(&b));
                    d.disk = b;
                    d.last = 1;
                    d.lints += 1;
                    c.save(&d.path);
                }
            }
            T::Close(d) => {
                let d = &mut docs[*d];
                if d.buf.as_ref() == Some(&d.disk) {
                    d.buf = None;
                    d.last = 0;
                    c.close(&d.path);
                }
            }
            T::Format(d) | T::Fix(d) => {
                let fix = matches!(op, T::Fix(_));
                let doc = &docs[*d];
                if doc.buf.is_none() {
                    continue;
                }
                let before = sim().procs.spawns.len();
                let td = json!({"uri": uri(&doc.path)});
                let id = if fix {
                    let ds: Vec<Value> = c.diags.get(&uri(&doc.path)).map(|x| x.1.clone()).unwrap_or_default();
                    c.request("textDocument/codeAction", json!({"textDocument": td, "range": {"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": 1}}, "context": {"diagnostics": ds}}), 0)
                } else {
                    c.request("textDocument/formatting", json!({"textDocument": td, "options": {"tabSize": 2, "insertSpaces": true}}), 0)
                };
                asked.push((id, *d, before, was_quiet, fix));
                if was_quiet {
                    let t0 = vnow();
                    c.run_for(600 * SEC, |c| c.reqs[&id].answered.is_some());
                    let took = (vnow() - t0) / MS;
                    check("P25", "late", c.reqs[&id].answered.is_some() && took < 13_000, || format!("{} took {took} ms with {:?} although nothing else was going on (its limit is 10 s)", c.reqs[&id].method, behaviour(before as u64)));
                    let text = docs[*d].buf.clone().unwrap();
                    judge_quiet(&c, id, before, fix, &text);
                }
            }
            T::Ask(d) => {
                let doc = &docs[*d];
                let id = c.request("textDocument/documentSymbol", json!({"textDocument": {"uri": uri(&doc.path)}}), 0);
                if doc.lints == 0 {
                    plain.push(id);
                }
            }
            T::Wait(t) => {
                c.run_for(*t, |_| false);
            }
            T::Quiet => {
                // tools may be running for as long as their time limit, one after another
                for _ in 0..ops.len() {
                    c.run_for(11 * SEC, |_| false);
                    quiet = c.settle(3 * SEC, 3600 * SEC) && running().is_empty();
                    if quiet {
                        break;
                    }
                }
            }
        }
    }
    // every run has its limit; they are queued one after another at worst
    let runs = asked.len() as u64 + docs.iter().map(|d| d.lints as u64).sum::<u64>();
    for _ in 0..runs + 2 {
        c.run_for(11 * SEC, |_| false);
    }
    let open: Vec<(i64, String)> = c.reqs.values().filter(|r| r.answered.is_none()).map(|r| (r.id, r.method.clone())).collect();
    check("P25", "unanswered", open.is_empty(), || format!("requests {open:?} have no answer long after every tool's time limit; children {:?}", running()));
    if !open.is_empty() {
        return;
    }
    c.settle(3 * SEC, 3600 * SEC);
    let busy = running();
    check("P25", "child-left", busy.is_empty(), || format!("the server is quiet, but its child processes are still there: {busy:?}"));
    for id in &plain {
        let took = (c.reqs[id].answered_at - c.reqs[id].sent_at) / MS;
        check("P25", "held-up", took < 5_000, || format!("an outline request for a document no tool was run for took {took} ms"));
    }
    for (id, d, _, _, fix) in &asked {
        let rq = &c.reqs[id];
        let Some(edits) = edits(rq, &docs[*d].path) else { continue };
        let ok = docs[*d].sent.iter().any(|t| {
            edits.len() == 1
                && whole(&edits[0], t)
                && [B::Good, B::Eager, B::Garbage].iter().any(|b| outcome(*b, false, t)[0].as_deref() == edits[0]["newText"].as_str().map(|s| s.as_bytes()))
        });
        check("P25", "wrong-edit", ok, || format!("{} of {}: the edit is not what the tool made of any text sent: {}", if *fix { "fix" } else { "formatting" }, docs[*d].path, brief(&edits)));
    }
    for d in &docs {
        let Some(buf) = &d.buf else { continue };
        let rel = d.path.strip_prefix(&format!("{ROOT}/")).unwrap();
        let shown: Vec<Value> = c.diags.get(&uri(&d.path)).map(|x| x.1.clone()).unwrap_or_default();
        let lint: Vec<String> = shown.iter().filter(|x| x["code"] == "Sim/Seen").map(|x| x["message"].as_str().unwrap_or("").to_string()).collect();
        let mine: Vec<SpawnReq> = sim().procs.spawns.iter().filter(|q| is_lint(q) && q.argv.last().is_some_and(|a| a == rel)).cloned().collect();
        let want = if d.last == 2 || linter == "none" {
            vec![None]
        } else {
            check("P25", "not-linted", !mine.is_empty(), || format!("{} was opened or saved and never given to the linter", d.path));
            mine.last().map_or(vec![None], |q| outcome(behaviour(q.nth), true, buf))
        };
        let ok = want.iter().any(|w| match w {
            None => lint.is_empty(),
            Some(m) => lint.len() == 1 && lint[0].as_bytes() == &m[..],
        });
        check("P25", "findings", ok, || format!("{}: findings shown {lint:?}, but the last linter run ({:?}) on the last {} text gives {:?}", d.path, mine.last().map(|q| behaviour(q.nth)), if d.last == 2 { "changed" } else { "saved" }, want.iter().map(|w| w.as_ref().map(|m| String::from_utf8_lossy(m).into_owned())).collect::<Vec<_>>()));
        // whatever became of the linter, the server's own findings are there
        let broken = buf.contains("def (");
        let own = shown.iter().any(|x| x["code"].is_null() && x["severity"] == 1);
        check("P25", "own-findings", broken == own, || format!("{}: the text {} a syntax error, diagnostics shown: {}", d.path, if broken { "has" } else { "does not have" }, brief(&shown)));
    }
    farewell(&mut c, &mut ctx().rng(77));
    ctx().out.nontrivial = !sim().procs.spawns.is_empty();
}

fn judge_quiet(c: &Client, id: i64, before: usize, fix: bool, text: &str) {
    let rq = &c.reqs[&id];
    let n = sim().procs.spawns.len();
    check("P25", "spawn-count", n <= before + 1, || format!("{} ran {} programs", rq.method, n - before));
    let got = edits(rq, "");
    let want = if n == before { vec![None] } else { outcome(behaviour(before as u64), false, text) };
    let ok = want.iter().any(|w| match (w, &got) {
        (None, None) => true,
        (Some(w), Some(e)) => e.len() == 1 && whole(&e[0], text) && e[0]["newText"].as_str().map(|s| s.as_bytes()) == Some(&w[..]),
        _ => false,
    });
    check("P25", "result", ok, || format!("{} with the tool behaving as {:?} on a text of {} bytes: got {}, wanted {}", if fix { "fix" } else { "formatting" }, behaviour(before as u64), text.len(), got.as_ref().map_or("nothing".into(), |e| brief(e)), want.iter().map(|w| w.as_ref().map_or("nothing".to_string(), |w| format!("{} bytes", w.len()))).collect::<Vec<_>>().join(" or ")));
}
fn running() -> Vec<String> {
    sim().procs.children.iter().filter(|(_, c)| c.status.is_none()).map(|(p, c)| format!("{p} {} ({:?}, killed {:?})", c.prog, sim().procs.spawns.iter().find(|q| q.pid == *p).map(|q| behaviour(q.nth)), c.killed)).collect()
}
fn edits(rq: &Req, path: &str) -> Option<Vec<Value>> {
    let _ = path;
    match &rq.answered {
        Some(Ok(Value::Null)) | Some(Err(_)) | None => None,
        Some(Ok(v)) if rq.method == "textDocument/formatting" => v.as_array().cloned(),
        Some(Ok(v)) => {
            let e = &v[0]["edit"]["changes"];
            e.as_object().and_then(|m| m.values().next()).and_then(|x| x.as_array()).cloned()
        }
    }
}
fn brief(v: &[Value]) -> String {
    Value::Array(v.to_vec()).to_string().chars().take(300).collect()
}
fn show(t: &T) -> String {
    match t {
        T::Change(d, t) => format!("Change({d}, {} bytes {:?})", t.len(), t.chars().take(30).collect::<String>()),
        o => format!("{o:?}"),
    }
}
