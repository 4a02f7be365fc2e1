//! The end of the conversation: the editor says goodbye, closes the connection, crashes, or
//! dies without anybody closing its pipes. The server must go away then, and not before.

use crate::client::*;
use crate::core::sched::{sim, vnow};
use crate::core::vfs::FaultCfg;
use crate::edit::show;
use crate::fw::*;
use crate::session::*;
use crate::world::*;
use serde_json::{json, Value};

pub const EDITOR_PID: i32 = 40_000;

/// `how`: 0 shutdown + exit and the connection closed; 1 the connection closed;
/// 2 the editor is gone and everything closed; 3 gone, its output pipe to the server held
/// open by somebody and nobody reads; 4 gone, the server's input held open, its output closed;
/// 5 exit without shutdown and the connection closed; 6 shutdown answered, then gone as in 3
pub fn end() {
    ctx().liveness = "P24".into();
    let mut r = ctx().rng(1);
    let g = GenCfg { files: r.range(1, 3), ops: [0, 1, 3, 8][r.below(4)], ext: r.chance(1, 3), broken: r.chance(1, 6), dirty_close: r.chance(1, 2), asks: true };
    let world = gen_world(&mut r, ROOT, g.files);
    let ops = ctx().filter_ops(gen_ops(&mut r, ROOT, &world, &g));
    let nz = [0, 0, 20, 120][r.below(4)];
    let how = r.below(7);
    let monitored = how >= 3 && how != 5 || r.chance(1, 2);
    let foreign = monitored && r.chance(1, 4);
    let settle_first = r.chance(1, 3);
    let wait_before = [0, 0, r.next() % (20 * MS), r.next() % SEC, r.next() % (30 * SEC)][r.below(5)];
    let last_words = r.below(4);
    let mut v = base_vfs();
    for (p, s) in &world {
        v.put(p, s.text().as_bytes());
        ctx().op(format!("disk {p}:\n{}", s.text()));
    }
    for i in 0..nz {
        v.put(&format!("{ROOT}/lib/z/z{i}.rb"), format!("Z{i} = {i}\n").as_bytes());
    }
    v.commit();
    let mut cfg = swarm(ctx().case.seed, 0);
    // a stall that lasts until the next look at the editor's process, each time, would make
    // every bound on time meaningless
    cfg.stall_max_ns = cfg.stall_max_ns.min(300 * MS);
    start_sim(cfg, v, FaultCfg { shuffle_readdir: true, ..Default::default() });
    sim().procs.fragment = r.chance(1, 2);
    sim().procs.alive_pids.insert(EDITOR_PID);
    if foreign {
        // the editor runs as another user: the server may not signal it
        sim().procs.foreign_pids.insert(EDITOR_PID);
    }
    let pipes = start_server(&["ruby-fast-lsp", "--stdio"], 1 << 16, [512, 4096, 1 << 18][r.below(3)]);
    let mut ed = Ed::new(Client::new(pipes, ctx().rng(9)), ctx().rng(8));
    if monitored {
        ed.c.pid = Some(EDITOR_PID);
    }
    for (p, s) in &world {
        ed.files.insert(p.clone(), FileSt { disk: Some(s.clone()), buf: None, version: 0, touched: false });
    }
    if ed.c.initialize(&[ROOT.to_string()], opts()).is_none() {
        violation("P17", "no-initialize", "initialize was not answered".into());
        return;
    }
    if settle_first {
        ed.settle();
    }
    for (i, op) in &ops {
        ctx().op(format!("{}us op{i} {}", vnow() / 1000, show(op)));
        ed.apply(op);
    }
    ed.run(wait_before);
    let early = server_exit().is_some() || ed.c.eof;
    check("P24", "left-early", !early, || format!("the server ended ({:?}) while the editor was there; stderr: {}", server_exit(), tail(&server_stderr())));
    if early {
        return;
    }
    // something still under way when the end comes
    let c = &mut ed.c;
    for k in 0..last_words {
        let p = world.keys().next().unwrap();
        let (m, q) = question([1, 9, 10, 3][k % 4], p, None);
        c.request(m, q, 0);
    }
    ctx().op(format!("{}us the end: {}", vnow() / 1000, ["shutdown, exit, hang up", "hang up", "editor crashes, all closed", "editor dies, input stays open, output is not read", "editor dies, input stays open, output closed", "exit without shutdown, hang up", "shutdown, then as 3"][how]));
    // from here on the machine itself works normally
    sim().cfg.mask_stall = true;
    let t0 = vnow();
    let mut want = None;
    match how {
        0 => {
            let a = c.call("shutdown", Value::Null, 600 * SEC);
            check("P24", "shutdown", matches!(a, Some(Ok(Value::Null))), || format!("shutdown was answered {a:?}"));
            c.notify("exit", Value::Null);
            c.hangup();
            want = Some(0);
        }
        1 => c.hangup(),
        2 => {
            sim().procs.alive_pids.remove(&EDITOR_PID);
            c.hangup();
            sim().pipe_close_r(c.out);
        }
        5 => {
            c.notify("exit", Value::Null);
            c.hangup();
        }
        _ => {
            if how == 6 {
                c.call("shutdown", Value::Null, 600 * SEC);
            }
            sim().procs.alive_pids.remove(&EDITOR_PID);
            if how == 4 {
                sim().pipe_close_r(c.out);
            }
        }
    }
    let gone = |_: &mut Client| server_exit().is_some();
    if matches!(how, 0 | 1 | 5) {
        c.run_for(300 * SEC, gone);
    } else {
        // nobody reads any more
        for _ in 0..300 {
            if server_exit().is_some() {
                break;
            }
            crate::fw::workers::vsleep(SEC);
        }
    }
    let took = (vnow() - t0) / SEC;
    check("P24", "still-there", server_exit().is_some(), || format!("the server is still there {took} s after the editor was gone; panics {:?}; threads: {}; stderr: {}", target_panics(), sim().describe_threads(), tail(&server_stderr())));
    if let Some(w) = want {
        check("P24", "exit-code", server_exit() == Some(w), || format!("exit code {:?} after shutdown and exit; stderr: {}", server_exit(), tail(&server_stderr())));
        for p in target_panics() {
            violation("P17", "panic", p);
        }
    }
    ctx().out.nontrivial = true;
    let _ = json!(null);
}
