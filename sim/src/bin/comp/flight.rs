//! Single-flight product caches under concurrent callers, failing/panicking producers and
//! cancelled callers.

use crate::core::sched::{sim, vnow};
use crate::core::vfs::{FaultCfg, Vfs};
use crate::fw::workers::*;
use crate::fw::*;
use rfl_inst::*;
use std::collections::BTreeSet;
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Ok,
    Err,
    Panic,
}
#[derive(Clone, Debug)]
struct Call {
    worker: usize,
    key: usize,
    delay_ms: u64,
    build_ms: u64,
    how: How,
    /// the caller gives up after this long
    give_up_ms: Option<u64>,
    weight: u64,
    /// on failure, ask again immediately
    retry: bool,
}
struct Prod {
    key: usize,
    how: How,
    finished: bool,
}
#[derive(Default)]
struct Model {
    prods: Vec<Prod>,
    running: Vec<u32>,
    succeeded: Vec<Option<u64>>,
    /// failed productions some caller has already been told about
    told: BTreeSet<u64>,
    done: usize,
    unbounded: bool,
    failures_told: u64,
    calls: u64,
    joins: u64,
}
static mut M: *mut Model = std::ptr::null_mut();
fn m() -> &'static mut Model {
    unsafe { &mut *M }
}

fn begin(key: usize, how: How) -> u64 {
    let id = m().prods.len() as u64;
    m().prods.push(Prod { key, how, finished: false });
    m().running[key] += 1;
    if m().running[key] > 1 {
        violation("P06", "two-producers", format!("two producers ran at the same time for key {key}"));
    }
    if m().unbounded && m().succeeded[key].is_some() {
        violation("P06", "produced-again", format!("key {key} was produced again although a retained product exists"));
    }
    ctx().out.checks += 1;
    id
}
fn end(id: u64) {
    let k = m().prods[id as usize].key;
    m().prods[id as usize].finished = true;
    m().running[k] -= 1;
    if m().prods[id as usize].how == How::Ok {
        m().succeeded[k] = Some(id);
    }
}
/// check one caller's answer
fn answered(key: usize, res: Result<&Val, &str>, told_before: &BTreeSet<u64>, prods_before: usize) {
    ctx().out.checks += 1;
    match res {
        Ok(v) => {
            let ok = v.key == key && m().prods[v.prod as usize].how == How::Ok && m().prods[v.prod as usize].finished;
            check("P06", "wrong-value", ok, || format!("caller for key {key} received production {} of key {}", v.prod, v.key));
        }
        Err(e) => {
            m().failures_told += 1;
            // "prod=N" is in every error text the harness produces; panics carry no payload
            if let Some(n) = e.split("prod=").nth(1).and_then(|x| x.split(|c: char| !c.is_ascii_digit()).next()).and_then(|x| x.parse::<u64>().ok()) {
                let p = &m().prods[n as usize];
                check("P06", "wrong-error", p.key == key && p.how != How::Ok, || format!("caller for key {key} received an error of production {n} of key {}", p.key));
                check("P07", "stale-failure", !told_before.contains(&n), || {
                    format!("a call for key {key} was answered with the failure of production {n}, which another caller had already been told about before this call began: the failure was cached instead of retried")
                });
                m().told.insert(n);
            } else {
                // a panicking producer: some panicking production of this key must have been
                // running or started since the call began
                let any = m().prods.iter().enumerate().any(|(i, p)| p.key == key && p.how == How::Panic && (i >= prods_before || !told_before.contains(&(i as u64))));
                check("P07", "stale-failure", any, || format!("a call for key {key} failed ({e}) although every failing production of that key had already been reported before the call began"));
            }
        }
    }
}

fn plan(nworkers: usize, nkeys: usize) -> Vec<(u32, Call)> {
    let c = ctx();
    let mut r = c.rng(1);
    let n = r.range(4, 24);
    let fail_pm = [0usize, 2, 4][r.below(3)];
    let raw: Vec<Call> = (0..n)
        .map(|_| Call {
            worker: r.below(nworkers),
            key: r.below(nkeys),
            delay_ms: [0, 0, 0, 1, 3, 10][r.below(6)],
            build_ms: [0, 0, 1, 5, 20][r.below(5)],
            how: if r.below(10) < fail_pm { [How::Err, How::Err, How::Panic][r.below(3)] } else { How::Ok },
            give_up_ms: if r.chance(1, 6) { Some([0u64, 1, 4][r.below(3)]) } else { None },
            weight: [1u64, 3, 10, 40][r.below(4)],
            retry: r.chance(1, 2),
        })
        .collect();
    c.filter_ops(raw)
}

fn setup(nkeys: usize, unbounded: bool) {
    let model = Model { running: vec![0; nkeys], succeeded: vec![None; nkeys], unbounded, ..Default::default() };
    unsafe { M = Box::into_raw(Box::new(model)) };
    start_sim(swarm(ctx().case.seed, 0), Vfs::new(), FaultCfg::default());
}

async fn produce(key: usize, id_how: (How, u64, u64)) -> Result<Val, String> {
    let (how, build_ms, weight) = id_how;
    struct End(u64);
    impl Drop for End {
        fn drop(&mut self) {
            end(self.0)
        }
    }
    let id = begin(key, how);
    let _e = End(id);
    if build_ms > 0 {
        tokio::time::sleep(Duration::from_millis(build_ms)).await;
    } else {
        tokio::task::yield_now().await;
    }
    match how {
        How::Ok => Ok(Val { prod: id, key, weight }),
        How::Err => Err(format!("failed prod={id} end")),
        How::Panic => panic!("SIMPANIC prod={id} end"),
    }
}

fn producer(key: usize, p: (How, u64, u64)) -> Producer {
    Box::new(move || Box::pin(produce(key, p)) as Fut)
}

/// the async caches
pub fn async_flight() {
    ctx().liveness = "P07".into();
    let mut r = ctx().rng(2);
    let nkeys = r.range(1, 3);
    let nworkers = r.range(2, 6);
    let kind = r.below(3);
    let (me, mw) = (r.range(1, 3), [3u64, 12, 1000][r.below(3)]);
    let wt = r.range(1, 3);
    let calls = plan(nworkers, nkeys);
    setup(nkeys, kind == 0);
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(wt).enable_all().build().unwrap();
    let cache = match kind {
        0 => Cache::unbounded(),
        1 => Cache::bounded(me, mw),
        _ => Cache::ephemeral(),
    };
    for w in 0..nworkers {
        let mine: Vec<(u32, Call)> = calls.iter().filter(|(_, c)| c.worker == w).cloned().collect();
        let cache = cache.clone();
        rt.spawn(async move {
            for (i, c) in mine {
                if c.delay_ms > 0 {
                    tokio::time::sleep(Duration::from_millis(c.delay_ms)).await;
                }
                let mut tries = 0;
                loop {
                    ctx().op(format!("t={}us #{i} w{w}: {c:?}", vnow() / 1000));
                    m().calls += 1;
                    let told = m().told.clone();
                    let pb = m().prods.len();
                    if m().running[c.key] > 0 {
                        m().joins += 1;
                    }
                    let p = (if tries > 0 { How::Ok } else { c.how }, c.build_ms, c.weight);
                    let res = match c.give_up_ms {
                        Some(ms) => match tokio::time::timeout(Duration::from_millis(ms), cache.get(c.key, producer(c.key, p))).await {
                            Ok(r) => r,
                            Err(_) => {
                                sim().count_fault("caller-cancelled");
                                break;
                            }
                        },
                        None => cache.get(c.key, producer(c.key, p)).await,
                    };
                    let failed = res.is_err();
                    match &res {
                        Ok(v) => answered(c.key, Ok(v), &told, pb),
                        Err(e) => answered(c.key, Err(e), &told, pb),
                    }
                    if failed {
                        sim().count_fault("producer-failed");
                    }
                    if failed && c.retry && tries < 3 {
                        tries += 1;
                        continue;
                    }
                    break;
                }
            }
            m().done += 1;
            notify();
        });
    }
    if !wait_until(600 * 1_000_000_000, || m().done == nworkers) {
        violation("P07", "stuck", "callers were not answered within ten simulated minutes".into());
    }
    // quiesce, then the bounds must hold and every key must still be obtainable
    while !wait_idle(5_000_000_000) {}
    vsleep(200_000_000);
    while !wait_idle(5_000_000_000) {}
    if let Some((n, wt)) = cache.retained() {
        let (e, w) = if kind == 1 { (me, mw) } else { (0, 0) };
        check("P08", "entries", n <= e, || format!("{n} products retained, limit {e}"));
        check("P08", "weight", wt <= w, || format!("weight {wt} retained, limit {w}"));
    }
    m().done = 0;
    let c2 = cache.clone();
    rt.spawn(async move {
        for k in 0..nkeys {
            let told = m().told.clone();
            let pb = m().prods.len();
            let r = c2.get(k, producer(k, (How::Ok, 0, 1))).await;
            match &r {
                Ok(v) => answered(k, Ok(v), &told, pb),
                Err(e) => violation("P07", "poisoned", format!("key {k} cannot be produced any more: {e}")),
            }
        }
        m().done = 1;
        notify();
    });
    if !wait_until(600 * 1_000_000_000, || m().done == 1) {
        violation("P07", "wedged", "after everything settled a key could not be obtained".into());
    }
    ctx().out.nontrivial = m().joins > 0;
    ctx().out.note = format!("calls={} joins={} failures={} kind={kind}", m().calls, m().joins, m().failures_told);
    finish_run();
}

/// the blocking cache
pub fn blocking_flight() {
    ctx().liveness = "P07".into();
    let mut r = ctx().rng(2);
    let nkeys = r.range(1, 3);
    let nworkers = r.range(2, 5);
    let (me, mw) = (r.range(1, 3), [3u64, 12, 1000][r.below(3)]);
    let calls = plan(nworkers, nkeys);
    setup(nkeys, false);
    let cache = Blocking::new(me, mw);
    for w in 0..nworkers {
        let mine: Vec<(u32, Call)> = calls.iter().filter(|(_, c)| c.worker == w).cloned().collect();
        let cache = cache.clone();
        spawn_in_group(0, move || {
            for (i, c) in mine {
                if c.delay_ms > 0 {
                    vsleep(c.delay_ms * 1_000_000);
                }
                let mut tries = 0;
                loop {
                    ctx().op(format!("t={}us #{i} w{w}: {c:?}", vnow() / 1000));
                    m().calls += 1;
                    let told = m().told.clone();
                    let pb = m().prods.len();
                    if m().running[c.key] > 0 {
                        m().joins += 1;
                    }
                    let how = if tries > 0 { How::Ok } else { c.how };
                    let key = c.key;
                    let (build, weight) = (c.build_ms, c.weight);
                    let mut own = None;
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        cache.get(key, &mut || {
                            let id = begin(key, how);
                            own = Some(id);
                            if build > 0 {
                                vsleep(build * 1_000_000);
                            } else {
                                pause();
                            }
                            end(id);
                            match how {
                                How::Ok => Ok(Val { prod: id, key, weight }),
                                How::Err => Err(format!("failed prod={id} end")),
                                How::Panic => panic!("SIMPANIC prod={id} end"),
                            }
                        })
                    }));
                    let failed = !matches!(r, Ok(Ok(_)));
                    match &r {
                        Ok(Ok(v)) => answered(key, Ok(v), &told, pb),
                        Ok(Err(e)) => answered(key, Err(e), &told, pb),
                        Err(_) => {
                            answered(key, Err("panicked"), &told, pb);
                            m().told.extend(own);
                        }
                    }
                    if failed {
                        sim().count_fault("producer-failed");
                    }
                    if failed && c.retry && tries < 3 {
                        tries += 1;
                        continue;
                    }
                    break;
                }
            }
            m().done += 1;
            notify();
        });
    }
    if !wait_until(600 * 1_000_000_000, || m().done == nworkers) {
        violation("P07", "stuck", "callers were not answered within ten simulated minutes".into());
    }
    let (n, wt) = cache.retained();
    check("P08", "entries", n <= me, || format!("{n} products retained, limit {me}"));
    check("P08", "weight", wt <= mw, || format!("weight {wt} retained, limit {mw}"));
    for k in 0..nkeys {
        let r = cache.get(k, &mut || {
            let id = begin(k, How::Ok);
            end(id);
            Ok(Val { prod: id, key: k, weight: 1 })
        });
        check("P07", "poisoned", r.is_ok(), || format!("key {k} cannot be produced any more: {:?}", r.as_ref().err()));
    }
    ctx().out.nontrivial = m().joins > 0;
    ctx().out.note = format!("calls={} joins={} failures={} blocking", m().calls, m().joins, m().failures_told);
    finish_run();
}
