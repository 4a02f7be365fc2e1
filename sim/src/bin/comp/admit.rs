//! Indexing admission: the project scheduler and the weighted resource governor.

use crate::core::rng::Rng;
use crate::core::sched::{sim, vnow};
use crate::core::vfs::{FaultCfg, Vfs};
use crate::fw::workers::*;
use crate::fw::*;
use ruby_fast_lsp::indexing_resources::*;
use ruby_fast_lsp::indexing_scheduler::*;
use std::path::PathBuf;
use std::time::Duration;
use tokio_util::sync::CancellationToken;

#[derive(Clone, Debug)]
enum Op {
    Job { at: u64, proj: usize, prio: u8, hold: u64, cancel: Option<u64>, abort: Option<u64>, batch: bool, cpu: usize, mem: usize, io: usize, parallel: bool, mode: u8, panics: bool },
    Focus { at: u64, proj: usize, nav: bool },
    NavDone { at: u64, proj: usize },
    NavMark { at: u64, proj: usize },
}

#[derive(Clone, Debug, PartialEq)]
enum St {
    New,
    Waiting,
    Active,
    Done,
}
#[derive(Clone, Debug)]
struct Job {
    st: St,
    proj: usize,
    req: u8,
    seq: u64,
    cancelled: bool,
    /// may be admitted or dropped at any moment now
    leaving: bool,
    cpu: usize,
    mem: usize,
    io: usize,
    parallel: bool,
}
#[derive(Default)]
struct Model {
    jobs: Vec<Job>,
    seq: u64,
    limit: usize,
    focus: Option<usize>,
    nav: bool,
    /// the previous admission took prioritised work while background work was admissible
    prev_bypassed: bool,
    prev_priority: bool,
    settled: usize,
    admissions: u64,
    contended: u64,
    exact: bool,
    changing: u32,
    // governor limits and use
    cpu: usize,
    mem: usize,
    io: usize,
    tasks: usize,
    u_cpu: usize,
    u_mem: usize,
    u_io: usize,
    u_tasks: usize,
    governor: bool,
}
static mut M: *mut Model = std::ptr::null_mut();
fn m() -> &'static mut Model {
    unsafe { &mut *M }
}
fn root(p: usize) -> PathBuf {
    PathBuf::from(format!("/sim/ws/project{p}"))
}
impl Model {
    fn prio(&self, j: &Job) -> u8 {
        if self.focus == Some(j.proj) {
            0
        } else {
            j.req
        }
    }
    fn used(&self) -> (usize, usize, usize, usize) {
        let a = self.jobs.iter().filter(|j| j.st == St::Active);
        a.fold((0, 0, 0, 0), |t, j| (t.0 + 1, t.1 + j.cpu, t.2 + j.mem, t.3 + j.io))
    }
    fn admissible(&self, j: &Job) -> bool {
        if self.governor {
            let (n, c, me, io) = self.used();
            !(j.parallel && self.nav && self.focus != Some(j.proj)) && n < self.tasks && c + j.cpu <= self.cpu && me + j.mem <= self.mem && io + j.io <= self.io
        } else {
            self.used().0 < self.limit && !self.jobs.iter().any(|o| o.st == St::Active && o.proj == j.proj)
        }
    }
    fn live_waiting(&self) -> Vec<usize> {
        (0..self.jobs.len()).filter(|&i| self.jobs[i].st == St::Waiting && !self.jobs[i].cancelled && !self.jobs[i].leaving).collect()
    }
}
const SAFE: &str = "P09";
const ORDER: &str = "P10";
fn safe() -> &'static str {
    if m().governor { "P11" } else { SAFE }
}
fn order() -> &'static str {
    if m().governor { "P12" } else { ORDER }
}

/// job `x` has just been admitted
fn admitted(x: usize) {
    let md = m();
    md.admissions += 1;
    ctx().out.checks += 1;
    if md.jobs[x].cancelled && md.exact {
        violation(order(), "admitted-after-cancel", format!("job {x} was admitted after its cancellation"));
    }
    if md.exact {
        let jx = md.jobs[x].clone();
        let px = md.prio(&jx);
        let others: Vec<usize> = md.live_waiting().into_iter().filter(|&i| i != x && md.admissible(&md.jobs[i])).collect();
        let bg_waiting = others.iter().any(|&i| md.prio(&md.jobs[i]) == 2);
        if !others.is_empty() {
            md.contended += 1;
        }
        if !md.admissible(&jx) {
            violation(safe(), "over-admission", format!("job {x} ({jx:?}) was admitted without room: in use {:?}", md.used()));
        }
        let better = others.iter().copied().find(|&i| (md.prio(&md.jobs[i]), md.jobs[i].seq) < (px, jx.seq));
        if let Some(b) = better {
            let fair = px == 2 && md.prev_priority && md.prio(&md.jobs[b]) < 2;
            let oldest_bg = !others.iter().any(|&i| md.prio(&md.jobs[i]) == 2 && md.jobs[i].seq < jx.seq);
            if !(fair && oldest_bg) {
                violation(order(), "inversion", format!("job {x} (priority {px}, order {}) was admitted although job {b} (priority {}, order {}) was waiting and could run", jx.seq, md.prio(&md.jobs[b]), md.jobs[b].seq));
            }
            sim().probe("fairness-turn");
        }
        if px < 2 && bg_waiting && md.prev_bypassed {
            violation(order(), "background-starved", format!("job {x} (priority {px}) bypassed admissible background work for the second time in a row"));
        }
        md.prev_bypassed = px < 2 && bg_waiting;
        md.prev_priority = px < 2;
        if px < 2 && bg_waiting {
            sim().probe("priority-bypass");
        }
    }
    md.jobs[x].st = St::Active;
}
fn running_begin(x: usize) {
    let md = m();
    let j = md.jobs[x].clone();
    md.u_tasks += 1;
    md.u_cpu += j.cpu;
    md.u_mem += j.mem;
    md.u_io += j.io;
    if md.governor {
        let ok = md.u_tasks <= md.tasks && md.u_cpu <= md.cpu && md.u_mem <= md.mem && md.u_io <= md.io;
        check("P11", "budget-exceeded", ok, || format!("running work uses tasks {}/{} cpu {}/{} memory {}/{} io {}/{}", m().u_tasks, m().tasks, m().u_cpu, m().cpu, m().u_mem, m().mem, m().u_io, m().io));
    } else {
        let n = md.jobs.iter().enumerate().filter(|(i, o)| *i != x && o.st == St::Active && o.proj == j.proj).count();
        check(SAFE, "project-twice", n == 0, || format!("project {} is indexed twice at the same time", j.proj));
        check(SAFE, "over-limit", m().u_tasks <= m().limit, || format!("{} jobs active, limit {}", m().u_tasks, m().limit));
    }
}
fn running_end(x: usize) {
    let md = m();
    let j = md.jobs[x].clone();
    md.u_tasks -= 1;
    md.u_cpu -= j.cpu;
    md.u_mem -= j.mem;
    md.u_io -= j.io;
}

fn gen(r: &mut Rng, gov: bool) -> Vec<Op> {
    let n = r.range(3, 16);
    let span = [0u64, 2, 20, 60][r.below(4)];
    let npr = r.range(1, 4);
    let mut v = Vec::new();
    let cancels = r.chance(1, 2);
    for _ in 0..n {
        let at = r.below(span as usize + 1) as u64;
        let proj = r.below(npr);
        v.push(match r.below(12) {
            0 | 1 => Op::Focus { at, proj, nav: gov && r.chance(1, 2) },
            2 if gov => Op::NavDone { at, proj },
            3 if gov => Op::NavMark { at, proj },
            _ => Op::Job {
                at,
                proj,
                prio: [0u8, 1, 2, 2][r.below(4)],
                hold: [0u64, 1, 3, 10, 30][r.below(5)],
                cancel: if cancels && r.chance(1, 4) { Some(r.below(20) as u64) } else { None },
                abort: if cancels && r.chance(1, 6) { Some(r.below(20) as u64) } else { None },
                batch: r.chance(1, 3),
                cpu: r.range(1, 3),
                mem: r.range(1, 6),
                io: r.below(3),
                parallel: r.chance(1, 3),
                mode: r.below(4) as u8,
                panics: r.chance(1, 10),
            },
        });
    }
    v
}

fn begin(gov: bool, exact: bool) -> (Vec<(u32, Op)>, usize) {
    let c = ctx();
    c.liveness = if gov { "P12" } else { "P10" }.into();
    let mut r = c.rng(1);
    let ops = gen(&mut r, gov);
    let limit = r.range(1, 3);
    let mut md = Model { limit, exact, governor: gov, ..Default::default() };
    md.cpu = r.range(3, 4);
    md.tasks = r.range(1, 3);
    md.mem = r.range(6, 10);
    md.io = r.range(2, 3);
    unsafe { M = Box::into_raw(Box::new(md)) };
    let ops = ctx().filter_ops(ops);
    let wt = r.range(1, 3);
    start_sim(swarm(ctx().case.seed, 0), Vfs::new(), FaultCfg::default());
    (ops, wt)
}

/// future wrapper: tells the model when a waiting job left the queue without admission
struct Guard(usize);
impl Drop for Guard {
    fn drop(&mut self) {
        let j = &mut m().jobs[self.0];
        // a job whose caller went away while it runs keeps running
        if j.st != St::Active {
            j.st = St::Done;
        }
        m().settled += 1;
        notify();
    }
}

async fn scheduler_job(s: IndexingScheduler, x: usize, op: Op, pre: Option<IndexingAdmission>, tok: CancellationToken) {
    let Op::Job { at, proj, prio, hold, .. } = op else { return };
    let p = [IndexingPriority::ActiveDocument, IndexingPriority::OpenDocument, IndexingPriority::Background][prio as usize];
    let adm = match pre {
        Some(a) => a,
        None => {
            if at > 0 {
                tokio::time::sleep(Duration::from_millis(at)).await;
            }
            ctx().op(format!("t={}ms job {x}: {op:?}", vnow() / 1_000_000));
            register(x);
            s.register_cancellable(root(proj), p, tok.clone())
        }
    };
    // tokens cancelled before we start waiting must win
    let was_cancelled = tok.is_cancelled();
    m().jobs[x].st = St::Waiting;
    let permit = adm.wait().await;
    match permit {
        None => {
            m().jobs[x].st = St::Done;
            check(ORDER, "spurious-cancel", tok.is_cancelled(), || format!("job {x} was turned away although nobody cancelled it"));
        }
        Some(permit) => {
            check(ORDER, "admitted-after-cancel", !was_cancelled, || format!("job {x} was admitted although it had been cancelled before it began to wait"));
            admitted(x);
            running_begin(x);
            struct Active(usize, Option<IndexingPermit>);
            impl Drop for Active {
                fn drop(&mut self) {
                    running_end(self.0);
                    m().jobs[self.0].st = St::Done;
                    drop(self.1.take());
                }
            }
            let _a = Active(x, Some(permit));
            if hold > 0 {
                tokio::time::sleep(Duration::from_millis(hold)).await;
            } else {
                tokio::task::yield_now().await;
            }
        }
    }
}
fn register(x: usize) {
    let md = m();
    md.seq += 1;
    let s = md.seq;
    md.jobs[x].seq = s;
}

fn run(gov: bool, exact: bool) {
    let (ops, wt) = begin(gov, exact);
    let md = m();
    // jobs in plan order
    let mut jobs: Vec<(usize, Op)> = Vec::new();
    let mut ctl: Vec<Op> = Vec::new();
    for (_, op) in &ops {
        if let Op::Job { proj, prio, cpu, mem, io, parallel, .. } = op {
            let mut cpu = *cpu;
            if gov {
                if let Op::Job { mode: 2, .. } = op {
                    cpu = if exact { cpu } else { md.cpu };
                }
            }
            jobs.push((md.jobs.len(), op.clone()));
            md.jobs.push(Job { st: St::New, proj: *proj, req: *prio, seq: 0, cancelled: false, leaving: false, cpu, mem: *mem, io: *io, parallel: *parallel });
        } else {
            ctl.push(op.clone());
        }
    }
    let total = jobs.len();
    let sched = IndexingScheduler::new(md.limit);
    let govr = if gov { Some(IndexingResourceGovernor::new(IndexingResourcePolicy::with_limits(md.cpu, md.tasks, md.mem, md.io))) } else { None };
    let (s2, g2) = (sched.clone(), govr.clone());
    spawn_in_group(0, move || {
        let rt = if exact {
            tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
        } else {
            tokio::runtime::Builder::new_multi_thread().worker_threads(wt).enable_all().build().unwrap()
        };
        rt.block_on(async move {
            let mut handles = Vec::new();
            for (x, op) in jobs {
                let Op::Job { proj, prio, cancel, abort, batch, .. } = op.clone() else { continue };
                let tok = CancellationToken::new();
                let guard = Guard(x);
                let h = if gov {
                    let g = g2.clone().unwrap();
                    let t = tok.clone();
                    tokio::spawn(async move {
                        let _g = guard;
                        governor_job(g, x, op, t).await;
                    })
                } else {
                    let p = [IndexingPriority::ActiveDocument, IndexingPriority::OpenDocument, IndexingPriority::Background][prio as usize];
                    let pre = if batch {
                        ctx().op(format!("t=0ms job {x} registered in batch: {op:?}"));
                        register(x);
                        m().jobs[x].st = St::Waiting;
                        Some(s2.register_cancellable(root(proj), p, tok.clone()))
                    } else {
                        None
                    };
                    let (s, t) = (s2.clone(), tok.clone());
                    tokio::spawn(async move {
                        let _g = guard;
                        scheduler_job(s, x, op, pre, t).await;
                    })
                };
                if let Some(c) = cancel {
                    handles.push(tokio::spawn(async move {
                        if c > 0 {
                            tokio::time::sleep(Duration::from_millis(c)).await;
                        }
                        sim().count_fault("cancelled");
                        m().jobs[x].cancelled = true;
                        tok.cancel();
                    }));
                }
                if let Some(a) = abort {
                    handles.push(tokio::spawn(async move {
                        if a > 0 {
                            tokio::time::sleep(Duration::from_millis(a)).await;
                        }
                        sim().count_fault("caller-dropped");
                        m().jobs[x].leaving = true;
                        h.abort();
                    }));
                }
            }
            let mut last = 0;
            let mut ctl = ctl;
            ctl.sort_by_key(|o| match o {
                Op::Focus { at, .. } | Op::NavDone { at, .. } | Op::NavMark { at, .. } => *at,
                _ => 0,
            });
            for op in ctl {
                let at = match &op {
                    Op::Focus { at, .. } | Op::NavDone { at, .. } | Op::NavMark { at, .. } => *at,
                    _ => 0,
                };
                if at > last {
                    tokio::time::sleep(Duration::from_millis(at - last)).await;
                    last = at;
                }
                ctx().op(format!("t={}ms {op:?}", vnow() / 1_000_000));
                m().changing += 1;
                match &op {
                    Op::Focus { proj, nav, .. } => {
                        m().focus = Some(*proj);
                        m().nav = *nav && gov;
                        match &g2 {
                            Some(g) => g.prioritize_active_project_with_navigation_pending(&root(*proj), *nav),
                            None => s2.prioritize_active_project(&root(*proj)),
                        }
                    }
                    Op::NavDone { proj, .. } => {
                        if m().focus == Some(*proj) {
                            m().nav = false;
                        }
                        if let Some(g) = &g2 {
                            g.mark_project_navigation_complete_if_active(&root(*proj));
                        }
                    }
                    Op::NavMark { proj, .. } => {
                        if m().focus == Some(*proj) {
                            m().nav = true;
                        }
                        if let Some(g) = &g2 {
                            g.mark_project_navigation_pending_if_active(&root(*proj));
                        }
                    }
                    _ => {}
                }
                m().changing -= 1;
            }
            if gov {
                tokio::time::sleep(Duration::from_millis(150)).await;
                if let (Some(f), Some(g)) = (m().focus, &g2) {
                    m().nav = false;
                    g.mark_project_navigation_complete_if_active(&root(f));
                }
            }
            for h in handles {
                let _ = h.await;
            }
            while m().settled < total || m().u_tasks > 0 {
                tokio::time::sleep(Duration::from_millis(500)).await;
            }
        });
        m().changing = 1_000_000;
        notify();
    });
    // observer: whenever nothing can run, nothing that could run may be waiting
    let end = vnow() + 3600 * 1_000_000_000;
    loop {
        let idle = wait_idle(1_000_000_000);
        if m().changing >= 1_000_000 {
            break;
        }
        if vnow() > end {
            let w: Vec<usize> = m().live_waiting();
            violation(order(), "stuck", format!("jobs {w:?} were never admitted nor turned away within a simulated hour"));
            break;
        }
        if idle && m().changing == 0 {
            ctx().out.checks += 1;
            let md = m();
            if let Some(&w) = md.live_waiting().iter().find(|&&i| md.admissible(&md.jobs[i])) {
                let snap = govr.as_ref().map(|g| format!("{:?}", g.snapshot())).unwrap_or_default();
                violation(order(), "not-work-conserving", format!("t={}us: job {w} ({:?}) waits although it could run now: in use {:?}, everything else is blocked {snap}", vnow() / 1000, md.jobs[w], md.used()));
            }
        }
    }
    // a job has ended for its caller before its worker, which may be stalled, returned the lease
    let end = vnow() + 3600 * 1_000_000_000;
    while vnow() < end {
        let busy = match &govr {
            Some(g) => {
                let s = g.snapshot();
                s.active_tasks > 0 || s.active_cpu_lanes > 0 || s.active_transient_memory_bytes > 0 || s.active_io_slots > 0 || s.queued_tasks > 0
            }
            None => {
                let s = sched.snapshot();
                s.active > 0 || s.queued > 0
            }
        };
        if !busy {
            break;
        }
        wait_until(1_000_000_000, || false);
    }
    if gov {
        let s = govr.as_ref().unwrap().snapshot();
        check("P11", "leak", s.active_tasks == 0 && s.active_cpu_lanes == 0 && s.active_transient_memory_bytes == 0 && s.active_io_slots == 0 && s.queued_tasks == 0, || format!("after every job ended: {s:?}"));
        check("P11", "peak", s.peak_active_tasks <= m().tasks && s.peak_active_cpu_lanes <= m().cpu && s.peak_active_transient_memory_bytes <= m().mem && s.peak_active_io_slots <= m().io, || format!("peaks above limits: {s:?}"));
    } else {
        let s = sched.snapshot();
        check(SAFE, "leak", s.active == 0 && s.queued == 0, || format!("after every job ended: {s:?}"));
    }
    ctx().out.nontrivial = m().admissions >= 2;
    ctx().out.note = format!("jobs={total} admissions={} contended={}", m().admissions, m().contended);
    finish_run();
}

async fn governor_job(g: IndexingResourceGovernor, x: usize, op: Op, tok: CancellationToken) {
    let Op::Job { at, proj, prio, hold, mode, panics, .. } = op else { return };
    let p = [IndexingResourcePriority::ActiveDocument, IndexingResourcePriority::OpenDocument, IndexingResourcePriority::Background][prio as usize];
    if at > 0 {
        tokio::time::sleep(Duration::from_millis(at)).await;
    }
    ctx().op(format!("t={}ms job {x}: {op:?}", vnow() / 1_000_000));
    let j = m().jobs[x].clone();
    let mut spec = IndexingWorkSpec::new(Some(root(proj)), p, j.cpu, j.mem, j.io);
    if j.parallel {
        spec = spec.as_project_parallel();
    }
    let was_cancelled = tok.is_cancelled();
    register(x);
    m().jobs[x].st = St::Waiting;
    struct Run(usize);
    impl Drop for Run {
        fn drop(&mut self) {
            running_end(self.0);
            m().jobs[self.0].st = St::Done;
        }
    }
    let enter = move || {
        check("P12", "ran-after-cancel", !was_cancelled, || format!("job {x} ran although it had been cancelled before it was submitted"));
        admitted(x);
        running_begin(x);
        Run(x)
    };
    let body = move || {
        let _r = enter();
        if hold > 0 {
            vsleep(hold * 1_000_000);
        } else {
            pause();
        }
        if panics {
            sim().count_fault("job-panicked");
            panic!("SIMPANIC job");
        }
        x
    };
    let c = Some(tok.clone());
    let r = if m().exact || mode == 0 {
        g.run_async_with_resources("sim", spec, c, async move {
            let _r = enter();
            if hold > 0 {
                tokio::time::sleep(Duration::from_millis(hold)).await;
            } else {
                tokio::task::yield_now().await;
            }
            x
        })
        .await
    } else if mode == 1 {
        g.run_with_resources("sim", spec, c, body).await
    } else if mode == 2 {
        g.run_parallel_with_resources("sim", spec, c, body).await
    } else if j.cpu < m().cpu {
        g.run_partitioned_parallel_with_resources("sim", spec, c, body).await
    } else {
        g.run_with_resources("sim", spec, c, body).await
    };
    match r {
        Ok(v) => check("P11", "wrong-result", v == x, || format!("job {x} received the result of job {v}")),
        Err(e) => {
            if m().jobs[x].st == St::Waiting {
                m().jobs[x].st = St::Done;
            }
            check("P12", "spurious-failure", tok.is_cancelled() || panics, || format!("job {x} failed without cause: {e:#}"));
        }
    }
}

pub fn scheduler_exact() {
    run(false, true)
}
pub fn scheduler_mt() {
    run(false, false)
}
pub fn governor_exact() {
    run(true, true)
}
pub fn governor_mt() {
    run(true, false)
}
