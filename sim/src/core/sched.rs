//! The simulator: one managed thread runs at a time; a seeded scheduler decides
//! who, and a virtual clock replaces every clock the code reads.
//!
//! Scheduling points: every instrumented control-flow edge in the target crates
//! (SanitizerCoverage callback), and every interposed libc call that can block or
//! do I/O.  Real OS threads are parked on private semaphores, so the kernel never
//! chooses.

use super::rng::draw;
use super::vfs::Vfs;
use std::cell::Cell;
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicBool, AtomicI32, Ordering};

pub static ACTIVE: AtomicBool = AtomicBool::new(false);

thread_local! {
    static TID: Cell<u32> = const { Cell::new(0) };
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum State {
    Runnable,
    Futex(usize),
    Poll,
    Sleep,
    Join(u32),
    Flock(u64),
    /// waiting for a simulated pipe to change (pipe id)
    Pipe(u32),
    /// waiting for a simulated child process (pid)
    Child(i32),
    /// parked forever (its simulated process ended)
    Dead,
    /// the harness waiting for "something finished"
    Harness,
    /// an observer that runs only when nothing else can, before time advances
    Idle,
    Exited,
}

pub struct Thread {
    pub id: u32,
    pub state: State,
    pub deadline: Option<u64>,
    pub timed_out: bool,
    pub prio: u64,
    pub pthread: usize,
    pub wait_seq: u64,
    pub last_guard: u32,
    /// simulated process this thread belongs to
    pub group: u32,
    pub sem: Box<AtomicI32>,
}

/// Everything that parameterises a run besides the scenario itself.
#[derive(Clone, Debug, Default)]
pub struct RunCfg {
    pub seed: u64,
    /// average number of edges between forced preemptions (0 = never)
    pub mean_gap: u64,
    /// 0 = uniform random pick, 1 = priority based (PCT-like), 2 = sticky (prefer current)
    pub policy: u8,
    /// virtual nanoseconds charged per instrumented edge
    pub ns_per_edge: u64,
    /// per-mille probability that a scheduling decision jumps the clock to the next timer
    pub stall_pm: u64,
    /// a stall ends at the next timer if that is at most this far away
    pub stall_max_ns: u64,
    pub max_edges: u64,
    pub max_vtime_ns: u64,
    pub cpus: usize,
    /// decision filters (minimisation): None = every decision is live, Some = only these
    pub allow_preempt: Option<BTreeSet<u64>>,
    pub allow_fault: Option<BTreeSet<u64>>,
    pub allow_pick: Option<BTreeSet<u64>>,
    /// added to decision indices so several phases of one case share one index space
    pub idx_base: u64,
    pub mask_stall: bool,
    pub record: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub edges: u64,
    pub preempts: u64,
    pub switches: u64,
    pub picks: u64,
    pub timer_jumps: u64,
    pub stalls: u64,
    pub threads: u64,
    pub max_live: u64,
    pub faults: std::collections::BTreeMap<String, u64>,
    pub fault_ops: u64,
}

pub struct Sim {
    pub cfg: RunCfg,
    pub threads: Vec<Thread>, // index = id-1
    pub cur: u32,
    pub now_base: u64, // virtual ns excluding edges since base
    pub consumed: u64, // wait sequence
    pub stats: Stats,
    pub hash: u64,
    pub trace: Vec<(u64, u8, u32, u32)>, // (edge, kind, from, to)
    pub vfs: Vfs,
    pub rand_ctr: u64,
    pub wall_skew_ns: i64,
    pub log: Vec<String>,
    pub no_preempt: u32,
    pub failed: Option<String>,
    pub on_fail: Option<fn(&str) -> !>,
    pub fault_cfg: super::vfs::FaultCfg,
    pub pipes: Vec<super::proc::Pipe>,
    pub procs: super::proc::Procs,
    pub panics: Vec<String>,
    pub crashed_groups: Vec<u32>,
    pub machine_crashes: u64,
    pub crash_ctr: u64,
    idle_done: bool,
    pub eff_preempt: Vec<u64>,
    pub eff_pick: Vec<u64>,
    pub eff_fault: Vec<u64>,
    pub probes: std::collections::BTreeMap<&'static str, u64>,
}

pub static mut SIM: *mut Sim = std::ptr::null_mut();

// Edge accounting: COUNTDOWN is decremented by the coverage callback.
static mut COUNTDOWN: i64 = i64::MAX;
static mut ARMED: i64 = i64::MAX;
static mut LAST_GUARD: u32 = 0;
pub const COV_SIZE: usize = 1 << 20;
pub const PAIR_BITS: usize = 1 << 23;
#[repr(align(4096))]
pub struct Page<const N: usize>([u8; N]);
/// edge coverage and switch-pair coverage; the orchestrator maps shared memory over both
pub static mut COV: Page<COV_SIZE> = Page([0; COV_SIZE]);
pub static mut PAIRS: Page<{ PAIR_BITS / 8 }> = Page([0; PAIR_BITS / 8]);
static mut NEXT_GUARD: u32 = 1;

#[inline(always)]
pub fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}

#[inline(always)]
pub fn managed() -> bool {
    ACTIVE.load(Ordering::Relaxed) && TID.with(|t| t.get()) != 0
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    while start < stop {
        *start = NEXT_GUARD;
        NEXT_GUARD += 1;
        start = start.add(1);
    }
}

pub fn guard_count() -> u32 {
    unsafe { NEXT_GUARD - 1 }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let g = *guard;
    LAST_GUARD = g;
    COV.0[(g & 0xF_FFFF) as usize] = 1;
    COUNTDOWN -= 1;
    if COUNTDOWN < 0 {
        edge_slow();
    }
}

#[cold]
#[inline(never)]
unsafe fn edge_slow() {
    if !managed() {
        COUNTDOWN = i64::MAX;
        ARMED = i64::MAX;
        return;
    }
    let s = sim();
    s.account();
    if s.no_preempt > 0 {
        s.arm_after(64);
        return;
    }
    s.preempt();
}

// ---- raw futex (never interposed) ----
pub unsafe fn raw_syscall6(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let ret: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => ret, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    ret
}

unsafe fn sem_wait(s: &AtomicI32) {
    loop {
        if s.compare_exchange(1, 0, Ordering::Acquire, Ordering::Relaxed).is_ok() {
            return;
        }
        raw_syscall6(202, s as *const _ as usize, 128, 0, 0, 0, 0);
    }
}
unsafe fn sem_post(s: &AtomicI32) {
    s.store(1, Ordering::Release);
    raw_syscall6(202, s as *const _ as usize, 129, 1, 0, 0, 0);
}

impl Sim {
    #[inline]
    fn account(&mut self) {
        unsafe {
            let used = (ARMED - COUNTDOWN).max(0) as u64;
            ARMED = COUNTDOWN;
            self.stats.edges += used;
            self.now_base += used * self.cfg.ns_per_edge;
        }
    }
    fn arm_after(&mut self, n: u64) {
        unsafe {
            COUNTDOWN = n as i64;
            ARMED = COUNTDOWN;
        }
    }
    fn arm_next_gap(&mut self) {
        let i = self.stats.preempts;
        let g = if self.cfg.mean_gap == 0 {
            1_000_000
        } else {
            // roughly geometric: log-uniform between 1 and 4*mean
            let r = draw(self.cfg.seed, 1, i);
            let m = self.cfg.mean_gap;
            match r % 8 {
                0 => 1 + (r >> 8) % (m / 16 + 1),
                1 | 2 => 1 + (r >> 8) % (m / 2 + 1),
                7 => 1 + (r >> 8) % (4 * m + 1),
                _ => 1 + (r >> 8) % (2 * m + 1),
            }
        };
        self.arm_after(g);
    }
    pub fn now(&mut self) -> u64 {
        self.account();
        self.now_base
    }
    /// advance virtual time by n ns
    pub fn advance(&mut self, n: u64) {
        self.now_base += n;
    }
    pub fn th(&mut self, id: u32) -> &mut Thread {
        &mut self.threads[id as usize - 1]
    }
    fn note(&mut self, kind: u8, to: u32) {
        let e = self.stats.edges;
        self.hash = super::rng::mix(self.hash ^ e.wrapping_mul(0x9E37) ^ ((kind as u64) << 56) ^ ((self.cur as u64) << 24) ^ to as u64);
        if self.cfg.record && self.trace.len() < 200_000 {
            super::alloc::aside(|| self.trace.push((e, kind, self.cur, to)));
        }
    }
    pub fn event(&mut self, tag: u64, v: u64) {
        self.hash = super::rng::mix(self.hash ^ super::rng::mix(tag) ^ v);
    }
    fn preempt(&mut self) {
        let i = self.stats.preempts;
        self.stats.preempts += 1;
        let masked = matches!(&self.cfg.allow_preempt, Some(a) if !a.contains(&(i + self.cfg.idx_base)));
        self.arm_next_gap();
        if self.stats.edges > self.cfg.max_edges {
            self.fail("step budget exhausted: no quiescence within the bounded number of steps");
        }
        if masked || self.cfg.mean_gap == 0 {
            return;
        }
        if self.cfg.policy == 1 {
            // PCT: drop current priority occasionally
            if draw(self.cfg.seed, 5, i) % 3 != 0 {
                let c = self.cur;
                let p = draw(self.cfg.seed, 6, i) >> 2;
                self.th(c).prio = p;
            }
        }
        let before = self.cur;
        let rec = self.cfg.record;
        let sw = self.stats.switches;
        self.reschedule(1);
        let _ = before;
        if rec && self.stats.switches != sw {
            super::alloc::aside(|| self.eff_preempt.push(i + self.cfg.idx_base));
        }
    }
    fn fire_timers(&mut self) {
        let now = self.now_base;
        for t in self.threads.iter_mut() {
            if let Some(d) = t.deadline {
                if d <= now && t.waiting() {
                    t.state = State::Runnable;
                    t.deadline = None;
                    t.timed_out = true;
                }
            }
        }
    }
    fn min_deadline(&self) -> Option<u64> {
        self.threads
            .iter()
            .filter(|t| t.waiting())
            .filter_map(|t| t.deadline)
            .min()
    }
    /// Choose the next thread and hand over the baton. kind: 1 preempt, 2 block, 3 yield, 4 exit, 5 wake point
    fn reschedule(&mut self, kind: u8) {
        let k = self.stats.picks;
        self.stats.picks += 1;
        self.account();
        if self.cfg.stall_pm > 0
            && !self.cfg.mask_stall
            && draw(self.cfg.seed, 3, k) % 1000 < self.cfg.stall_pm
        {
            // a slow machine: runnable threads do not get to run until the next timer is due
            let d = self
                .threads
                .iter()
                .filter(|t| t.waiting() && t.state != State::Harness && t.id != 1)
                .filter_map(|t| t.deadline)
                .min();
            if let Some(d) = d {
                if d > self.now_base && d - self.now_base < self.cfg.stall_max_ns {
                    self.now_base = d;
                    self.stats.stalls += 1;
                }
            }
        }
        self.fire_timers();
        let next = loop {
            if self.now_base > self.cfg.max_vtime_ns {
                self.fail("virtual time budget exhausted: no quiescence within the bounded simulated time");
            }
            let mut cand: [u32; 256] = [0; 256];
            let mut n = 0;
            for t in self.threads.iter() {
                if t.state == State::Runnable && n < 256 {
                    if kind == 3 && t.id == self.cur {
                        continue;
                    }
                    cand[n] = t.id;
                    n += 1;
                }
            }
            if n == 0 && kind == 3 && self.threads[self.cur as usize - 1].state == State::Runnable {
                // a yielding thread alone: let timers progress so spin-waits on time end
                if let Some(d) = self.min_deadline() {
                    if d > self.now_base && d - self.now_base < 50_000 {
                        self.now_base = d;
                        self.fire_timers();
                        continue;
                    }
                }
                self.now_base += 1_000;
                break self.cur;
            }
            if n == 0 && !self.idle_done {
                self.idle_done = true;
                let mut any = false;
                for t in self.threads.iter_mut() {
                    if t.state == State::Idle {
                        t.state = State::Runnable;
                        t.timed_out = false;
                        any = true;
                    }
                }
                if any {
                    continue;
                }
            }
            if n == 0 {
                self.idle_done = false;
                match self.min_deadline() {
                    Some(d) => {
                        if d > self.now_base {
                            self.now_base = d;
                        }
                        self.stats.timer_jumps += 1;
                        self.fire_timers();
                        continue;
                    }
                    None => {
                        self.fail("deadlock: every thread is blocked and no timer is pending");
                    }
                }
            }
            let cur_runnable = self.cur != 0 && kind != 3 && cand[..n].contains(&self.cur);
            let masked = matches!(&self.cfg.allow_pick, Some(a) if !a.contains(&(k + self.cfg.idx_base)));
            let dflt = if cur_runnable { self.cur } else { cand[0] };
            let r = draw(self.cfg.seed, 2, k);
            let chosen = if masked {
                dflt
            } else {
                match self.cfg.policy {
                    1 if kind != 3 => {
                        let mut best = cand[0];
                        for &c in &cand[..n] {
                            if self.threads[c as usize - 1].prio > self.threads[best as usize - 1].prio {
                                best = c;
                            }
                        }
                        best
                    }
                    2 if cur_runnable && kind == 5 => self.cur,
                    _ => cand[(r % n as u64) as usize],
                }
            };
            if self.cfg.record && chosen != dflt {
                super::alloc::aside(|| self.eff_pick.push(k + self.cfg.idx_base));
            }
            break chosen;
        };
        self.note(kind, next);
        if next != self.cur {
            self.switch_to(next, kind == 4);
        }
    }
    fn switch_to(&mut self, next: u32, exiting: bool) {
        self.stats.switches += 1;
        let cur = self.cur;
        unsafe {
            let g = LAST_GUARD;
            if cur != 0 {
                self.th(cur).last_guard = g;
            }
            let ng = self.th(next).last_guard;
            let h = super::rng::mix(((g as u64) << 32) | ng as u64) as usize % PAIR_BITS;
            PAIRS.0[h / 8] |= 1 << (h % 8);
            LAST_GUARD = ng;
        }
        self.cur = next;
        let nsem: *const AtomicI32 = &*self.threads[next as usize - 1].sem;
        let csem: *const AtomicI32 = if exiting || cur == 0 {
            std::ptr::null()
        } else {
            &*self.threads[cur as usize - 1].sem
        };
        unsafe {
            sem_post(&*nsem);
            if !csem.is_null() {
                sem_wait(&*csem);
            }
        }
    }
    pub fn fail(&mut self, msg: &str) -> ! {
        self.failed = Some(msg.to_string());
        let f = self.on_fail.expect("on_fail");
        ACTIVE.store(false, Ordering::SeqCst);
        f(msg)
    }
    pub fn describe_threads(&self) -> String {
        self.threads
            .iter()
            .filter(|t| t.state != State::Exited && t.state != State::Dead)
            .map(|t| format!("t{}:{:?}{}", t.id, t.state, if t.deadline.is_some() { "+timer" } else { "" }))
            .collect::<Vec<_>>()
            .join(" ")
    }
    /// Block the current thread; returns true if it timed out.
    pub fn block(&mut self, st: State, deadline: Option<u64>) -> bool {
        let c = self.cur;
        self.consumed += 1;
        let seq = self.consumed;
        if st != State::Idle {
            self.idle_done = false;
        }
        {
            let t = self.th(c);
            t.wait_seq = seq;
            t.state = st;
            t.deadline = deadline;
            t.timed_out = false;
        }
        self.reschedule(2);
        let t = self.th(c);
        debug_assert!(t.state == State::Runnable);
        t.deadline = None;
        t.timed_out
    }
    pub fn yield_now(&mut self) {
        self.account();
        self.now_base += 200;
        self.reschedule(3);
    }
    /// A scheduling opportunity at an interposed call (I/O, wake).
    pub fn point(&mut self) {
        if self.no_preempt > 0 || self.cfg.mean_gap == 0 {
            return;
        }
        let k = self.stats.picks;
        // switch at a third of the points
        if draw(self.cfg.seed, 4, k) % 3 == 0 {
            self.reschedule(5);
        } else {
            self.stats.picks += 1;
        }
    }
    pub fn futex_wake(&mut self, addr: usize, n: i32) -> i32 {
        let mut woken = 0;
        while woken < n {
            // choose among waiters: kernel order is by queueing for equal priority, but a
            // waiter may lose the race to run; keep FIFO by scanning ids in wait order
            let mut w: Option<usize> = None;
            for (i, t) in self.threads.iter().enumerate() {
                if t.state == State::Futex(addr) {
                    match w {
                        Some(j) if self.threads[j].prio_wait() <= t.prio_wait() => {}
                        _ => w = Some(i),
                    }
                }
            }
            match w {
                Some(i) => {
                    let t = &mut self.threads[i];
                    t.state = State::Runnable;
                    t.deadline = None;
                    t.timed_out = false;
                    woken += 1;
                }
                None => break,
            }
        }
        woken
    }
    pub fn futex_wait(&mut self, addr: usize, val: u32, deadline: Option<u64>) -> i32 {
        let cur = unsafe { (*(addr as *const std::sync::atomic::AtomicU32)).load(Ordering::SeqCst) };
        if cur != val {
            return libc::EAGAIN;
        }
        if let Some(d) = deadline {
            if d <= self.now() {
                // give others a chance even on an expired wait
                self.point();
                return libc::ETIMEDOUT;
            }
        }
        if self.block(State::Futex(addr), deadline) {
            libc::ETIMEDOUT
        } else {
            0
        }
    }
    pub fn wake_pollers(&mut self) {
        for t in self.threads.iter_mut() {
            if t.state == State::Poll {
                t.state = State::Runnable;
                t.deadline = t.deadline; // keep: poll loop recomputes
                t.timed_out = false;
            }
        }
    }
    pub fn wake_flock(&mut self, ino: u64) {
        for t in self.threads.iter_mut() {
            if t.state == State::Flock(ino) {
                t.state = State::Runnable;
                t.timed_out = false;
            }
        }
    }
    pub fn wake_harness(&mut self) {
        for t in self.threads.iter_mut() {
            if t.state == State::Harness {
                t.state = State::Runnable;
                t.timed_out = false;
            }
        }
    }
    pub fn wake_pipe(&mut self, id: u32) {
        for t in self.threads.iter_mut() {
            if t.state == State::Pipe(id) {
                t.state = State::Runnable;
                t.timed_out = false;
            }
        }
    }
    pub fn wake_child(&mut self, pid: i32) {
        for t in self.threads.iter_mut() {
            if t.state == State::Child(pid) {
                t.state = State::Runnable;
                t.timed_out = false;
            }
        }
    }
    /// End a simulated process: its threads never run again, its descriptors close.
    /// If the caller belongs to it, this does not return.
    pub fn kill_group(&mut self, g: u32) {
        let cur = self.cur;
        for t in self.threads.iter_mut() {
            if t.group == g && t.state != State::Exited && t.id != cur {
                t.state = State::Dead;
                t.deadline = None;
            }
        }
        let freed = self.vfs.close_group(g);
        for ino in freed {
            self.wake_flock(ino);
        }
        if cur != 0 && self.threads[cur as usize - 1].group == g {
            self.th(cur).deadline = None;
            self.th(cur).state = State::Dead;
            self.reschedule(2);
            unreachable!("a dead simulated process was scheduled");
        }
    }
    pub fn cur_group(&self) -> u32 {
        if self.cur == 0 { 0 } else { self.threads[self.cur as usize - 1].group }
    }
    pub fn probe(&mut self, k: &'static str) {
        *self.probes.entry(k).or_insert(0) += 1;
    }
    pub fn new_thread(&mut self) -> u32 {
        let id = self.threads.len() as u32 + 1;
        let group = self.threads.get((self.cur as usize).wrapping_sub(1)).map_or(0, |t| t.group);
        self.stats.threads += 1;
        let prio = draw(self.cfg.seed, 7, id as u64) >> 1;
        self.threads.push(Thread {
            id,
            state: State::Runnable,
            deadline: None,
            timed_out: false,
            prio,
            pthread: 0,
            wait_seq: 0,
            last_guard: 0,
            group,
            sem: Box::new(AtomicI32::new(0)),
        });
        let live = self.threads.iter().filter(|t| t.state != State::Exited && t.state != State::Dead).count() as u64;
        self.stats.max_live = self.stats.max_live.max(live);
        id
    }
    pub fn thread_exit(&mut self) {
        let c = self.cur;
        self.th(c).state = State::Exited;
        for t in self.threads.iter_mut() {
            if t.state == State::Join(c) {
                t.state = State::Runnable;
                t.deadline = None;
            }
        }
        self.wake_harness();
        self.reschedule(4);
    }
    pub fn random_u64(&mut self) -> u64 {
        let i = self.rand_ctr;
        self.rand_ctr += 1;
        draw(self.cfg.seed, 9, i)
    }
    pub fn count_fault(&mut self, kind: &str) {
        *self.stats.faults.entry(kind.to_string()).or_insert(0) += 1;
    }
}

impl Thread {
    fn waiting(&self) -> bool {
        !matches!(self.state, State::Runnable | State::Exited | State::Dead)
    }
    fn prio_wait(&self) -> u64 {
        self.wait_seq
    }
}

pub unsafe fn set_tid(id: u32) {
    TID.with(|t| t.set(id));
}
pub fn tid() -> u32 {
    TID.with(|t| t.get())
}
/// First instruction of a managed thread: wait for the baton.
pub unsafe fn thread_begin(id: u32) {
    set_tid(id);
    let sem: *const AtomicI32 = &*sim().threads[id as usize - 1].sem;
    sem_wait(&*sem);
}

/// Start a simulation on the calling thread.
pub fn start(cfg: RunCfg, vfs: Vfs, fault_cfg: super::vfs::FaultCfg, on_fail: fn(&str) -> !) {
    unsafe {
        let s = Box::new(Sim {
            hash: cfg.seed,
            cfg,
            threads: Vec::with_capacity(4096),
            cur: 1,
            now_base: 0,
            consumed: 0,
            stats: Stats::default(),
            trace: Vec::new(),
            vfs,
            rand_ctr: 0,
            wall_skew_ns: 0,
            log: Vec::new(),
            no_preempt: 0,
            failed: None,
            on_fail: Some(on_fail),
            fault_cfg,
            pipes: Vec::new(),
            procs: Default::default(),
            panics: Vec::new(),
            crashed_groups: Vec::new(),
            machine_crashes: 0,
            crash_ctr: 0,
            idle_done: false,
            eff_preempt: Vec::new(),
            eff_pick: Vec::new(),
            eff_fault: Vec::new(),
            probes: Default::default(),
        });
        SIM = Box::into_raw(s);
        let id = sim().new_thread();
        set_tid(id);
        sim().arm_next_gap();
        ACTIVE.store(true, Ordering::SeqCst);
    }
}

/// Stop simulating (the calling thread keeps the baton; the others stay parked).
pub fn stop() {
    if !SIM_is_null() {
        sim().account();
    }
    ACTIVE.store(false, Ordering::SeqCst);
}
#[allow(non_snake_case)]
fn SIM_is_null() -> bool {
    unsafe { SIM.is_null() }
}

/// Run `f` without forced preemption (harness-side oracles that must not perturb).
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    if !managed() {
        return f();
    }
    sim().no_preempt += 1;
    let r = f();
    sim().no_preempt -= 1;
    r
}

pub fn vnow() -> u64 {
    sim().now()
}
pub fn pair_count() -> usize {
    unsafe { (*std::ptr::addr_of!(PAIRS)).0.iter().map(|b| b.count_ones() as usize).sum() }
}
/// Map shared memory over the coverage arrays so that forked runs accumulate into one union.
pub unsafe fn share_coverage(fd: i32) {
    for (p, len, off) in [
        (std::ptr::addr_of_mut!(COV) as usize, COV_SIZE, 0usize),
        (std::ptr::addr_of_mut!(PAIRS) as usize, PAIR_BITS / 8, COV_SIZE),
    ] {
        let r = libc::mmap(p as *mut _, len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_FIXED, fd, off as i64);
        assert!(r as usize == p);
    }
}
pub fn cov_count() -> usize {
    unsafe { (*std::ptr::addr_of!(COV)).0.iter().filter(|b| **b != 0).count() }
}
