//! Simulated processes made of plain threads, for driving library-level APIs.

use crate::core::sched::{self, sim, State};

/// Spawn a managed thread belonging to simulated process `group`.
pub fn spawn_in_group(group: u32, f: impl FnOnce() + Send + 'static) {
    let s = sim();
    let c = s.cur;
    let saved = s.th(c).group;
    s.th(c).group = group;
    s.no_preempt += 1;
    let h = std::thread::Builder::new().stack_size(4 << 20).spawn(f).expect("spawn");
    drop(h);
    let s = sim();
    s.no_preempt -= 1;
    let c = s.cur;
    s.th(c).group = saved;
}

/// Block the harness thread until `done()`; false if `limit_ns` of simulated time passed.
pub fn wait_until(limit_ns: u64, mut done: impl FnMut() -> bool) -> bool {
    let end = sched::vnow() + limit_ns;
    loop {
        if done() {
            return true;
        }
        let s = sim();
        if s.now() >= end {
            return false;
        }
        s.block(State::Harness, Some(end));
    }
}
pub fn notify() {
    sim().wake_harness();
}
/// Sleep in simulated time.
pub fn vsleep(ns: u64) {
    let s = sim();
    let d = s.now() + ns.max(1);
    s.block(State::Sleep, Some(d));
}
/// A point where the scheduler may switch.
pub fn pause() {
    sim().point();
}

/// Block until every other thread is blocked (called again: until that is true again
/// after something ran), or `limit` of simulated time passed.  True when idle.
pub fn wait_idle(limit_ns: u64) -> bool {
    let s = sim();
    let d = s.now() + limit_ns;
    !s.block(State::Idle, Some(d))
}
