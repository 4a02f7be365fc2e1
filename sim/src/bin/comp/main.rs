#![allow(static_mut_refs, dead_code)]
#[path = "../../core/mod.rs"]
mod core;
#[path = "../../fw/mod.rs"]
mod fw;
mod admit;
mod cache;
mod flight;

#[global_allocator]
static A: crate::core::alloc::SimAlloc = crate::core::alloc::SimAlloc;

use fw::orch::PropertyPlan;

fn find(n: &str) -> Option<fw::Scenario> {
    Some(match n {
        "cache_crash" => cache::crash,
        "cache_io" => cache::io_faults,
        "cache_bounds" => cache::bounds,
        "flight_async" => flight::async_flight,
        "flight_blocking" => flight::blocking_flight,
        "sched_exact" => admit::scheduler_exact,
        "sched_mt" => admit::scheduler_mt,
        "gov_exact" => admit::governor_exact,
        "gov_mt" => admit::governor_mt,
        _ => return None,
    })
}

const CACHE_REAL: &[&str] = &["persistent derived-product cache (ruby_fast_lsp::persistent_cache), compiled unmodified", "std::fs, std::thread, parking_lot, fs locks: real code down to the libc call"];
const CACHE_STUB: &[&str] = &["kernel file system (in-memory disk with volatile and durable images, torn tails, injected errno, short transfers)", "OS thread scheduler, futexes and clocks (baton scheduler, virtual time)", "process boundaries (thread groups with their own descriptors, locks and pid)", "the artifacts being cached (synthetic bytes naming their key and production)"];
const FLIGHT_REAL: &[&str] = &["single-flight caches (ruby_fast_lsp::single_flight), async and blocking, compiled unmodified", "tokio multi-thread runtime and rayon-free std threads"];
const SCHED_STUB: &[&str] = &["OS thread scheduler, futexes, epoll and clocks (baton scheduler, virtual time)", "the work being admitted or produced (synthetic, may fail, panic, be cancelled or be aborted)"];
const ADMIT_REAL: &[&str] = &["indexing scheduler (ruby_fast_lsp::indexing_scheduler)", "indexing resource governor (ruby_fast_lsp::indexing_resources)", "tokio multi-thread runtime, cancellation tokens"];
const RULE_CACHE: &str = "A case is a seed: it fixes 1-3 simulated processes with 1-2 threads each, their operation lists (lookup-or-build of up to 4 keys, invalidate, clear, summary, on-disk corruption, clock skew, sleeps), the fault plan (process crash, power loss, errno, short and torn writes) and the schedule parameters. Non-trivial: at least one publish was attempted and at least two lookups ran.";
const RULE_FLIGHT: &str = "A case is a seed: it fixes bounds, key set, callers and their productions (succeed, fail, panic, slow, caller aborted), runtime size and the schedule. Non-trivial: at least two callers of one key overlapped in time.";
const RULE_ADMIT: &str = "A case is a seed: it fixes limits, the jobs (project, priority, resources, duration, promotion, cancellation or abort time, panic) and the schedule. The exact variant compares every admission with a reference model at quiescent points; the multi-threaded variant checks safety under preemption. Non-trivial: at least two jobs were admitted.";
const A_CACHE: &[&str] = &["the disk keeps fsynced data and ordered directory entries as POSIX promises; unsynced data may be lost or torn at a 512-byte granularity", "preemption only at instrumented control-flow edges of the repository's crates and at system calls", "memory is sequentially consistent (weak-memory reorderings are not explored)"];
const A_SCHED: &[&str] = &["preemption only at instrumented control-flow edges of the repository's crates and at system calls", "memory is sequentially consistent (weak-memory reorderings are not explored)"];
const fn pl(id: &'static str, scenarios: &'static [(&'static str, u32)], rule: &'static str, assumptions: &'static [&'static str], real: &'static [&'static str], stub: &'static [&'static str]) -> PropertyPlan {
    PropertyPlan { id, scenarios, level: "exploration", rule, assumptions, real, stub, quick_s: 40, thorough_s: 1200 }
}
const PLANS: &[PropertyPlan] = &[
    pl("P01", &[("cache_crash", 2), ("cache_io", 2)], RULE_CACHE, A_CACHE, CACHE_REAL, CACHE_STUB),
    pl("P02", &[("cache_crash", 1)], RULE_CACHE, A_CACHE, CACHE_REAL, CACHE_STUB),
    pl("P03", &[("cache_crash", 1), ("cache_io", 1)], RULE_CACHE, A_CACHE, CACHE_REAL, CACHE_STUB),
    pl("P04", &[("cache_crash", 1), ("cache_io", 2)], RULE_CACHE, A_CACHE, CACHE_REAL, CACHE_STUB),
    pl("P05", &[("cache_bounds", 1)], RULE_CACHE, A_CACHE, CACHE_REAL, CACHE_STUB),
    pl("P06", &[("flight_async", 2), ("flight_blocking", 1)], RULE_FLIGHT, A_SCHED, FLIGHT_REAL, SCHED_STUB),
    pl("P07", &[("flight_async", 2), ("flight_blocking", 1)], RULE_FLIGHT, A_SCHED, FLIGHT_REAL, SCHED_STUB),
    pl("P08", &[("flight_async", 1), ("flight_blocking", 1)], RULE_FLIGHT, A_SCHED, FLIGHT_REAL, SCHED_STUB),
    pl("P09", &[("sched_mt", 2), ("sched_exact", 1)], RULE_ADMIT, A_SCHED, ADMIT_REAL, SCHED_STUB),
    pl("P10", &[("sched_exact", 2), ("sched_mt", 1)], RULE_ADMIT, A_SCHED, ADMIT_REAL, SCHED_STUB),
    pl("P11", &[("gov_mt", 2), ("gov_exact", 1)], RULE_ADMIT, A_SCHED, ADMIT_REAL, SCHED_STUB),
    pl("P12", &[("gov_exact", 2), ("gov_mt", 1)], RULE_ADMIT, A_SCHED, ADMIT_REAL, SCHED_STUB),
];

fn main() {
    fw::orch::main(find, PLANS);
}
