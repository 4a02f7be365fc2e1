//! Persistent derived-product cache: several simulated processes share one cache
//! directory on the simulated disk.

use crate::core::rng::{mix, Rng};
use crate::core::sched::{sim, vnow};
use crate::core::vfs::{self, FaultCfg, Vfs};
use crate::fw::workers::*;
use crate::fw::*;
use ruby_fast_lsp::persistent_cache::*;
use std::collections::{BTreeMap, BTreeSet};

const ROOT: &str = "/sim/cache";

#[derive(Clone, Debug)]
enum Op {
    Get { key: usize, build_ns: u64, fail: bool },
    Invalidate(usize),
    Summary,
    Clear,
    Corrupt { key: usize, how: u8, at: u64 },
    Skew(i64),
    Sleep(u64),
}

#[derive(Default)]
struct KeyModel {
    /// artifacts handed to publish for this key, by production id
    attempts: BTreeMap<u64, Vec<u8>>,
    /// simulated process currently holding the right to produce
    holder: Option<(u32, u64)>,
    /// an acknowledged publish that nothing has since been allowed to remove
    durable: Option<u64>,
    /// bumped by every operation that may legitimately remove the entry
    removals: u64,
    /// productions that may legitimately still be served
    servable: BTreeSet<u64>,
    publishing: BTreeSet<u64>,
    /// processes in the middle of an operation that may remove the entry
    removing: Vec<u32>,
}
#[derive(Default)]
struct Model {
    keys: Vec<KeyModel>,
    next_prod: u64,
    done: BTreeSet<(u32, u32)>,
    group_of_proc: Vec<u32>,
    next_group: u32,
    progress: Vec<Vec<usize>>,
    faults_on: bool,
    evict: bool,
    gets: u64,
    hits: u64,
    pubs: u64,
    machine_seen: u64,
    handled_crashes: usize,
    single_proc: bool,
}
static mut M: *mut Model = std::ptr::null_mut();
fn m() -> &'static mut Model {
    unsafe { &mut *M }
}

fn artifact(key: usize, prod: u64) -> Vec<u8> {
    let mut r = Rng::new(mix(key as u64 * 1000 + prod));
    let n = [0usize, 1, 40, 700, 5000, 20000][r.below(6)];
    let mut v = format!("key={key} prod={prod};").into_bytes();
    let compressible = r.chance(1, 2);
    for i in 0..n {
        v.push(if compressible { (i / 97) as u8 } else { r.next() as u8 });
    }
    v
}
fn wasm_key(i: usize) -> CompiledWasmProductKey {
    // keys differ in source bytes or only in the compiler identity
    CompiledWasmProductKey::new(format!("source-{}", i / 2).as_bytes(), 7 + (i % 2) as u64)
}
fn prod_of(bytes: &[u8]) -> Option<(usize, u64)> {
    let t = String::from_utf8_lossy(&bytes[..bytes.len().min(40)]).into_owned();
    let t = t.split(';').next()?.to_string();
    let (a, b) = t.split_once(' ')?;
    Some((a.strip_prefix("key=")?.parse().ok()?, b.strip_prefix("prod=")?.parse().ok()?))
}

fn check_hit(key: usize, bytes: &[u8], removed_before: &BTreeSet<u64>) {
    let km = &m().keys[key];
    let ok = prod_of(bytes).is_some_and(|(_, p)| km.attempts.get(&p).is_some_and(|a| a == bytes));
    check("P01", "wrong-bytes", ok, || {
        format!("lookup of key {key} returned {} bytes that no producer ever published for that key: {:?}", bytes.len(), String::from_utf8_lossy(&bytes[..bytes.len().min(60)]))
    });
    if let Some((_, p)) = prod_of(bytes) {
        check("P01", "resurrected", !removed_before.contains(&p), || {
            format!("lookup of key {key} served production {p} although it had been invalidated or cleared before the lookup began")
        });
    }
}

fn do_get(cache: &PersistentDerivedProductCache, group: u32, key: usize, build_ns: u64, fail: bool) {
    let k = wasm_key(key);
    m().gets += 1;
    let removed: BTreeSet<u64> = {
        let km = &m().keys[key];
        km.attempts.keys().copied().filter(|p| !km.servable.contains(p)).collect()
    };
    let durable_before = m().keys[key].durable;
    let removals_before = m().keys[key].removals;
    let t0 = vnow();
    let r = cache.lookup_compiled_wasm_or_reserve(&k);
    match r {
        Ok(PersistentCompiledWasmLookup::Hit(b)) => {
            m().hits += 1;
            check_hit(key, &b, &removed);
        }
        Ok(PersistentCompiledWasmLookup::Reservation(res)) => {
            let km = &mut m().keys[key];
            if let (Some(p), true) = (durable_before, removals_before == km.removals) {
                if !m().faults_on && !m().evict {
                    check("P02", "lost-acknowledged", false, || format!("publish of key {key} (production {p}) was acknowledged, nothing removed it, yet a later lookup missed"));
                }
            }
            let km = &mut m().keys[key];
            // a holder whose process crashed no longer counts, even before the harness noticed
            if km.holder.is_some_and(|(g, _)| sim().crashed_groups.contains(&g)) {
                km.holder = None;
            }
            check("P03", "two-builders", km.holder.is_none(), || format!("process {group} was told to build key {key} while {:?} holds the right to build it", km.holder));
            m().next_prod += 1;
            let prod = m().next_prod;
            m().keys[key].holder = Some((group, prod));
            if build_ns > 0 {
                vsleep(build_ns);
            } else {
                pause();
            }
            if fail {
                // the builder gives up: the next lookup must be able to build
                m().keys[key].holder = None;
                drop(res);
                return;
            }
            let a = artifact(key, prod);
            let km = &mut m().keys[key];
            km.attempts.insert(prod, a.clone());
            km.servable.insert(prod);
            km.publishing.insert(prod);
            let removals = km.removals;
            // the right to build ends somewhere inside publish
            km.holder = None;
            let r = res.publish(&k, &a);
            let km = &mut m().keys[key];
            km.publishing.remove(&prod);
            match r {
                Ok(()) => {
                    m().pubs += 1;
                    let km = &mut m().keys[key];
                    if km.removals == removals && km.removing.is_empty() {
                        km.durable = Some(prod);
                    }
                    sim().probe("publish-acknowledged");
                }
                Err(e) => {
                    sim().probe("publish-error");
                    check("P04", "publish-error", m().faults_on, || format!("publish of key {key} failed with no fault injected: {e:#}"));
                }
            }
        }
        Err(e) => {
            sim().probe("lookup-error");
            check("P04", "lookup-error", m().faults_on, || format!("lookup of key {key} failed with no fault injected: {e:#}"));
        }
    }
    let _ = t0;
}

fn begin_removal(group: u32, keys: &[usize]) {
    for &k in keys {
        m().keys[k].removing.push(group);
    }
    removed_all(keys);
}
fn end_removal(group: u32, keys: &[usize]) {
    for &k in keys {
        let r = &mut m().keys[k].removing;
        if let Some(i) = r.iter().position(|g| *g == group) {
            r.remove(i);
        }
    }
    removed_all(keys);
}
fn removed_all(keys: &[usize]) {
    for &k in keys {
        let km = &mut m().keys[k];
        km.removals += 1;
        km.durable = None;
    }
}
/// the removal has been acknowledged: productions published before it began must not be served
fn settle_removed(key: usize, before: &BTreeSet<u64>) {
    let km = &mut m().keys[key];
    for p in before {
        if !km.publishing.contains(p) {
            km.servable.remove(p);
        }
    }
}

fn apply(cache: &PersistentDerivedProductCache, group: u32, op: &Op) {
    match op {
        Op::Get { key, build_ns, fail } => do_get(cache, group, *key, *build_ns, *fail),
        Op::Invalidate(k) => {
            let before: BTreeSet<u64> = m().keys[*k].attempts.keys().copied().filter(|p| !m().keys[*k].publishing.contains(p)).collect();
            begin_removal(group, &[*k]);
            let r = cache.invalidate_compiled_wasm(&wasm_key(*k));
            end_removal(group, &[*k]);
            match r {
                Ok(_) => settle_removed(*k, &before),
                Err(e) => check("P04", "invalidate-error", m().faults_on, || format!("invalidate failed with no fault injected: {e:#}")),
            }
        }
        Op::Clear => {
            let n = m().keys.len();
            let all: Vec<usize> = (0..n).collect();
            let before: Vec<BTreeSet<u64>> = (0..n).map(|k| m().keys[k].attempts.keys().copied().filter(|p| !m().keys[k].publishing.contains(p)).collect()).collect();
            begin_removal(group, &all);
            let r = cache.clear();
            end_removal(group, &all);
            match r {
                Ok(_) => {
                    for k in 0..n {
                        settle_removed(k, &before[k]);
                    }
                }
                Err(e) => check("P04", "clear-error", m().faults_on, || format!("clear failed with no fault injected: {e:#}")),
            }
        }
        Op::Summary => {
            if let Err(e) = cache.summary() {
                check("P04", "summary-error", m().faults_on, || format!("summary failed with no fault injected: {e:#}"));
            }
        }
        Op::Corrupt { key, how, at } => corrupt(*key, *how, *at),
        Op::Skew(ns) => {
            sim().wall_skew_ns += ns;
            sim().count_fault("clock-jump");
        }
        Op::Sleep(ns) => vsleep(*ns),
    }
}

/// Damage the stored entry of `key` the way a bad disk or a foreign writer would.
fn corrupt(key: usize, how: u8, at: u64) {
    let s = sim();
    let id = wasm_key(key).cache_id().to_string();
    let files = s.vfs.files_under(ROOT);
    let Some((_, ino)) = files.iter().find(|(p, _)| p.ends_with(".rflsp-product") && p.contains(&id)).cloned() else { return };
    let other = files.iter().find(|(p, _)| p.ends_with(".rflsp-product") && !p.contains(&id)).cloned();
    let donor = other.and_then(|(p, _)| s.vfs.get(&p));
    removed_all(&[key]);
    let s = sim();
    s.vfs.mutate_file(ino, |d| {
        let n = d.len().max(1) as u64;
        match how {
            0 => {
                let i = (at % n) as usize;
                if i < d.len() {
                    d[i] ^= 1 << (at >> 32 & 7);
                }
            }
            1 => d.truncate((at % n) as usize),
            2 => d.extend_from_slice(&[0u8; 13]),
            3 => d.clear(),
            4 => {
                if let Some(x) = donor {
                    *d = x;
                }
            }
            _ => {
                let i = (at % n) as usize;
                for b in d[i..].iter_mut() {
                    *b = 0;
                }
            }
        }
    });
    s.count_fault(["entry-bitflip", "entry-truncated", "entry-extended", "entry-emptied", "entry-swapped", "entry-zeroed-tail"][how.min(5) as usize]);
}

fn limits() -> (usize, u64) {
    let mut r = ctx().rng(9);
    if m().evict {
        (r.range(1, 3), [2_000u64, 30_000, 1 << 30][r.below(3)])
    } else {
        (4096, 2 << 30)
    }
}
fn new_cache() -> PersistentDerivedProductCache {
    let (e, b) = limits();
    PersistentDerivedProductCache::with_limits(ROOT.into(), e, b)
}

fn run_thread(proc_idx: usize, th: usize, group: u32, cache: PersistentDerivedProductCache, ops: Vec<(u32, Op)>, from: usize) {
    spawn_in_group(group, move || {
        for (i, (n, op)) in ops.iter().enumerate().skip(from) {
            m().progress[proc_idx][th] = i + 1;
            ctx().op(format!("t={}ms #{n} p{proc_idx}.{th}: {op:?}", vnow() / 1_000_000));
            apply(&cache, group, op);
        }
        m().done.insert((proc_idx as u32, th as u32));
        notify();
    });
}

/// A machine crash: the model forgets what was not yet acknowledged, keeps the rest.
fn model_machine_crash() {
    for km in m().keys.iter_mut() {
        km.holder = None;
        km.publishing.clear();
        // an unacknowledged removal or an acknowledged one whose directory was not synced
        // may be undone by the crash
        let all: Vec<u64> = km.attempts.keys().copied().collect();
        km.servable.extend(all);
    }
}
fn model_process_crash(group: u32) {
    for km in m().keys.iter_mut() {
        km.removing.retain(|g| *g != group);
        if km.holder.is_some_and(|(g, _)| g == group) {
            km.holder = None;
        }
    }
}

fn scenario(kind: u8) {
    let c = ctx();
    c.liveness = "P04".into();
    let mut r = c.rng(1);
    let nkeys = r.range(1, 4);
    let nproc = if kind == 2 { 1 } else { r.range(1, 3) };
    let faults = kind == 1;
    let evict = kind == 2;
    let mut threads: Vec<usize> = (0..nproc).map(|_| r.range(1, 2)).collect();
    if kind == 2 {
        threads = vec![r.range(1, 3)];
    }
    let nops = r.range(4, 18);
    let long = r.chance(1, 10);
    let mut raw: Vec<(usize, usize, Op)> = Vec::new();
    for _ in 0..nops {
        let p = r.below(nproc);
        let t = r.below(threads[p]);
        let key = r.below(nkeys);
        let op = match r.below(20) {
            0 => Op::Invalidate(key),
            1 if kind != 2 => Op::Clear,
            2 => Op::Summary,
            3 | 4 if kind != 2 => Op::Corrupt { key, how: r.below(6) as u8, at: r.next() },
            5 => Op::Skew([-3_600_000_000_000i64, 3_600_000_000_000, -5_000_000_000][r.below(3)]),
            6 => Op::Sleep(r.range(1, 60) as u64 * 1_000_000),
            _ => Op::Get {
                key: if kind == 2 { r.below(nkeys + 3) } else { key },
                build_ns: if long { r.range(0, 4000) as u64 * 1_000_000 } else { [0u64, 0, 1_000_000, 30_000_000][r.below(4)] },
                fail: r.chance(1, 8),
            },
        };
        raw.push((p, t, op));
    }
    let mut crashes = Vec::new();
    if kind == 0 || kind == 1 {
        for _ in 0..r.below(4) {
            crashes.push((r.range(1, 140) as u64, if r.chance(2, 3) { vfs::CRASH_MACHINE } else { vfs::CRASH_PROCESS }));
        }
        crashes.sort();
    }
    let ops = c.filter_ops(raw);
    let mut per: Vec<Vec<Vec<(u32, Op)>>> = threads.iter().map(|n| vec![Vec::new(); *n]).collect();
    for (i, (p, t, op)) in ops {
        per[p][t].push((i, op));
    }
    let fc = FaultCfg {
        scope: "/sim/cache".into(),
        rate_pm: if faults { [4u64, 15, 40][r.below(3)] } else { 0 },
        kinds: if faults {
            let mut all = vec![vfs::F_READ_EIO, vfs::F_WRITE_ENOSPC, vfs::F_FSYNC_EIO, vfs::F_OPEN_EIO, vfs::F_OPEN_EMFILE, vfs::F_RENAME_EIO, vfs::F_UNLINK_EIO, vfs::F_STAT_EIO, vfs::F_READ_SHORT, vfs::F_WRITE_SHORT, vfs::F_EINTR, vfs::F_READ_BITFLIP];
            r.shuffle(&mut all);
            let n = r.range(2, 8);
            all.truncate(n);
            all
        } else {
            vec![]
        },
        max: 12,
        shuffle_readdir: true,
        file_fsync_commits_meta: r.chance(1, 2),
        crashes,
        ..Default::default()
    };
    let model = Model {
        keys: (0..nkeys + 3).map(|_| KeyModel::default()).collect(),
        progress: threads.iter().map(|n| vec![0; *n]).collect(),
        next_group: 1,
        faults_on: faults,
        evict,
        single_proc: nproc == 1,
        ..Default::default()
    };
    unsafe { M = Box::into_raw(Box::new(model)) };
    let mut v = Vfs::new();
    v.mkdirs("/sim/cache");
    start_sim(swarm(ctx().case.seed, 0), v, fc);

    let mut groups = Vec::new();
    for p in 0..nproc {
        let g = m().next_group;
        m().next_group += 1;
        groups.push(g);
        let cache = new_cache();
        for t in 0..threads[p] {
            run_thread(p, t, g, cache.clone(), per[p][t].clone(), 0);
        }
    }
    m().group_of_proc = groups;
    // supervise: restart crashed processes until all operations ran
    let want: usize = threads.iter().sum();
    loop {
        let ok = wait_until(3 * 3600 * 1_000_000_000, || m().done.len() >= want || sim().crashed_groups.len() > m().handled_crashes);
        if !ok {
            violation("P04", "stuck", "cache operations did not finish within 3 simulated hours".into());
            finish_run();
        }
        if sim().crashed_groups.len() > m().handled_crashes {
            let machine = sim().machine_crashes > m().machine_seen;
            m().machine_seen = sim().machine_crashes;
            let dead: Vec<u32> = sim().crashed_groups[m().handled_crashes..].to_vec();
            m().handled_crashes = sim().crashed_groups.len();
            if machine {
                model_machine_crash();
            }
            for g in &dead {
                model_process_crash(*g);
            }
            for p in 0..nproc {
                if dead.contains(&m().group_of_proc[p]) {
                    let g = m().next_group;
                    m().next_group += 1;
                    m().group_of_proc[p] = g;
                    let cache = new_cache();
                    for t in 0..threads[p] {
                        if !m().done.contains(&(p as u32, t as u32)) {
                            let from = m().progress[p][t];
                            run_thread(p, t, g, cache.clone(), per[p][t].clone(), from);
                        }
                    }
                }
            }
            continue;
        }
        break;
    }
    // faults stop; a fresh process must find every key usable
    sim().fault_cfg.off = true;
    sim().fault_cfg.crashes.clear();
    m().faults_on = false;
    let evicting = m().evict;
    if evicting {
        check_bounds();
    }
    m().evict = evicting;
    let final_power_loss = kind == 0 && ctx().rng(3).chance(1, 2);
    if final_power_loss {
        vfs::machine_crash(sim());
        sim().count_fault("crash-machine");
        m().handled_crashes = sim().crashed_groups.len();
        model_machine_crash();
    }
    let g = m().next_group;
    let nk = m().keys.len();
    m().done.clear();
    spawn_in_group(g, move || {
        // no limits: this pass decides reachability, not eviction
        let cache = PersistentDerivedProductCache::new(ROOT.into());
        for k in 0..nk {
            let durable = m().keys[k].durable;
            let removed: BTreeSet<u64> = m().keys[k].attempts.keys().copied().filter(|p| !m().keys[k].servable.contains(p)).collect();
            match cache.lookup_compiled_wasm_or_reserve(&wasm_key(k)) {
                Ok(PersistentCompiledWasmLookup::Hit(b)) => {
                    check_hit(k, &b, &removed);
                    sim().probe("final-hit");
                }
                Ok(PersistentCompiledWasmLookup::Reservation(res)) => {
                    // an in-memory bit flip on read makes dropping the entry the right call
                    if durable.is_some() && !evicting && !sim().stats.faults.contains_key("read-bitflip") {
                        check("P02", "lost-acknowledged", false, || format!("publish of key {k} (production {:?}) was acknowledged and never removed, but a fresh process misses it{}", durable, if final_power_loss { " after a power loss" } else { "" }));
                    }
                    let a = artifact(k, 1_000_000 + k as u64);
                    m().keys[k].attempts.insert(1_000_000 + k as u64, a.clone());
                    if let Err(e) = res.publish(&wasm_key(k), &a) {
                        check("P04", "wedged-publish", false, || format!("after faults stopped, key {k} cannot be published: {e:#}"));
                    }
                    match cache.lookup_compiled_wasm_or_reserve(&wasm_key(k)) {
                        Ok(PersistentCompiledWasmLookup::Hit(b)) => check("P01", "wrong-bytes", *b == a, || format!("key {k}: re-published bytes differ")),
                        Ok(_) => check("P04", "wedged-miss", false, || format!("after faults stopped, key {k} was published but still misses")),
                        Err(e) => check("P04", "wedged-lookup", false, || format!("after faults stopped, key {k} cannot be looked up: {e:#}")),
                    }
                }
                Err(e) => check("P04", "wedged-lookup", false, || format!("after faults stopped, key {k} cannot be looked up: {e:#}")),
            }
            ctx().out.checks += 1;
        }
        m().done.insert((0, 0));
        notify();
    });
    if !wait_until(3600 * 1_000_000_000, || !m().done.is_empty()) {
        violation("P04", "stuck", "after faults stopped, a fresh process could not use the cache within one simulated hour".into());
    }
    let c = ctx();
    c.out.nontrivial = m().pubs > 0 && m().gets > 1;
    c.out.note = format!("procs={nproc} keys={nkeys} gets={} hits={} publishes={}", m().gets, m().hits, m().pubs);
    finish_run();
}

/// One process, quiescent: the directory respects the configured bounds.
fn check_bounds() {
    let (e, b) = limits();
    let s = sim();
    let files: Vec<(String, u64)> = s.vfs.files_under(ROOT).into_iter().filter(|(p, _)| p.ends_with(".rflsp-product")).collect();
    let bytes: u64 = files.iter().map(|(p, _)| s.vfs.get(p).map_or(0, |d| d.len() as u64)).sum();
    if m().pubs > e as u64 {
        s.probe("eviction-needed");
    }
    check("P05", "too-many-entries", files.len() <= e, || format!("{} entries on disk, limit {e}", files.len()));
    check("P05", "too-many-bytes", bytes <= b, || format!("{bytes} bytes on disk, limit {b}"));
}

pub fn crash() {
    scenario(0)
}
pub fn io_faults() {
    scenario(1)
}
pub fn bounds() {
    scenario(2)
}
