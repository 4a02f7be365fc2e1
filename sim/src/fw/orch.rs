//! The (unsimulated) orchestrator: hands seeds to zygotes, collects outcomes,
//! minimises failures, writes replay files and evidence.

use super::*;
use std::io::{Read, Write};
use std::os::unix::process::CommandExt;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct PropertyPlan {
    pub id: &'static str,
    /// (scenario, weight)
    pub scenarios: &'static [(&'static str, u32)],
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub quick_s: u64,
    pub thorough_s: u64,
}

pub struct Zygote {
    child: i32,
    rx: std::fs::File,
    tx: std::fs::File,
}

pub enum Reply {
    Done(Outcome),
    Timeout,
    Died(i32),
}

static COV_FD: AtomicU64 = AtomicU64::new(0);

/// plain fork+exec: the interposed posix_spawn is for simulated children only
fn spawn_zygote() -> Zygote {
    unsafe {
        let mut a = [0i32; 2];
        let mut b = [0i32; 2];
        assert!(libc::pipe2(a.as_mut_ptr(), libc::O_CLOEXEC) == 0);
        assert!(libc::pipe2(b.as_mut_ptr(), libc::O_CLOEXEC) == 0);
        let cov = COV_FD.load(Ordering::SeqCst) as i32;
        let exe = c"/proc/self/exe".as_ptr();
        let a0 = c"rfl-sim".as_ptr();
        let a1 = c"zygote".as_ptr();
        // spare argument slots: the simulated server's command line is written over them
        let sp = c"-".as_ptr();
        let argv = [a0, a1, sp, sp, sp, sp, sp, sp, std::ptr::null()];
        let envs: [*const libc::c_char; 9] = [
            c"HOME=/sim/home".as_ptr(),
            c"PATH=/sim/bin".as_ptr(),
            c"RUBY_FAST_LSP_CACHE_DIR=/sim/cache".as_ptr(),
            c"LANG=C.UTF-8".as_ptr(),
            c"TMPDIR=/sim/tmp".as_ptr(),
            if std::env::var_os("RFL_SIM_PAUSE").is_some() { c"RFL_SIM_CHILD=2".as_ptr() } else { c"RFL_SIM_CHILD=1".as_ptr() },
            c"RAYON_NUM_THREADS=2".as_ptr(),
            if std::env::var_os("RFL_SIM_LOG").is_some() { c"RUST_LOG=info".as_ptr() } else { c"RUST_LOG=error".as_ptr() },
            std::ptr::null(),
        ];
        let pid = sched::raw_syscall6(57, 0, 0, 0, 0, 0, 0) as i32;
        if pid == 0 {
            libc::personality(0x0040000);
            sched::raw_syscall6(libc::SYS_prctl as usize, 1, 9, 0, 0, 0, 0);
            libc::dup2(a[0], 0);
            libc::dup2(b[1], 1);
            libc::dup2(cov, 3);
            // no stray descriptors: the child's descriptor numbers must not depend on us
            sched::raw_syscall6(libc::SYS_close_range as usize, 4, u32::MAX as usize, 0, 0, 0, 0);
            libc::execve(exe, argv.as_ptr(), envs.as_ptr());
            libc::_exit(127);
        }
        libc::close(a[0]);
        libc::close(b[1]);
        use std::os::fd::FromRawFd;
        Zygote { child: pid, rx: std::fs::File::from_raw_fd(b[0]), tx: std::fs::File::from_raw_fd(a[1]) }
    }
}

impl Zygote {
    pub fn run(&mut self, case: &Case, timeout_s: u32) -> Reply {
        let j = serde_json::to_vec(case).unwrap();
        let mut m = Vec::with_capacity(j.len() + 8);
        m.extend_from_slice(&(j.len() as u32).to_le_bytes());
        m.extend_from_slice(&timeout_s.to_le_bytes());
        m.extend_from_slice(&j);
        if self.tx.write_all(&m).is_err() {
            return Reply::Died(-1);
        }
        let mut data = Vec::new();
        loop {
            let mut h = [0u8; 5];
            if self.rx.read_exact(&mut h).is_err() {
                return Reply::Died(-1);
            }
            let n = u32::from_le_bytes([h[1], h[2], h[3], h[4]]);
            match h[0] {
                2 => {
                    let mut b = vec![0u8; n as usize];
                    if self.rx.read_exact(&mut b).is_err() {
                        return Reply::Died(-1);
                    }
                    data.extend_from_slice(&b);
                }
                1 => return Reply::Timeout,
                _ => {
                    return match serde_json::from_slice::<Outcome>(&data) {
                        Ok(o) => Reply::Done(o),
                        Err(_) => Reply::Died(n as i32),
                    }
                }
            }
        }
    }
}
impl Drop for Zygote {
    fn drop(&mut self) {
        unsafe {
            libc::kill(self.child, libc::SIGKILL);
            let mut st = 0;
            libc::waitpid(self.child, &mut st, 0);
        }
    }
}

/// Run a case to an outcome, turning watchdog expiry and native death into violations.
pub fn run_case(z: &mut Zygote, case: &Case) -> Outcome {
    let tmo: u32 = std::env::var("VERIF_RUN_TIMEOUT").ok().and_then(|s| s.parse().ok()).unwrap_or(60);
    for attempt in 0..2u32 {
        match z.run(case, tmo * (1 + 2 * attempt)) {
            Reply::Done(o) => return o,
            Reply::Timeout => {
                if attempt == 1 {
                    return Outcome {
                        violations: vec![Violation {
                            property: case.property.clone(),
                            class: "no-progress:watchdog".into(),
                            msg: "the simulated run neither finished nor reached a scheduling point within the real-time limit (twice)".into(),
                        }],
                        ..Default::default()
                    };
                }
            }
            Reply::Died(st) => {
                if st == -1 {
                    *z = spawn_zygote();
                    if attempt == 1 {
                        return Outcome { harness_error: Some("zygote died".into()), ..Default::default() };
                    }
                    continue;
                }
                if st & 0x7f == 0 || st & 0x7f == 9 {
                    return Outcome { harness_error: Some(format!("run ended without an outcome (status {st:#x})")), ..Default::default() };
                }
                return Outcome {
                    violations: vec![Violation {
                        property: case.property.clone(),
                        class: format!("process-died:signal{}", st & 0x7f),
                        msg: format!("the simulated process was killed by signal {}", st & 0x7f),
                    }],
                    ..Default::default()
                };
            }
        }
    }
    unreachable!()
}

fn relevant<'a>(o: &'a Outcome, p: &str) -> Option<&'a Violation> {
    o.violations.iter().find(|v| v.property == p)
}

#[derive(Deserialize, Clone, Debug)]
pub struct Known {
    pub property: String,
    pub scenario: String,
    pub class: String,
    /// every listed substring must occur in the violation message
    pub contains: Vec<String>,
    pub what: String,
}
fn load_known(root: &str) -> Vec<Known> {
    let p = format!("{root}/known_findings.jsonl");
    let Ok(t) = std::fs::read_to_string(p) else { return vec![] };
    t.lines().filter(|l| l.trim_start().starts_with('{')).filter_map(|l| serde_json::from_str(l).ok()).collect()
}
fn known_match<'a>(ks: &'a [Known], scenario: &str, v: &Violation) -> Option<&'a Known> {
    ks.iter().find(|k| k.property == v.property && k.class == v.class && (k.scenario == "*" || k.scenario == scenario) && k.contains.iter().all(|c| v.msg.contains(c)))
}

struct Agg {
    runs: u64,
    hashes: std::collections::HashSet<u64>,
    nontrivial: u64,
    nontrivial_hashes: std::collections::HashSet<u64>,
    edges: u64,
    preempts: u64,
    switches: u64,
    stalls: u64,
    timer_jumps: u64,
    checks: u64,
    vtime_ns: u128,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    per_scenario: BTreeMap<String, u64>,
    harness_errors: u64,
    harness_sample: Vec<String>,
    other: BTreeMap<String, u64>,
    other_sample: Vec<String>,
    samples: Vec<serde_json::Value>,
    det_checked: u64,
    det_mismatch: u64,
    det_sample: Vec<String>,
    known: BTreeMap<String, u64>,
}

pub struct CheckArgs {
    pub property: String,
    pub tier: String,
    pub seed: u64,
    pub budget_s: Option<u64>,
    pub max_runs: Option<u64>,
    pub root: String,
    pub scenario: Option<String>,
    pub keep_going: bool,
}

pub fn setup_cov() {
    unsafe {
        let fd = sched::raw_syscall6(libc::SYS_memfd_create as usize, c"cov".as_ptr() as usize, 0, 0, 0, 0, 0) as i32;
        assert!(fd >= 0);
        libc::ftruncate(fd, (sched::COV_SIZE + sched::PAIR_BITS / 8) as i64);
        COV_FD.store(fd as u64, Ordering::SeqCst);
        sched::share_coverage(fd);
    }
}

fn seed_for(base: u64, scenario: &str, i: u64) -> u64 {
    let h = scenario.bytes().fold(0xcbf2_9ce4_8422_2325u64, |a, b| (a ^ b as u64).wrapping_mul(0x100_0000_01b3));
    mix(mix(base ^ h).wrapping_add(i)) >> 1
}

pub fn check(plan: &PropertyPlan, a: &CheckArgs) -> i32 {
    let t0 = Instant::now();
    setup_cov();
    let budget = Duration::from_secs(a.budget_s.unwrap_or(if a.tier == "thorough" { plan.thorough_s } else { plan.quick_s }));
    let workers: usize = std::env::var("VERIF_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let known = load_known(&a.root);
    let mut deck: Vec<&str> = Vec::new();
    for (s, w) in plan.scenarios {
        if a.scenario.as_deref().map_or(true, |x| x == *s) {
            for _ in 0..*w {
                deck.push(s);
            }
        }
    }
    // interleave
    let mut order: Vec<&str> = Vec::new();
    {
        let mut r = Rng::new(7);
        let mut d = deck.clone();
        r.shuffle(&mut d);
        order.extend(d);
    }
    println!("check property={} tier={} seed={} budget={}s workers={}", a.property, a.tier, a.seed, budget.as_secs(), workers);
    let agg = Mutex::new(Agg {
        runs: 0,
        hashes: Default::default(),
        nontrivial: 0,
        nontrivial_hashes: Default::default(),
        edges: 0,
        preempts: 0,
        switches: 0,
        stalls: 0,
        timer_jumps: 0,
        checks: 0,
        vtime_ns: 0,
        faults: Default::default(),
        probes: Default::default(),
        per_scenario: Default::default(),
        harness_errors: 0,
        harness_sample: vec![],
        other: Default::default(),
        other_sample: vec![],
        samples: vec![],
        det_checked: 0,
        det_mismatch: 0,
        det_sample: vec![],
        known: Default::default(),
    });
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let found: Mutex<Option<(Case, Outcome, u64)>> = Mutex::new(None);
    let max_runs = a.max_runs.unwrap_or(u64::MAX);
    let det_target = if a.tier == "thorough" { 400 } else { 40 };
    std::thread::scope(|sc| {
        for w in 0..workers {
            let (agg, next, stop, found, order, known) = (&agg, &next, &stop, &found, &order, &known);
            let (prop, seed, tier) = (&a.property, a.seed, &a.tier);
            let keep_going = a.keep_going;
            let _ = (w, tier);
            sc.spawn(move || {
                let mut z = spawn_zygote();
                let mut z2: Option<Zygote> = None;
                loop {
                    if stop.load(Ordering::Relaxed) || t0.elapsed() > budget {
                        return;
                    }
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= max_runs {
                        return;
                    }
                    let scn = order[(i % order.len() as u64) as usize];
                    let case = Case { scenario: scn.to_string(), property: prop.clone(), seed: seed_for(seed, scn, i), ..Default::default() };
                    let o = run_case(&mut z, &case);
                    let mut det: Option<(u64, u64)> = None;
                    if i < det_target {
                        let z2 = z2.get_or_insert_with(spawn_zygote);
                        let o2 = run_case(z2, &case);
                        det = Some((o.hash, o2.hash));
                    }
                    let mut g = agg.lock().unwrap();
                    if let Some((h1, h2)) = det {
                        g.det_checked += 1;
                        if h1 != h2 {
                            g.det_mismatch += 1;
                            if g.det_sample.len() < 5 {
                                let d = format!("{} seed {}: {h1:x} vs {h2:x}", case.scenario, case.seed);
                                g.det_sample.push(d);
                            }
                        }
                    }
                    g.runs += 1;
                    g.hashes.insert(o.hash);
                    if o.nontrivial {
                        g.nontrivial += 1;
                        g.nontrivial_hashes.insert(o.hash);
                        if g.samples.len() < 8 {
                            let v = serde_json::json!({"scenario": case.scenario, "seed": case.seed, "hash": format!("{:x}", o.hash),
                                "edges": o.edges, "switches": o.switches, "faults": o.faults, "checks": o.checks, "note": o.note});
                            g.samples.push(v);
                        }
                    }
                    g.edges += o.edges;
                    g.preempts += o.preempts;
                    g.switches += o.switches;
                    g.stalls += o.stalls;
                    g.timer_jumps += o.timer_jumps;
                    g.checks += o.checks;
                    g.vtime_ns += o.vtime_ns as u128;
                    for (k, v) in &o.faults {
                        *g.faults.entry(k.clone()).or_insert(0) += v;
                    }
                    for (k, v) in &o.probes {
                        *g.probes.entry(k.clone()).or_insert(0) += v;
                    }
                    *g.per_scenario.entry(case.scenario.clone()).or_insert(0) += 1;
                    if let Some(e) = &o.harness_error {
                        g.harness_errors += 1;
                        if g.harness_sample.len() < 10 {
                            let m = format!("{} seed {}: {e}", case.scenario, case.seed);
                            g.harness_sample.push(m);
                        }
                    }
                    for v in &o.violations {
                        if v.property != *prop {
                            *g.other.entry(format!("{}/{}", v.property, v.class)).or_insert(0) += 1;
                            if g.other_sample.len() < 6 {
                                let m = format!("{} seed {}: {}/{}: {}", case.scenario, case.seed, v.property, v.class, v.msg.chars().take(600).collect::<String>());
                                g.other_sample.push(m);
                            }
                        }
                    }
                    if let Some(v) = relevant(&o, prop) {
                        if let Some(k) = known_match(known, &case.scenario, v) {
                            *g.known.entry(k.what.clone()).or_insert(0) += 1;
                            continue;
                        }
                        drop(g);
                        if keep_going {
                            println!("violation {} {} seed={} :: {}", v.property, v.class, case.seed, v.msg.chars().take(1500).collect::<String>());
                            continue;
                        }
                        let mut f = found.lock().unwrap();
                        if f.as_ref().map_or(true, |(_, _, j)| i < *j) {
                            *f = Some((case, o.clone(), i));
                        }
                        stop.store(true, Ordering::SeqCst);
                        return;
                    }
                }
            });
        }
    });
    let search_wall = t0.elapsed().as_secs_f64();
    let g = agg.into_inner().unwrap();
    let found = found.into_inner().unwrap();
    let mut violations = 0;
    let mut replay_path = String::new();
    let mut min_info = serde_json::Value::Null;
    let mut vmsg = String::new();
    if let Some((case, o, _)) = found {
        violations = 1;
        let v = relevant(&o, &a.property).unwrap().clone();
        println!("found: {} / {} (scenario {}, seed {})", v.property, v.class, case.scenario, case.seed);
        let (mc, mo, steps, exact) = minimise(&case, &v, &a.property, if a.tier == "thorough" { 240 } else { 90 }, workers);
        let mv = relevant(&mo, &a.property).cloned().unwrap_or(v.clone());
        vmsg = mv.msg.clone();
        let dir = format!("{}/replays", a.root);
        let _ = std::fs::create_dir_all(&dir);
        replay_path = format!("{dir}/{}-{}.json", a.property, case.seed);
        let doc = serde_json::json!({
            "property": a.property, "class": mv.class, "message": mv.msg,
            "case": mc, "hash": format!("{:x}", mo.hash),
            "reproduced_twice_identically": exact,
            "operations": mo.ops, "schedule_and_fault_trace": mo.trace,
            "original": {"seed": case.seed, "ops": o.n_ops, "preempts": o.preempts},
            "minimised": {"ops": mo.ops.len(), "preemptions": mc.preempt.as_ref().map(|s| s.len()), "picks": mc.pick.as_ref().map(|s| s.len()), "faults": mc.fault.as_ref().map(|s| s.len()), "executions": steps},
        });
        let _ = std::fs::write(&replay_path, serde_json::to_string_pretty(&doc).unwrap());
        min_info = doc["minimised"].clone();
    }
    let wall = t0.elapsed().as_secs_f64();
    write_evidence(plan, a, &g, wall, search_wall, violations, &replay_path, &min_info);
    println!(
        "runs={} distinct={} nontrivial={} edges={} switches={} checks={} simulated={:.1}h cov={}/{} pairs={} harness_errors={} determinism={}/{} mismatches wall={:.1}s",
        g.runs,
        g.hashes.len(),
        g.nontrivial,
        g.edges,
        g.switches,
        g.checks,
        g.vtime_ns as f64 / 3.6e12,
        sched::cov_count(),
        sched::guard_count(),
        sched::pair_count(),
        g.harness_errors,
        g.det_mismatch,
        g.det_checked,
        wall
    );
    println!("faults={:?}", g.faults);
    println!("probes={:?}", g.probes);
    for m in &g.harness_sample {
        println!("HARNESS-ERROR {m}");
    }
    for m in &g.det_sample {
        println!("NONDETERMINISM {m}");
    }
    for m in &g.other_sample {
        println!("other-property: {m}");
    }
    for (k, n) in &g.known {
        println!("KNOWN-FINDING: property={} {} (seen {} times)", a.property, k, n);
    }
    if violations > 0 {
        println!("{}", vmsg.chars().take(3000).collect::<String>());
        println!("VIOLATION property={} replay={}", a.property, replay_path);
        return 1;
    }
    if g.runs == 0 || g.harness_errors * 20 > g.runs {
        println!("check could not explore: {} of {} runs ended in harness errors", g.harness_errors, g.runs);
        return 2;
    }
    0
}

fn write_evidence(plan: &PropertyPlan, a: &CheckArgs, g: &Agg, wall: f64, search_wall: f64, violations: u64, replay: &str, min: &serde_json::Value) {
    let dir = format!("{}/evidence", a.root);
    let _ = std::fs::create_dir_all(&dir);
    let per_h = g.runs as f64 / search_wall.max(0.001) * 3600.0;
    let doc = serde_json::json!({
        "property": a.property,
        "tier": a.tier,
        "seed": a.seed,
        "level": plan.level,
        "coverage": {
            "evaluations": g.runs,
            "assertions_evaluated": g.checks,
            "distinct_nontrivial": g.nontrivial_hashes.len(),
            "rule": plan.rule,
            "samples": g.samples,
            "nontrivial_runs": g.nontrivial,
            "distinct_executions": g.hashes.len(),
            "distinct_execution_measure": "64-bit hash over every scheduling decision (edge count, from, to), every disk mutation and every process event of the run",
            "switch_pairs_reached": sched::pair_count(),
            "switch_pairs_measure": "distinct (edge switched away from, edge resumed at) pairs, hashed into 2^23 buckets, union over runs",
            "edges_covered": sched::cov_count(),
            "edges_instrumented": sched::guard_count(),
            "edges_executed": g.edges,
            "preemption_points": g.preempts,
            "context_switches": g.switches,
            "clock_stalls_injected": g.stalls,
            "timer_jumps": g.timer_jumps,
            "runs_per_hour": per_h as u64,
            "seeds_per_hour": per_h as u64,
            "simulated_seconds": (g.vtime_ns / 1_000_000_000) as u64,
            "fault_counts": g.faults,
            "probes": g.probes,
            "runs_per_scenario": g.per_scenario,
            "determinism_self_check": {"seeds_run_twice_in_two_processes": g.det_checked, "mismatches": g.det_mismatch},
            "harness_errors": g.harness_errors,
            "violations_of_other_properties_seen": g.other,
            "known_findings_seen": g.known,
        },
        "components": {"real_code": plan.real, "stub": plan.stub},
        "wall_s": wall,
        "assumptions": plan.assumptions,
        "violations": violations,
        "replay": replay,
        "minimisation": min,
    });
    let _ = std::fs::write(format!("{dir}/{}.json", a.property), serde_json::to_string_pretty(&doc).unwrap());
}

// ------------------------------------------------------------ minimisation

struct Pool {
    zs: Vec<Zygote>,
}
impl Pool {
    /// evaluate candidates in parallel; index of the first that still fails the same way
    fn first_failing(&mut self, cands: &[Case], class: &str, prop: &str) -> Option<usize> {
        let n = self.zs.len();
        let next = AtomicU64::new(0);
        let best = AtomicU64::new(u64::MAX);
        std::thread::scope(|s| {
            for z in self.zs.iter_mut().take(n) {
                let (next, best) = (&next, &best);
                s.spawn(move || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= cands.len() as u64 || i > best.load(Ordering::SeqCst) {
                        return;
                    }
                    let o = run_case(z, &cands[i as usize]);
                    if relevant(&o, prop).is_some_and(|v| v.class == class) {
                        best.fetch_min(i, Ordering::SeqCst);
                    }
                });
            }
        });
        match best.load(Ordering::SeqCst) {
            u64::MAX => None,
            i => Some(i as usize),
        }
    }
}

fn ddmin(pool: &mut Pool, class: &str, prop: &str, items: Vec<u64>, mk: &dyn Fn(&[u64]) -> Case, end: Instant, steps: &mut u64) -> Vec<u64> {
    let mut cur = items;
    // empty first
    if !cur.is_empty() {
        *steps += 1;
        if pool.first_failing(&[mk(&[])], class, prop).is_some() {
            return vec![];
        }
    }
    let mut n = 2usize;
    while cur.len() >= 2 && Instant::now() < end {
        let sz = cur.len().div_ceil(n);
        let chunks: Vec<Vec<u64>> = cur.chunks(sz).map(|c| c.to_vec()).collect();
        let mut cands: Vec<Vec<u64>> = Vec::new();
        if n == 2 {
            cands.extend(chunks.iter().cloned());
        }
        for i in 0..chunks.len() {
            cands.push(chunks.iter().enumerate().filter(|(j, _)| *j != i).flat_map(|(_, c)| c.clone()).collect());
        }
        let cases: Vec<Case> = cands.iter().map(|c| mk(c)).collect();
        *steps += cases.len() as u64;
        match pool.first_failing(&cases, class, prop) {
            Some(i) => {
                let shrunk_to_chunk = n == 2 && i < chunks.len();
                cur = cands[i].clone();
                n = if shrunk_to_chunk { 2 } else { n.saturating_sub(1).max(2) };
            }
            None => {
                if n >= cur.len() {
                    break;
                }
                n = (n * 2).min(cur.len());
            }
        }
    }
    cur
}

fn minimise(case: &Case, v: &Violation, prop: &str, limit_s: u64, workers: usize) -> (Case, Outcome, u64, bool) {
    let end = Instant::now() + Duration::from_secs(limit_s);
    let mut pool = Pool { zs: (0..workers).map(|_| spawn_zygote()).collect() };
    let mut steps = 0u64;
    let mut best = case.clone();
    best.record = false;
    let class = v.class.clone();
    if class == "no-progress:watchdog" {
        let o = Outcome { violations: vec![v.clone()], ..Default::default() };
        return (best, o, 0, false);
    }
    let mut rec = |pool: &mut Pool, c: &Case| {
        let mut c = c.clone();
        c.record = true;
        run_case(&mut pool.zs[0], &c)
    };
    let mut o = rec(&mut pool, &best);
    if !relevant(&o, prop).is_some_and(|x| x.class == class) {
        return (best, o, 1, false);
    }
    // stalls
    {
        let mut c = best.clone();
        c.no_stall = true;
        steps += 1;
        if pool.first_failing(&[c.clone()], &class, prop).is_some() {
            best = c;
            o = rec(&mut pool, &best);
        }
    }
    for round in 0..2 {
        // operations
        let n = o.n_ops;
        if n > 0 {
            let live: Vec<u64> = (0..n as u64).filter(|i| !best.drop_ops.contains(&(*i as u32))).collect();
            let b = best.clone();
            let kept = ddmin(&mut pool, &class, prop, live, &|keep| {
                let mut c = b.clone();
                let k: BTreeSet<u32> = keep.iter().map(|x| *x as u32).collect();
                c.drop_ops = (0..n).filter(|i| !k.contains(i)).collect();
                c
            }, end, &mut steps);
            let k: BTreeSet<u32> = kept.iter().map(|x| *x as u32).collect();
            let mut c = best.clone();
            c.drop_ops = (0..n).filter(|i| !k.contains(i)).collect();
            let oo = rec(&mut pool, &c);
            if relevant(&oo, prop).is_some_and(|x| x.class == class) {
                best = c;
                o = oo;
            }
        }
        for dim in 0..3 {
            let items = match dim {
                0 => o.eff_fault.clone(),
                1 => o.eff_preempt.clone(),
                _ => o.eff_pick.clone(),
            };
            let set = |c: &mut Case, k: &[u64]| {
                let s: BTreeSet<u64> = k.iter().copied().collect();
                match dim {
                    0 => c.fault = Some(s),
                    1 => c.preempt = Some(s),
                    _ => c.pick = Some(s),
                }
            };
            let b = best.clone();
            let kept = ddmin(&mut pool, &class, prop, items, &|keep| {
                let mut c = b.clone();
                set(&mut c, keep);
                c
            }, end, &mut steps);
            let mut c = best.clone();
            set(&mut c, &kept);
            let oo = rec(&mut pool, &c);
            if relevant(&oo, prop).is_some_and(|x| x.class == class) {
                best = c;
                o = oo;
            }
        }
        if Instant::now() > end || round == 1 {
            break;
        }
    }
    // fresh process, twice, recording must not change anything
    let mut fresh = spawn_zygote();
    let mut c = best.clone();
    let f1 = run_case(&mut fresh, &c);
    c.record = true;
    let f2 = run_case(&mut fresh, &c);
    let exact = f1.hash == f2.hash && f1.hash == o.hash && relevant(&f1, prop).is_some_and(|x| x.class == class);
    (best, o, steps, exact)
}

pub fn replay(path: &str) -> i32 {
    setup_cov();
    let doc: serde_json::Value = match std::fs::read_to_string(path).ok().and_then(|t| serde_json::from_str(&t).ok()) {
        Some(d) => d,
        None => {
            println!("cannot read replay file {path}");
            return 2;
        }
    };
    let mut case: Case = serde_json::from_value(doc["case"].clone()).unwrap();
    case.record = true;
    let mut z = spawn_zygote();
    let o = run_case(&mut z, &case);
    for l in &o.ops {
        println!("op: {l}");
    }
    println!("hash now {:x}, recorded {}", o.hash, doc["hash"].as_str().unwrap_or(""));
    match relevant(&o, &case.property) {
        Some(v) => {
            println!("{}: {}", v.class, v.msg);
            println!("VIOLATION property={} replay={}", case.property, path);
            1
        }
        None => {
            println!("the recorded violation did not occur; violations: {:?} harness_error: {:?}", o.violations, o.harness_error);
            0
        }
    }
}

/// Entry point shared by the binaries.
pub fn main(find: fn(&str) -> Option<Scenario>, plans: &[PropertyPlan]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let opt = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("zygote") => unsafe {
            sched::share_coverage(3);
            libc::close(3);
            zygote(find)
        },
        Some("check") => {
            let prop = opt("--property").expect("--property");
            let plan = plans.iter().find(|p| p.id == prop).expect("unknown property");
            check(
                plan,
                &CheckArgs {
                    property: prop,
                    tier: opt("--tier").unwrap_or("quick".into()),
                    seed: opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
                    budget_s: opt("--budget").and_then(|s| s.parse().ok()),
                    max_runs: opt("--runs").and_then(|s| s.parse().ok()),
                    root: opt("--root").unwrap_or("/verif".into()),
                    scenario: opt("--scenario"),
                    keep_going: args.iter().any(|a| a == "--keep-going"),
                },
            )
        }
        Some("list") => {
            for p in plans {
                println!("{}", p.id);
            }
            0
        }
        Some("replay") => replay(&args[2]),
        Some("one") => {
            // one SCENARIO SEED [PROPERTY]: run one case and print its outcome
            setup_cov();
            let mut z = spawn_zygote();
            let case = Case { scenario: args[2].clone(), seed: args[3].parse().unwrap(), property: args.get(4).cloned().unwrap_or_default(), record: opt("--record").is_some(), ..Default::default() };
            let drop_ops = opt("--drop").map(|s| s.split(',').filter_map(|x| x.parse().ok()).collect()).unwrap_or_default();
            let case = Case { drop_ops, preempt: opt("--calm").map(|_| Default::default()), pick: opt("--calm").map(|_| Default::default()), no_stall: opt("--calm").is_some(), ..case };
            let t = Instant::now();
            let o = run_case(&mut z, &case);
            println!("{}", serde_json::to_string_pretty(&o).unwrap());
            println!("wall {:?} cov {}", t.elapsed(), sched::cov_count());
            0
        }
        _ => {
            eprintln!("usage: check --property P --tier quick|thorough --seed N | replay FILE | one SCENARIO SEED");
            2
        }
    };
    unsafe { libc::_exit(code) }
}
#[allow(unused_imports)]
use CommandExt as _;
