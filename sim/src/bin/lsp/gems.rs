//! Projects with installed gems, over several sessions that share the user's cache directory:
//! sessions are killed or lose power while they publish, their disk fails, cache files are
//! damaged, gems and core stubs change in between. What is answered last must be what a
//! server without any cache answers.

use crate::client::*;
use crate::core::proc::{ProgOut, Program, SpawnReq};
use crate::core::rng::Rng;
use crate::core::sched::{sim, vnow};
use crate::core::vfs::*;
use crate::edit::{compare, Final};
use crate::fw::*;
use crate::index::{locs, Locs};
use crate::session::*;
use crate::world::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

const HOME: &str = "/sim/cache";
const LIB: &str = "/sim/ruby/lib";
const NAMES: [&str; 4] = ["alpha", "beta", "gamma", "delta"];

#[derive(Clone, Debug, PartialEq)]
struct Gem {
    name: &'static str,
    version: u8,
    deps: Vec<usize>,
    /// relative path below lib -> text
    files: BTreeMap<String, Src>,
    installed: bool,
    /// 1 a file that is not UTF-8, 2 a directory named like a source, 3 not Ruby, 4 zero bytes
    bad: u8,
}
impl Gem {
    fn dir(&self) -> String {
        format!("/sim/gems/{}-1.{}.0", self.name, self.version)
    }
    fn paths(&self) -> Vec<(String, Src)> {
        self.files.iter().map(|(f, s)| (format!("{}/lib/{f}", self.dir()), s.clone())).collect()
    }
}
#[derive(Clone, Debug)]
struct Proj {
    root: String,
    texts: BTreeMap<String, Src>,
    /// gems named in the Gemfile
    wants: Vec<usize>,
    /// has a Gemfile.lock
    lock: bool,
    /// requires the standard library
    std: bool,
}
#[derive(Clone, Debug)]
struct World {
    gems: Vec<Gem>,
    projs: Vec<Proj>,
    /// core stubs
    core: u8,
    /// standard library file set.rb
    std: BTreeMap<String, Src>,
    badstd: u8,
}
impl World {
    fn locked(&self, p: &Proj) -> BTreeSet<usize> {
        let mut out: BTreeSet<usize> = p.wants.iter().copied().collect();
        loop {
            let more: Vec<usize> = out.iter().flat_map(|g| self.gems[*g].deps.clone()).filter(|d| !out.contains(d)).collect();
            if more.is_empty() {
                return out;
            }
            out.extend(more);
        }
    }
    fn gemfile(&self, p: &Proj) -> String {
        let mut s = String::from("source 'https://rubygems.org'\n");
        for g in &p.wants {
            s.push_str(&format!("gem '{}'\n", self.gems[*g].name));
        }
        s
    }
    fn lockfile(&self, p: &Proj) -> String {
        let mut s = String::from("GEM\n  remote: https://rubygems.org/\n  specs:\n");
        for g in self.locked(p) {
            let g = &self.gems[g];
            s.push_str(&format!("    {} (1.{}.0)\n", g.name, g.version));
            for d in &g.deps {
                s.push_str(&format!("      {}\n", self.gems[*d].name));
            }
        }
        s.push_str("\nPLATFORMS\n  ruby\n\nDEPENDENCIES\n");
        for g in &p.wants {
            s.push_str(&format!("  {}\n", self.gems[*g].name));
        }
        s
    }
    fn disk(&self, v: &mut Vfs) {
        for g in self.gems.iter().filter(|g| g.installed) {
            for (p, s) in g.paths() {
                v.put(&p, s.text().as_bytes());
            }
            let p = format!("{}/lib/{}/bad.rb", g.dir(), g.name);
            match g.bad {
                1 => v.put(&p, b"# caf\xe9\nclass Bad\nend\n"),
                2 => v.mkdirs(&p),
                3 => v.put(&p, "class (((\ndef \nrequire \u{e9}\"\n".repeat(5).as_bytes()),
                4 => v.put(&p, &b"\0".repeat(64)),
                _ => {}
            }
        }
        for (p, s) in &self.std {
            v.put(p, s.text().as_bytes());
        }
        let p = format!("{LIB}/json.rb");
        match self.badstd {
            1 => v.put(&p, b"# caf\xe9\nclass Bad\nend\n"),
            2 => v.mkdirs(&p),
            3 => v.put(&p, "class (((\ndef \nrequire \u{e9}\"\n".repeat(5).as_bytes()),
            _ => v.put(&p, b"K9 = 1\n"),
        }
        for p in &self.projs {
            if p.std {
                v.put(&format!("{}/lib/req.rb", p.root), b"require 'set'\nrequire 'json'\n");
                v.put(&format!("{}/.ruby-version", p.root), b"3.0.2\n");
                v.put("/sim/bin/ruby", b"#!/bin/sh\n");
            }
            v.put(&format!("{}/Gemfile", p.root), self.gemfile(p).as_bytes());
            if p.lock {
                v.put(&format!("{}/Gemfile.lock", p.root), self.lockfile(p).as_bytes());
            }
            for (f, s) in &p.texts {
                v.put(f, s.text().as_bytes());
            }
        }
        if self.core > 0 {
            for n in ["30", "31", "32"] {
                v.put(&format!("/sim/ext/stubs/rubystubs{n}/object.rb"), format!("{STUBS}\nclass C{}\n  def m{}\n  end\nend\n", 14 + 2 * (self.core % 2), self.core).as_bytes());
            }
        }
    }
    fn discovery(&self, gemfile: &str) -> String {
        let gems: Vec<Value> = self
            .projs
            .iter()
            .find(|p| gemfile.starts_with(&format!("{}/", p.root)))
            .map(|p| self.locked(p).into_iter().collect::<Vec<_>>())
            .unwrap_or_default()
            .into_iter()
            .filter(|g| self.gems[*g].installed)
            .map(|g| {
                let g = &self.gems[g];
                json!({"name": g.name, "version": format!("1.{}.0", g.version), "platform": "ruby", "gem_dir": g.dir(), "lib_dirs": [format!("{}/lib", g.dir())],
                    "dependencies": g.deps.iter().map(|d| self.gems[*d].name).collect::<Vec<_>>(), "default_gem": false})
            })
            .collect();
        format!("RUBY_FAST_LSP_GEM_DISCOVERY={}\n", json!({"source": "bundler", "gems": gems}))
    }
    /// the texts a project knows
    fn texts(&self, p: &Proj) -> BTreeMap<String, Src> {
        let mut t = p.texts.clone();
        // what a missing gem depends on is not known
        let mut known: BTreeSet<usize> = p.wants.iter().copied().filter(|g| self.gems[*g].installed).collect();
        loop {
            let more: Vec<usize> = known.iter().flat_map(|g| self.gems[*g].deps.clone()).filter(|d| self.gems[*d].installed && !known.contains(d)).collect();
            if more.is_empty() {
                break;
            }
            known.extend(more);
        }
        for g in known {
            t.extend(self.gems[g].paths());
        }
        if p.std {
            t.extend(self.std.clone());
        }
        t
    }
}
static mut WORLD: Option<World> = None;

fn ruby(q: &SpawnReq, _: &[u8]) -> ProgOut {
    let script = q.argv.last().cloned().unwrap_or_default();
    let gemfile = q.env.iter().find(|e| e.0 == "BUNDLE_GEMFILE").map(|e| e.1.clone()).unwrap_or_default();
    let out = if script.contains("RUBY_FAST_LSP_GEM_DISCOVERY") {
        unsafe { WORLD.as_ref().unwrap().discovery(&gemfile) }
    } else if script.contains("$LOAD_PATH.map") {
        format!("{LIB}\0")
    } else if script.contains("$LOAD_PATH") {
        format!("{LIB}\n")
    } else if script.contains("RUBY_ENGINE") {
        "ruby".into()
    } else if script.contains("--version") || script.contains("-v") {
        "ruby 3.0.2p107 (2021-07-07 revision 0db68f0233) [x86_64-linux]\n".into()
    } else {
        String::new()
    };
    ProgOut { stdout: out.into_bytes(), delay_ns: 5 * MS, ..Default::default() }
}
fn resolve(q: &SpawnReq) -> Result<Program, i32> {
    if q.prog.rsplit('/').next() == Some("ruby") {
        Ok(ruby)
    } else {
        Err(libc::ENOENT)
    }
}

#[derive(Clone, Debug)]
enum G {
    /// a session: 0 to the end, 1 killed, 2 power loss, 3 failing cache disk, 4 cut off after some time
    Session(u8),
    /// change, add or remove a file of a gem without a new version
    Content(u64),
    Version(u64),
    Core(u8),
    Project(u64),
    /// 0 flip a bit, 1 truncate, 2 delete, 3 replace by nonsense, 4 empty, 5 copy of another, 6 directory in its place
    Damage(u8, u64),
}

fn change(w: &mut World, g: &G) {
    match g {
        G::Content(x) => {
            let mut r = Rng::new(*x);
            let i = r.below(w.gems.len());
            if r.chance(1, 4) {
                for s in w.std.values_mut() {
                    *s = s.mutate(&mut r, false);
                }
                return;
            }
            let g = &mut w.gems[i];
            let slot = 3 + i as u8;
            let names: Vec<String> = g.files.keys().cloned().collect();
            match r.below(6) {
                0 => {
                    g.files.insert(format!("{}/x{}.rb", g.name, r.below(2)), Src::gen(&mut r, slot));
                }
                1 if g.files.len() > 1 => {
                    let f = r.pick(&names).clone();
                    g.files.remove(&f);
                }
                2 if g.files.len() > 1 => {
                    // same texts under swapped names
                    let (a, b) = (names[0].clone(), names[names.len() - 1].clone());
                    let (x, y) = (g.files[&a].clone(), g.files[&b].clone());
                    g.files.insert(a, y);
                    g.files.insert(b, x);
                }
                _ => {
                    let f = r.pick(&names).clone();
                    let s = g.files[&f].mutate(&mut r, false);
                    g.files.insert(f, s);
                }
            }
        }
        G::Version(x) => {
            let mut r = Rng::new(*x);
            let i = r.below(w.gems.len());
            let g = &mut w.gems[i];
            g.version = (g.version + 1) % 3;
            if r.chance(1, 2) {
                let f = r.pick(&g.files.keys().cloned().collect::<Vec<_>>()).clone();
                let s = g.files[&f].mutate(&mut r, false);
                g.files.insert(f, s);
            }
        }
        G::Core(n) => w.core = *n,
        G::Project(x) => {
            let mut r = Rng::new(*x);
            let i = r.below(w.projs.len());
            let n = w.gems.len();
            let p = &mut w.projs[i];
            if r.chance(1, 2) {
                let k = r.below(n);
                if p.wants.contains(&k) {
                    p.wants.retain(|e| *e != k);
                } else {
                    p.wants.push(k);
                }
            }
            let f = r.pick(&p.texts.keys().cloned().collect::<Vec<_>>()).clone();
            let s = p.texts[&f].mutate(&mut r, false);
            p.texts.insert(f, s);
        }
        _ => {}
    }
}

type Cache = Vec<(String, Vec<u8>, i64)>;
fn cache_of(v: &Vfs) -> Cache {
    v.files_under(HOME).into_iter().map(|(p, i)| (p.clone(), v.get(&p).unwrap_or_default(), v.inodes[&i].mtime_ns)).collect()
}
fn damage(c: &mut Cache, how: u8, x: u64) -> String {
    let mut r = Rng::new(x);
    // locks and markers only now and then
    let big: Vec<usize> = (0..c.len()).filter(|i| c[*i].1.len() > 64).collect();
    let k = if !big.is_empty() && r.chance(5, 6) { *r.pick(&big) } else if c.is_empty() { return "no cache file to damage".into() } else { r.below(c.len()) };
    let other = c[r.below(c.len())].1.clone();
    let (p, d, _) = &mut c[k];
    let p = p.clone();
    match how {
        0 if !d.is_empty() => {
            let b = r.below(d.len() * 8);
            d[b / 8] ^= 1 << (b % 8);
            format!("bit {b} of {p} flipped")
        }
        1 => {
            let n = r.below(d.len() + 1);
            d.truncate(n);
            format!("{p} cut to {n} bytes")
        }
        2 => {
            c.remove(k);
            format!("{p} removed")
        }
        3 => {
            let n = d.len().max(10);
            *d = (0..n).map(|_| r.next() as u8).collect();
            format!("{p} replaced by nonsense")
        }
        4 => {
            d.clear();
            format!("{p} emptied")
        }
        5 => {
            *d = other;
            format!("{p} replaced by the content of another cache file")
        }
        _ => {
            let m = r.below(d.len() + 1);
            let n = r.range(1, 40);
            let junk: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
            d.splice(m..m, junk);
            format!("{n} bytes inserted into {p} at {m}")
        }
    }
}
fn disk(w: &World, cache: &Cache) -> Vfs {
    let mut v = base_vfs();
    w.disk(&mut v);
    for (p, d, t) in cache {
        v.put(p, d);
        v.set_mtime(p, *t);
    }
    v.commit();
    v
}

pub fn gems() {
    ctx().liveness = "P21".into();
    let mut r = ctx().rng(1);
    let ng = r.range(1, 3);
    let gems: Vec<Gem> = (0..ng)
        .map(|i| {
            let name = NAMES[i];
            let mut files = BTreeMap::new();
            files.insert(format!("{name}.rb"), Src::gen(&mut r, 3 + i as u8));
            for k in 0..r.below(3) {
                files.insert(format!("{name}/x{k}.rb"), Src::gen(&mut r, 3 + i as u8));
            }
            Gem { name, version: r.below(2) as u8, deps: (i + 1..ng).filter(|_| r.chance(1, 3)).collect(), files, installed: !r.chance(1, 10), bad: if r.chance(1, 6) { r.range(1, 4) as u8 } else { 0 } }
        })
        .collect();
    let np = [1, 1, 2][r.below(3)];
    let projs: Vec<Proj> = (0..np)
        .map(|i| {
            let root = format!("/sim/ws/{}", ["p", "q"][i]);
            let mut texts = gen_world(&mut r, &root, 1 + i % 2);
            // ask for what the gems, the library and the core stubs define
            for s in texts.values_mut() {
                for id in 12..17 {
                    if r.chance(1, 4) {
                        s.items.push(Item::Top(if r.chance(1, 2) { Rf::Class(id) } else { Rf::Call(id, r.below(6) as u8) }));
                    }
                }
                for g in &gems {
                    for f in g.files.values() {
                        for it in &f.items {
                            match it {
                                Item::Cls { id, .. } if r.chance(1, 2) => s.items.push(Item::Top(if r.chance(1, 2) { Rf::Class(*id) } else { Rf::Call(*id, r.below(6) as u8) })),
                                _ => {}
                            }
                        }
                    }
                }
            }
            let wants = (0..ng).filter(|_| r.chance(3, 4)).collect();
            Proj { root, texts, wants, lock: !r.chance(1, 8), std: r.chance(1, 2) }
        })
        .collect();
    let std = [(format!("{LIB}/set.rb"), Src::gen(&mut r, 6))].into_iter().collect();
    let mut w = World { gems, projs, core: 0, std, badstd: if r.chance(1, 8) { r.range(1, 3) as u8 } else { 0 } };
    let mut ops: Vec<G> = vec![];
    for _ in 0..r.range(1, 3) {
        ops.push(G::Session([0, 0, 0, 1, 2, 2, 3, 4][r.below(8)]));
        for _ in 0..[0, 1, 1, 2][r.below(4)] {
            let x = r.next();
            ops.push(match r.below(10) {
                0..=3 => G::Content(x),
                4 => G::Version(x),
                5 => G::Core(r.below(3) as u8),
                6 => G::Project(x),
                _ => G::Damage(r.below(7) as u8, x),
            });
        }
    }
    let ops = ctx().filter_ops(ops);
    let mut cache: Cache = vec![];
    let mut sessions = 0;
    for (i, op) in &ops {
        match op {
            G::Session(how) => {
                show_world(&w);
                ctx().op(format!("op{i} session {}", ["to its end", "killed while writing the cache", "power lost while writing the cache", "cache disk failing", "cut off"][*how as usize]));
                let b = phase(10 + *i as u64, || session(&w, &cache, *how, 10 + *i as u64));
                let (c, note): (Cache, String) = serde_json::from_slice(&b).unwrap_or_default();
                ctx().op(format!("{note}; the cache holds {:?}", c.iter().map(|e| format!("{} {}", e.0.trim_start_matches(HOME), e.1.len())).collect::<Vec<_>>()));
                cache = c;
                sessions += 1;
            }
            G::Damage(how, x) => {
                let m = damage(&mut cache, *how, *x);
                ctx().op(format!("op{i} {m}"));
                *ctx().out.faults.entry("cache-damage".into()).or_insert(0) += 1;
            }
            g => {
                ctx().op(format!("op{i} {g:?}"));
                change(&mut w, g);
            }
        }
    }
    show_world(&w);
    let a = phase(1, || last(&w, &cache, 1));
    let b = phase(2, || last(&w, &vec![], 2));
    let (Ok(fin), Ok(re)) = (serde_json::from_slice::<Final>(&a), serde_json::from_slice::<Final>(&b)) else {
        return;
    };
    compare("P21", "P21", &fin, &re, "with the cache of earlier sessions against without:");
    ctx().out.nontrivial = sessions > 0 && !cache.is_empty();
}
fn show_world(w: &World) {
    for p in &w.projs {
        ctx().op(format!("{} lock {} requires the library {}: {}{}", p.root, p.lock, p.std, w.gemfile(p), w.lockfile(p)));
    }
    for g in w.gems.iter().filter(|g| !g.installed || g.bad > 0) {
        ctx().op(format!("{} installed {} bad.rb {}", g.name, g.installed, ["", "not UTF-8", "a directory", "not Ruby", "zero bytes"][g.bad as usize]));
    }
    for (p, s) in w.projs.iter().flat_map(|p| p.texts.clone()).chain(w.gems.iter().flat_map(|g| g.paths())).chain(w.std.clone()) {
        ctx().op(format!("disk {p}:\n{}", s.text()));
    }
}
fn start(w: &World, v: Vfs, cfg: crate::core::sched::RunCfg, fc: FaultCfg) -> Option<Ed> {
    unsafe { WORLD = Some(w.clone()) };
    start_sim(cfg, v, fc);
    sim().procs.resolver = Some(resolve);
    let pipes = start_server(&["ruby-fast-lsp", "--stdio"], 1 << 18, 1 << 18);
    let mut ed = Ed::new(Client::new(pipes, ctx().rng(9)), ctx().rng(8));
    for p in &w.projs {
        for (f, s) in &p.texts {
            ed.files.insert(f.clone(), FileSt { disk: Some(s.clone()), buf: None, version: 0, touched: false });
        }
    }
    let roots: Vec<String> = w.projs.iter().map(|p| p.root.clone()).collect();
    ed.c.initialize(&roots, opts()).map(|_| ed)
}
fn session(w: &World, cache: &Cache, how: u8, n: u64) {
    let mut r = Rng::new(ctx().case.seed ^ n.wrapping_mul(0x9e37_79b9_7f4a_7c15));
    let mut fc = FaultCfg { scope: HOME.into(), shuffle_readdir: true, file_fsync_commits_meta: r.chance(1, 2), ..Default::default() };
    match how {
        1 => fc.crashes = vec![([r.range(1, 12), r.range(1, 30)][r.below(2)] as u64, CRASH_PROCESS)],
        2 => fc.crashes = vec![([r.range(1, 12), r.range(1, 30)][r.below(2)] as u64, CRASH_MACHINE)],
        3 => {
            fc.rate_pm = [10u64, 40, 150][r.below(3)];
            let mut all = vec![F_READ_EIO, F_WRITE_ENOSPC, F_FSYNC_EIO, F_OPEN_EIO, F_RENAME_EIO, F_UNLINK_EIO, F_STAT_EIO, F_READ_SHORT, F_WRITE_SHORT, F_EINTR, F_READ_BITFLIP];
            r.shuffle(&mut all);
            all.truncate(r.range(1, 5));
            fc.kinds = all;
            fc.max = 8;
        }
        _ => {}
    }
    let ed = start(w, disk(w, cache), swarm(ctx().case.seed, n), fc);
    let crashed = || !sim().crashed_groups.is_empty();
    let Some(mut ed) = ed else {
        check("P17", "no-initialize", crashed(), || "initialize was not answered".into());
        ctx().out.blob = serde_json::to_vec(&(cache_of(&sim().vfs), "crashed at once")).unwrap();
        return;
    };
    if r.chance(1, 2) {
        let d: Vec<String> = ed.files.keys().cloned().collect();
        let k = r.below(d.len());
        ed.open(&d[k]);
    }
    if how == 4 {
        let t = [r.next() % (50 * MS), r.next() % SEC, r.next() % (10 * SEC)][r.below(3)];
        ed.c.run_for(t, |_| false);
        if r.chance(1, 2) {
            machine_crash(sim());
        }
    } else {
        // as long as anything happens
        let (mut n, mut still) = (0, 0);
        while still < 3 && !crashed() && vnow() < 3600 * SEC {
            ed.c.run_for(SEC, |_| crashed());
            still = if ed.c.events.len() == n { still + 1 } else { 0 };
            n = ed.c.events.len();
        }
    }
    let note = if crashed() { "crashed" } else { "ended" };
    if !crashed() && how == 0 {
        farewell(&mut ed.c, &mut ctx().rng(77));
    }
    ctx().out.blob = serde_json::to_vec(&(cache_of(&sim().vfs), note)).unwrap();
}

/// The session whose answers count.
fn last(w: &World, cache: &Cache, n: u64) {
    let cfg = if n == 1 { swarm(ctx().case.seed, n) } else { calm(ctx().case.seed, n) };
    let Some(mut ed) = start(w, disk(w, cache), cfg, FaultCfg { shuffle_readdir: n == 1, ..Default::default() }) else {
        violation("P17", "no-initialize", "initialize was not answered".into());
        return;
    };
    let early = n == 1 && ctx().rng(21).chance(1, 2);
    let docs: Vec<String> = ed.files.keys().cloned().collect();
    if early {
        for p in &docs {
            ed.open(p);
        }
    }
    ed.settle();
    for p in &docs {
        ed.open(p);
    }
    ed.settle();
    // what a call returns is inferred again when a document is saved
    for p in &docs {
        ed.touch(p);
        ed.save(p);
    }
    ed.settle();
    // a runtime that did not report its version in time is not used, and its library not known
    let asked = |what: &str| sim().procs.spawns.iter().any(|q| q.argv.last().is_some_and(|s| s.contains(what)));
    if n == 1 && w.projs.iter().any(|p| p.std) && asked("--version") && !asked("$LOAD_PATH.map") {
        *ctx().out.faults.entry("version-probe-timeout".into()).or_insert(0) += 1;
        ctx().out.blob = b"late".to_vec();
        return;
    }
    let prop = if w.gems.iter().any(|g| g.bad > 0) || w.badstd > 0 { "P20" } else { "P21" };
    let roots: Vec<String> = w.projs.iter().map(|p| p.root.clone()).collect();
    // what the texts themselves say
    for p in &w.projs {
        let f = Facts::of(w.texts(p).iter());
        for (d, s) in &p.texts {
            for m in s.render().marks {
                let Mk::ConstRef(name) = &m.kind else { continue };
                let (me, q) = question(0, d, Some(&m));
                let Some(Ok(v)) = ed.c.call(me, q, 600 * SEC) else { continue };
                let got: Locs = locs(&v).into_iter().filter(|l| !l.0.starts_with("/sim/ext/")).collect();
                let want = f.defs.get(name).cloned().unwrap_or_default();
                check(prop, "definition", got == want, || format!("{d}:{}:{} definition of {name}: {got:?} instead of {want:?}", m.line, m.col));
            }
        }
    }
    let open: Vec<(String, Src)> = docs.iter().map(|p| (p.clone(), ed.files[p].buf.clone().unwrap())).collect();
    let a = query_all(&mut ed.c, &open, &roots, 3, 2, false);
    let st = ed.c.call("ruby-fast-lsp/indexing/status", json!({}), 600 * SEC);
    let bad = !matches!(&st, Some(Ok(v)) if v["aggregate"]["ready"] == w.projs.len());
    check(prop, "not-indexed", !bad, || format!("indexing status {st:?}; stderr {}", tail(&server_stderr())));
    for p in target_panics() {
        violation("P17", "panic", p);
    }
    if ctx().case.record {
        for q in &sim().procs.spawns {
            ctx().op(format!("ran {} {:?}", q.prog, q.argv.last().map(|s| s.chars().take(60).collect::<String>())));
        }
    }
    ctx().out.blob = serde_json::to_vec(&Final { disk: docs.iter().map(|p| (p.clone(), ed.files[p].buf.clone().unwrap())).collect(), open: docs, answers: a, diags: diags(&ed.c), quiet: diags(&ed.c), ruby: (None, None) }).unwrap();
}
