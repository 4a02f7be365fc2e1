//! In-memory disk mounted at /sim. Holds a volatile view (what the running
//! process sees) and enough history to build every legal post-crash view:
//! file data counts as durable only after fsync of that file; namespace changes
//! are durable once a directory fsync commits the (ordered) metadata journal, and a
//! crash keeps an arbitrary prefix of what was not yet committed.

use super::rng::{draw, Rng};
use super::sched::{Sim, State};
use std::collections::BTreeMap;

pub const ROOT: &str = "/sim";
pub const FD_BASE: i32 = 1_000_000;

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub enum Kind {
    File { data: Vec<u8>, durable: Vec<u8>, dirty: bool },
    Dir(BTreeMap<String, u64>),
    Link(String),
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Inode {
    pub kind: Kind,
    pub mode: u32,
    pub mtime_ns: i64,
}
#[derive(Clone, Debug)]
pub enum Meta {
    Link(u64, String, u64),
    Unlink(u64, String),
    Rename(u64, String, u64, String, u64),
}
#[derive(Clone, Debug)]
struct Ofd {
    ino: u64,
    pos: u64,
    flags: i32,
    lock: u8,
    refs: u32,
    path: String,
    group: u32,
}
#[derive(Clone, Debug, Default)]
pub struct Vfs {
    pub inodes: BTreeMap<u64, Inode>,
    next_ino: u64,
    fds: BTreeMap<i32, u64>,
    ofds: BTreeMap<u64, Ofd>,
    next_fd: i32,
    next_ofd: u64,
    journal: Vec<Meta>,
    durable_dirs: BTreeMap<u64, BTreeMap<String, u64>>,
    pub ops: u64,
    pub bytes_written: u64,
    pub oplog: Vec<String>,
}

#[derive(Clone, Debug, Default)]
pub struct FaultCfg {
    /// faults only hit paths containing this substring
    pub scope: String,
    pub rate_pm: u64,
    pub kinds: Vec<u8>, // enabled kinds
    pub max: u64,
    pub shuffle_readdir: bool,
    pub file_fsync_commits_meta: bool,
    /// (mutation counter, kind): crash just before that mutation
    pub crashes: Vec<(u64, u8)>,
    pub on_crash: Option<fn() -> !>,
    /// stop injecting (set by scenarios when the fault phase is over)
    pub off: bool,
}

pub const F_READ_EIO: u8 = 1;
pub const F_READ_SHORT: u8 = 2;
pub const F_WRITE_ENOSPC: u8 = 3;
pub const F_WRITE_SHORT: u8 = 4;
pub const F_FSYNC_EIO: u8 = 5;
pub const F_OPEN_EIO: u8 = 6;
pub const F_OPEN_EMFILE: u8 = 7;
pub const F_RENAME_EIO: u8 = 8;
pub const F_EINTR: u8 = 9;
pub const F_UNLINK_EIO: u8 = 10;
pub const F_STAT_EIO: u8 = 11;
pub const F_OPEN_ENOENT: u8 = 12;
pub const F_READ_BITFLIP: u8 = 13;
pub const F_DIR_EACCES: u8 = 14;
pub const F_DIR_ENOENT: u8 = 15;

pub fn fault_name(k: u8) -> &'static str {
    match k {
        F_READ_EIO => "read-eio",
        F_READ_SHORT => "read-short",
        F_WRITE_ENOSPC => "write-enospc",
        F_WRITE_SHORT => "write-short",
        F_FSYNC_EIO => "fsync-eio",
        F_OPEN_EIO => "open-eio",
        F_OPEN_EMFILE => "open-emfile",
        F_RENAME_EIO => "rename-eio",
        F_EINTR => "eintr",
        F_UNLINK_EIO => "unlink-eio",
        F_STAT_EIO => "stat-eio",
        F_OPEN_ENOENT => "open-enoent",
        F_DIR_EACCES => "opendir-eacces",
        F_DIR_ENOENT => "opendir-enoent",
        F_READ_BITFLIP => "read-bitflip",
        _ => "unknown",
    }
}

pub struct St {
    pub mode: u32,
    pub ino: u64,
    pub size: u64,
    pub mtime_ns: i64,
}

pub fn virtual_path(b: &[u8]) -> Option<String> {
    if b.starts_with(b"/sim") && (b.len() == 4 || b[4] == b'/') {
        return Some(String::from_utf8_lossy(b).into_owned());
    }
    None
}
/// Host state the target must not observe (its content is not under the seed's control).
pub fn hidden_host_path(b: &[u8]) -> bool {
    b.starts_with(b"/proc") || b.starts_with(b"/sys") || b.starts_with(b"/root") || b.starts_with(b"/usr") || b.starts_with(b"/opt") || b.starts_with(b"/repo")
        || b.starts_with(b"/home") || b.starts_with(b"/verif") || b.starts_with(b"/tmp") || b.starts_with(b"/etc") || b.starts_with(b"/var") || b.starts_with(b"/bin")
}

fn split(path: &str) -> Vec<&str> {
    path.split('/').filter(|c| !c.is_empty() && *c != ".").collect()
}

impl Vfs {
    pub fn new() -> Self {
        let mut v = Vfs { next_ino: 1, next_fd: FD_BASE, next_ofd: 1, ..Default::default() };
        v.add_inode(Kind::Dir(BTreeMap::new()), 0o40755);
        v.commit();
        v
    }
    fn add_inode(&mut self, kind: Kind, mode: u32) -> u64 {
        let i = self.next_ino;
        self.next_ino += 1;
        self.inodes.insert(i, Inode { kind, mode, mtime_ns: 1_699_000_000_000_000_000 });
        i
    }
    /// resolve to (inode, canonical path)
    fn walk(&self, path: &str, follow_last: bool, depth: u32) -> Result<(u64, String), i32> {
        if depth > 20 {
            return Err(libc::ELOOP);
        }
        let comps = split(path);
        if comps.first() != Some(&"sim") {
            return Err(libc::ENOENT);
        }
        let mut stack: Vec<(u64, String)> = vec![(1, "/sim".to_string())];
        let n = comps.len();
        for (k, c) in comps.iter().enumerate().skip(1) {
            if *c == ".." {
                if stack.len() > 1 {
                    stack.pop();
                }
                continue;
            }
            let (dir, dpath) = stack.last().unwrap().clone();
            let ino = match &self.inodes[&dir].kind {
                Kind::Dir(m) => *m.get(*c).ok_or(libc::ENOENT)?,
                _ => return Err(libc::ENOTDIR),
            };
            let p = format!("{}/{}", dpath, c);
            if let Kind::Link(t) = &self.inodes[&ino].kind {
                if k + 1 < n || follow_last {
                    let target = if t.starts_with('/') { t.clone() } else { format!("{}/{}", dpath, t) };
                    let (i2, p2) = self.walk(&target, true, depth + 1)?;
                    // rebuild stack for the resolved path
                    stack = vec![(1, "/sim".to_string())];
                    let mut cur = 1;
                    let mut cp = "/sim".to_string();
                    for c2 in split(&p2).iter().skip(1) {
                        if let Kind::Dir(m) = &self.inodes[&cur].kind {
                            cur = m[*c2];
                        }
                        cp = format!("{}/{}", cp, c2);
                        stack.push((cur, cp.clone()));
                    }
                    let _ = i2;
                    continue;
                }
            }
            stack.push((ino, p));
        }
        Ok(stack.pop().unwrap())
    }
    pub fn lookup(&self, path: &str) -> Result<u64, i32> {
        self.walk(path, true, 0).map(|x| x.0)
    }
    fn parent(&self, path: &str) -> Result<(u64, String), i32> {
        let comps = split(path);
        let last = comps.last().ok_or(libc::ENOENT)?.to_string();
        let pp = format!("/{}", comps[..comps.len() - 1].join("/"));
        let d = self.lookup(&pp)?;
        match self.inodes[&d].kind {
            Kind::Dir(_) => Ok((d, last)),
            _ => Err(libc::ENOTDIR),
        }
    }
    fn dir_mut(&mut self, d: u64) -> &mut BTreeMap<String, u64> {
        match &mut self.inodes.get_mut(&d).unwrap().kind {
            Kind::Dir(m) => m,
            _ => unreachable!(),
        }
    }
    fn dir(&self, d: u64) -> &BTreeMap<String, u64> {
        match &self.inodes[&d].kind {
            Kind::Dir(m) => m,
            _ => unreachable!(),
        }
    }
    fn apply(durable: &mut BTreeMap<u64, BTreeMap<String, u64>>, m: &Meta) {
        match m {
            Meta::Link(d, n, i) => {
                durable.entry(*d).or_default().insert(n.clone(), *i);
            }
            Meta::Unlink(d, n) => {
                durable.entry(*d).or_default().remove(n);
            }
            Meta::Rename(d, n, d2, n2, i) => {
                durable.entry(*d).or_default().remove(n);
                durable.entry(*d2).or_default().insert(n2.clone(), *i);
            }
        }
    }
    pub fn commit(&mut self) {
        let j = std::mem::take(&mut self.journal);
        for m in &j {
            Self::apply(&mut self.durable_dirs, m);
        }
        self.durable_dirs.entry(1).or_default();
    }
    // ---- scenario-side helpers (no faults, immediately durable) ----
    pub fn put(&mut self, path: &str, data: &[u8]) {
        self.mkdirs(&path[..path.rfind('/').unwrap()]);
        let (d, n) = self.parent(path).unwrap();
        if let Some(&i) = self.dir(d).get(&n) {
            if let Kind::File { data: f, durable, dirty } = &mut self.inodes.get_mut(&i).unwrap().kind {
                *f = data.to_vec();
                *durable = data.to_vec();
                *dirty = false;
            }
        } else {
            let i = self.add_inode(Kind::File { data: data.to_vec(), durable: data.to_vec(), dirty: false }, 0o100644);
            self.dir_mut(d).insert(n.clone(), i);
            self.journal.push(Meta::Link(d, n, i));
        }
        self.commit();
    }
    pub fn mkdirs(&mut self, path: &str) {
        let comps: Vec<String> = split(path).iter().map(|s| s.to_string()).collect();
        let mut cur = 1u64;
        for c in comps.iter().skip(1) {
            let nx = self.dir(cur).get(c).copied();
            cur = match nx {
                Some(i) => i,
                None => {
                    let i = self.add_inode(Kind::Dir(BTreeMap::new()), 0o40755);
                    self.dir_mut(cur).insert(c.clone(), i);
                    self.journal.push(Meta::Link(cur, c.clone(), i));
                    i
                }
            };
        }
        self.commit();
    }
    pub fn del(&mut self, path: &str) {
        if let Ok((d, n)) = self.parent(path) {
            if self.dir_mut(d).remove(&n).is_some() {
                self.journal.push(Meta::Unlink(d, n));
            }
        }
        self.commit();
    }
    pub fn get(&self, path: &str) -> Option<Vec<u8>> {
        let i = self.lookup(path).ok()?;
        match &self.inodes[&i].kind {
            Kind::File { data, .. } => Some(data.clone()),
            _ => None,
        }
    }
    /// all regular files below `path`
    pub fn files_under(&self, path: &str) -> Vec<(String, u64)> {
        let mut out = Vec::new();
        if let Ok(i) = self.lookup(path) {
            self.rec(i, path.to_string(), &mut out);
        }
        out
    }
    fn rec(&self, i: u64, p: String, out: &mut Vec<(String, u64)>) {
        match &self.inodes[&i].kind {
            Kind::Dir(m) => {
                for (n, c) in m {
                    self.rec(*c, format!("{}/{}", p, n), out);
                }
            }
            Kind::File { .. } => out.push((p, i)),
            Kind::Link(_) => {}
        }
    }
    pub fn mutate_file(&mut self, ino: u64, f: impl FnOnce(&mut Vec<u8>)) {
        if let Kind::File { data, durable, dirty } = &mut self.inodes.get_mut(&ino).unwrap().kind {
            f(data);
            *durable = data.clone();
            *dirty = false;
        }
    }
    pub fn set_mtime(&mut self, path: &str, ns: i64) {
        if let Ok(i) = self.lookup(path) {
            self.inodes.get_mut(&i).unwrap().mtime_ns = ns;
        }
    }
    /// The disk after a crash right now.
    pub fn crash(&self, rng: &mut Rng) -> (Vfs, Vec<String>) {
        let mut notes = Vec::new();
        let mut dd = self.durable_dirs.clone();
        let keep = if self.journal.is_empty() { 0 } else { rng.below(self.journal.len() + 1) };
        if keep < self.journal.len() {
            notes.push(format!("lost {} of {} uncommitted namespace changes", self.journal.len() - keep, self.journal.len()));
        }
        for m in &self.journal[..keep] {
            Self::apply(&mut dd, m);
        }
        let mut out = Vfs { next_ino: self.next_ino, next_fd: FD_BASE, next_ofd: 1, ..Default::default() };
        // keep reachable inodes only
        let mut q = vec![1u64];
        while let Some(i) = q.pop() {
            if out.inodes.contains_key(&i) {
                continue;
            }
            let src = &self.inodes[&i];
            let kind = match &src.kind {
                Kind::Dir(_) => {
                    let m = dd.get(&i).cloned().unwrap_or_default();
                    q.extend(m.values().copied());
                    Kind::Dir(m)
                }
                Kind::File { data, durable, dirty } => {
                    let d = if !*dirty {
                        data.clone()
                    } else {
                        let mode = rng.below(5);
                        let r = match mode {
                            0 => durable.clone(),
                            1 => data.clone(),
                            2 => {
                                // prefix of the new data reached the disk
                                let n = rng.below(data.len() + 1);
                                data[..n].to_vec()
                            }
                            3 => {
                                // length updated, tail never written: zeros
                                let n = rng.below(data.len() + 1);
                                let mut v = data[..n].to_vec();
                                v.resize(data.len(), 0);
                                v
                            }
                            _ => {
                                // torn: some 512-byte sectors new, others old/zero
                                let mut v = data.clone();
                                for (k, ch) in v.chunks_mut(512).enumerate() {
                                    if rng.chance(1, 2) {
                                        for (j, b) in ch.iter_mut().enumerate() {
                                            *b = durable.get(k * 512 + j).copied().unwrap_or(0);
                                        }
                                    }
                                }
                                v
                            }
                        };
                        notes.push(format!("ino {}: unsynced data -> mode {} ({} of {} bytes)", i, mode, r.len(), data.len()));
                        r
                    };
                    Kind::File { data: d.clone(), durable: d, dirty: false }
                }
                Kind::Link(t) => Kind::Link(t.clone()),
            };
            out.inodes.insert(i, Inode { kind, mode: src.mode, mtime_ns: src.mtime_ns });
        }
        for (i, n) in out.inodes.clone() {
            if let Kind::Dir(m) = n.kind {
                out.durable_dirs.insert(i, m);
            }
        }
        (out, notes)
    }
    /// close every descriptor of a dead simulated process; returns inodes whose locks were freed
    pub fn close_group(&mut self, g: u32) -> Vec<u64> {
        let dead: Vec<u64> = self.ofds.iter().filter(|(_, o)| o.group == g).map(|(k, _)| *k).collect();
        let mut freed = Vec::new();
        for k in dead {
            let o = self.ofds.remove(&k).unwrap();
            if o.lock != 0 {
                freed.push(o.ino);
            }
            self.fds.retain(|_, v| *v != k);
        }
        freed
    }
    pub fn open_fds(&self) -> usize {
        self.fds.len()
    }
    fn ofd_mut(&mut self, fd: i32) -> Result<(u64, &mut Ofd), i32> {
        let o = *self.fds.get(&fd).ok_or(libc::EBADF)?;
        Ok((o, self.ofds.get_mut(&o).unwrap()))
    }
}

fn now_wall(s: &mut Sim) -> i64 {
    1_700_000_000_000_000_000 + s.now() as i64 + s.wall_skew_ns
}

/// Decide whether fault kind `k` fires for this operation.
fn fault(s: &mut Sim, k: u8, path: &str) -> bool {
    if s.fault_cfg.off || s.fault_cfg.rate_pm == 0 || !s.fault_cfg.kinds.contains(&k) || !path.contains(&s.fault_cfg.scope) {
        return false;
    }
    let i = s.stats.fault_ops;
    s.stats.fault_ops += 1;
    if matches!(&s.cfg.allow_fault, Some(a) if !a.contains(&(i + s.cfg.idx_base))) {
        return false;
    }
    let total: u64 = s.stats.faults.iter().filter(|(k, _)| k.as_str() != "readdir-order").map(|(_, v)| *v).sum();
    if total >= s.fault_cfg.max {
        return false;
    }
    if draw(s.cfg.seed, 20, i) % 1000 < s.fault_cfg.rate_pm {
        s.count_fault(fault_name(k));
        if s.cfg.record {
            super::alloc::aside(|| s.eff_fault.push(i + s.cfg.idx_base));
        }
        if s.log.len() < 20000 {
            let e = format!("fault#{} {} {}", i, fault_name(k), path);
            s.log.push(e);
        }
        return true;
    }
    false
}

fn mutation(s: &mut Sim, what: &str, path: &str) {
    s.vfs.ops += 1;
    let h = path.bytes().fold(0u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64));
    s.event(s.vfs.ops, h);
    if s.cfg.record && s.vfs.oplog.len() < 5000 {
        super::alloc::aside(|| {
            let m = format!("{} {} {}", s.vfs.ops, what, path);
            s.vfs.oplog.push(m);
        });
    }
    if let Some(&(c, kind)) = s.fault_cfg.crashes.first() {
        if s.vfs.ops >= c && path.contains(&s.fault_cfg.scope) && (kind == CRASH_PHASE || s.cur_group() != 0) {
            s.fault_cfg.crashes.remove(0);
            crash_now(s, kind, path);
        }
    }
}

pub const CRASH_PROCESS: u8 = 0;
pub const CRASH_MACHINE: u8 = 1;
pub const CRASH_PHASE: u8 = 2;

/// Crash before the current mutation takes effect.
fn crash_now(s: &mut Sim, kind: u8, path: &str) {
    let e = format!("crash({}) before disk mutation #{} on {}", ["process", "machine", "phase"][kind as usize], s.vfs.ops, path);
    s.log.push(e);
    s.count_fault(["crash-process", "crash-machine", "crash-restart"][kind as usize]);
    match kind {
        CRASH_PROCESS => {
            let g = s.cur_group();
            s.crashed_groups.push(g);
            s.wake_harness();
            s.kill_group(g);
        }
        CRASH_MACHINE => {
            machine_crash(s);
        }
        _ => {
            let f = s.fault_cfg.on_crash.expect("on_crash");
            super::sched::ACTIVE.store(false, std::sync::atomic::Ordering::SeqCst);
            f();
        }
    }
}
/// Power loss: every simulated process dies, only durable state survives.
pub fn machine_crash(s: &mut Sim) {
    let i = s.crash_ctr;
    s.crash_ctr += 1;
    let mut r = Rng::new(draw(s.cfg.seed, 40, i));
    let (nv, notes) = s.vfs.crash(&mut r);
    let ops = s.vfs.ops;
    let log = std::mem::take(&mut s.vfs.oplog);
    let next_fd = s.vfs.next_fd;
    s.vfs = nv;
    s.vfs.next_fd = next_fd;
    s.vfs.ops = ops;
    s.vfs.oplog = log;
    s.log.extend(notes);
    let mut gs: Vec<u32> = s.threads.iter().filter(|t| t.group != 0 && t.state != State::Exited && t.state != State::Dead).map(|t| t.group).collect();
    gs.sort();
    gs.dedup();
    s.crashed_groups.extend(gs.iter());
    let mine = s.cur_group();
    s.machine_crashes += 1;
    for g in &gs {
        if *g != mine {
            s.kill_group(*g);
        }
    }
    s.wake_harness();
    if mine != 0 {
        s.kill_group(mine);
    }
}

pub fn open(s: &mut Sim, path: &str, flags: i32, _mode: u32) -> Result<isize, i32> {
    if fault(s, F_OPEN_EMFILE, path) {
        return Err(libc::EMFILE);
    }
    let acc = flags & libc::O_ACCMODE;
    if acc == libc::O_RDONLY && flags & libc::O_DIRECTORY == 0 {
        if fault(s, F_OPEN_EIO, path) {
            return Err(libc::EIO);
        }
        if fault(s, F_OPEN_ENOENT, path) {
            return Err(libc::ENOENT);
        }
    }
    if flags & libc::O_DIRECTORY != 0 {
        if fault(s, F_DIR_EACCES, path) {
            return Err(libc::EACCES);
        }
        if fault(s, F_DIR_ENOENT, path) {
            return Err(libc::ENOENT);
        }
    }
    let follow = flags & libc::O_NOFOLLOW == 0;
    let ino = match s.vfs.walk(path, follow, 0) {
        Ok((i, _)) => {
            if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                return Err(libc::EEXIST);
            }
            if let Kind::Link(_) = s.vfs.inodes[&i].kind {
                return Err(libc::ELOOP);
            }
            let is_dir = matches!(s.vfs.inodes[&i].kind, Kind::Dir(_));
            if is_dir && acc != libc::O_RDONLY {
                return Err(libc::EISDIR);
            }
            if !is_dir && flags & libc::O_DIRECTORY != 0 {
                return Err(libc::ENOTDIR);
            }
            if flags & libc::O_TRUNC != 0 && !is_dir {
                mutation(s, "trunc", path);
                let now = now_wall(s);
                let n = s.vfs.inodes.get_mut(&i).unwrap();
                n.mtime_ns = now;
                if let Kind::File { data, dirty, .. } = &mut n.kind {
                    data.clear();
                    *dirty = true;
                }
            }
            i
        }
        Err(libc::ENOENT) if flags & libc::O_CREAT != 0 => {
            if fault(s, F_WRITE_ENOSPC, path) {
                return Err(libc::ENOSPC);
            }
            let (d, n) = s.vfs.parent(path)?;
            mutation(s, "create", path);
            let i = s.vfs.add_inode(Kind::File { data: vec![], durable: vec![], dirty: true }, 0o100644);
            let now = now_wall(s);
            s.vfs.inodes.get_mut(&i).unwrap().mtime_ns = now;
            s.vfs.dir_mut(d).insert(n.clone(), i);
            s.vfs.journal.push(Meta::Link(d, n, i));
            i
        }
        Err(e) => return Err(e),
    };
    let fd = s.vfs.next_fd;
    s.vfs.next_fd += 1;
    let o = s.vfs.next_ofd;
    s.vfs.next_ofd += 1;
    let group = s.cur_group();
    s.vfs.ofds.insert(o, Ofd { ino, pos: 0, flags, lock: 0, refs: 1, path: path.to_string(), group });
    s.vfs.fds.insert(fd, o);
    Ok(fd as isize)
}

pub fn close(s: &mut Sim, fd: i32) -> Result<isize, i32> {
    let o = s.vfs.fds.remove(&fd).ok_or(libc::EBADF)?;
    let of = s.vfs.ofds.get_mut(&o).unwrap();
    of.refs -= 1;
    if of.refs == 0 {
        let ino = of.ino;
        let had = of.lock != 0;
        s.vfs.ofds.remove(&o);
        if had {
            s.wake_flock(ino);
        }
    }
    Ok(0)
}

pub fn fd_path(s: &mut Sim, fd: i32) -> Option<String> {
    s.vfs.ofd_mut(fd).ok().map(|(_, o)| o.path.clone())
}

pub fn read(s: &mut Sim, fd: i32, buf: &mut [u8], at: Option<u64>) -> Result<isize, i32> {
    let (_, o) = s.vfs.ofd_mut(fd)?;
    let (ino, pos, path) = (o.ino, at.unwrap_or(o.pos), o.path.clone());
    if !buf.is_empty() {
        if fault(s, F_EINTR, &path) {
            return Err(libc::EINTR);
        }
        if fault(s, F_READ_EIO, &path) {
            return Err(libc::EIO);
        }
    }
    let short = buf.len() > 1 && fault(s, F_READ_SHORT, &path);
    let n = match &s.vfs.inodes.get(&ino).ok_or(libc::EIO)?.kind {
        Kind::File { data, .. } => {
            let p = (pos as usize).min(data.len());
            let mut n = buf.len().min(data.len() - p);
            if short && n > 1 {
                n = n / 2;
            }
            buf[..n].copy_from_slice(&data[p..p + n]);
            n
        }
        _ => return Err(libc::EISDIR),
    };
    if n > 0 && fault(s, F_READ_BITFLIP, &path) {
        let r = s.random_u64();
        buf[(r as usize >> 3) % n] ^= 1 << (r & 7);
    }
    if at.is_none() {
        s.vfs.ofd_mut(fd)?.1.pos = pos + n as u64;
    }
    Ok(n as isize)
}

pub fn write(s: &mut Sim, fd: i32, buf: &[u8]) -> Result<isize, i32> {
    let (_, o) = s.vfs.ofd_mut(fd)?;
    let (ino, mut pos, path, flags) = (o.ino, o.pos, o.path.clone(), o.flags);
    if flags & libc::O_ACCMODE == libc::O_RDONLY {
        return Err(libc::EBADF);
    }
    if fault(s, F_EINTR, &path) {
        return Err(libc::EINTR);
    }
    if fault(s, F_WRITE_ENOSPC, &path) {
        return Err(libc::ENOSPC);
    }
    let short = buf.len() > 1 && fault(s, F_WRITE_SHORT, &path);
    let n = if short { (buf.len() + 1) / 2 } else { buf.len() };
    mutation(s, "write", &path);
    let now = now_wall(s);
    s.vfs.bytes_written += n as u64;
    let node = s.vfs.inodes.get_mut(&ino).ok_or(libc::EIO)?;
    node.mtime_ns = now;
    if let Kind::File { data, dirty, .. } = &mut node.kind {
        if flags & libc::O_APPEND != 0 {
            pos = data.len() as u64;
        }
        let p = pos as usize;
        if data.len() < p + n {
            data.resize(p + n, 0);
        }
        data[p..p + n].copy_from_slice(&buf[..n]);
        *dirty = true;
    }
    s.vfs.ofd_mut(fd)?.1.pos = pos + n as u64;
    Ok(n as isize)
}

pub fn lseek(s: &mut Sim, fd: i32, off: i64, whence: i32) -> Result<isize, i32> {
    let (_, o) = s.vfs.ofd_mut(fd)?;
    let (ino, pos) = (o.ino, o.pos as i64);
    let len = match &s.vfs.inodes[&ino].kind {
        Kind::File { data, .. } => data.len() as i64,
        _ => 0,
    };
    let n = match whence {
        libc::SEEK_SET => off,
        libc::SEEK_CUR => pos + off,
        libc::SEEK_END => len + off,
        _ => return Err(libc::EINVAL),
    };
    if n < 0 {
        return Err(libc::EINVAL);
    }
    s.vfs.ofd_mut(fd)?.1.pos = n as u64;
    Ok(n as isize)
}

pub fn fsync(s: &mut Sim, fd: i32) -> Result<isize, i32> {
    let (_, o) = s.vfs.ofd_mut(fd)?;
    let (ino, path) = (o.ino, o.path.clone());
    if fault(s, F_FSYNC_EIO, &path) {
        return Err(libc::EIO);
    }
    mutation(s, "fsync", &path);
    let mut commit = s.fault_cfg.file_fsync_commits_meta;
    match &mut s.vfs.inodes.get_mut(&ino).unwrap().kind {
        Kind::File { data, durable, dirty } => {
            *durable = data.clone();
            *dirty = false;
        }
        _ => commit = true,
    }
    if commit {
        s.vfs.commit();
    }
    Ok(0)
}

pub fn ftruncate(s: &mut Sim, fd: i32, len: u64) -> Result<isize, i32> {
    let (_, o) = s.vfs.ofd_mut(fd)?;
    let (ino, path) = (o.ino, o.path.clone());
    mutation(s, "ftruncate", &path);
    if let Kind::File { data, dirty, .. } = &mut s.vfs.inodes.get_mut(&ino).unwrap().kind {
        data.resize(len as usize, 0);
        *dirty = true;
    }
    Ok(0)
}

pub fn flock(s: &mut Sim, fd: i32, op: i32) -> Result<isize, i32> {
    let want: u8 = match op & !libc::LOCK_NB {
        libc::LOCK_SH => 1,
        libc::LOCK_EX => 2,
        libc::LOCK_UN => 0,
        _ => return Err(libc::EINVAL),
    };
    loop {
        let (id, o) = s.vfs.ofd_mut(fd)?;
        let ino = o.ino;
        if want == 0 {
            o.lock = 0;
            s.wake_flock(ino);
            return Ok(0);
        }
        let conflict = s.vfs.ofds.iter().any(|(k, x)| *k != id && x.ino == ino && (x.lock == 2 || (x.lock == 1 && want == 2)));
        if !conflict {
            let o = s.vfs.ofd_mut(fd)?.1;
            let down = o.lock == 2 && want == 1;
            o.lock = want;
            if down {
                s.wake_flock(ino);
            }
            return Ok(0);
        }
        if op & libc::LOCK_NB != 0 {
            return Err(libc::EWOULDBLOCK);
        }
        s.block(State::Flock(ino), None);
    }
}

pub fn fcntl(s: &mut Sim, fd: i32, cmd: i32, _arg: usize) -> Result<isize, i32> {
    let (id, o) = s.vfs.ofd_mut(fd)?;
    match cmd {
        libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => {
            o.refs += 1;
            let nfd = s.vfs.next_fd;
            s.vfs.next_fd += 1;
            s.vfs.fds.insert(nfd, id);
            Ok(nfd as isize)
        }
        libc::F_GETFL => Ok((o.flags & (libc::O_ACCMODE | libc::O_APPEND)) as isize),
        _ => Ok(0),
    }
}

fn st(s: &Sim, i: u64) -> St {
    let n = &s.vfs.inodes[&i];
    let (mode, size) = match &n.kind {
        Kind::File { data, .. } => (n.mode | libc::S_IFREG, data.len() as u64),
        Kind::Dir(_) => (n.mode | libc::S_IFDIR, 4096),
        Kind::Link(t) => (0o120777, t.len() as u64),
    };
    St { mode, ino: i, size, mtime_ns: n.mtime_ns }
}
pub fn stat_path(s: &mut Sim, path: &str, follow: bool) -> Result<St, i32> {
    if fault(s, F_STAT_EIO, path) {
        return Err(libc::EIO);
    }
    let (i, _) = s.vfs.walk(path, follow, 0)?;
    Ok(st(s, i))
}
pub fn stat_fd(s: &mut Sim, fd: i32) -> Result<St, i32> {
    let i = s.vfs.ofd_mut(fd)?.1.ino;
    if !s.vfs.inodes.contains_key(&i) {
        return Err(libc::EIO);
    }
    Ok(st(s, i))
}
pub fn rename(s: &mut Sim, a: &str, b: &str) -> Result<isize, i32> {
    if fault(s, F_RENAME_EIO, b) {
        return Err(libc::EIO);
    }
    let (da, na) = s.vfs.parent(a)?;
    let (db, nb) = s.vfs.parent(b)?;
    let i = *s.vfs.dir(da).get(&na).ok_or(libc::ENOENT)?;
    mutation(s, "rename", b);
    s.vfs.dir_mut(da).remove(&na);
    s.vfs.dir_mut(db).insert(nb.clone(), i);
    s.vfs.journal.push(Meta::Rename(da, na, db, nb, i));
    Ok(0)
}
pub fn unlink(s: &mut Sim, p: &str) -> Result<isize, i32> {
    if fault(s, F_UNLINK_EIO, p) {
        return Err(libc::EIO);
    }
    let (d, n) = s.vfs.parent(p)?;
    let i = *s.vfs.dir(d).get(&n).ok_or(libc::ENOENT)?;
    if matches!(s.vfs.inodes[&i].kind, Kind::Dir(_)) {
        return Err(libc::EISDIR);
    }
    mutation(s, "unlink", p);
    s.vfs.dir_mut(d).remove(&n);
    s.vfs.journal.push(Meta::Unlink(d, n));
    Ok(0)
}
pub fn rmdir(s: &mut Sim, p: &str) -> Result<isize, i32> {
    let (d, n) = s.vfs.parent(p)?;
    let i = *s.vfs.dir(d).get(&n).ok_or(libc::ENOENT)?;
    match &s.vfs.inodes[&i].kind {
        Kind::Dir(m) if m.is_empty() => {}
        Kind::Dir(_) => return Err(libc::ENOTEMPTY),
        _ => return Err(libc::ENOTDIR),
    }
    mutation(s, "rmdir", p);
    s.vfs.dir_mut(d).remove(&n);
    s.vfs.journal.push(Meta::Unlink(d, n));
    Ok(0)
}
pub fn mkdir(s: &mut Sim, p: &str) -> Result<isize, i32> {
    if p == ROOT {
        return Err(libc::EEXIST);
    }
    let (d, n) = s.vfs.parent(p)?;
    if s.vfs.dir(d).contains_key(&n) {
        return Err(libc::EEXIST);
    }
    if fault(s, F_WRITE_ENOSPC, p) {
        return Err(libc::ENOSPC);
    }
    mutation(s, "mkdir", p);
    let i = s.vfs.add_inode(Kind::Dir(BTreeMap::new()), 0o40755);
    s.vfs.dir_mut(d).insert(n.clone(), i);
    s.vfs.journal.push(Meta::Link(d, n, i));
    Ok(0)
}
pub fn symlink(s: &mut Sim, target: &str, p: &str) -> Result<isize, i32> {
    let (d, n) = s.vfs.parent(p)?;
    if s.vfs.dir(d).contains_key(&n) {
        return Err(libc::EEXIST);
    }
    let i = s.vfs.add_inode(Kind::Link(target.to_string()), 0o120777);
    s.vfs.dir_mut(d).insert(n.clone(), i);
    s.vfs.journal.push(Meta::Link(d, n, i));
    Ok(0)
}
pub fn readlink(s: &mut Sim, p: &str) -> Result<String, i32> {
    let (i, _) = s.vfs.walk(p, false, 0)?;
    match &s.vfs.inodes[&i].kind {
        Kind::Link(t) => Ok(t.clone()),
        _ => Err(libc::EINVAL),
    }
}
pub fn chmod(s: &mut Sim, p: &str, mode: u32) -> Result<isize, i32> {
    let i = s.vfs.lookup(p)?;
    let n = s.vfs.inodes.get_mut(&i).unwrap();
    n.mode = (n.mode & !0o7777) | (mode & 0o7777);
    Ok(0)
}
pub unsafe fn futimens(s: &mut Sim, fd: i32, ts: *const libc::timespec) -> Result<isize, i32> {
    let now = now_wall(s);
    let ino = s.vfs.ofd_mut(fd)?.1.ino;
    let n = s.vfs.inodes.get_mut(&ino).ok_or(libc::EIO)?;
    if ts.is_null() {
        n.mtime_ns = now;
    } else {
        let m = &*ts.add(1);
        if m.tv_nsec == libc::UTIME_NOW {
            n.mtime_ns = now;
        } else if m.tv_nsec != libc::UTIME_OMIT {
            n.mtime_ns = m.tv_sec * 1_000_000_000 + m.tv_nsec;
        }
    }
    Ok(0)
}
pub fn realpath(s: &mut Sim, p: &str) -> Result<String, i32> {
    s.vfs.walk(p, true, 0).map(|x| x.1)
}
pub fn list(s: &mut Sim, p: &str) -> Result<Vec<(String, u64, u8)>, i32> {
    let i = s.vfs.lookup(p)?;
    let mut v: Vec<(String, u64, u8)> = match &s.vfs.inodes[&i].kind {
        Kind::Dir(m) => m
            .iter()
            .map(|(n, c)| {
                let t = match s.vfs.inodes[c].kind {
                    Kind::Dir(_) => libc::DT_DIR,
                    Kind::File { .. } => libc::DT_REG,
                    Kind::Link(_) => libc::DT_LNK,
                };
                (n.clone(), *c, t)
            })
            .collect(),
        _ => return Err(libc::ENOTDIR),
    };
    if s.fault_cfg.shuffle_readdir && v.len() > 1 {
        let h = p.bytes().fold(7u64, |a, b| a.wrapping_mul(31).wrapping_add(b as u64));
        let mut r = Rng::new(draw(s.cfg.seed, 21, h));
        r.shuffle(&mut v);
        s.count_fault("readdir-order");
    }
    Ok(v)
}
