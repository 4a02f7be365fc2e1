//! Simulated stdio pipes (the editor's end of the server) and simulated child
//! processes.  A child is a managed thread running a scripted program; it talks to
//! its parent through the pipes the parent created, so std/tokio process plumbing
//! (spawn, wait, SIGCHLD, kill) runs for real.

use super::sched::*;
use libc::{c_char, c_int, c_void};
use std::collections::{BTreeMap, VecDeque};

#[derive(Default, Debug)]
pub struct Pipe {
    pub buf: VecDeque<u8>,
    pub cap: usize,
    pub wclosed: bool,
    pub rclosed: bool,
    pub total: u64,
}

#[derive(Clone, Debug, Default)]
pub struct SpawnReq {
    pub prog: String,
    pub argv: Vec<String>,
    pub env: Vec<(String, String)>,
    pub cwd: Option<String>,
    pub pid: i32,
    /// n-th spawn of the run
    pub nth: u64,
}

#[derive(Clone, Debug, Default)]
pub struct ProgOut {
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    /// wait status as returned by waitpid
    pub status: i32,
    /// virtual time between start and first output
    pub delay_ns: u64,
    /// never produces output or exits on its own
    pub hang: bool,
    /// closes stdin without reading it
    pub ignore_stdin: bool,
    /// pause between output chunks
    pub chunk_delay_ns: u64,
    /// never reads stdin, but keeps it open
    pub deaf: bool,
    /// with `hang`: reads all of stdin first
    pub hang_after_read: bool,
    /// written before stdin is read
    pub early_stdout: Vec<u8>,
    /// pause after every chunk read
    pub read_delay_ns: u64,
}

pub type Program = fn(&SpawnReq, &[u8]) -> ProgOut;
/// Decide at spawn time whether the program exists (Err = errno of the spawn).
pub type Resolver = fn(&SpawnReq) -> Result<Program, i32>;

#[derive(Debug, Default, Clone)]
pub struct Child {
    pub status: Option<i32>,
    pub reaped: bool,
    pub killed: Option<i32>,
    pub parent_group: u32,
    pub prog: String,
}

#[derive(Default)]
pub struct Procs {
    /// group -> (stdin pipe, stdout pipe)
    pub stdio: BTreeMap<u32, (u32, u32)>,
    pub stderr: BTreeMap<u32, Vec<u8>>,
    pub exited: BTreeMap<u32, i32>,
    pub resolver: Option<Resolver>,
    pub children: BTreeMap<i32, Child>,
    pub next_pid: i32,
    pub spawns: Vec<SpawnReq>,
    pub alive_pids: std::collections::BTreeSet<i32>,
    /// of these, the ones another user runs: signalling them is refused
    pub foreign_pids: std::collections::BTreeSet<i32>,
    pub next_group: u32,
    pub fragment: bool,
    pub frag_ctr: u64,
    actions: BTreeMap<usize, Vec<Act>>,
    pub sigchld_pending: u32,
}
#[derive(Clone, Debug)]
enum Act {
    Dup(c_int, c_int),
    Chdir(String),
}

impl Sim {
    pub fn new_pipe(&mut self, cap: usize) -> u32 {
        self.pipes.push(Pipe { cap, ..Default::default() });
        self.pipes.len() as u32 - 1
    }
    /// Put the given thread group's stdio on fresh simulated pipes.
    pub fn attach_stdio(&mut self, group: u32, cap_in: usize, cap_out: usize) -> (u32, u32) {
        let a = self.new_pipe(cap_in);
        let b = self.new_pipe(cap_out);
        self.procs.stdio.insert(group, (a, b));
        (a, b)
    }
    fn frag(&mut self, n: usize) -> usize {
        if !self.procs.fragment || n <= 1 {
            return n;
        }
        let i = self.procs.frag_ctr;
        self.procs.frag_ctr += 1;
        let r = super::rng::draw(self.cfg.seed, 30, i);
        if r % 4 == 0 { 1 + (r >> 8) as usize % n } else { n }
    }
    pub fn pipe_read(&mut self, id: u32, out: &mut [u8]) -> isize {
        loop {
            let n = self.pipes[id as usize].buf.len().min(out.len());
            if n > 0 {
                let n = self.frag(n);
                let p = &mut self.pipes[id as usize];
                for b in out[..n].iter_mut() {
                    *b = p.buf.pop_front().unwrap();
                }
                self.wake_pipe(id);
                return n as isize;
            }
            if self.pipes[id as usize].wclosed {
                return 0;
            }
            self.block(State::Pipe(id), None);
        }
    }
    pub fn pipe_write(&mut self, id: u32, data: &[u8]) -> isize {
        loop {
            let p = &self.pipes[id as usize];
            if p.rclosed {
                return -(libc::EPIPE as isize);
            }
            let room = p.cap.saturating_sub(p.buf.len());
            if room > 0 {
                let n = self.frag(room.min(data.len()));
                let p = &mut self.pipes[id as usize];
                p.buf.extend(&data[..n]);
                p.total += n as u64;
                self.wake_pipe(id);
                return n as isize;
            }
            self.block(State::Pipe(id), None);
        }
    }
    /// write everything regardless of capacity (the harness side)
    pub fn pipe_push(&mut self, id: u32, data: &[u8]) {
        let p = &mut self.pipes[id as usize];
        p.buf.extend(data);
        p.total += data.len() as u64;
        self.wake_pipe(id);
    }
    pub fn pipe_drain(&mut self, id: u32) -> Vec<u8> {
        let v: Vec<u8> = self.pipes[id as usize].buf.drain(..).collect();
        if !v.is_empty() {
            self.wake_pipe(id);
        }
        v
    }
    pub fn pipe_close_w(&mut self, id: u32) {
        self.pipes[id as usize].wclosed = true;
        self.wake_pipe(id);
    }
    pub fn pipe_close_r(&mut self, id: u32) {
        self.pipes[id as usize].rclosed = true;
        self.wake_pipe(id);
    }
    /// Block the harness thread until the pipe changes or the deadline passes.
    pub fn pipe_wait(&mut self, id: u32, deadline: Option<u64>) -> bool {
        self.block(State::Pipe(id), deadline)
    }
    /// A simulated process calls exit().
    pub fn proc_exit(&mut self, code: i32) {
        let g = self.cur_group();
        self.procs.exited.insert(g, code);
        if let Some((i, o)) = self.procs.stdio.get(&g).copied() {
            self.pipes[i as usize].rclosed = true;
            self.pipe_close_w(o);
        }
        self.kill_group(g);
    }
}

#[no_mangle]
pub unsafe extern "C" fn exit(code: c_int) -> ! {
    if managed() {
        let s = sim();
        if s.procs.stdio.contains_key(&s.cur_group()) {
            s.proc_exit(code);
        }
    }
    libc::_exit(code)
}

// ------------------------------------------------------------ spawning

#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_adddup2(fa: *mut libc::posix_spawn_file_actions_t, a: c_int, b: c_int) -> c_int {
    if managed() {
        sim().procs.actions.entry(fa as usize).or_default().push(Act::Dup(a, b));
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_addchdir_np(fa: *mut libc::posix_spawn_file_actions_t, p: *const c_char) -> c_int {
    if managed() {
        let d = std::ffi::CStr::from_ptr(p).to_string_lossy().into_owned();
        sim().procs.actions.entry(fa as usize).or_default().push(Act::Chdir(d));
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_init(fa: *mut libc::posix_spawn_file_actions_t) -> c_int {
    std::ptr::write_bytes(fa as *mut u8, 0, std::mem::size_of::<libc::posix_spawn_file_actions_t>());
    if managed() {
        sim().procs.actions.insert(fa as usize, Vec::new());
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_destroy(fa: *mut libc::posix_spawn_file_actions_t) -> c_int {
    if managed() {
        sim().procs.actions.remove(&(fa as usize));
    }
    0
}
unsafe fn strs(mut p: *const *mut c_char) -> Vec<String> {
    let mut v = Vec::new();
    if p.is_null() {
        return v;
    }
    while !(*p).is_null() {
        v.push(std::ffi::CStr::from_ptr(*p).to_string_lossy().into_owned());
        p = p.add(1);
    }
    v
}
struct ChildStart {
    req: SpawnReq,
    prog: Program,
    fds: [c_int; 3],
}

#[no_mangle]
pub unsafe extern "C" fn posix_spawnp(
    pid: *mut libc::pid_t,
    file: *const c_char,
    fa: *const libc::posix_spawn_file_actions_t,
    _attr: *const libc::posix_spawnattr_t,
    argv: *const *mut c_char,
    envp: *const *mut c_char,
) -> c_int {
    if !managed() {
        // never used by the orchestrator for anything but itself; it forks by hand
        return libc::ENOSYS;
    }
    let s = sim();
    let acts = s.procs.actions.get(&(fa as usize)).cloned().unwrap_or_default();
    let mut req = SpawnReq {
        prog: std::ffi::CStr::from_ptr(file).to_string_lossy().into_owned(),
        argv: strs(argv),
        env: strs(envp)
            .into_iter()
            .map(|e| {
                let (a, b) = e.split_once('=').unwrap_or((&e, ""));
                (a.to_string(), b.to_string())
            })
            .collect(),
        cwd: None,
        pid: 0,
        nth: s.procs.spawns.len() as u64,
    };
    let mut fds = [-1 as c_int; 3];
    for a in &acts {
        match a {
            Act::Chdir(d) => req.cwd = Some(d.clone()),
            Act::Dup(from, to) if (0..3).contains(to) => fds[*to as usize] = *from,
            _ => {}
        }
    }
    s.point();
    let s = sim();
    s.event(0x5350_4157, req.argv.len() as u64);
    let prog = match s.procs.resolver {
        Some(r) => match r(&req) {
            Ok(p) => p,
            Err(e) => {
                s.procs.spawns.push(req);
                return e;
            }
        },
        None => return libc::ENOENT,
    };
    if s.procs.next_pid == 0 {
        s.procs.next_pid = 5000;
        s.procs.next_group = 1000;
    }
    s.procs.next_pid += 1;
    let id = s.procs.next_pid;
    req.pid = id;
    s.procs.spawns.push(req.clone());
    for f in fds.iter_mut() {
        if *f >= 0 {
            *f = raw_syscall6(libc::SYS_fcntl as usize, *f as usize, libc::F_DUPFD_CLOEXEC as usize, 100, 0, 0, 0) as c_int;
        }
    }
    let pg = s.cur_group();
    s.procs.children.insert(id, Child { status: None, reaped: false, killed: None, parent_group: pg, prog: req.prog.clone() });
    *pid = id;
    let st = Box::into_raw(Box::new(ChildStart { req, prog, fds })) as usize;
    let saved = s.th(s.cur).group;
    s.procs.next_group += 1;
    let g = s.procs.next_group;
    let c = s.cur;
    s.th(c).group = g;
    s.no_preempt += 1;
    let mut pt: libc::pthread_t = 0;
    super::interpose::pthread_create(&mut pt, std::ptr::null(), child_main, st as *mut c_void);
    let s = sim();
    s.no_preempt -= 1;
    let c = s.cur;
    s.th(c).group = saved;
    s.point();
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn(
    pid: *mut libc::pid_t,
    file: *const c_char,
    fa: *const libc::posix_spawn_file_actions_t,
    attr: *const libc::posix_spawnattr_t,
    argv: *const *mut c_char,
    envp: *const *mut c_char,
) -> c_int {
    posix_spawnp(pid, file, fa, attr, argv, envp)
}
#[no_mangle]
pub unsafe extern "C" fn fork() -> libc::pid_t {
    if managed() {
        sim().fail("harness: target called fork() directly");
    }
    raw_syscall6(57, 0, 0, 0, 0, 0, 0) as libc::pid_t
}

unsafe fn raw_close(fd: c_int) {
    if fd >= 0 {
        raw_syscall6(libc::SYS_close as usize, fd as usize, 0, 0, 0, 0, 0);
        sim().wake_pollers();
    }
}
extern "C" fn child_main(p: *mut c_void) -> *mut c_void {
    unsafe {
        let st = Box::from_raw(p as *mut ChildStart);
        let pid = st.req.pid;
        let killed = |s: &mut Sim| s.procs.children[&pid].killed;
        // peek: does the program read its input?
        let probe = (st.prog)(&st.req, &[]);
        let sleep = |ns: u64| {
            let end = vnow() + ns;
            while vnow() < end && killed(sim()).is_none() {
                sim().block(State::Child(pid), Some(end));
            }
        };
        let emit = |fd: c_int, data: &[u8], pause: u64| {
            let mut off = 0;
            while fd > 2 && off < data.len() && killed(sim()).is_none() {
                let mut pf = libc::pollfd { fd, events: libc::POLLOUT, revents: 0 };
                let r = raw_syscall6(libc::SYS_poll as usize, &mut pf as *mut _ as usize, 1, 0, 0, 0, 0);
                if r > 0 && pf.revents & libc::POLLERR != 0 {
                    break;
                }
                if r == 0 {
                    let s = sim();
                    s.block(State::Child(pid), Some(s.now_base + 1_000_000));
                    continue;
                }
                let n = (data.len() - off).min(4096);
                let w = raw_syscall6(libc::SYS_write as usize, fd as usize, data.as_ptr().add(off) as usize, n, 0, 0, 0);
                if w <= 0 {
                    break;
                }
                off += w as usize;
                sim().wake_pollers();
                if pause > 0 {
                    sleep(pause);
                } else {
                    sim().point();
                }
            }
        };
        emit(st.fds[1], &probe.early_stdout, 0);
        let mut input = Vec::new();
        if st.fds[0] >= 0 && !probe.ignore_stdin && !probe.deaf && (!probe.hang || probe.hang_after_read) {
            let mut buf = [0u8; 4096];
            loop {
                let mut pf = libc::pollfd { fd: st.fds[0], events: libc::POLLIN, revents: 0 };
                let r = raw_syscall6(libc::SYS_poll as usize, &mut pf as *mut _ as usize, 1, 0, 0, 0, 0);
                if killed(sim()).is_some() {
                    break;
                }
                if r == 0 {
                    let s = sim();
                    s.block(State::Child(pid), Some(s.now_base + 1_000_000));
                    continue;
                }
                let n = raw_syscall6(libc::SYS_read as usize, st.fds[0] as usize, buf.as_mut_ptr() as usize, buf.len(), 0, 0, 0);
                if n <= 0 {
                    break;
                }
                input.extend_from_slice(&buf[..n as usize]);
                sim().wake_pollers();
                if probe.read_delay_ns > 0 {
                    sleep(probe.read_delay_ns);
                } else {
                    sim().point();
                }
            }
        }
        if !probe.deaf {
            raw_close(st.fds[0]);
        }
        let out = (st.prog)(&st.req, &input);
        sleep(out.delay_ns);
        if out.hang {
            while killed(sim()).is_none() {
                sim().block(State::Child(pid), None);
            }
        }
        for (fd, data) in [(st.fds[1], &out.stdout), (st.fds[2], &out.stderr)] {
            emit(fd, data, out.chunk_delay_ns);
        }
        if probe.deaf {
            raw_close(st.fds[0]);
        }
        raw_close(st.fds[1]);
        raw_close(st.fds[2]);
        sim().point();
        let s = sim();
        let k = killed(s);
        s.procs.children.get_mut(&pid).unwrap().status = Some(k.unwrap_or(out.status));
        s.wake_child(pid);
        s.event(0x4348_4c44, pid as u64);
        // SIGCHLD, delivered synchronously on this thread (tokio's self-pipe handler)
        s.no_preempt += 1;
        let tid = raw_syscall6(libc::SYS_gettid as usize, 0, 0, 0, 0, 0, 0);
        let me = raw_syscall6(libc::SYS_getpid as usize, 0, 0, 0, 0, 0, 0);
        raw_syscall6(libc::SYS_tgkill as usize, me as usize, tid as usize, libc::SIGCHLD as usize, 0, 0, 0);
        let s = sim();
        s.no_preempt -= 1;
        s.wake_pollers();
        std::ptr::null_mut()
    }
}

#[no_mangle]
pub unsafe extern "C" fn waitpid(pid: libc::pid_t, status: *mut c_int, opts: c_int) -> libc::pid_t {
    if managed() {
        loop {
            let s = sim();
            match s.procs.children.get_mut(&pid) {
                Some(c) if !c.reaped => {
                    if let Some(st) = c.status {
                        c.reaped = true;
                        if !status.is_null() {
                            *status = st;
                        }
                        return pid;
                    }
                    if opts & libc::WNOHANG != 0 {
                        return 0;
                    }
                    s.block(State::Child(pid), None);
                }
                _ => {
                    *libc::__errno_location() = libc::ECHILD;
                    return -1;
                }
            }
        }
    }
    let r = raw_syscall6(libc::SYS_wait4 as usize, pid as usize, status as usize, opts as usize, 0, 0, 0);
    if r < 0 {
        *libc::__errno_location() = (-r) as i32;
        return -1;
    }
    r as libc::pid_t
}

#[no_mangle]
pub unsafe extern "C" fn kill(pid: libc::pid_t, sig: c_int) -> c_int {
    if managed() {
        let s = sim();
        let target = pid.unsigned_abs() as i32;
        if let Some(c) = s.procs.children.get_mut(&target) {
            if c.reaped {
                *libc::__errno_location() = libc::ESRCH;
                return -1;
            }
            if sig != 0 && c.status.is_none() {
                c.killed = Some(sig);
                s.wake_child(target);
            }
            return 0;
        }
        if s.procs.alive_pids.contains(&pid) {
            if s.procs.foreign_pids.contains(&pid) {
                *libc::__errno_location() = libc::EPERM;
                return -1;
            }
            return 0;
        }
        *libc::__errno_location() = libc::ESRCH;
        return -1;
    }
    raw_syscall6(libc::SYS_kill as usize, pid as usize, sig as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: usize) -> *mut c_char {
    if managed() {
        let cwd = b"/sim/ws\0";
        if n < cwd.len() {
            *libc::__errno_location() = libc::ERANGE;
            return std::ptr::null_mut();
        }
        std::ptr::copy_nonoverlapping(cwd.as_ptr(), buf as *mut u8, cwd.len());
        return buf;
    }
    let r = raw_syscall6(libc::SYS_getcwd as usize, buf as usize, n, 0, 0, 0, 0);
    if r < 0 {
        *libc::__errno_location() = (-r) as i32;
        return std::ptr::null_mut();
    }
    buf
}
