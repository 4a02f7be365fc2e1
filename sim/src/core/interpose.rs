//! libc symbols defined in the executable: every blocking call, clock, random
//! source and file operation the target makes goes through here.  Unmanaged
//! callers (before/after a simulation) fall through to the kernel.

use super::sched::*;
use super::vfs;
use libc::{c_char, c_int, c_long, c_uint, c_void, mode_t, off_t, size_t, ssize_t, timespec};
use std::sync::OnceLock;

type PthreadStart = extern "C" fn(*mut c_void) -> *mut c_void;

unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}
unsafe fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        set_errno((-r) as i32);
        -1
    } else {
        r
    }
}
unsafe fn sys(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    ret(raw_syscall6(n as usize, a, b, c, d, e, f))
}
unsafe fn vret(r: Result<isize, i32>) -> isize {
    match r {
        Ok(v) => v,
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}

const REAL_BASE_S: i64 = 1_700_000_000;
const MONO_BASE_S: i64 = 10_000;

unsafe fn fill_ts(clk: c_int, ts: *mut timespec) {
    let s = sim();
    let now = s.now() as i64;
    let (base, ns) = if clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE {
        (REAL_BASE_S, now + s.wall_skew_ns)
    } else {
        (MONO_BASE_S, now)
    };
    (*ts).tv_sec = base + ns.div_euclid(1_000_000_000);
    (*ts).tv_nsec = ns.rem_euclid(1_000_000_000);
}
unsafe fn mono_abs_to_ns(ts: *const timespec) -> u64 {
    let t = ((*ts).tv_sec - MONO_BASE_S) as i128 * 1_000_000_000 + (*ts).tv_nsec as i128;
    t.clamp(0, u64::MAX as i128 / 2) as u64
}
unsafe fn real_abs_to_ns(ts: *const timespec) -> u64 {
    let t = ((*ts).tv_sec - REAL_BASE_S) as i128 * 1_000_000_000 + (*ts).tv_nsec as i128
        - sim().wall_skew_ns as i128;
    t.clamp(0, u64::MAX as i128 / 2) as u64
}
unsafe fn rel_to_ns(ts: *const timespec) -> u64 {
    let t = (*ts).tv_sec as i128 * 1_000_000_000 + (*ts).tv_nsec as i128;
    t.clamp(0, u64::MAX as i128 / 4) as u64
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut timespec) -> c_int {
    if managed() {
        fill_ts(clk, ts);
        return 0;
    }
    sys(libc::SYS_clock_gettime, clk as usize, ts as usize, 0, 0, 0, 0) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if managed() {
        let s = sim();
        let d = s.now() + rel_to_ns(req).max(1);
        s.block(State::Sleep, Some(d));
        return 0;
    }
    sys(libc::SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: c_int, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if managed() {
        let s = sim();
        let d = if flags & 1 != 0 {
            if clk == libc::CLOCK_REALTIME { real_abs_to_ns(req) } else { mono_abs_to_ns(req) }
        } else {
            s.now() + rel_to_ns(req).max(1)
        };
        if d > s.now() {
            s.block(State::Sleep, Some(d));
        }
        return 0;
    }
    let r = raw_syscall6(libc::SYS_clock_nanosleep as usize, clk as usize, flags as usize, req as usize, rem as usize, 0, 0);
    (-r) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if managed() {
        sim().yield_now();
        return 0;
    }
    sys(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: c_uint) -> ssize_t {
    if managed() {
        let out = std::slice::from_raw_parts_mut(buf as *mut u8, len);
        for ch in out.chunks_mut(8) {
            let v = sim().random_u64().to_le_bytes();
            let n = ch.len();
            ch.copy_from_slice(&v[..n]);
        }
        return len as ssize_t;
    }
    sys(libc::SYS_getrandom, buf as usize, len, flags as usize, 0, 0, 0)
}

#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: c_int, size: size_t, mask: *mut c_void) -> c_int {
    if managed() {
        let m = std::slice::from_raw_parts_mut(mask as *mut u8, size);
        m.fill(0);
        for c in 0..sim().cfg.cpus.max(1) {
            m[c / 8] |= 1 << (c % 8);
        }
        return 0;
    }
    let r = sys(libc::SYS_sched_getaffinity, pid as usize, size, mask as usize, 0, 0, 0);
    if r < 0 { -1 } else { 0 }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if managed() {
        if n == libc::SYS_futex {
            let op = b as c_int & 0x7f;
            let clock_rt = b as c_int & 256 != 0;
            let s = sim();
            match op {
                0 | 9 => {
                    let ts = d as *const timespec;
                    let deadline = if ts.is_null() {
                        None
                    } else if op == 0 {
                        Some(s.now() + rel_to_ns(ts))
                    } else if clock_rt {
                        Some(real_abs_to_ns(ts))
                    } else {
                        Some(mono_abs_to_ns(ts))
                    };
                    let r = s.futex_wait(a, c as u32, deadline);
                    if r == 0 {
                        return 0;
                    }
                    set_errno(r);
                    return -1;
                }
                1 | 10 => {
                    let r = s.futex_wake(a, c as c_int);
                    if r > 0 {
                        s.point();
                    }
                    return r as c_long;
                }
                _ => {
                    s.fail("harness: unsupported futex op");
                }
            }
        }
        if n == libc::SYS_getrandom {
            return getrandom(a as *mut c_void, b, c as c_uint) as c_long;
        }
        if n == libc::SYS_statx {
            return statx(a as c_int, b as *const c_char, c as c_int, d as c_uint, e as *mut libc::statx) as c_long;
        }
        if n == libc::SYS_pidfd_open {
            set_errno(libc::ENOSYS);
            return -1;
        }
        if n == libc::SYS_copy_file_range {
            set_errno(libc::ENOSYS);
            return -1;
        }
    }
    sys(n, a, b, c, d, e, f) as c_long
}

// ---------------------------------------------------------------- threads

fn next_sym(name: &'static [u8]) -> usize {
    unsafe { libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const c_char) as usize }
}
static REAL_CREATE: OnceLock<usize> = OnceLock::new();
static REAL_JOIN: OnceLock<usize> = OnceLock::new();
static mut EXIT_KEY: libc::pthread_key_t = 0;
static mut EXIT_KEY_SET: bool = false;

extern "C" fn exit_key_dtor(_: *mut c_void) {
    if ACTIVE.load(std::sync::atomic::Ordering::Relaxed) && tid() != 0 {
        // all Rust TLS destructors have run; hand over the baton for good
        unsafe {
            let s = sim();
            set_tid(0);
            // TLS of this thread is going away: after thread_exit we must not touch the sim
            s.thread_exit();
        }
    }
}
pub fn init() {
    REAL_CREATE.get_or_init(|| next_sym(b"pthread_create\0"));
    REAL_JOIN.get_or_init(|| next_sym(b"pthread_join\0"));
    unsafe {
        if !EXIT_KEY_SET {
            EXIT_KEY_SET = true;
            libc::pthread_key_create(std::ptr::addr_of_mut!(EXIT_KEY), Some(std::mem::transmute(exit_key_dtor as extern "C" fn(*mut c_void))));
        }
    }
}

struct Tramp {
    f: PthreadStart,
    arg: *mut c_void,
    id: u32,
}
extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    unsafe {
        let t = Box::from_raw(p as *mut Tramp);
        let id = t.id;
        thread_begin(id);
        libc::pthread_setspecific(EXIT_KEY, 1 as *const c_void);
        (t.f)(t.arg)
    }
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    out: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    f: PthreadStart,
    arg: *mut c_void,
) -> c_int {
    init();
    let real: unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, PthreadStart, *mut c_void) -> c_int =
        std::mem::transmute(*REAL_CREATE.get().unwrap());
    if managed() {
        let s = sim();
        let id = s.new_thread();
        let t = Box::into_raw(Box::new(Tramp { f, arg, id })) as *mut c_void;
        let r = real(out, attr, trampoline, t);
        if r != 0 {
            s.fail("harness: pthread_create failed");
        }
        s.th(id).pthread = *out as usize;
        s.point();
        return 0;
    }
    real(out, attr, f, arg)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, rv: *mut *mut c_void) -> c_int {
    init();
    let real: unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int =
        std::mem::transmute(*REAL_JOIN.get().unwrap());
    if managed() {
        let s = sim();
        // newest thread with this handle (handles are reused after exit)
        if let Some(id) = s.threads.iter().rev().find(|x| x.pthread == t as usize).map(|x| x.id) {
            while s.th(id).state != State::Exited {
                s.block(State::Join(id), None);
            }
        }
    }
    real(t, rv)
}

// ---------------------------------------------------------------- polling

#[no_mangle]
pub unsafe extern "C" fn epoll_wait(ep: c_int, ev: *mut libc::epoll_event, max: c_int, timeout: c_int) -> c_int {
    if managed() {
        let s = sim();
        let deadline = if timeout < 0 { None } else { Some(s.now() + timeout as u64 * 1_000_000) };
        loop {
            let r = sys(libc::SYS_epoll_wait, ep as usize, ev as usize, max as usize, 0, 0, 0);
            if r != 0 || timeout == 0 {
                return r as c_int;
            }
            if let Some(d) = deadline {
                if s.now() >= d {
                    return 0;
                }
            }
            s.block(State::Poll, deadline);
        }
    }
    sys(libc::SYS_epoll_wait, ep as usize, ev as usize, max as usize, timeout as usize, 0, 0) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut libc::pollfd, n: libc::nfds_t, timeout: c_int) -> c_int {
    if managed() {
        let s = sim();
        let deadline = if timeout < 0 { None } else { Some(s.now() + timeout as u64 * 1_000_000) };
        loop {
            let r = sys(libc::SYS_poll, fds as usize, n as usize, 0, 0, 0, 0);
            if r != 0 || timeout == 0 {
                return r as c_int;
            }
            if let Some(d) = deadline {
                if s.now() >= d {
                    return 0;
                }
            }
            s.block(State::Poll, deadline);
        }
    }
    sys(libc::SYS_poll, fds as usize, n as usize, timeout as usize, 0, 0, 0) as c_int
}

// ---------------------------------------------------------------- files

unsafe fn cpath<'a>(p: *const c_char) -> &'a [u8] {
    std::ffi::CStr::from_ptr(p).to_bytes()
}
unsafe fn vpath(p: *const c_char) -> Option<String> {
    if !managed() {
        return None;
    }
    vfs::virtual_path(cpath(p))
}
unsafe fn vfd(fd: c_int) -> bool {
    fd >= vfs::FD_BASE && managed()
}

#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if let Some(path) = vpath(p) {
        let s = sim();
        s.point();
        return vret(vfs::open(s, &path, flags, mode)) as c_int;
    }
    if managed() && vfs::hidden_host_path(cpath(p)) {
        set_errno(libc::ENOENT);
        return -1;
    }
    sys(libc::SYS_openat, libc::AT_FDCWD as usize, p as usize, flags as usize, mode as usize, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open64(p, flags, mode)
}
unsafe fn at_path(dirfd: c_int, p: *const c_char) -> Option<String> {
    if !managed() || p.is_null() {
        return None;
    }
    let b = cpath(p);
    if b.first() == Some(&b'/') {
        return vfs::virtual_path(b);
    }
    if dirfd >= vfs::FD_BASE {
        let base = vfs::fd_path(sim(), dirfd)?;
        if b.is_empty() {
            return Some(base);
        }
        return Some(format!("{}/{}", base, String::from_utf8_lossy(b)));
    }
    None
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dirfd: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if let Some(path) = at_path(dirfd, p) {
        let s = sim();
        s.point();
        return vret(vfs::open(s, &path, flags, mode)) as c_int;
    }
    sys(libc::SYS_openat, dirfd as usize, p as usize, flags as usize, mode as usize, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat(dirfd: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    openat64(dirfd, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if vfd(fd) {
        let s = sim();
        return vret(vfs::close(s, fd)) as c_int;
    }
    let r = sys(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0) as c_int;
    if managed() {
        sim().wake_pollers();
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if vfd(fd) {
        let s = sim();
        s.point();
        return vret(vfs::read(s, fd, std::slice::from_raw_parts_mut(buf as *mut u8, n), None));
    }
    if managed() {
        if fd == 0 {
            let s = sim();
            if let Some((i, _)) = s.procs.stdio.get(&s.cur_group()).copied() {
                s.point();
                return sim().pipe_read(i, std::slice::from_raw_parts_mut(buf as *mut u8, n));
            }
        }
        // a real descriptor (eventfd, pipe of a simulated child): never let the kernel block us
        loop {
            let mut pf = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
            let r = sys(libc::SYS_poll, &mut pf as *mut _ as usize, 1, 0, 0, 0, 0);
            if r != 0 {
                break;
            }
            let fl = sys(libc::SYS_fcntl, fd as usize, libc::F_GETFL as usize, 0, 0, 0, 0);
            if fl >= 0 && fl as c_int & libc::O_NONBLOCK != 0 {
                break;
            }
            sim().block(State::Poll, None);
        }
    }
    sys(libc::SYS_read, fd as usize, buf as usize, n, 0, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off_t) -> ssize_t {
    if vfd(fd) {
        let s = sim();
        s.point();
        return vret(vfs::read(s, fd, std::slice::from_raw_parts_mut(buf as *mut u8, n), Some(off as u64)));
    }
    sys(libc::SYS_pread64, fd as usize, buf as usize, n, off as usize, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if vfd(fd) {
        let s = sim();
        s.point();
        return vret(vfs::write(s, fd, std::slice::from_raw_parts(buf as *const u8, n)));
    }
    if (fd == 1 || fd == 2) && managed() {
        let s = sim();
        let g = s.cur_group();
        if let Some((_, o)) = s.procs.stdio.get(&g).copied() {
            let data = std::slice::from_raw_parts(buf as *const u8, n);
            if fd == 2 {
                let e = s.procs.stderr.entry(g).or_default();
                if e.len() > 1 << 20 {
                    e.clear();
                }
                e.extend_from_slice(data);
                return n as ssize_t;
            }
            s.point();
            return vret(match sim().pipe_write(o, data) {
                x if x < 0 => Err((-x) as i32),
                x => Ok(x),
            });
        }
    }
    let r = sys(libc::SYS_write, fd as usize, buf as usize, n, 0, 0, 0);
    if managed() && fd > 2 {
        let s = sim();
        s.wake_pollers();
        s.point();
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if vfd(fd) {
        let s = sim();
        s.point();
        let v = std::slice::from_raw_parts(iov, n as usize);
        for i in v {
            if i.iov_len > 0 {
                return vret(vfs::write(s, fd, std::slice::from_raw_parts(i.iov_base as *const u8, i.iov_len)));
            }
        }
        return 0;
    }
    if (fd == 1 || fd == 2) && managed() {
        let v = std::slice::from_raw_parts(iov, n as usize);
        for i in v {
            if i.iov_len > 0 {
                return write(fd, i.iov_base, i.iov_len);
            }
        }
        return 0;
    }
    sys(libc::SYS_writev, fd as usize, iov as usize, n as usize, 0, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off_t, whence: c_int) -> off_t {
    if vfd(fd) {
        return vret(vfs::lseek(sim(), fd, off, whence)) as off_t;
    }
    sys(libc::SYS_lseek, fd as usize, off as usize, whence as usize, 0, 0, 0) as off_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off_t, whence: c_int) -> off_t {
    lseek64(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if vfd(fd) {
        let s = sim();
        s.point();
        return vret(vfs::fsync(s, fd)) as c_int;
    }
    sys(libc::SYS_fsync, fd as usize, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if vfd(fd) {
        return fsync(fd);
    }
    sys(libc::SYS_fdatasync, fd as usize, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off_t) -> c_int {
    if vfd(fd) {
        let s = sim();
        s.point();
        return vret(vfs::ftruncate(s, fd, len as u64)) as c_int;
    }
    sys(libc::SYS_ftruncate, fd as usize, len as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if vfd(fd) {
        let s = sim();
        s.point();
        return vret(vfs::flock(s, fd, op)) as c_int;
    }
    sys(libc::SYS_flock, fd as usize, op as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if vfd(fd) {
        return vret(vfs::fcntl(sim(), fd, cmd, arg)) as c_int;
    }
    sys(libc::SYS_fcntl, fd as usize, cmd as usize, arg, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn statx(dirfd: c_int, p: *const c_char, flags: c_int, mask: c_uint, out: *mut libc::statx) -> c_int {
    if let Some(path) = at_path(dirfd, p) {
        let s = sim();
        let byfd = cpath(p).is_empty();
        let r = if byfd {
            vfs::stat_fd(s, dirfd)
        } else {
            s.point();
            vfs::stat_path(s, &path, flags & libc::AT_SYMLINK_NOFOLLOW == 0)
        };
        return match r {
            Ok(st) => {
                std::ptr::write_bytes(out as *mut u8, 0, std::mem::size_of::<libc::statx>());
                let o = &mut *out;
                o.stx_mask = 0x7ff | libc::STATX_BTIME;
                o.stx_blksize = 4096;
                o.stx_nlink = 1;
                o.stx_mode = st.mode as u16;
                o.stx_ino = st.ino;
                o.stx_size = st.size;
                o.stx_blocks = (st.size + 511) / 512;
                for t in [&mut o.stx_atime, &mut o.stx_btime, &mut o.stx_ctime, &mut o.stx_mtime] {
                    t.tv_sec = st.mtime_ns.div_euclid(1_000_000_000);
                    t.tv_nsec = st.mtime_ns.rem_euclid(1_000_000_000) as u32;
                }
                o.stx_dev_major = 0;
                o.stx_dev_minor = 77;
                0
            }
            Err(e) => {
                set_errno(e);
                -1
            }
        };
    }
    if managed() && !p.is_null() && !cpath(p).is_empty() && vfs::hidden_host_path(cpath(p)) {
        set_errno(libc::ENOENT);
        return -1;
    }
    sys(libc::SYS_statx, dirfd as usize, p as usize, flags as usize, mask as usize, out as usize, 0) as c_int
}
unsafe fn fill_stat(out: *mut libc::stat64, st: vfs::St) {
    std::ptr::write_bytes(out as *mut u8, 0, std::mem::size_of::<libc::stat64>());
    let o = &mut *out;
    o.st_mode = st.mode;
    o.st_ino = st.ino;
    o.st_size = st.size as i64;
    o.st_nlink = 1;
    o.st_blksize = 4096;
    o.st_blocks = ((st.size + 511) / 512) as i64;
    o.st_dev = 77;
    o.st_mtime = st.mtime_ns.div_euclid(1_000_000_000);
    o.st_mtime_nsec = st.mtime_ns.rem_euclid(1_000_000_000);
    o.st_ctime = o.st_mtime;
    o.st_atime = o.st_mtime;
}
unsafe fn do_stat(r: Result<vfs::St, i32>, out: *mut libc::stat64) -> c_int {
    match r {
        Ok(st) => {
            fill_stat(out, st);
            0
        }
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, out: *mut libc::stat64) -> c_int {
    if let Some(path) = vpath(p) {
        return do_stat(vfs::stat_path(sim(), &path, true), out);
    }
    sys(libc::SYS_stat, p as usize, out as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, out: *mut libc::stat64) -> c_int {
    if let Some(path) = vpath(p) {
        return do_stat(vfs::stat_path(sim(), &path, false), out);
    }
    sys(libc::SYS_lstat, p as usize, out as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, out: *mut libc::stat64) -> c_int {
    if vfd(fd) {
        return do_stat(vfs::stat_fd(sim(), fd), out);
    }
    sys(libc::SYS_fstat, fd as usize, out as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(dirfd: c_int, p: *const c_char, out: *mut libc::stat64, flags: c_int) -> c_int {
    if let Some(path) = at_path(dirfd, p) {
        return do_stat(vfs::stat_path(sim(), &path, flags & libc::AT_SYMLINK_NOFOLLOW == 0), out);
    }
    sys(libc::SYS_newfstatat, dirfd as usize, p as usize, out as usize, flags as usize, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, mode: c_int) -> c_int {
    if let Some(path) = vpath(p) {
        return match vfs::stat_path(sim(), &path, true) {
            Ok(_) => 0,
            Err(e) => {
                set_errno(e);
                -1
            }
        };
    }
    sys(libc::SYS_access, p as usize, mode as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if let (Some(pa), Some(pb)) = (vpath(a), vpath(b)) {
        let s = sim();
        s.point();
        return vret(vfs::rename(s, &pa, &pb)) as c_int;
    }
    sys(libc::SYS_rename, a as usize, b as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    if vpath(a).is_some() {
        set_errno(libc::EPERM);
        return -1;
    }
    sys(libc::SYS_link, a as usize, b as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    if let Some(path) = vpath(p) {
        let s = sim();
        s.point();
        return vret(vfs::unlink(s, &path)) as c_int;
    }
    sys(libc::SYS_unlink, p as usize, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(dirfd: c_int, p: *const c_char, flags: c_int) -> c_int {
    if let Some(path) = at_path(dirfd, p) {
        let s = sim();
        s.point();
        let r = if flags & libc::AT_REMOVEDIR != 0 { vfs::rmdir(s, &path) } else { vfs::unlink(s, &path) };
        return vret(r) as c_int;
    }
    sys(libc::SYS_unlinkat, dirfd as usize, p as usize, flags as usize, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    if let Some(path) = vpath(p) {
        let s = sim();
        s.point();
        return vret(vfs::rmdir(s, &path)) as c_int;
    }
    sys(libc::SYS_rmdir, p as usize, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: mode_t) -> c_int {
    if let Some(path) = vpath(p) {
        let s = sim();
        s.point();
        return vret(vfs::mkdir(s, &path)) as c_int;
    }
    sys(libc::SYS_mkdir, p as usize, mode as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    if let Some(pb) = vpath(b) {
        let s = sim();
        return vret(vfs::symlink(s, &String::from_utf8_lossy(cpath(a)), &pb)) as c_int;
    }
    sys(libc::SYS_symlink, a as usize, b as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    if let Some(path) = vpath(p) {
        return match vfs::readlink(sim(), &path) {
            Ok(t) => {
                let k = t.len().min(n);
                std::ptr::copy_nonoverlapping(t.as_ptr(), buf as *mut u8, k);
                k as ssize_t
            }
            Err(e) => {
                set_errno(e);
                -1
            }
        };
    }
    sys(libc::SYS_readlink, p as usize, buf as usize, n, 0, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, mode: mode_t) -> c_int {
    if let Some(path) = vpath(p) {
        return vret(vfs::chmod(sim(), &path, mode)) as c_int;
    }
    sys(libc::SYS_chmod, p as usize, mode as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: mode_t) -> c_int {
    if vfd(fd) {
        return 0;
    }
    sys(libc::SYS_fchmod, fd as usize, mode as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn futimens(fd: c_int, ts: *const timespec) -> c_int {
    if vfd(fd) {
        let s = sim();
        return vret(vfs::futimens(s, fd, ts)) as c_int;
    }
    sys(libc::SYS_utimensat, fd as usize, 0, ts as usize, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    if managed() {
        if let Some(path) = vpath(p) {
            let s = sim();
            s.point();
            return match vfs::realpath(s, &path) {
                Ok(r) => {
                    let buf = if out.is_null() { libc::malloc(r.len() + 1) as *mut c_char } else { out };
                    std::ptr::copy_nonoverlapping(r.as_ptr(), buf as *mut u8, r.len());
                    *buf.add(r.len()) = 0;
                    buf
                }
                Err(e) => {
                    set_errno(e);
                    std::ptr::null_mut()
                }
            };
        }
    }
    static REAL: OnceLock<usize> = OnceLock::new();
    let f: unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char =
        std::mem::transmute(*REAL.get_or_init(|| next_sym(b"realpath\0")));
    f(p, out)
}

// directories ------------------------------------------------------

#[repr(C)]
struct VDir {
    magic: u64,
    path: String,
    fd: c_int,
    entries: Vec<(String, u64, u8)>,
    pos: usize,
    ent: libc::dirent64,
}
const VDIR_MAGIC: u64 = 0x5649_4D44_4952_0001;

unsafe fn vdir<'a>(d: *mut libc::DIR) -> Option<&'a mut VDir> {
    if d.is_null() || (d as usize) < 0x2000_0000_0000 || (d as usize) > 0x2000_0000_0000 + (24 << 30) {
        return None;
    }
    let v = &mut *(d as *mut VDir);
    if v.magic == VDIR_MAGIC { Some(v) } else { None }
}
unsafe fn mk_vdir(path: String, fd: c_int) -> *mut libc::DIR {
    let s = sim();
    match vfs::list(s, &path) {
        Ok(entries) => Box::into_raw(Box::new(VDir { magic: VDIR_MAGIC, path, fd, entries, pos: 0, ent: std::mem::zeroed() })) as *mut libc::DIR,
        Err(e) => {
            set_errno(e);
            std::ptr::null_mut()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut libc::DIR {
    if let Some(path) = vpath(p) {
        sim().point();
        let fd = vret(vfs::open(sim(), &path, libc::O_DIRECTORY, 0)) as c_int;
        if fd < 0 {
            return std::ptr::null_mut();
        }
        return mk_vdir(path, fd);
    }
    static REAL: OnceLock<usize> = OnceLock::new();
    let f: unsafe extern "C" fn(*const c_char) -> *mut libc::DIR = std::mem::transmute(*REAL.get_or_init(|| next_sym(b"opendir\0")));
    f(p)
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut libc::DIR {
    if vfd(fd) {
        if let Some(path) = vfs::fd_path(sim(), fd) {
            return mk_vdir(path, fd);
        }
        set_errno(libc::EBADF);
        return std::ptr::null_mut();
    }
    static REAL: OnceLock<usize> = OnceLock::new();
    let f: unsafe extern "C" fn(c_int) -> *mut libc::DIR = std::mem::transmute(*REAL.get_or_init(|| next_sym(b"fdopendir\0")));
    f(fd)
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
    if let Some(v) = vdir(d) {
        if v.pos >= v.entries.len() {
            return std::ptr::null_mut();
        }
        let (name, ino, ty) = &v.entries[v.pos];
        v.pos += 1;
        v.ent.d_ino = *ino;
        v.ent.d_type = *ty;
        v.ent.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
        let n = name.len().min(254);
        std::ptr::copy_nonoverlapping(name.as_ptr(), v.ent.d_name.as_mut_ptr() as *mut u8, n);
        v.ent.d_name[n] = 0;
        return &mut v.ent;
    }
    static REAL: OnceLock<usize> = OnceLock::new();
    let f: unsafe extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64 = std::mem::transmute(*REAL.get_or_init(|| next_sym(b"readdir64\0")));
    f(d)
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut libc::DIR) -> c_int {
    if let Some(v) = vdir(d) {
        return v.fd;
    }
    static REAL: OnceLock<usize> = OnceLock::new();
    let f: unsafe extern "C" fn(*mut libc::DIR) -> c_int = std::mem::transmute(*REAL.get_or_init(|| next_sym(b"dirfd\0")));
    f(d)
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut libc::DIR) -> c_int {
    if let Some(v) = vdir(d) {
        let fd = v.fd;
        v.magic = 0;
        drop(Box::from_raw(d as *mut VDir));
        if managed() {
            let _ = vfs::close(sim(), fd);
        }
        return 0;
    }
    static REAL: OnceLock<usize> = OnceLock::new();
    let f: unsafe extern "C" fn(*mut libc::DIR) -> c_int = std::mem::transmute(*REAL.get_or_init(|| next_sym(b"closedir\0")));
    f(d)
}

#[no_mangle]
pub unsafe extern "C" fn getpid() -> libc::pid_t {
    if managed() {
        return 4000 + sim().cur_group() as libc::pid_t;
    }
    raw_syscall6(libc::SYS_getpid as usize, 0, 0, 0, 0, 0, 0) as libc::pid_t
}
#[no_mangle]
pub unsafe extern "C" fn gettid() -> libc::pid_t {
    if managed() {
        return 40000 + tid() as libc::pid_t;
    }
    raw_syscall6(libc::SYS_gettid as usize, 0, 0, 0, 0, 0, 0) as libc::pid_t
}
