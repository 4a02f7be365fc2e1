//! Deterministic process allocator: power-of-two-ish size classes carved from one
//! fixed-address arena, so heap addresses are a pure function of the allocation
//! sequence (parking_lot keys its wait queues by address).

use std::alloc::{GlobalAlloc, Layout};
use std::sync::atomic::{AtomicBool, Ordering};

pub struct SimAlloc;

const BASE: usize = 0x2000_0000_0000;
const SIZE: usize = 24 << 30;
const CLASSES: usize = 160;

struct Arena {
    init: bool,
    next: usize,
    free: [usize; CLASSES],
}

static mut ARENA: Arena = Arena { init: false, next: 0, free: [0; CLASSES] };
/// Second arena for what differs between executions that must stay identical
/// (recordings, masks of a minimised case): it never moves other heap addresses.
const BASE2: usize = 0x2800_0000_0000;
static mut ARENA2: Arena = Arena { init: false, next: 0, free: [0; CLASSES] };
static ALT: AtomicBool = AtomicBool::new(false);
/// Allocate from the second arena while f runs (f must not reach a yield point).
pub fn aside<R>(f: impl FnOnce() -> R) -> R {
    let old = ALT.swap(true, Ordering::Relaxed);
    let r = f();
    ALT.store(old, Ordering::Relaxed);
    r
}
static LOCK: AtomicBool = AtomicBool::new(false);

#[inline]
fn class_of(size: usize) -> (usize, usize) {
    // 4 sub-classes per power of two, minimum 16 bytes.
    let s = if size < 16 { 16 } else { size };
    let p = usize::BITS as usize - 1 - (s - 1).leading_zeros() as usize; // 2^p < s <= 2^(p+1)
    if p < 4 {
        return (0, 16);
    }
    let step = 1usize << (p.saturating_sub(2));
    let k = (s - 1 - (1 << p)) / step; // 0..3
    let sz = (1usize << p) + (k + 1) * step;
    (((p - 4) * 4 + k + 1), (sz + 15) & !15)
}

#[inline]
fn lock() {
    while LOCK.compare_exchange_weak(false, true, Ordering::Acquire, Ordering::Relaxed).is_err() {
        std::hint::spin_loop();
    }
}
#[inline]
fn unlock() {
    LOCK.store(false, Ordering::Release);
}

unsafe fn init(a: &mut Arena, base: usize) {
    let p = libc::mmap(
        base as *mut _,
        SIZE,
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
        -1,
        0,
    );
    if p as usize != base {
        libc::abort();
    }
    a.next = base;
    a.init = true;
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        lock();
        let alt = ALT.load(Ordering::Relaxed);
        let (a, base) = if alt { (&mut *std::ptr::addr_of_mut!(ARENA2), BASE2) } else { (&mut *std::ptr::addr_of_mut!(ARENA), BASE) };
        if !a.init {
            init(a, base);
        }
        let r;
        if l.align() > 16 {
            let sz = (l.size() + 15) & !15;
            let p = (a.next + l.align() - 1) & !(l.align() - 1);
            a.next = p + sz;
            r = p;
        } else {
            let (c, sz) = class_of(l.size());
            if a.free[c] != 0 {
                r = a.free[c];
                a.free[c] = *(r as *const usize);
            } else {
                r = a.next;
                a.next += sz;
            }
        }
        let over = a.next > base + SIZE;
        unlock();
        if over {
            return std::ptr::null_mut();
        }
        r as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.align() > 16 {
            return;
        }
        lock();
        let a = if p as usize >= BASE2 { &mut *std::ptr::addr_of_mut!(ARENA2) } else { &mut *std::ptr::addr_of_mut!(ARENA) };
        let (c, _) = class_of(l.size());
        *(p as *mut usize) = a.free[c];
        a.free[c] = p as usize;
        unlock();
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if l.align() <= 16 && class_of(l.size()).0 == class_of(new).0 {
            return p;
        }
        let nl = Layout::from_size_align_unchecked(new, l.align());
        let n = self.alloc(nl);
        if !n.is_null() {
            std::ptr::copy_nonoverlapping(p, n, l.size().min(new));
            self.dealloc(p, l);
        }
        n
    }
}
