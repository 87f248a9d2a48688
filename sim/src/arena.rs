//! The allocator seam: what the library allocates during a call lives in an arena at a fixed
//! address whose policy (addresses, reuse, contents, failures, limit) the plan decides; every
//! block is checked when it is released and when it is reused.

use crate::{sched, sys};
use std::alloc::{GlobalAlloc, Layout};
use std::cell::Cell;

pub const BASE: usize = 0x2000_0000_0000;
pub const SIZE: usize = 64 << 30;
pub const SHADOW: usize = 0x2800_0000_0000;
const HDR: usize = 32;
/// allocations followed by a gap, at most
const GAPS: u64 = 3000;
/// bytes after which released memory is reused in any case
const NOREUSE: usize = 512 << 20;
const CANARY: u64 = 0xC0FF_EE00_5AFE_57AC;
const FREED: u8 = 0xDD;
const MAGIC: u32 = 0x51A1_10C8;

#[repr(C)]
struct Hdr {
    magic: u32,
    cls: u16,
    live: u16,
    size: usize,
    next: usize,
    base: usize,
}

pub struct Arena {
    bump: usize,
    start: usize,
    heads: [usize; 128],
    tails: [usize; 128],
    pub live_bytes: usize,
    pub live_blocks: usize,
    pub peak: usize,
    pub allocs: u64,
    pub reused: u64,
    pub failed: u64,
    // policy
    pub reuse: u8, // 0 never, 1 last freed first, 2 first freed first
    pub fill: u8,
    pub gap: usize,
    pub cap: usize,
    pub fail_min: usize,
    pub inplace: bool,
    /// blocks are aligned as asked for and no better
    pub odd: u64,
}

pub static mut A: Arena = Arena {
    bump: BASE,
    start: BASE,
    heads: [0; 128],
    tails: [0; 128],
    live_bytes: 0,
    live_blocks: 0,
    peak: 0,
    allocs: 0,
    reused: 0,
    failed: 0,
    reuse: 1,
    fill: 0xA5,
    gap: 0,
    cap: 1 << 30,
    fail_min: usize::MAX,
    inplace: false,
    odd: 0,
};

thread_local! {
    /// allocations of this thread go to the arena
    static ON: Cell<bool> = const { Cell::new(false) };
}

pub fn on() -> bool {
    ON.try_with(|a| a.get()).unwrap_or(false)
}
pub fn set(v: bool) -> bool {
    ON.try_with(|a| a.replace(v)).unwrap_or(false)
}
/// Run with this thread's allocations in the arena (arguments of calls, values kept).
pub fn within<R>(f: impl FnOnce() -> R) -> R {
    let old = set(true);
    let r = f();
    set(old);
    r
}

pub fn reserve() {
    sys::map_fixed(BASE, SIZE);
    sys::map_fixed(SHADOW, SIZE / 8);
}

pub fn start_at(off: usize) {
    unsafe {
        A.bump = BASE + (off & !15);
        A.start = A.bump;
    };
}

fn class(total: usize) -> (usize, usize) {
    if total <= 1024 {
        let c = total.div_ceil(16);
        (c, c * 16)
    } else {
        let b = usize::BITS as usize - (total - 1).leading_zeros() as usize;
        (65 + b - 10, 1 << b)
    }
}

#[inline]
fn inside(p: usize) -> bool {
    (BASE..BASE + SIZE).contains(&p)
}

unsafe fn bad(what: &str, h: *const Hdr) -> ! {
    set(false);
    let s = format!("{} (block of {} bytes)", what, if h.is_null() { 0 } else { (*h).size });
    sched::die(sched::HEAP, &s)
}

unsafe fn arena_alloc(l: Layout) -> *mut u8 {
    let a = &mut *std::ptr::addr_of_mut!(A);
    if sched::active() {
        sched::tick();
        if sched::alloc_should_fail()
            || l.size() >= a.fail_min
            || a.live_bytes + l.size() > a.cap
        {
            a.failed += 1;
            return std::ptr::null_mut();
        }
    }
    a.allocs += 1;
    // a block further inside has a header of its own right before it
    let (mut extra, mut off) = (0, 0);
    if l.align() > 16 {
        extra = HDR + l.align();
    } else if a.odd != 0 {
        off = crate::rng::mix(a.odd ^ a.allocs.wrapping_mul(0x9E37_79B9)) as usize & 15 & !(l.align() - 1);
        extra = HDR + 16;
    }
    let (c, sz) = class(HDR + l.size() + 8 + extra);
    let mut base = 0;
    // even an allocator that never reuses has to at some point
    if (a.reuse != 0 || a.bump > a.start + NOREUSE) && a.heads[c] != 0 {
        base = a.heads[c];
        let h = base as *mut Hdr;
        a.heads[c] = (*h).next;
        if (*h).next == 0 {
            a.tails[c] = 0;
        }
        if (*h).magic != MAGIC || (*h).live != 0 {
            bad("header overwritten after release", std::ptr::null());
        }
        let n = (*h).size.min(4096);
        let p = std::slice::from_raw_parts((base + HDR) as *const u8, n);
        if p.iter().any(|b| *b != FREED) {
            bad("written after release", h);
        }
        a.reused += 1;
    }
    if base == 0 {
        base = a.bump;
        a.bump += sz + if a.allocs < GAPS { a.gap } else { 0 };
        if a.bump > BASE + SIZE - (1 << 20) {
            sched::die(sched::HARNESS, "arena full")
        }
    }
    let mut user = base + HDR;
    if extra > 0 {
        user = ((user + HDR + l.align() - 1) & !(l.align() - 1)) + off;
        let f = (user - HDR) as *mut Hdr;
        std::ptr::write_unaligned(f, Hdr { magic: MAGIC, cls: c as u16, live: 2, size: l.size(), next: 0, base });
    }
    *(base as *mut Hdr) =
        Hdr { magic: MAGIC, cls: c as u16, live: 1, size: l.size(), next: user, base };
    std::ptr::write_unaligned((user + l.size()) as *mut u64, CANARY);
    std::ptr::write_bytes(user as *mut u8, a.fill, l.size().min(1 << 16));
    if sched::mem_mode() {
        let s = SHADOW + (user - BASE) / 8;
        std::ptr::write_bytes(s as *mut u8, 0, (l.size() + (user & 7)) / 8 + 1);
    }
    a.live_bytes += l.size();
    a.live_blocks += 1;
    a.peak = a.peak.max(a.live_bytes);
    user as *mut u8
}

unsafe fn arena_free(p: *mut u8, l: Layout) {
    let a = &mut *std::ptr::addr_of_mut!(A);
    if sched::active() {
        sched::tick();
    }
    let at = (p as usize - HDR) as *mut Hdr;
    let f = std::ptr::read_unaligned(at);
    if f.magic != MAGIC {
        bad("released block has no header", std::ptr::null());
    }
    if f.live == 0 {
        bad("released twice", &f);
    }
    let base = f.base;
    let h = base as *mut Hdr;
    if (*h).live != 1 || (*h).next != p as usize {
        bad("released twice or inside a block", &f);
    }
    if (*h).size != l.size() {
        bad("released with another size", h);
    }
    if std::ptr::read_unaligned((p as usize + l.size()) as *const u64) != CANARY {
        bad("written past its end", h);
    }
    (*h).live = 0;
    (*h).next = 0;
    // to the end of the block, wherever in it the user's part began
    (*h).size = p as usize + l.size() - (base + HDR);
    std::ptr::write_bytes((base + HDR) as *mut u8, FREED, (*h).size.min(4096));
    a.live_bytes -= l.size();
    a.live_blocks -= 1;
    let c = (*h).cls as usize;
    match a.reuse {
        1 => {
            (*h).next = a.heads[c];
            a.heads[c] = base;
            if a.tails[c] == 0 {
                a.tails[c] = base;
            }
        }
        0 if a.bump <= a.start + NOREUSE => {}
        0 | 2 => {
            if a.tails[c] != 0 {
                (*(a.tails[c] as *mut Hdr)).next = base;
            } else {
                a.heads[c] = base;
            }
            a.tails[c] = base;
        }
        _ => {}
    }
}

pub struct Alloc;

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if on() {
            return arena_alloc(l);
        }
        if l.align() <= 16 {
            sys::malloc(l.size())
        } else {
            let mut p = std::ptr::null_mut();
            if sys::posix_memalign(&mut p, l.align(), l.size()) != 0 {
                return std::ptr::null_mut();
            }
            p
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = self.alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if inside(p as usize) {
            arena_free(p, l)
        } else {
            sys::free(p)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !inside(p as usize) && l.align() <= 16 && !on() {
            return sys::realloc(p, n);
        }
        let nl = Layout::from_size_align_unchecked(n, l.align());
        if inside(p as usize) && l.align() <= 16 && A.inplace && on() {
            let h = (p as usize - HDR) as *mut Hdr;
            if h as usize % 16 == 0 && (*h).magic == MAGIC && (*h).live == 1 && (*h).size == l.size() {
                let (c, _) = class(HDR + n + 8);
                if c == (*h).cls as usize {
                    if std::ptr::read_unaligned((p as usize + l.size()) as *const u64) != CANARY {
                        bad("written past its end", h);
                    }
                    if sched::active() && (sched::alloc_should_fail() || n >= A.fail_min) {
                        A.failed += 1;
                        return std::ptr::null_mut();
                    }
                    A.live_bytes = A.live_bytes + n - l.size();
                    (*h).size = n;
                    std::ptr::write_unaligned((p as usize + n) as *mut u64, CANARY);
                    return p;
                }
            }
        }
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}
