//! The scheduler seam. The caller threads of a run are real threads of which exactly one runs
//! at any time; every basic block, load and store of the library (SanitizerCoverage
//! callbacks), every allocation, futex call, clock-driven wait and output call inside a call is
//! a step at which the seeded scheduler may suspend the thread and let another one go on.

use crate::plan::{Dec, Policy};
use crate::rng::{mix, Rng};
use crate::{arena, sys};
use std::cell::Cell;
use std::ffi::c_void;
use std::sync::atomic::{self, AtomicU32, Ordering};

/// steps after which a thread lets another one go on, whatever the schedule
const FAIR: u64 = 3_000_000;

/// of the plan
pub const MAXP: usize = 24;
/// with those made by the library
pub const MAXT: usize = 240;
pub const MAIN: usize = MAXT; // the pseudo thread that joins and creates threads
pub const COV: usize = 1 << 15;
pub const MAXDEC: usize = 1 << 15;
/// words of static data watched
pub const STATICS: usize = 1 << 14;
pub const OUT: usize = 768 << 20;

// how a run ended
pub const RUNNING: u32 = 0;
pub const DONE: u32 = 1;
pub const DEADLOCK: u32 = 2;
pub const STUCK: u32 = 3;
pub const HEAP: u32 = 4;
pub const HARNESS: u32 = 5;
pub const SLOW: u32 = 6; // not run to the end, as it takes too long

// decision kinds
pub const D_SWITCH: u8 = 0;
pub const D_FORCED: u8 = 1;
pub const D_STALL: u8 = 2; // until the other threads cannot go on
pub const D_FOREVER: u8 = 3;
pub const D_CLOCK: u8 = 4;
pub const D_SPURIOUS: u8 = 5;

pub const STACK_BASE: usize = 0x3000_0000_0000;
pub const STACK_GAP: usize = 1 << 30;
pub const STACK_MAX: usize = 512 << 20;

#[repr(C)]
pub struct Shm {
    pub status: u32,
    pub cur_thr: u32,
    pub cur_op: u32,
    pub cur_step: u64,
    pub steps: u64,
    pub switches: u64,
    pub preempts: u64,
    pub stalls: u64,
    pub forever: u64,
    pub clock_jumps: u64,
    pub clock_reads: u64,
    pub randoms: u64,
    pub futex_waits: u64,
    pub statics: u64,
    pub hots: u64,
    pub conflicts: u64,
    pub spurious: u64,
    pub threads_made: u64,
    pub sim_ns: u64,
    pub sig: u64,
    pub allocs: u64,
    pub reused: u64,
    pub alloc_failed: u64,
    pub live_bytes: u64,
    pub live_blocks: u64,
    pub ndec: u32,
    pub nguards: u32,
    pub msg_len: u32,
    pub msg: [u8; 512],
    pub out_len: usize,
    pub decs: [Dec; MAXDEC],
    pub static_mut: [u8; STATICS],
    pub static0: [u64; STATICS],
    pub cov: [u8; COV],
    pub pairs: [u8; COV],
    pub out: [u8; OUT],
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum S {
    Unborn,
    Ready,
    Futex(usize, i64), // address, deadline (i64::MAX: none)
    Sleep(i64),
    Slot(u32),
    Join(usize),
    Stalled,
    Forever,
    Done,
}

struct Thr {
    s: S,
    token: AtomicU32,
    op: u32,
    step: u64,
    opfailk: u64, // allocations left before the failing one
    opfailn: u64,
    handle: u64,
    timed_out: bool,
    nforced: u64,
    allocs: u64,
    next_gap: u64,
    after: usize,
    adopted: Option<(sys::StartFn, usize)>,
    order: u64,
}

pub struct Sim {
    shm: *mut Shm,
    cur: usize,
    step: u64,
    stop: u64,
    mem: bool,
    thr: [Thr; MAXT + 1],
    n: usize,
    done: usize,
    pol: Policy,
    rng: Rng,
    rnd: Rng,
    decs: Vec<Dec>,
    replay: bool,
    total: u64, // steps of finished slices
    slice: u64, // step at which the present slice began
    jump: i64,
    jump_real: i64,
    last_edge: u32,
    cap: u64,
    slot_holds: [i32; 64], // -1 writer, n readers
    pend_join: usize,
    stack: [usize; MAXP],
    key: u32,
    body: Option<fn(usize)>,
    data: (usize, usize),
    /// calls completed, per thread, in the present run
    stalled_once: u32,
    hots: u64,
    // a thread's mark on the words it uses; a new one once its writes are published
    alias: [u8; MAXT + 1],
    published: [bool; 64],
    aliases: u8,
    fails: Vec<(u8, u32, u64, u64)>,
    spur: u64,
    fair_at: u64,
    norder: u64,
    advances: u64,
}

const T0: Thr = Thr {
    s: S::Unborn,
    token: AtomicU32::new(0),
    op: 0,
    step: 0,
    opfailk: u64::MAX,
    opfailn: 0,
    handle: 0,
    timed_out: false,
    nforced: 0,
    allocs: 0,
    next_gap: u64::MAX,
    after: usize::MAX,
    adopted: None,
    order: 0,
};

static mut SIM: Sim = Sim {
    shm: std::ptr::null_mut(),
    cur: MAIN,
    step: 0,
    stop: u64::MAX,
    mem: false,
    thr: [const { T0 }; MAXT + 1],
    n: 0,
    done: 0,
    pol: Policy::NONE,
    rng: Rng::ZERO,
    rnd: Rng::ZERO,
    decs: Vec::new(),
    replay: false,
    total: 0,
    slice: 0,
    jump: 0,
    jump_real: 0,
    last_edge: 0,
    cap: u64::MAX,
    slot_holds: [0; 64],
    pend_join: usize::MAX,
    stack: [0; MAXP],
    key: 0,
    body: None,
    data: (0, 0),
    stalled_once: 0,
    hots: 0,
    alias: [1; MAXT + 1],
    published: [false; 64],
    aliases: 1,
    fails: Vec::new(),
    spur: 0,
    fair_at: u64::MAX,
    norder: 0,
    advances: 0,
};

static mut CHILD: bool = false;

thread_local! {
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
}

#[inline]
fn sim() -> &'static mut Sim {
    unsafe { &mut *std::ptr::addr_of_mut!(SIM) }
}
#[inline]
fn shm() -> &'static mut Shm {
    unsafe { &mut *SIM.shm }
}

#[inline]
pub fn active() -> bool {
    unsafe { CHILD && ACTIVE.try_with(|a| a.get()).unwrap_or(false) }
}
#[inline]
pub fn in_child() -> bool {
    unsafe { CHILD }
}
#[inline]
pub fn mem_mode() -> bool {
    unsafe { SIM.mem }
}
/// Run without scheduling points and with the harness's allocator.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    let a = ACTIVE.with(|x| x.replace(false));
    let o = arena::set(false);
    let r = f();
    arena::set(o);
    ACTIVE.with(|x| x.set(a));
    r
}

/// Not as a part of the library's call.
pub fn uncounted<R>(f: impl FnOnce() -> R) -> R {
    let a = ACTIVE.with(|x| x.replace(false));
    let r = f();
    ACTIVE.with(|x| x.set(a));
    r
}

/// End the run at once, with a reason.
pub fn die(status: u32, msg: &str) -> ! {
    ACTIVE.with(|x| x.set(false));
    arena::set(false);
    let h = shm();
    h.status = status;
    let b = msg.as_bytes();
    let n = b.len().min(512);
    h.msg[..n].copy_from_slice(&b[..n]);
    h.msg_len = n as u32;
    finish_stats();
    unsafe { sys::_exit(0) }
}

fn finish_stats() {
    let s = sim();
    let h = shm();
    h.steps = s.total + (s.step - s.slice);
    h.sim_ns = (now(1) - s.pol.clock0 as i64).max(0) as u64;
    h.cur_thr = s.cur as u32;
    if s.cur < MAXT {
        h.cur_op = s.thr[s.cur].op;
        h.cur_step = s.step;
    }
    unsafe {
        let a = &*std::ptr::addr_of!(arena::A);
        h.allocs = a.allocs;
        h.reused = a.reused;
        h.alloc_failed = a.failed;
        h.live_bytes = a.live_bytes as u64;
        h.live_blocks = a.live_blocks as u64;
    }
}

// ------------------------------------------------------------------ seams read by sys.rs

pub fn random(p: *mut u8, n: usize) {
    let s = sim();
    shm().randoms += 1;
    for i in 0..n {
        unsafe { *p.add(i) = s.rnd.u64() as u8 };
    }
}

/// virtual time in ns; id 0 and 5: wall clock
pub fn now(id: i32) -> i64 {
    let s = sim();
    shm().clock_reads += 1;
    let steps = (s.total + (s.step - s.slice)) as i64;
    let t = s.pol.clock0 as i64 + steps.wrapping_mul(s.pol.tick as i64) + s.jump;
    if id == 0 || id == 5 {
        1_600_000_000_000_000_000 + s.pol.wall0 + t + s.jump_real
    } else {
        t
    }
}

/// processors, 0: as it is
pub fn cpus() -> usize {
    sim().pol.cpus as usize
}

/// seed of the environment variables, 0: as they are
pub fn env() -> u64 {
    sim().pol.env
}

pub fn pid() -> i32 {
    sim().pol.pid as i32
}

// ------------------------------------------------------------------ instrumentation

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

static mut NGUARDS: u32 = 0;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut a: *mut u32, b: *mut u32) {
    while a < b {
        if *a == 0 {
            NGUARDS += 1;
            *a = NGUARDS;
        }
        a = a.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if ACTIVE.with(|a| a.get()) {
        let id = *g;
        let s = sim();
        s.last_edge = id;
        (&mut (*s.shm).cov)[id as usize & (COV - 1)] = 1;
        tick();
    }
}

#[inline]
pub fn tick() {
    let s = sim();
    s.step += 1;
    if s.step >= s.stop {
        slow();
    }
}

// what is known of a heap word: the one thread that used it, several that only read it, or
// several of which one wrote
const WROTE: u8 = 0x40;
const SHARED: u8 = 0x80;
const RACED: u8 = 0x81;

#[inline]
fn mem(addr: usize, store: bool) {
    if !ACTIVE.with(|a| a.get()) {
        return;
    }
    let s = sim();
    let mut hot = false;
    if addr >= s.data.0 && addr < s.data.1 {
        // static data is of interest once it is known to change
        let w = (addr - s.data.0) >> 3;
        if w < STATICS {
            let k = &mut shm().static_mut[w];
            if *k == 0 && (store || unsafe { *((addr & !7) as *const u64) } != shm().static0[w]) {
                *k = 1;
            }
            if *k != 0 {
                shm().statics += 1;
                hot = true;
            }
        }
    }
    if s.mem {
        if addr.wrapping_sub(arena::BASE) < arena::SIZE {
            let p = (arena::SHADOW + (addr - arena::BASE) / 8) as *mut u8;
            let v = unsafe { *p };
            let me = s.alias[s.cur];
            let n = match v {
                RACED => RACED,
                SHARED if store => RACED,
                SHARED => SHARED,
                _ => {
                    let owner = v & 0x3f;
                    if owner == me || owner == 0 || s.published[owner as usize] {
                        me | if owner == me { v & WROTE } else { 0 } | if store { WROTE } else { 0 }
                    } else if store || v & WROTE != 0 {
                        RACED
                    } else {
                        SHARED
                    }
                }
            };
            if n == RACED {
                hot = true;
                shm().conflicts += 1;
            }
            unsafe { *p = n };
        }
        if hot {
            conflict();
        }
    }
    tick();
}

macro_rules! memcb {
    ($($l:ident $s:ident),*) => {$(
        #[no_mangle] pub extern "C" fn $l(a: usize) { mem(a, false) }
        #[no_mangle] pub extern "C" fn $s(a: usize) { mem(a, true) }
    )*};
}
memcb!(__sanitizer_cov_load1 __sanitizer_cov_store1, __sanitizer_cov_load2 __sanitizer_cov_store2,
    __sanitizer_cov_load4 __sanitizer_cov_store4, __sanitizer_cov_load8 __sanitizer_cov_store8,
    __sanitizer_cov_load16 __sanitizer_cov_store16);

// Atomic operations (the ThreadSanitizer pass; its runtime is this). Plain loads and stores of
// atomics are seen above; the others are a step here.
macro_rules! atomics {
    ($($t:ident $a:ident $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident
        $xor:ident $nand:ident $cas:ident),*) => {$(
        #[no_mangle] pub unsafe extern "C" fn $load(p: *const $t, _: i32) -> $t {
            (*(p as *const atomic::$a)).load(Ordering::SeqCst)
        }
        #[no_mangle] pub unsafe extern "C" fn $store(p: *mut $t, v: $t, _: i32) {
            (*(p as *const atomic::$a)).store(v, Ordering::SeqCst)
        }
        #[no_mangle] pub unsafe extern "C" fn $xchg(p: *mut $t, v: $t, _: i32) -> $t {
            mem(p as usize, true);
            (*(p as *const atomic::$a)).swap(v, Ordering::SeqCst)
        }
        #[no_mangle] pub unsafe extern "C" fn $add(p: *mut $t, v: $t, _: i32) -> $t {
            mem(p as usize, true);
            (*(p as *const atomic::$a)).fetch_add(v, Ordering::SeqCst)
        }
        #[no_mangle] pub unsafe extern "C" fn $sub(p: *mut $t, v: $t, _: i32) -> $t {
            mem(p as usize, true);
            (*(p as *const atomic::$a)).fetch_sub(v, Ordering::SeqCst)
        }
        #[no_mangle] pub unsafe extern "C" fn $and(p: *mut $t, v: $t, _: i32) -> $t {
            mem(p as usize, true);
            (*(p as *const atomic::$a)).fetch_and(v, Ordering::SeqCst)
        }
        #[no_mangle] pub unsafe extern "C" fn $or(p: *mut $t, v: $t, _: i32) -> $t {
            mem(p as usize, true);
            (*(p as *const atomic::$a)).fetch_or(v, Ordering::SeqCst)
        }
        #[no_mangle] pub unsafe extern "C" fn $xor(p: *mut $t, v: $t, _: i32) -> $t {
            mem(p as usize, true);
            (*(p as *const atomic::$a)).fetch_xor(v, Ordering::SeqCst)
        }
        #[no_mangle] pub unsafe extern "C" fn $nand(p: *mut $t, v: $t, _: i32) -> $t {
            mem(p as usize, true);
            (*(p as *const atomic::$a)).fetch_nand(v, Ordering::SeqCst)
        }
        #[no_mangle] pub unsafe extern "C" fn $cas(p: *mut $t, c: $t, v: $t, _: i32, _: i32) -> $t {
            mem(p as usize, true);
            match (*(p as *const atomic::$a)).compare_exchange(c, v, Ordering::SeqCst, Ordering::SeqCst) {
                Ok(x) | Err(x) => x,
            }
        }
    )*};
}
atomics!(
    u8 AtomicU8 __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add
        __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor
        __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_val,
    u16 AtomicU16 __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add
        __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor
        __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_val,
    u32 AtomicU32 __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add
        __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor
        __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_val,
    u64 AtomicU64 __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add
        __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor
        __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_val
);
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_: i32) {
    atomic::fence(Ordering::SeqCst);
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_: i32) {
    atomic::compiler_fence(Ordering::SeqCst);
}

/// An access to state that another thread can see: the best place to suspend a thread.
#[cold]
fn conflict() {
    let s = sim();
    if s.replay {
        return;
    }
    s.hots += 1;
    shm().hots += 1;
    if s.hots == s.pol.hot1 || s.hots == s.pol.hot2 {
        // suspended until the others cannot go on, or have gone on for a while
        let at = s.step + 1 + if s.rng.chance(40) { s.rng.logu(64) } else { 0 };
        insert_dec(Dec { thr: s.cur as u8, op: s.thr[s.cur].op, step: at, kind: D_STALL, target: 0, arg: 0 });
        s.stop = s.stop.min(at);
        return;
    }
    if s.pol.pstall > 0 && s.stalled_once < s.pol.max_stalls as u32 && s.rng.chance(s.pol.pstall as usize)
    {
        // suspended right before or a few steps after the access
        s.stalled_once += 1;
        let at = s.step + 1 + if s.rng.chance(50) { s.rng.logu(64) } else { 0 };
        let k = if s.pol.forever { D_FOREVER } else { D_STALL };
        insert_dec(Dec { thr: s.cur as u8, op: s.thr[s.cur].op, step: at, kind: k, target: 0, arg: 0 });
        s.stop = s.stop.min(at);
        return;
    }
    if s.pol.pconf > 0 && shm().preempts < 5_000 && s.rng.chance(s.pol.pconf as usize) {
        let at = s.step + 1 + if s.rng.chance(50) { s.rng.logu(32) } else { 0 };
        s.thr[s.cur].next_gap = s.thr[s.cur].next_gap.min(at);
        s.stop = s.stop.min(at);
    }
}

fn insert_dec(d: Dec) {
    let s = sim();
    let i = s.decs.partition_point(|x| (x.thr, x.op, x.step) <= (d.thr, d.op, d.step));
    quiet(|| s.decs.insert(i, d));
}

fn record(d: Dec) {
    let h = shm();
    if (h.ndec as usize) < MAXDEC {
        h.decs[h.ndec as usize] = d;
        h.ndec += 1;
    }
}

/// The next step of the present thread at which something is to happen.
fn arm() {
    let s = sim();
    let t = &s.thr[s.cur];
    let mut stop = s.cap.min(t.next_gap).min(s.fair_at);
    let i = s.decs.partition_point(|x| (x.thr, x.op, x.step) <= (s.cur as u8, t.op, s.step));
    for d in &s.decs[i..] {
        if (d.thr, d.op) != (s.cur as u8, t.op) {
            break;
        }
        if d.kind != D_FORCED {
            stop = stop.min(d.step);
            break;
        }
    }
    s.stop = stop;
}

fn new_gap() {
    let s = sim();
    let p = &s.pol;
    let g = if p.mean == 0 || s.replay {
        u64::MAX
    } else if p.logu {
        s.step + s.rng.logu(p.mean)
    } else {
        s.step + s.rng.gap(p.mean)
    };
    s.thr[s.cur].next_gap = g;
}

#[cold]
fn slow() {
    let a = ACTIVE.with(|x| x.replace(false));
    let o = arena::set(false);
    slow1();
    arena::set(o);
    ACTIVE.with(|x| x.set(a));
}

fn slow1() {
    let s = sim();
    if s.step >= s.cap {
        die(STUCK, "the call did not finish within its step bound");
    }
    let (cur, op, step) = (s.cur, s.thr[s.cur].op, s.step);
    // planned decisions at this step
    let lo = s.decs.partition_point(|x| (x.thr, x.op, x.step) < (cur as u8, op, step));
    let hi = s.decs.partition_point(|x| (x.thr, x.op, x.step) <= (cur as u8, op, step));
    let here: Vec<Dec> = s.decs[lo..hi].to_vec();
    for d in here {
        match d.kind {
            D_SWITCH => {
                if (d.target as usize) < s.n && ready(d.target as usize) && d.target as usize != cur {
                    shm().preempts += 1;
                    record(d);
                    go(d.target as usize);
                }
            }
            D_STALL | D_FOREVER => {
                // callers are suspended, not the threads a call makes for itself
                if others() && s.thr[cur].adopted.is_none() {
                    record(d);
                    if d.kind == D_STALL {
                        shm().stalls += 1;
                        s.thr[cur].s = S::Stalled;
                    } else {
                        shm().forever += 1;
                        s.thr[cur].s = S::Forever;
                    }
                    pick();
                }
            }
            D_CLOCK => {
                record(d);
                shm().clock_jumps += 1;
                // the monotonic clock never goes back, the wall clock may
                s.jump += d.arg.max(0);
                s.jump_real += d.arg.min(0);
            }
            _ => {}
        }
    }
    if step >= s.fair_at {
        // nobody waits for ever for a thread that only waits itself
        s.fair_at = step + FAIR;
        if others() {
            pick_other();
        } else if let Some(t) = (0..s.n).find(|&t| s.thr[t].s == S::Stalled && !s.pol.strict) {
            s.thr[t].s = S::Ready;
            pick_other();
        }
    }
    if step >= s.thr[cur].next_gap {
        new_gap();
        if let Some(t) = other_ready() {
            shm().preempts += 1;
            record(Dec { thr: cur as u8, op, step, kind: D_SWITCH, target: t as u8, arg: 0 });
            go(t);
        }
    }
    arm();
}

// ------------------------------------------------------------------ threads

fn ready(t: usize) -> bool {
    let s = sim();
    match s.thr[t].s {
        S::Ready => true,
        S::Sleep(d) => now(1) >= d,
        S::Futex(_, d) => d != i64::MAX && now(1) >= d,
        S::Slot(k) => slot_free(k),
        S::Join(t) => s.thr[t].s == S::Done,
        _ => false,
    }
}

fn others() -> bool {
    let s = sim();
    (0..s.n).any(|t| t != s.cur && ready(t))
}

fn other_ready() -> Option<usize> {
    let s = sim();
    let c: Vec<usize> = (0..s.n).filter(|&t| t != s.cur && ready(t)).collect();
    if c.is_empty() {
        None
    } else {
        Some(c[s.rng.below(c.len())])
    }
}

/// The present thread cannot go on: choose who does.
fn pick() {
    let s = sim();
    let cur = s.cur;
    let nth = {
        s.thr[cur].nforced += 1;
        s.thr[cur].nforced
    };
    loop {
        let c: Vec<usize> = (0..s.n).filter(|&t| ready(t)).collect();
        if !c.is_empty() {
            let mut t = *c.iter().find(|&&t| t > cur).unwrap_or(&c[0]);
            let key = |d: &Dec| d.kind == D_FORCED && d.thr == cur as u8 && d.step == nth;
            if let Some(d) = s.decs.iter().find(|d| key(d)) {
                if c.contains(&(d.target as usize)) {
                    t = d.target as usize;
                }
            } else if !s.replay && s.pol.mix_forced {
                t = c[s.rng.below(c.len())];
            }
            if c.len() > 1 {
                record(Dec {
                    thr: cur as u8,
                    op: u32::MAX,
                    step: nth,
                    kind: D_FORCED,
                    target: t as u8,
                    arg: 0,
                });
            }
            if t != cur {
                go(t);
            } else {
                resume(t);
            }
            return;
        }
        // nobody can go on: time passes
        let next = (0..s.n)
            .filter_map(|t| match s.thr[t].s {
                S::Sleep(d) => Some(d),
                S::Futex(_, d) if d != i64::MAX => Some(d),
                _ => None,
            })
            .min();
        if let Some(d) = next {
            s.jump += (d - now(1)).max(1);
            s.advances += 1;
            if s.advances > 50_000 {
                die(STUCK, "the calls only wait for time to pass");
            }
            continue;
        }
        if let Some(t) = (0..s.n).find(|&t| s.thr[t].s == S::Stalled) {
            let w = (0..s.n).find(|&t| matches!(s.thr[t].s, S::Futex(..) | S::Join(_)));
            if let (true, Some(w)) = (s.pol.strict, w) {
                die(
                    DEADLOCK,
                    &format!(
                        "thread {} in op {} waits for thread {}, suspended in op {}",
                        w, s.thr[w].op, t, s.thr[t].op
                    ),
                );
            }
            s.thr[t].s = S::Ready;
            continue;
        }
        let waiting: Vec<String> = (0..s.n)
            .filter(|&t| !matches!(s.thr[t].s, S::Done | S::Forever | S::Unborn))
            .map(|t| format!("thread {} in op {}: {:?}", t, s.thr[t].op, s.thr[t].s))
            .collect();
        if waiting.is_empty() {
            // done, or only abandoned threads are left
            end_run();
        }
        let forever = (0..s.n).any(|t| s.thr[t].s == S::Forever);
        die(
            DEADLOCK,
            &format!(
                "no thread can go on{}: {}",
                if forever { " (one is suspended for ever)" } else { "" },
                waiting.join("; ")
            ),
        );
    }
}

fn end_run() -> ! {
    let h = shm();
    finish_stats();
    h.status = DONE;
    unsafe { sys::_exit(0) }
}

/// What `t` waited for has happened.
fn resume(t: usize) {
    let s = sim();
    if let S::Futex(..) = s.thr[t].s {
        s.thr[t].timed_out = true;
    }
    s.thr[t].s = S::Ready;
}

/// Hand the processor to `t` and wait for it to come back.
fn go(t: usize) {
    let s = sim();
    resume(t);
    let me = s.cur;
    let h = shm();
    h.switches += 1;
    let e0 = s.last_edge;
    h.sig = mix(h.sig ^ ((me as u64) << 40) ^ ((t as u64) << 32) ^ e0 as u64);
    s.thr[me].step = s.step;
    leave(t);
    wait_token(me);
    let s = sim();
    let p = (mix(((e0 as u64) << 32) | s.last_edge as u64) as usize) & (COV - 1);
    h.pairs[p] = 1;
}

fn leave(t: usize) {
    let s = sim();
    s.total += s.step - s.slice;
    s.cur = t;
    s.step = s.thr[t].step;
    s.slice = s.step;
    s.thr[t].token.store(1, Ordering::SeqCst);
    unsafe { sys::futex_wake(s.thr[t].token.as_ptr()) };
}

fn wait_token(me: usize) {
    let tk = &sim().thr[me].token;
    while tk.swap(0, Ordering::SeqCst) == 0 {
        unsafe { sys::futex_wait(tk.as_ptr(), 0) };
    }
    let s = sim();
    s.cur = me;
    s.fair_at = s.step + FAIR;
    if me < MAXT {
        shm().cur_thr = me as u32;
        shm().cur_op = s.thr[me].op;
        arm();
    }
}

pub fn yield_now() {
    let s = sim();
    s.step += 1;
    let a = ACTIVE.with(|x| x.replace(false));
    let o = arena::set(false);
    if others() {
        pick_other();
    } else if !s.pol.strict && (0..s.n).any(|t| s.thr[t].s == S::Stalled) && s.step & 127 == 0 {
        // a waiting loop: whoever is stalled is not stalled for ever
        let t = (0..s.n).find(|&t| s.thr[t].s == S::Stalled).unwrap();
        s.thr[t].s = S::Ready;
    }
    if s.step >= s.cap {
        slow1();
    }
    arena::set(o);
    ACTIVE.with(|x| x.set(a));
}

fn pick_other() {
    let s = sim();
    let cur = s.cur;
    let c: Vec<usize> = (0..s.n).filter(|&t| t != cur && ready(t)).collect();
    let t = *c.iter().find(|&&t| t > cur).unwrap_or(&c[0]);
    go(t);
}

pub fn sleep_ns(ns: i64) {
    block(S::Sleep(now(1) + ns.max(0)));
}

fn block(st: S) {
    let a = ACTIVE.with(|x| x.replace(false));
    let o = arena::set(false);
    let s = sim();
    s.thr[s.cur].s = st;
    pick();
    arm();
    arena::set(o);
    ACTIVE.with(|x| x.set(a));
}

pub fn futex(addr: *const u32, op: i32, val: u32, ts: *const i64) -> i64 {
    tick();
    let s = sim();
    match op & 127 {
        0 | 9 => {
            if unsafe { std::ptr::read_volatile(addr) } != val {
                return -11;
            }
            shm().futex_waits += 1;
            if s.pol.spurious > 0 && {
                s.spur = mix(s.spur);
                s.spur % 100 < s.pol.spurious as u64
            } {
                shm().spurious += 1;
                yield_now();
                return -4;
            }
            let deadline = if ts.is_null() {
                i64::MAX
            } else {
                let t = unsafe { *ts * 1_000_000_000 + *ts.add(1) };
                if op & 127 == 0 {
                    now(1) + t
                } else if op & 256 != 0 {
                    now(1) + (t - now(0))
                } else {
                    t
                }
            };
            s.thr[s.cur].timed_out = false;
            block(S::Futex(addr as usize, deadline));
            if sim().thr[sim().cur].timed_out {
                -110
            } else {
                0
            }
        }
        1 | 10 => {
            let mut n = 0;
            for t in 0..s.n {
                if n < val {
                    if let S::Futex(a, _) = s.thr[t].s {
                        if a == addr as usize {
                            s.thr[t].s = S::Ready;
                            s.thr[t].timed_out = false;
                            n += 1;
                        }
                    }
                }
            }
            n as i64
        }
        _ => -38,
    }
}

pub fn alloc_should_fail() -> bool {
    let s = sim();
    let t = &mut s.thr[s.cur];
    t.allocs += 1;
    t.allocs > t.opfailk && t.allocs - t.opfailk <= t.opfailn
}

/// allocations made so far by the present call
pub fn op_allocs() -> u64 {
    sim().thr[sim().cur].allocs
}
pub fn op_steps() -> u64 {
    sim().step
}
pub fn seq() -> u64 {
    let s = sim();
    s.total + (s.step - s.slice)
}

// ------------------------------------------------------------------ calls

/// Start call number `op` of the present thread.
pub fn op_enter(op: u32) {
    let s = sim();
    let cur = s.cur;
    s.total += s.step - s.slice;
    s.step = 0;
    s.slice = 0;
    shm().cur_thr = cur as u32;
    shm().cur_op = op;
    let t = &mut s.thr[cur];
    t.op = op;
    t.allocs = 0;
    t.opfailk = u64::MAX;
    t.opfailn = 0;
    for &(th, o, k, n) in &s.fails {
        if th as usize == cur && o == op {
            t.opfailk = k;
            t.opfailn = n;
        }
    }
    new_gap();
    s.fair_at = FAIR;
    s.advances = 0;
    take_order();
    if !s.replay && s.pol.pbound > 0 && s.rng.chance(s.pol.pbound as usize) {
        s.thr[cur].next_gap = 0;
    }
    s.stop = 0;
    slow1();
}

pub fn call<R>(f: impl FnOnce() -> R) -> R {
    arm();
    arena::set(true);
    ACTIVE.with(|x| x.set(true));
    let r = f();
    ACTIVE.with(|x| x.set(false));
    arena::set(false);
    r
}
fn slot_free(k: u32) -> bool {
    let h = sim().slot_holds[(k >> 1) as usize];
    if k & 1 == 1 {
        h == 0
    } else {
        h >= 0
    }
}
fn take_order() {
    let s = sim();
    s.norder += 1;
    s.thr[s.cur].order = s.norder;
}
/// Place of the present call in the order in which calls got what they use.
pub fn order() -> u64 {
    sim().thr[sim().cur].order
}
pub fn me() -> usize {
    sim().cur
}

/// Shared (read) or exclusive (write) use of a slot, as `&` and `&mut` guarantee.
pub fn hold(slot: usize, write: bool) {
    let k = (slot as u32) << 1 | write as u32;
    while !slot_free(k) {
        block(S::Slot(k));
    }
    let s = sim();
    if write {
        s.slot_holds[slot] = -1;
    } else {
        s.slot_holds[slot] += 1;
    }
    take_order();
}
pub fn release(slot: usize) {
    let s = sim();
    if s.slot_holds[slot] < 0 {
        s.slot_holds[slot] = 0;
        publish(s.cur);
    } else {
        s.slot_holds[slot] -= 1;
    }
}

/// What the thread wrote so far was handed over with synchronization, or it has ended.
fn publish(t: usize) {
    let s = sim();
    if s.alias[t] < 63 {
        s.published[s.alias[t] as usize] = true;
        s.aliases = (s.aliases + 1).min(63);
        s.alias[t] = s.aliases;
    }
}

extern "C" fn thread_main(x: *mut c_void) -> *mut c_void {
    let me = x as usize;
    ME.with(|m| m.set(me));
    unsafe { sys::pthread_setspecific(SIM.key, 1 as *const c_void) };
    wait_token(me);
    (sim().body.unwrap())(me);
    std::ptr::null_mut()
}

extern "C" fn thread_exit(_: *mut c_void) {
    // runs after the thread-local destructors, still holding the token
    let s = sim();
    let me = ME.try_with(|m| m.get()).unwrap_or(s.cur);
    s.thr[me].s = S::Done;
    publish(me);
    s.thr[me].step = s.step;
    s.done += 1;
    let _ = ACTIVE.try_with(|a| a.set(false));
    arena::set(false);
    s.pend_join = if s.thr[me].adopted.is_some() { usize::MAX } else { me };
    // the main thread joins it, then goes on with another one
    leave(MAIN);
}

unsafe fn start(t: usize) {
    let s = sim();
    let mut attr = [0u64; 8];
    sys::pthread_attr_init(&mut attr);
    let size = s.stack[t];
    // the first successor runs on the stack of its predecessor
    let mut home = t;
    loop {
        let a = s.thr[home].after;
        if a == usize::MAX || (0..home).any(|x| s.thr[x].after == a) {
            break;
        }
        home = a;
    }
    let top = STACK_BASE + (home + 1) * STACK_GAP;
    sys::mprotect((top - size - (1 << 16)) as *mut u8, 1 << 16, 0);
    sys::pthread_attr_setstack(&mut attr, (top - size) as *mut u8, size);
    let mut h = 0u64;
    if sys::real_create(&mut h, &attr, thread_main, t as *mut c_void) != 0 {
        die(HARNESS, "pthread_create failed");
    }
    s.thr[t].handle = h;
    s.thr[t].s = S::Ready;
    s.aliases = (s.aliases + 1).min(63);
    s.alias[t] = s.aliases;
}

pub fn map_stacks() {
    for i in 0..MAXP {
        sys::map_fixed(STACK_BASE + (i + 1) * STACK_GAP - STACK_MAX - (1 << 16), STACK_MAX + (1 << 16));
    }
}

extern "C" fn adopted_main(x: *mut c_void) -> *mut c_void {
    let me = x as usize;
    ME.with(|m| m.set(me));
    unsafe { sys::pthread_setspecific(SIM.key, 1 as *const c_void) };
    wait_token(me);
    let (f, a) = sim().thr[me].adopted.unwrap();
    arena::set(true);
    ACTIVE.with(|x| x.set(true));
    let r = f(a as *mut c_void);
    ACTIVE.with(|x| x.set(false));
    arena::set(false);
    r
}

/// A thread made by the library itself becomes one more simulated thread.
pub unsafe fn adopt_create(
    t: *mut u64,
    a: *const [u64; 8],
    f: sys::StartFn,
    x: *mut c_void,
) -> i32 {
    tick();
    let s = sim();
    // a slot of its own as long as there are any, then that of a helper which has ended
    let i = if s.n < MAXT {
        s.n += 1;
        s.n - 1
    } else {
        let joined = |i: usize| s.thr.iter().any(|t| t.s == S::Join(i));
        let ended = |i: &usize| {
            s.thr[*i].adopted.is_some() && s.thr[*i].s == S::Done && !joined(*i)
        };
        match (0..s.n).find(ended) {
            Some(i) => {
                s.done -= 1;
                i
            }
            None => return 11,
        }
    };
    s.thr[i].adopted = Some((f, x as usize));
    s.thr[i].op = 0;
    s.thr[i].s = S::Ready;
    s.thr[i].handle = 0;
    s.thr[i].next_gap = u64::MAX;
    shm().threads_made += 1;
    let r = quiet(|| sys::real_create(t, a, adopted_main, i as *mut c_void));
    if r != 0 {
        s.thr[i].s = S::Done;
        s.done += 1;
        return r;
    }
    s.thr[i].handle = *t;
    if !s.replay && s.rng.chance(50) {
        s.thr[s.cur].next_gap = s.step + 1;
        s.stop = s.stop.min(s.step + 1);
    }
    0
}

pub unsafe fn wait_thread(h: u64) {
    let s = sim();
    // a handle names another thread once the first has been joined
    let live = |t: &usize| s.thr[*t].handle == h && s.thr[*t].s != S::Done;
    if let Some(t) = (0..s.n).find(|t| s.thr[*t].adopted.is_some() && live(t)) {
        block(S::Join(t));
    }
}

pub struct Setup<'a> {
    pub pol: Policy,
    pub decs: Vec<Dec>,
    pub replay: bool,
    pub fails: Vec<(u8, u32, u64, u64)>,
    pub after: Vec<usize>, // predecessor or usize::MAX
    pub stack: Vec<usize>,
    pub cap: u64,
    pub seed: u64,
    pub body: fn(usize),
    pub shm: &'a mut Shm,
}

/// In the forked child: run all threads to the end and exit.
pub fn run(c: Setup) -> ! {
    unsafe {
        let s = sim();
        s.shm = c.shm;
        s.n = c.after.len();
        s.rng = Rng::new(c.seed ^ 0x5eed);
        s.rnd = Rng::new(c.pol.hash_seed);
        s.spur = c.seed;
        s.replay = c.replay;
        s.decs = c.decs;
        s.decs.sort_by_key(|x| (x.thr, x.op, x.step));
        s.fails = c.fails;
        s.cap = c.cap;
        s.mem = !c.replay && (c.pol.pconf > 0 || c.pol.pstall > 0 || c.pol.hot1 > 0);
        s.pol = c.pol;
        s.body = Some(c.body);
        let lo = &__data_start as *const u8 as usize & !7;
        s.data = (lo, &_end as *const u8 as usize);
        if (s.data.1 - lo) / 8 > STATICS {
            crate::harness_error("too much static data");
        }
        for w in 0..(s.data.1 - lo) / 8 {
            shm().static0[w] = *((lo + w * 8) as *const u64);
        }
        shm().nguards = NGUARDS;
        CHILD = true;
        sys::pthread_key_create(std::ptr::addr_of_mut!(SIM.key), Some(thread_exit));
        let n = s.n;
        for t in 0..n {
            s.stack[t] = c.stack[t];
            s.thr[t].after = c.after[t];
        }
        for t in 0..n {
            if c.after[t] == usize::MAX {
                start(t);
            }
        }
        loop {
            s.cur = MAIN;
            if s.pend_join != usize::MAX {
                let p = s.pend_join;
                s.pend_join = usize::MAX;
                sys::real_join(s.thr[p].handle);
                for t in 0..n {
                    if s.thr[t].after == p {
                        start(t);
                    }
                }
            }
            if s.done == s.n {
                end_run();
            }
            pick();
        }
    }
}
