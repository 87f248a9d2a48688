//! Raw system calls, libc declarations and the interposed functions: the seams for
//! randomness, clocks, sleeping, futexes, thread creation, process id and output.

use crate::sched;
use std::arch::asm;
use std::ffi::c_void;

extern "C" {
    pub fn malloc(n: usize) -> *mut u8;
    pub fn free(p: *mut u8);
    pub fn realloc(p: *mut u8, n: usize) -> *mut u8;
    pub fn posix_memalign(p: *mut *mut u8, a: usize, n: usize) -> i32;
    pub fn mmap(a: *mut u8, n: usize, prot: i32, fl: i32, fd: i32, off: i64) -> *mut u8;
    pub fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
    pub fn fork() -> i32;
    pub fn _exit(c: i32) -> !;
    pub fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    pub fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    pub fn sched_setaffinity(p: i32, n: usize, m: *const u8) -> i32;
    pub fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    pub fn personality(p: u64) -> i32;
    pub fn pthread_attr_init(a: *mut [u64; 8]) -> i32;
    pub fn pthread_attr_setstack(a: *mut [u64; 8], p: *mut u8, n: usize) -> i32;
    pub fn pthread_key_create(k: *mut u32, d: Option<extern "C" fn(*mut c_void)>) -> i32;
    pub fn pthread_setspecific(k: u32, v: *const c_void) -> i32;
    pub fn dlsym(h: *mut c_void, n: *const i8) -> *mut c_void;
    pub fn __errno_location() -> *mut i32;
    pub fn kill(p: i32, s: i32) -> i32;
    pub fn alarm(s: u32) -> u32;
    pub fn setpgid(p: i32, g: i32) -> i32;
}

pub const PROT_RW: i32 = 3;
pub const MAP_SHARED: i32 = 1;
pub const MAP_PRIVATE: i32 = 2;
pub const MAP_FIXED: i32 = 0x10;
pub const MAP_ANON: i32 = 0x20;
pub const MAP_NORESERVE: i32 = 0x4000;

#[inline]
pub unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _,
        options(nostack));
    r
}

pub unsafe fn futex_wait(p: *const u32, v: u32) {
    raw(202, p as i64, 128, v as i64, 0, 0, 0);
}
pub unsafe fn futex_wake(p: *const u32) {
    raw(202, p as i64, 129, 1, 0, 0, 0);
}

unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}

pub fn map_fixed(addr: usize, len: usize) {
    unsafe {
        let p = mmap(
            addr as *mut u8,
            len,
            PROT_RW,
            MAP_PRIVATE | MAP_ANON | MAP_NORESERVE | MAP_FIXED,
            -1,
            0,
        );
        if p as usize != addr {
            crate::harness_error("mmap failed");
        }
    }
}

pub fn real_now() -> f64 {
    let mut ts = [0i64; 2];
    unsafe { raw(228, 1, ts.as_mut_ptr() as i64, 0, 0, 0, 0) };
    ts[0] as f64 + ts[1] as f64 * 1e-9
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if sched::active() {
        match n {
            202 => return ret(sched::futex(a as *const u32, b as i32, c as u32, d as *const i64)),
            318 => return ret(getrandom(a as *mut u8, b as usize, c as u32) as i64),
            _ => {}
        }
    }
    ret(raw(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, fl: u32) -> isize {
    if sched::in_child() {
        sched::random(p, n);
        return n as isize;
    }
    ret(raw(318, p as i64, n as i64, fl as i64, 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut i64) -> i32 {
    if sched::in_child() {
        let t = sched::now(id);
        *ts = t / 1_000_000_000;
        *ts.add(1) = t % 1_000_000_000;
        return 0;
    }
    ret(raw(228, id as i64, ts as i64, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut i64, tz: *mut u8) -> i32 {
    if sched::in_child() {
        let t = sched::now(0);
        *tv = t / 1_000_000_000;
        *tv.add(1) = t % 1_000_000_000 / 1000;
        return 0;
    }
    ret(raw(96, tv as i64, tz as i64, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn time(t: *mut i64) -> i64 {
    let mut tv = [0i64; 2];
    gettimeofday(tv.as_mut_ptr(), std::ptr::null_mut());
    if !t.is_null() {
        *t = tv[0];
    }
    tv[0]
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const i64, rem: *mut i64) -> i32 {
    if sched::active() {
        sched::sleep_ns(*req * 1_000_000_000 + *req.add(1));
        return 0;
    }
    ret(raw(35, req as i64, rem as i64, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, fl: i32, req: *const i64, rem: *mut i64) -> i32 {
    if sched::active() {
        let t = *req * 1_000_000_000 + *req.add(1);
        sched::sleep_ns(if fl & 1 != 0 { t - sched::now(id) } else { t });
        return 0;
    }
    -(raw(230, id as i64, fl as i64, req as i64, rem as i64, 0, 0) as i32)
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if sched::active() {
        sched::yield_now();
        return 0;
    }
    raw(24, 0, 0, 0, 0, 0, 0) as i32
}

#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if sched::in_child() {
        return sched::pid();
    }
    raw(39, 0, 0, 0, 0, 0, 0) as i32
}

#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, n: usize, mask: *mut u8) -> i32 {
    if sched::active() && sched::cpus() > 0 {
        std::ptr::write_bytes(mask, 0, n);
        for i in 0..sched::cpus().min(n * 8) {
            *mask.add(i / 8) |= 1 << (i % 8);
        }
        return 0;
    }
    let r = raw(204, pid as i64, n as i64, mask as i64, 0, 0, 0);
    if r >= 0 {
        std::ptr::write_bytes(mask.add(r as usize), 0, n - r as usize);
        return 0;
    }
    ret(r) as i32
}

extern "C" {
    static environ: *const *mut u8;
}

unsafe fn len(p: *const u8) -> usize {
    (0..).find(|i| *p.add(*i) == 0).unwrap()
}

/// The variables of the library, if it has any, are set at random.
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const u8) -> *mut u8 {
    let n = std::slice::from_raw_parts(name, len(name));
    if sched::active() && sched::env() != 0 && !n.starts_with(b"RUST_") && !n.starts_with(b"G") {
        const VALS: [&[u8]; 12] =
            [b"\0", b"0\0", b"1\0", b"2\0", b"8\0", b"100\0", b"true\0", b"false\0", b"off\0", b"on\0", b"full\0", b"x\0"];
        let h = crate::rng::hash_bytes(sched::env(), n);
        return match h % 20 {
            k @ 0..=11 => VALS[k as usize].as_ptr() as *mut u8,
            _ => std::ptr::null_mut(),
        };
    }
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let v = std::slice::from_raw_parts(*e, len(*e));
        if v.len() > n.len() && v.starts_with(n) && v[n.len()] == b'=' {
            return (*e).add(n.len() + 1);
        }
        e = e.add(1);
    }
    std::ptr::null_mut()
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, p: *const u8, n: usize) -> isize {
    if sched::in_child() && (fd == 1 || fd == 2) {
        // the library has nothing to say on these during a call
        sched::tick();
        return n as isize;
    }
    ret(raw(1, fd as i64, p as i64, n as i64, 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const [usize; 2], n: i32) -> isize {
    if sched::in_child() && (fd == 1 || fd == 2) {
        sched::tick();
        return (0..n as usize).map(|i| (*v.add(i))[1]).sum::<usize>() as isize;
    }
    ret(raw(20, fd as i64, v as i64, n as i64, 0, 0, 0)) as isize
}

pub type StartFn = extern "C" fn(*mut c_void) -> *mut c_void;
pub type CreateFn =
    unsafe extern "C" fn(*mut u64, *const [u64; 8], StartFn, *mut c_void) -> i32;
pub type JoinFn = unsafe extern "C" fn(u64, *mut *mut c_void) -> i32;

static mut REAL_CREATE: Option<CreateFn> = None;
static mut REAL_JOIN: Option<JoinFn> = None;
static mut REAL_DETACH: Option<unsafe extern "C" fn(u64) -> i32> = None;

pub unsafe fn init() {
    let h = -1isize as *mut c_void; // RTLD_NEXT
    REAL_CREATE = Some(std::mem::transmute(dlsym(h, c"pthread_create".as_ptr())));
    REAL_JOIN = Some(std::mem::transmute(dlsym(h, c"pthread_join".as_ptr())));
    REAL_DETACH = Some(std::mem::transmute(dlsym(h, c"pthread_detach".as_ptr())));
}

pub unsafe fn real_create(t: *mut u64, a: *const [u64; 8], f: StartFn, x: *mut c_void) -> i32 {
    if REAL_CREATE.is_none() {
        init();
    }
    REAL_CREATE.unwrap()(t, a, f, x)
}
pub unsafe fn real_join(t: u64) -> i32 {
    if REAL_JOIN.is_none() {
        init();
    }
    let mut r = std::ptr::null_mut();
    REAL_JOIN.unwrap()(t, &mut r)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    t: *mut u64,
    a: *const [u64; 8],
    f: StartFn,
    x: *mut c_void,
) -> i32 {
    if sched::active() {
        return sched::adopt_create(t, a, f, x);
    }
    real_create(t, a, f, x)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: u64, r: *mut *mut c_void) -> i32 {
    if sched::active() {
        sched::wait_thread(t);
        sched::quiet(|| real_join(t));
        if !r.is_null() {
            *r = std::ptr::null_mut();
        }
        return 0;
    }
    if REAL_JOIN.is_none() {
        init();
    }
    REAL_JOIN.unwrap()(t, r)
}
