//! System seams: raw system calls, coverage callbacks, interposed libc entry points.
use crate::*;
use std::sync::atomic::AtomicUsize;

pub unsafe fn raw(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    r
}
extern "C" {
    fn __errno_location() -> *mut i32;
    fn dlsym(h: *mut u8, name: *const u8) -> *mut u8;
    static mut environ: *const *const u8;
}
fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        unsafe { *__errno_location() = (-r) as i32 };
        -1
    } else {
        r
    }
}
pub fn exit_group(code: i32) -> ! {
    loop {
        unsafe { raw(231, code as usize, 0, 0, 0, 0, 0) };
    }
}
pub fn write_err(s: &str) {
    unsafe { raw(1, 2, s.as_ptr() as usize, s.len(), 0, 0, 0) };
}
/// Anonymous private mapping at a fixed address (no reservation of memory).
pub unsafe fn mmap_fixed(addr: usize, len: usize) -> bool {
    raw(9, addr, len, 3, 0x2 | 0x20 | 0x4000 | 0x100000, usize::MAX, 0) == addr as i64
}
/// Anonymous mapping shared with forked children.
pub fn mmap_shared(len: usize) -> *mut u8 {
    let r = unsafe { raw(9, 0, len, 3, 0x1 | 0x20, usize::MAX, 0) };
    assert!(r > 0, "mmap");
    r as *mut u8
}
pub fn set_affinity(cpu: usize) {
    let mut m = [0u64; 16];
    m[cpu / 64] |= 1 << (cpu % 64);
    unsafe { raw(203, 0, 128, m.as_ptr() as usize, 0, 0, 0) };
}
pub fn get_affinity() -> Vec<usize> {
    let mut m = [0u64; 16];
    let r = unsafe { raw(204, 0, 128, m.as_mut_ptr() as usize, 0, 0, 0) };
    let mut v = vec![];
    if r > 0 {
        for i in 0..1024 {
            if m[i / 64] >> (i % 64) & 1 == 1 {
                v.push(i);
            }
        }
    }
    if v.is_empty() {
        v.push(0);
    }
    v
}
// The processor's own clock (rdtsc, rdtscp) shows simulated time.
#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
extern "C" {
    fn sigaction(n: i32, new: *const SigAction, old: *mut SigAction) -> i32;
}
static mut OLD_SEGV: SigAction = SigAction { handler: 0, mask: [0; 16], flags: 0, restorer: 0 };
unsafe extern "C" fn on_segv(n: i32, info: *mut u8, ctx: *mut u8) {
    // gregs of ucontext_t: 8-byte words from offset 40
    let g = ctx.add(40) as *mut i64;
    let (rdx, rax, rcx, rip) = (g.add(12), g.add(13), g.add(14), g.add(16));
    let len = if *(info.add(8) as *const i32) == 0x80 {
        // raised by the processor without an address
        let p = *rip as *const u8;
        match (*p, *p.add(1)) {
            (0x0f, 0x31) => 2,
            (0x0f, 0x01) if *p.add(2) == 0xf9 => 3,
            _ => 0,
        }
    } else {
        0
    };
    if len > 0 {
        let t = if sim_thread() { sim_clock() } else { rt().clock };
        *rax = (t & 0xffff_ffff) as i64;
        *rdx = (t >> 32) as i64;
        if len == 3 {
            *rcx = 0;
        }
        *rip += len;
        return;
    }
    let old = &raw const OLD_SEGV;
    if (*old).handler > 1 {
        let f: unsafe extern "C" fn(i32, *mut u8, *mut u8) = std::mem::transmute((*old).handler);
        f(n, info, ctx);
    } else {
        sigaction(n, old, std::ptr::null_mut());
    }
}
pub unsafe fn trap_tsc() {
    let a = SigAction { handler: on_segv as *const () as usize, mask: [0; 16], flags: 4 | 0x0800_0000, restorer: 0 };
    if sigaction(11, &a, &raw mut OLD_SEGV) == 0 {
        raw(157, 26, 2, 0, 0, 0, 0);
    }
}
/// Turns address-space randomisation off for this process image (re-exec needed).
pub fn disable_aslr() -> bool {
    unsafe {
        let cur = raw(135, 0xffff_ffff, 0, 0, 0, 0, 0);
        if cur < 0 {
            return false;
        }
        if cur & 0x40000 != 0 {
            return false; // already off
        }
        raw(135, (cur as usize) | 0x40000, 0, 0, 0, 0, 0) >= 0
    }
}

// ---------------------------------------------------------------- coverage
pub const COV_LEN: usize = 1 << 16;
pub const PAIR_BITS: usize = 1 << 20;
static COV: AtomicUsize = AtomicUsize::new(0);
static NGUARDS: AtomicU32 = AtomicU32::new(0);

static PAIRS: AtomicUsize = AtomicUsize::new(0);
/// Shared tables of COV_LEN bytes and PAIR_BITS bits.
pub fn set_cov(p: *mut u8, q: *mut u8) {
    COV.store(p as usize, Ordering::Relaxed);
    PAIRS.store(q as usize, Ordering::Relaxed);
}
pub fn guards() -> u32 {
    NGUARDS.load(Ordering::Relaxed)
}
pub fn mark_pair(from: u32, to: u32, op: u32) {
    let p = PAIRS.load(Ordering::Relaxed);
    if p != 0 {
        let _ = op;
        let h = rng::mix(((from as u64) << 32) | to as u64) as usize % PAIR_BITS;
        unsafe {
            let b = (p + h / 8) as *mut u8;
            *b |= 1 << (h % 8);
        }
    }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    unsafe {
        if a == b || *a != 0 {
            return;
        }
        let mut p = a;
        while p < b {
            let n = NGUARDS.fetch_add(1, Ordering::Relaxed) + 1;
            *p = n.min(COV_LEN as u32 - 1);
            p = p.add(1);
        }
    }
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let c = CUR.get();
    if c == 0 {
        return;
    }
    let r = rt();
    let t = &mut r.t[c - 1];
    if t.sut == 0 {
        return;
    }
    let id = unsafe { *g };
    t.last_guard = id;
    let p = COV.load(Ordering::Relaxed);
    if p != 0 {
        unsafe { *((p + id as usize) as *mut u8) = 1 };
    }
    hot(r, c - 1, P_EDGE, 0);
}
macro_rules! acc {
    ($($l:ident $s:ident),*) => { $(
        #[no_mangle] pub extern "C" fn $l(p: usize) { point(P_LOAD, p) }
        #[no_mangle] pub extern "C" fn $s(p: usize) { point(P_STORE, p) }
    )* }
}
acc!(__sanitizer_cov_load1 __sanitizer_cov_store1, __sanitizer_cov_load2 __sanitizer_cov_store2,
     __sanitizer_cov_load4 __sanitizer_cov_store4, __sanitizer_cov_load8 __sanitizer_cov_store8,
     __sanitizer_cov_load16 __sanitizer_cov_store16);

// ---------------------------------------------------------------- interposed libc
#[inline]
fn sim_thread() -> bool {
    me().is_some()
}
#[inline]
fn in_sut() -> bool {
    match me() {
        Some(m) => rt().t[m].sut > 0,
        None => false,
    }
}

/// std reaches futexes (and little else) through this variadic libc function.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if sim_thread() {
        if n == 202 {
            return match sim_futex(a, b as i32, c as u32, d as *const [i64; 2]) {
                Ok(v) => v,
                Err(e) => {
                    *__errno_location() = e;
                    -1
                }
            };
        }
        if n == 318 {
            fill_entropy(a as *mut u8, b);
            return b as i64;
        }
    }
    ret(raw(n, a, b, c, d, e, f))
}

unsafe fn fill_entropy(p: *mut u8, n: usize) {
    let r = rt();
    r.stats.entropy_reads += 1;
    for i in 0..n {
        *p.add(i) = r.env_rng.next() as u8;
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, f: u32) -> isize {
    if sim_thread() {
        fill_entropy(p, n);
        return n as isize;
    }
    ret(raw(318, p as usize, n, f as usize, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(k: i32, p: *mut [i64; 2]) -> i32 {
    if sim_thread() {
        let c = sim_clock();
        *p = [(c / 1_000_000_000) as i64, (c % 1_000_000_000) as i64];
        return 0;
    }
    ret(raw(228, k as usize, p as usize, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    if sim_thread() {
        sim_sleep((*req)[0] as u64 * 1_000_000_000 + (*req)[1] as u64);
        return 0;
    }
    ret(raw(35, req as usize, rem as usize, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(k: i32, fl: i32, req: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    if sim_thread() {
        let d = (*req)[0] as u64 * 1_000_000_000 + (*req)[1] as u64;
        sim_sleep(if fl & 1 != 0 { d.saturating_sub(rt().clock) } else { d });
        return 0;
    }
    (-raw(230, k as usize, fl as usize, req as usize, rem as usize, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if in_sut() {
        sim_yield();
        return 0;
    }
    ret(raw(24, 0, 0, 0, 0, 0, 0)) as i32
}

unsafe fn cstr<'a>(p: *const u8) -> &'a [u8] {
    let mut n = 0;
    while *p.add(n) != 0 {
        n += 1;
    }
    std::slice::from_raw_parts(p, n)
}

#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    let want = cstr(name);
    if in_sut() && want != b"RUST_MIN_STACK" && want != b"RUST_BACKTRACE" {
        let r = rt();
        r.stats.env_reads += 1;
        if r.env_mode == 0 || r.env_vals.is_empty() {
            return std::ptr::null();
        }
        let k = if r.env_mode == 1 { 0 } else { r.env_rng.below(r.env_vals.len() as u64 + 1) as usize };
        return r.env_vals.get(k).map_or(std::ptr::null(), |v| v.as_ptr());
    }
    if environ.is_null() {
        return std::ptr::null();
    }
    let mut e = environ;
    while !(*e).is_null() {
        let s = cstr(*e);
        if s.len() > want.len() && s[want.len()] == b'=' && &s[..want.len()] == want {
            return (*e).add(want.len() + 1);
        }
        e = e.add(1);
    }
    std::ptr::null()
}

/// The arguments of the process, which std finds without asking: the table the kernel left on the
/// stack is rewritten.  It has room for as many as the simulator was started with.
unsafe fn set_args(vals: &'static [Vec<u8>]) {
    let mut p = environ as *mut *const u8;
    if p.is_null() {
        return;
    }
    p = p.sub(1);
    let mut n = 0usize;
    while n < 200 && *p.sub(n + 1) as usize > 4096 {
        n += 1;
    }
    if *p.sub(n + 1) as usize != n || !(*p).is_null() {
        return; // not the table the process was started with
    }
    let argv = p.sub(n);
    for i in 0..n {
        *argv.add(i) = match vals.get(if i == 0 { vals.len().wrapping_sub(1) } else { i - 1 }) {
            Some(v) => v.as_ptr(),
            None if i == 0 => b"sim\0".as_ptr(),
            None => std::ptr::null(),
        };
    }
}

/// The whole environment, for code that walks it: made up as well.
pub unsafe fn set_env(vals: Vec<String>, mode: u32) -> &'static [Vec<u8>] {
    let v: Vec<Vec<u8>> = vals
        .into_iter()
        .map(|s| {
            let mut b: Vec<u8> = s.into_bytes();
            // U+FFFF stands for a byte that is no UTF-8
            while let Some(i) = b.windows(3).position(|w| w == [0xef, 0xbf, 0xbf]) {
                b.splice(i..i + 3, [0xff]);
            }
            b.push(0);
            b
        })
        .collect();
    let v: &'static [Vec<u8>] = Box::leak(v.into_boxed_slice());
    set_args(if mode > 0 { v } else { &[] });
    let mut e: Vec<*const u8> = vec![];
    if mode > 0 {
        // Whoever walks the environment finds the values as names, too.
        for x in v {
            let x = &x[..x.len() - 1];
            if !x.is_empty() && !x.contains(&b'=') {
                for (before, after) in [("", ""), ("", "_1"), ("X_", "")] {
                    let mut s = before.as_bytes().to_vec();
                    s.extend_from_slice(x);
                    s.extend_from_slice(after.as_bytes());
                    s.extend_from_slice(b"=1\0");
                    e.push(s.leak().as_ptr());
                }
            }
        }
        const NAMES: [&str; 10] = ["LC_ALL", "LANG", "LC_NUMERIC", "TZ", "HOME", "DEBUG", "NO_COLOR", "TERM", "BARCODERS", "BARCODERS_DEBUG"];
        for (i, n) in NAMES.iter().enumerate() {
            if let Some(x) = v.get(i % v.len().max(1)) {
                let mut s = n.as_bytes().to_vec();
                s.push(b'=');
                s.extend_from_slice(x);
                e.push(s.leak().as_ptr());
            }
        }
    }
    e.push(std::ptr::null());
    environ = e.leak().as_ptr();
    v
}

/// Identity of the process: another thing a result must not depend on.
#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if in_sut() {
        rt().stats.env_reads += 1;
        return 1000 + rt().env_rng.below(30000) as i32;
    }
    raw(39, 0, 0, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(b: *mut u8, n: usize) -> *mut u8 {
    if in_sut() {
        let r = rt();
        r.stats.env_reads += 1;
        let s = format_cwd(r.env_rng.below(1000));
        if b.is_null() || n < s.len() {
            *__errno_location() = 34;
            return std::ptr::null_mut();
        }
        std::ptr::copy_nonoverlapping(s.as_ptr(), b, s.len());
        return b;
    }
    if ret(raw(79, b as usize, n, 0, 0, 0, 0)) < 0 {
        std::ptr::null_mut()
    } else {
        b
    }
}
fn format_cwd(k: u64) -> [u8; 9] {
    let mut s = *b"/sim/000\0";
    for i in 0..3 {
        s[7 - i] = b'0' + (k / 10u64.pow(i as u32) % 10) as u8;
    }
    s
}

fn deny(what: &str) -> i64 {
    ambient(what);
    unsafe { *__errno_location() = rt().io_errno };
    -1
}

// Every one of these is refused (and recorded) when library code asks for it, so that no effect
// of the code under test can leave the process; harness code passes through.
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const u8, fl: i32, mode: u32) -> i32 {
    if in_sut() {
        return deny("open") as i32;
    }
    ret(raw(257, -100i64 as usize, p as usize, fl as usize, mode as usize, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const u8, fl: i32, mode: u32) -> i32 {
    open64(p, fl, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: i32, p: *const u8, fl: i32, mode: u32) -> i32 {
    if in_sut() {
        return deny("openat") as i32;
    }
    ret(raw(257, d as isize as usize, p as usize, fl as usize, mode as usize, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: i32, p: *const u8, fl: i32, mode: u32) -> i32 {
    openat64(d, p, fl, mode)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, p: *const u8, n: usize) -> isize {
    if in_sut() {
        ambient("write");
        return n as isize;
    }
    ret(raw(1, fd as usize, p as usize, n, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const [usize; 2], n: i32) -> isize {
    if in_sut() {
        ambient("writev");
        let mut t = 0;
        for i in 0..n as usize {
            t += (*v.add(i))[1];
        }
        return t as isize;
    }
    ret(raw(20, fd as usize, v as usize, n as usize, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, p: *mut u8, n: usize) -> isize {
    if in_sut() {
        return deny("read") as isize;
    }
    ret(raw(0, fd as usize, p as usize, n, 0, 0, 0)) as isize
}
macro_rules! denied {
    ($($name:ident $nr:literal ($($a:ident),*) );* $(;)?) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: usize),*) -> i32 {
            if in_sut() { return deny(stringify!($name)) as i32; }
            let v = [$($a,)* 0, 0, 0, 0, 0];
            ret(raw($nr, v[0], v[1], v[2], v[3], v[4], 0)) as i32
        }
    )* }
}
denied! {
    unlink 87 (a);
    rename 82 (a, b);
    mkdir 83 (a, b);
    rmdir 84 (a);
    chdir 80 (a);
    symlink 88 (a, b);
    link 86 (a, b);
    chmod 90 (a, b);
    ftruncate64 77 (a, b);
    socket 41 (a, b, c);
    connect 42 (a, b, c);
    bind 49 (a, b, c);
    kill 62 (a, b);
    execve 59 (a, b, c);
    statx 332 (a, b, c, d, e);
    access 21 (a, b);
    fork 57 ();
    pipe2 293 (a, b);
}
macro_rules! next_fn {
    ($name:expr, $ty:ty) => {{
        static P: AtomicUsize = AtomicUsize::new(0);
        let mut p = P.load(Ordering::Relaxed);
        if p == 0 {
            p = dlsym(usize::MAX as *mut u8, concat!($name, "\0").as_ptr()) as usize;
            P.store(p, Ordering::Relaxed);
        }
        std::mem::transmute::<usize, $ty>(p)
    }};
}
#[no_mangle]
pub unsafe extern "C" fn setenv(a: *const u8, b: *const u8, o: i32) -> i32 {
    if in_sut() {
        ambient("setenv");
        return 0;
    }
    next_fn!("setenv", unsafe extern "C" fn(*const u8, *const u8, i32) -> i32)(a, b, o)
}
#[no_mangle]
pub unsafe extern "C" fn unsetenv(a: *const u8) -> i32 {
    if in_sut() {
        ambient("unsetenv");
        return 0;
    }
    next_fn!("unsetenv", unsafe extern "C" fn(*const u8) -> i32)(a)
}
macro_rules! denied_next {
    ($($name:ident $bad:literal ($($a:ident),*) );* $(;)?) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: usize),*) -> isize {
            if in_sut() { deny(stringify!($name)); return $bad; }
            next_fn!(stringify!($name), unsafe extern "C" fn($($a: usize),*) -> isize)($($a),*)
        }
    )* }
}
denied_next! {
    readlink -1 (a, b, c);
    realpath 0 (a, b);
    opendir 0 (a);
    isatty 0 (a);
    stat64 -1 (a, b);
    lstat64 -1 (a, b);
    gethostname -1 (a, b);
    uname -1 (a);
    getpwuid_r 2 (a, b, c, d, e);
    posix_spawn 2 (a, b, c, d, e, f);
    posix_spawnp 2 (a, b, c, d, e, f);
    getaddrinfo -2 (a, b, c, d);
    dlopen 0 (a, b);
}
/// How many processors there are, who owns the process: numbers out of the seed.
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(p: i32, n: usize, m: *mut u8) -> i32 {
    if in_sut() {
        let r = rt();
        r.stats.env_reads += 1;
        std::ptr::write_bytes(m, 0, n);
        for k in 0..r.env_rng.range(1, 128) {
            if (k / 8) < n as u64 {
                *m.add(k as usize / 8) |= 1 << (k % 8);
            }
        }
        return 0;
    }
    let v = raw(204, p as usize, n, m as usize, 0, 0, 0);
    if v > 0 {
        std::ptr::write_bytes(m.add(v as usize), 0, n.saturating_sub(v as usize));
        return 0;
    }
    ret(v) as i32
}
macro_rules! number {
    ($($name:ident $nr:literal $how:literal);* $(;)?) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $name() -> i32 {
            if in_sut() {
                rt().stats.env_reads += 1;
                return rt().env_rng.below($how) as i32;
            }
            raw($nr, 0, 0, 0, 0, 0, 0) as i32
        }
    )* }
}
number! {
    getuid 102 3;
    geteuid 107 3;
    getgid 104 3;
    getegid 108 3;
    getppid 110 30000;
    gettid 186 30000;
}
/// Seconds, for code that does not go through clock_gettime.
#[no_mangle]
pub unsafe extern "C" fn time(p: *mut i64) -> i64 {
    let mut t = [0i64; 2];
    clock_gettime(0, &mut t);
    if !p.is_null() {
        *p = t[0];
    }
    t[0]
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(p: *mut [i64; 2], _z: usize) -> i32 {
    let mut t = [0i64; 2];
    clock_gettime(0, &mut t);
    if !p.is_null() {
        *p = [t[0], t[1] / 1000];
    }
    0
}
type Start = unsafe extern "C" fn(*mut u8) -> *mut u8;
pub unsafe fn real_pthread_create(o: *mut usize, at: *const u8, f: Start, a: *mut u8) -> i32 {
    next_fn!("pthread_create", unsafe extern "C" fn(*mut usize, *const u8, Start, *mut u8) -> i32)(o, at, f, a)
}
pub unsafe fn real_pthread_join(t: usize, r: *mut *mut u8) -> i32 {
    next_fn!("pthread_join", unsafe extern "C" fn(usize, *mut *mut u8) -> i32)(t, r)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(o: *mut usize, at: *const u8, f: Start, a: *mut u8) -> i32 {
    if in_sut() {
        return sut_pthread_create(o, at, f, a);
    }
    real_pthread_create(o, at, f, a)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: usize, r: *mut *mut u8) -> i32 {
    if sim_thread() {
        return sut_pthread_join(t, r);
    }
    real_pthread_join(t, r)
}
