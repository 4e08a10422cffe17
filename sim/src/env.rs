//! Every seam the simulator owns: basic-block guards (scheduling, crash points,
//! work counting), futexes, entropy, clocks, sleeping, process identity, and the
//! allocator. The library under test has no hooks of its own; guards come from
//! compiling it with coverage instrumentation, the rest from symbol interposition
//! in this binary.
#![allow(static_mut_refs)]

use crate::rng::mix;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering::*};

pub const MAXG: usize = 1 << 16;
pub const MAXT: usize = 16;

static mut DUMMY: [u8; MAXG] = [0; MAXG];
/// coverage map (shared between all simulated processes)
pub static mut COV: *mut u8 = unsafe { (&raw mut DUMMY) as *mut u8 };
pub static mut NGUARDS: usize = 0;

pub static mut EDGES: u64 = 0;
static mut TRIP: u64 = u64::MAX;
static mut LIMIT: u64 = u64::MAX;
static mut CRASH_AT: u64 = u64::MAX;

thread_local! {
    static TID: Cell<i32> = const { Cell::new(-1) };
    static INCALL: Cell<bool> = const { Cell::new(false) };
}

// ---------------------------------------------------------------- raw system calls

pub unsafe fn raw6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _);
    r
}

extern "C" {
    fn __errno_location() -> *mut i32;
    pub fn fork() -> i32;
    pub fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    pub fn _exit(c: i32) -> !;
    pub fn alarm(s: u32) -> u32;
    pub fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    pub fn sched_setaffinity(pid: i32, sz: usize, set: *const u64) -> i32;
    pub fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    pub fn open(p: *const u8, f: i32, ...) -> i32;
    pub fn dup2(a: i32, b: i32) -> i32;
    pub fn kill(pid: i32, sig: i32) -> i32;
}

pub const EXIT_LIMIT: i32 = 77;
pub const EXIT_CRASH: i32 = 99;
pub const EXIT_DEADLOCK: i32 = 78;

unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}

unsafe fn futex_wait(a: &AtomicU32, v: u32) {
    raw6(202, a as *const _ as i64, 128, v as i64, 0, 0, 0);
}
unsafe fn futex_wake(a: &AtomicU32) {
    raw6(202, a as *const _ as i64, 129, 1, 0, 0, 0);
}

// ---------------------------------------------------------------- guards

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    if a == b || *a != 0 {
        return;
    }
    let n = (b as usize - a as usize) / 4;
    for i in 0..n {
        NGUARDS += 1;
        *a.add(i) = NGUARDS.min(MAXG - 1) as u32;
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let id = *g as usize;
    *COV.add(id) = 1;
    EDGES += 1;
    if EDGES >= TRIP {
        trip(id);
    }
}

#[cold]
#[inline(never)]
unsafe fn trip(id: usize) {
    if EDGES >= CRASH_AT {
        _exit(EXIT_CRASH);
    }
    if EDGES >= LIMIT {
        _exit(EXIT_LIMIT);
    }
    let t = TID.with(|t| t.get());
    if S.on && t >= 0 {
        S.log = mix(S.log ^ ((id as u64) << 20) ^ EDGES);
        next_segment(t as usize);
    }
}

/// abort the process after `n` more basic blocks (a hang is a bounded run, not a hung check)
pub fn set_limit(n: u64) {
    unsafe {
        LIMIT = EDGES.saturating_add(n);
        TRIP = LIMIT.min(CRASH_AT);
    }
}
/// crash the process after `n` more basic blocks
pub fn set_crash(n: u64) {
    unsafe {
        CRASH_AT = EDGES.saturating_add(n);
        TRIP = LIMIT.min(CRASH_AT);
    }
}
pub fn clear_crash() {
    unsafe {
        CRASH_AT = u64::MAX;
        TRIP = LIMIT;
    }
}
pub fn edges() -> u64 {
    unsafe { EDGES }
}

// ---------------------------------------------------------------- threads under a baton

pub struct Sched {
    pub on: bool,
    segs: Vec<(u8, u32)>,
    pos: usize,
    n: usize,
    done: [bool; MAXT],
    alive: usize,
    pub log: u64,
    pub switches: u64,
    pub used: usize,
    pub futex_yields: u64,
    idle: u64,
    idle_edges: u64,
}
static mut S: Sched = Sched {
    on: false,
    segs: Vec::new(),
    pos: 0,
    n: 0,
    done: [false; MAXT],
    alive: 0,
    log: 0,
    switches: 0,
    used: 0,
    futex_yields: 0,
    idle: 0,
    idle_edges: 0,
};
static WAKE: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];
static MAIN: AtomicU32 = AtomicU32::new(0);

unsafe fn wait_turn(i: usize) {
    while WAKE[i].swap(0, AcqRel) == 0 {
        futex_wait(&WAKE[i], 0);
    }
}
unsafe fn wake(i: usize) {
    WAKE[i].store(1, Release);
    futex_wake(&WAKE[i]);
}

unsafe fn alive_from(t: usize) -> usize {
    for k in 0..S.n {
        let c = (t + k) % S.n;
        if !S.done[c] {
            return c;
        }
    }
    usize::MAX
}

unsafe fn pick(cur: usize) -> usize {
    let (t, q) = if S.pos < S.segs.len() {
        S.pos += 1;
        S.used = S.pos;
        S.segs[S.pos - 1]
    } else {
        // schedule exhausted: fair round robin, so spinning threads always progress
        (((cur + 1) % S.n) as u8, 20_000)
    };
    TRIP = (EDGES + q.max(1) as u64).min(LIMIT).min(CRASH_AT);
    let nt = alive_from(t as usize % S.n);
    S.log = mix(S.log ^ (nt as u64 + 1));
    nt
}

unsafe fn next_segment(cur: usize) {
    let nt = pick(cur);
    if nt != cur && nt != usize::MAX {
        S.switches += 1;
        wake(nt);
        wait_turn(cur);
    }
}

/// a simulated thread would block (contended lock, park, sleep): run somebody else and
/// report a spurious wake-up.
unsafe fn yield_blocked(cur: usize) {
    S.futex_yields += 1;
    if EDGES == S.idle_edges {
        S.idle += 1;
        if S.idle > 20_000 {
            // threads the library itself started are outside the baton: give them real time
            raw6(24, 0, 0, 0, 0, 0, 0);
            let ts = [0i64, 1_000_000];
            raw6(35, ts.as_ptr() as i64, 0, 0, 0, 0, 0);
            if S.idle > 22_000 {
                _exit(EXIT_DEADLOCK);
            }
        }
    } else {
        S.idle = 0;
        S.idle_edges = EDGES;
    }
    let nt = alive_from((cur + 1) % S.n);
    if nt != cur && nt != usize::MAX {
        S.switches += 1;
        S.log = mix(S.log ^ (nt as u64 + 77));
        wake(nt);
        wait_turn(cur);
    }
}

pub struct ThreadStats {
    pub log: u64,
    pub switches: u64,
    pub used: usize,
    pub futex_yields: u64,
}

/// Run `bodies` on real threads, exactly one at a time, switching only where `segs` says.
pub fn run_threads(bodies: Vec<Box<dyn FnOnce() + Send>>, segs: Vec<(u8, u32)>) -> ThreadStats {
    unsafe {
        let n = bodies.len();
        assert!(n <= MAXT && n > 0);
        S.segs = segs;
        S.pos = 0;
        S.n = n;
        S.done = [false; MAXT];
        S.alive = n;
        S.log = 0;
        S.switches = 0;
        S.used = 0;
        S.futex_yields = 0;
        S.idle = 0;
        MAIN.store(0, Release);
        let hs: Vec<_> = bodies
            .into_iter()
            .enumerate()
            .map(|(i, b)| {
                std::thread::spawn(move || {
                    wait_turn(i);
                    TID.with(|t| t.set(i as i32));
                    b();
                    TID.with(|t| t.set(-1));
                    S.done[i] = true;
                    S.alive -= 1;
                    if S.alive == 0 {
                        MAIN.store(1, Release);
                        futex_wake(&MAIN);
                    } else {
                        let nt = pick(i);
                        wake(nt);
                    }
                })
            })
            .collect();
        S.on = true;
        let first = pick(0);
        wake(first);
        while MAIN.load(Acquire) == 0 {
            futex_wait(&MAIN, 0);
        }
        S.on = false;
        TRIP = LIMIT;
        for h in hs {
            h.join().unwrap();
        }
        ThreadStats {
            log: S.log,
            switches: S.switches,
            used: S.used,
            futex_yields: S.futex_yields,
        }
    }
}

// ---------------------------------------------------------------- entropy, clock, identity

#[derive(Clone, Copy, Debug, serde::Serialize, serde::Deserialize, PartialEq)]
pub struct EnvCfg {
    /// simulated environment on
    pub on: bool,
    /// 0 zero bytes, 1 ones, 2 seeded stream
    pub entropy: u8,
    pub seed: u64,
    pub eintr: u8,
    pub short: u8,
    pub clock_start: u64,
    pub clock_step: u64,
    /// percent of clock reads that jump
    pub jump: u8,
    /// 0 zero fill, 1 0xFF, 2 random bytes, 3 stale contents, 4 NaN pattern
    pub fill: u8,
    pub reuse: bool,
    pub pad: u8,
    pub stack: u16,
    pub pid: u32,
    pub cores: u8,
    /// where the caller keeps the arguments: 0 in order, else shuffled; odd: equal arguments share memory
    pub layout: u16,
    /// what every environment variable says: 0 not set, else one of a few values
    #[serde(default)]
    pub vars: u8,
}
impl EnvCfg {
    pub const fn canonical() -> Self {
        Self {
            on: true,
            entropy: 0,
            seed: 1,
            eintr: 0,
            short: 0,
            clock_start: 1_700_000_000_000_000_000,
            clock_step: 1000,
            jump: 0,
            fill: 0,
            reuse: true,
            pad: 0,
            stack: 0,
            pid: 4242,
            cores: 4,
            layout: 0,
            vars: 0,
        }
    }
}

#[derive(Clone, Copy, Default)]
pub struct EnvStats {
    pub getrandom: u64,
    pub eintr: u64,
    pub short: u64,
    pub clock: u64,
    pub jumps: u64,
    pub allocs: u64,
    pub moved: u64,
    pub vars: u64,
}

static mut CFG: EnvCfg = EnvCfg { on: false, ..EnvCfg::canonical() };
pub static mut STATS: EnvStats = EnvStats {
    getrandom: 0,
    eintr: 0,
    short: 0,
    clock: 0,
    jumps: 0,
    allocs: 0,
    moved: 0,
    vars: 0,
};
static mut ENT: u64 = 0;
static mut NOW: u64 = 0;
static mut WALL_OFF: i64 = 0;
static mut CLKR: u64 = 0;
static mut ROW: u32 = 0;

pub fn set_env(c: EnvCfg) {
    unsafe {
        CFG = c;
        ENT = mix(c.seed ^ 0xE17);
        CLKR = mix(c.seed ^ 0xC10C);
        NOW = c.clock_start;
        WALL_OFF = 0;
        ROW = 0;
        A.on = c.on;
        A.rng = mix(c.seed ^ 0xA110C);
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, fl: u32) -> isize {
    if !CFG.on {
        return ret(raw6(318, buf as i64, len as i64, fl as i64, 0, 0, 0)) as isize;
    }
    STATS.getrandom += 1;
    ENT = mix(ENT);
    let d = (ENT >> 8) % 100;
    if ROW < 3 && d < CFG.eintr as u64 {
        ROW += 1;
        STATS.eintr += 1;
        *__errno_location() = 4;
        return -1;
    }
    let mut n = len;
    if ROW < 3 && len > 1 && d < CFG.eintr as u64 + CFG.short as u64 {
        ROW += 1;
        STATS.short += 1;
        n = 1 + (ENT >> 16) as usize % (len - 1);
    } else {
        ROW = 0;
    }
    for i in 0..n {
        *buf.add(i) = match CFG.entropy {
            0 => 0,
            1 => 0xFF,
            _ => {
                ENT = mix(ENT);
                ENT as u8
            }
        };
    }
    n as isize
}

#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut u8, len: usize) -> i32 {
    let mut o = 0;
    while o < len {
        let r = getrandom(buf.add(o), len - o, 0);
        if r > 0 {
            o += r as usize;
        }
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: i32, t: *mut [i64; 2]) -> i32 {
    if !CFG.on {
        return ret(raw6(228, c as i64, t as i64, 0, 0, 0, 0)) as i32;
    }
    STATS.clock += 1;
    CLKR = mix(CLKR);
    NOW += CFG.clock_step;
    if CLKR % 100 < CFG.jump as u64 {
        STATS.jumps += 1;
        let amount = (CLKR >> 8) % 4_000_000_000_000;
        if c == 0 && (CLKR >> 7) & 1 == 1 {
            WALL_OFF -= amount as i64;
        } else {
            NOW += amount;
        }
    }
    let v = if c == 0 { NOW as i64 + WALL_OFF } else { NOW as i64 }.max(0);
    (*t)[0] = v / 1_000_000_000;
    (*t)[1] = v % 1_000_000_000;
    0
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    let t = TID.with(|t| t.get());
    if t < 0 {
        return ret(raw6(35, req as i64, rem as i64, 0, 0, 0, 0)) as i32;
    }
    NOW += ((*req)[0] * 1_000_000_000 + (*req)[1]) as u64;
    yield_blocked(t as usize);
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: i32, f: i32, req: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    let t = TID.with(|t| t.get());
    if t < 0 {
        return -(raw6(230, c as i64, f as i64, req as i64, rem as i64, 0, 0)) as i32;
    }
    if f == 0 {
        NOW += ((*req)[0] * 1_000_000_000 + (*req)[1]) as u64;
    }
    yield_blocked(t as usize);
    0
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    let t = TID.with(|t| t.get());
    if t < 0 {
        return ret(raw6(24, 0, 0, 0, 0, 0, 0)) as i32;
    }
    yield_blocked(t as usize);
    0
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if CFG.on {
        CFG.pid as i32
    } else {
        raw6(39, 0, 0, 0, 0, 0, 0) as i32
    }
}
/// environment variables, as far as the language runtime does not own them
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    extern "C" {
        static environ: *const *const u8;
        fn strlen(s: *const u8) -> usize;
        fn strncmp(a: *const u8, b: *const u8, n: usize) -> i32;
    }
    let n = strlen(name);
    if CFG.on && INCALL.with(|c| c.get()) && strncmp(name, c"RUST".as_ptr().cast(), 4) != 0 {
        STATS.vars += 1;
        return match CFG.vars {
            0 => std::ptr::null(),
            1 => c"1".as_ptr().cast(),
            2 => c"0".as_ptr().cast(),
            3 => c"true".as_ptr().cast(),
            4 => c"de_DE.UTF-8".as_ptr().cast(),
            _ => c"0.25".as_ptr().cast(),
        };
    }
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        if strncmp(*e, name, n) == 0 && *(*e).add(n) == b'=' {
            return (*e).add(n + 1);
        }
        e = e.add(1);
    }
    std::ptr::null()
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, sz: usize, set: *mut u8) -> i32 {
    if CFG.on {
        for i in 0..sz {
            *set.add(i) = 0;
        }
        for i in 0..(CFG.cores as usize).min(sz * 8).max(1) {
            *set.add(i / 8) |= 1 << (i % 8);
        }
        return 0;
    }
    let r = raw6(204, pid as i64, sz as i64, set as i64, 0, 0, 0);
    if r < 0 {
        ret(r) as i32
    } else {
        for i in r as usize..sz {
            *set.add(i) = 0;
        }
        0
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == 202 {
        let op = b & 127;
        let t = TID.with(|t| t.get());
        if t >= 0 && (op == 0 || op == 9) {
            if (*(a as *const AtomicU32)).load(SeqCst) != c as u32 {
                *__errno_location() = 11;
                return -1;
            }
            yield_blocked(t as usize);
            if d != 0 {
                NOW += 1_000_000;
                *__errno_location() = 110;
                return -1;
            }
            return 0;
        }
    }
    if n == 318 && CFG.on {
        return getrandom(a as *mut u8, b as usize, c as u32) as i64;
    }
    ret(raw6(n, a, b, c, d, e, f))
}

// ---------------------------------------------------------------- memory

pub struct SimAlloc;
struct Arena {
    on: bool,
    base: usize,
    size: usize,
    bump: usize,
    free: [usize; 40],
    rng: u64,
    count: u64,
    fail_at: u64,
    live: u64,
    peak: u64,
}
static mut A: Arena = Arena {
    on: false,
    base: 0,
    size: 0,
    bump: 0,
    free: [0; 40],
    rng: 0,
    count: 0,
    fail_at: u64::MAX,
    live: 0,
    peak: 0,
};
static ALOCK: AtomicBool = AtomicBool::new(false);
const ARENA_AT: usize = 0x5000_0000_0000;
const ARENA_SIZE: usize = 8 << 30;

pub fn arena_init() {
    unsafe {
        // PROT_READ|WRITE, MAP_PRIVATE|ANON|NORESERVE|FIXED_NOREPLACE
        let p = mmap(ARENA_AT as *mut u8, ARENA_SIZE, 3, 0x2 | 0x20 | 0x4000 | 0x100000, -1, 0);
        if p as usize == ARENA_AT {
            A.base = ARENA_AT;
            A.size = ARENA_SIZE;
        }
    }
}
/// the `n`-th allocation from now made by the library fails
pub fn alloc_fail_after(n: u64) {
    unsafe { A.fail_at = A.count + n }
}
/// bytes the library holds now
pub fn live() -> u64 {
    unsafe { A.live }
}
/// most bytes it held since the last question
pub fn take_peak() -> u64 {
    unsafe { std::mem::replace(&mut A.peak, A.live) }
}
pub fn alloc_count() -> u64 {
    unsafe { A.count }
}

unsafe fn class(l: Layout) -> usize {
    l.size().max(l.align()).max(16).next_power_of_two()
}

unsafe fn arena_alloc(l: Layout) -> *mut u8 {
    while ALOCK.swap(true, Acquire) {
        std::hint::spin_loop();
    }
    A.count += 1;
    let r = (|| {
        if A.count == A.fail_at {
            return std::ptr::null_mut();
        }
        STATS.allocs += 1;
        A.live += l.size() as u64;
        A.peak = A.peak.max(A.live);
        let c = class(l);
        let k = c.trailing_zeros() as usize;
        let p;
        if CFG.reuse && A.free[k] != 0 {
            p = A.free[k];
            A.free[k] = *(p as *const usize);
        } else {
            let mut b = A.base + A.bump;
            if CFG.pad > 0 {
                A.rng = mix(A.rng);
                b += 16 * ((A.rng >> 9) as usize % (CFG.pad as usize * 8 + 1));
            }
            let al = l.align().max(16);
            b = (b + al - 1) & !(al - 1);
            if b + c > A.base + A.size {
                return std::ptr::null_mut();
            }
            A.bump = b + c - A.base;
            p = b;
        }
        let p = p as *mut u8;
        match CFG.fill {
            0 => std::ptr::write_bytes(p, 0, l.size()),
            1 => std::ptr::write_bytes(p, 0xFF, l.size()),
            2 => {
                for i in 0..l.size() {
                    if i % 8 == 0 {
                        A.rng = mix(A.rng);
                    }
                    *p.add(i) = (A.rng >> (8 * (i % 8))) as u8;
                }
            }
            4 => {
                for i in 0..l.size() {
                    *p.add(i) = [1, 0, 0, 0, 0, 0, 0xF8, 0x7F][i % 8];
                }
            }
            _ => {}
        }
        p
    })();
    ALOCK.store(false, Release);
    r
}
unsafe fn arena_free(p: *mut u8, l: Layout) {
    while ALOCK.swap(true, Acquire) {
        std::hint::spin_loop();
    }
    A.live = A.live.wrapping_sub(l.size() as u64);
    let c = class(l);
    if CFG.fill != 3 {
        std::ptr::write_bytes(p, 0xDD, l.size());
    }
    let k = c.trailing_zeros() as usize;
    *(p as *mut usize) = A.free[k];
    A.free[k] = p as usize;
    ALOCK.store(false, Release);
}
unsafe fn in_arena(p: *mut u8) -> bool {
    (p as usize).wrapping_sub(ARENA_AT) < ARENA_SIZE && A.base != 0
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if A.on && A.base != 0 && INCALL.with(|c| c.get()) {
            arena_alloc(l)
        } else {
            System.alloc(l)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if in_arena(p) {
            arena_free(p, l)
        } else {
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let incall = A.on && A.base != 0 && INCALL.with(|c| c.get());
        if incall || in_arena(p) {
            STATS.moved += 1;
            let nl = Layout::from_size_align_unchecked(n, l.align());
            let q = self.alloc(nl);
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, n.min(l.size()));
                self.dealloc(p, l);
            }
            q
        } else {
            System.realloc(p, l, n)
        }
    }
}

#[inline(never)]
fn poison_stack(fill: u8) {
    let a = [fill; 24 * 1024];
    std::hint::black_box(&a);
}
#[inline(never)]
fn deeper<R>(n: u16, f: &mut dyn FnMut() -> R) -> R {
    let a = [n as u8; 208];
    std::hint::black_box(&a);
    if n == 0 {
        f()
    } else {
        let r = deeper(n - 1, f);
        std::hint::black_box(&a);
        r
    }
}

/// Enter the library: allocations made inside come from the simulated memory, the stack
/// below is poisoned and shifted as the environment says.
pub fn call<R>(mut f: impl FnMut() -> R) -> R {
    struct G(bool);
    impl Drop for G {
        fn drop(&mut self) {
            INCALL.with(|c| c.set(self.0));
        }
    }
    let (st, fill) = unsafe { (CFG.stack, CFG.fill) };
    if unsafe { CFG.on } && st > 0 {
        poison_stack([0, 0xFF, 0xA5, 0x5A, 0x7F][fill as usize % 5]);
        let _g = G(INCALL.with(|c| c.replace(true)));
        deeper(st % 40, &mut f)
    } else {
        let _g = G(INCALL.with(|c| c.replace(true)));
        f()
    }
}
/// leave simulated memory for harness work done inside a call
pub fn outside<R>(f: impl FnOnce() -> R) -> R {
    let o = INCALL.with(|c| c.replace(false));
    let r = f();
    INCALL.with(|c| c.set(o));
    r
}

pub fn layout() -> u64 {
    unsafe { CFG.layout as u64 }
}
