//! The seams below the code under test: heap, randomness, clock, blocking, and preemption.
//!
//! The code under test is linked unchanged. What it could draw nondeterminism from is
//! intercepted at the symbols it is linked against: the global allocator, `getrandom` (hash
//! seeds), `clock_gettime`, `syscall` (futex, that is every std lock), and the edge callback the
//! compiler inserts into the crate under test (where a simulated thread can be preempted).

use std::alloc::{GlobalAlloc, Layout, System};
use std::arch::asm;
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};

// ---------------------------------------------------------------- heap

#[derive(Clone, Copy, Default, Debug)]
pub struct Meter {
    pub live: isize,
    pub peak: isize,
    pub allocs: u64,
    /// all that was ever obtained, a block that grows counted anew
    pub total: u64,
}

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static ENTROPY: Cell<u64> = const { Cell::new(0) };
    static CLOCK: Cell<u64> = const { Cell::new(0) };
    static ME: Cell<usize> = const { Cell::new(NOBODY) };
}
const NOBODY: usize = usize::MAX;
/// What one simulated machine has: more than this is refused.
const HEAP: isize = 1 << 30;

pub struct Heap;

#[global_allocator]
static GLOBAL: Heap = Heap;

fn charge(n: isize) -> bool {
    if !ON.with(|o| o.get()) {
        return true;
    }
    let l = LIVE.with(|c| c.get()) + n;
    if n > 0 && l > HEAP {
        return false;
    }
    LIVE.with(|c| c.set(l));
    if n > 0 {
        ALLOCS.with(|c| c.set(c.get() + 1));
    }
    PEAK.with(|c| {
        if l > c.get() {
            c.set(l)
        }
    });
    true
}

unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !charge(l.size() as isize) {
            return std::ptr::null_mut();
        }
        TOTAL.with(|c| c.set(c.get() + l.size() as u64));
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !charge(l.size() as isize) {
            return std::ptr::null_mut();
        }
        TOTAL.with(|c| c.set(c.get() + l.size() as u64));
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        charge(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !charge(n as isize - l.size() as isize) {
            return std::ptr::null_mut();
        }
        TOTAL.with(|c| c.set(c.get() + n as u64));
        System.realloc(p, l, n)
    }
}

/// Starts metering this thread's heap use.
pub fn meter_start() {
    LIVE.with(|c| c.set(0));
    PEAK.with(|c| c.set(0));
    ALLOCS.with(|c| c.set(0));
    TOTAL.with(|c| c.set(0));
    ON.with(|c| c.set(true));
}
pub fn meter_now() -> Meter {
    Meter {
        live: LIVE.with(|c| c.get()),
        peak: PEAK.with(|c| c.get()),
        allocs: ALLOCS.with(|c| c.get()),
        total: TOTAL.with(|c| c.get()),
    }
}
pub fn meter_stop() -> Meter {
    ON.with(|c| c.set(false));
    meter_now()
}

pub fn meter_pause() -> bool {
    ON.with(|c| c.replace(false))
}
pub fn meter_resume(on: bool) {
    ON.with(|c| c.set(on));
}

// ---------------------------------------------------------------- randomness and clock

/// From now on this thread's randomness and clock are the simulator's.
pub fn set_entropy(seed: u64) {
    ENTROPY.with(|c| c.set(seed | 1));
}
pub fn set_clock(us: u64) {
    CLOCK.with(|c| c.set(us));
}

unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d,
        in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
extern "C" {
    fn __errno_location() -> *mut i32;
}
unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}
const SYS_FUTEX: i64 = 202;
const SYS_CLOCK_GETTIME: i64 = 228;
const SYS_GETRANDOM: i64 = 318;

unsafe fn fill(buf: *mut u8, n: usize) -> bool {
    let s = ENTROPY.with(|c| c.get());
    if s == 0 {
        return false;
    }
    let mut r = crate::src::Rng::new(s);
    for i in 0..n {
        *buf.add(i) = r.next() as u8;
    }
    ENTROPY.with(|c| c.set(r.next() | 1));
    true
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, flags: u32) -> isize {
    if fill(buf, n) {
        return n as isize;
    }
    ret(raw(SYS_GETRANDOM, buf as i64, n as i64, i64::from(flags), 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32 {
    let us = CLOCK.with(|c| c.get());
    if us != 0 {
        (*ts)[0] = (us / 1_000_000) as i64;
        (*ts)[1] = (us % 1_000_000 * 1000) as i64;
        return 0;
    }
    ret(raw(SYS_CLOCK_GETTIME, i64::from(id), ts as i64, 0, 0, 0, 0)) as i32
}

/// Every blocking operation of std ends up here.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == SYS_GETRANDOM && fill(a as *mut u8, b as usize) {
        return b;
    }
    if n == SYS_FUTEX && ME.with(|m| m.get()) != NOBODY {
        let op = b & 0x7F;
        if op == 0 || op == 9 {
            return simulated_wait(a as *const AtomicU32, c as u32, d != 0);
        }
    }
    ret(raw(n, a, b, c, d, e, f))
}

// ---------------------------------------------------------------- simulated threads

const MAX: usize = 8;
struct Gates([AtomicU32; MAX]);
static GATES: Gates = Gates([const { AtomicU32::new(0) }; MAX]);
static LIVE_THREADS: AtomicU32 = AtomicU32::new(0); // bit set of unfinished threads
static IDLE: AtomicU32 = AtomicU32::new(0);

pub struct Sched {
    /// runs this many further preemption points before the next switch
    pub quantum: u64,
    pub steps: u64,
    pub switches: u64,
    pub waits: u64,
    pub stuck: u64,
    pub deadlock: bool,
    pub trace: Vec<(u64, u8)>,
    /// chooses the next quantum and, of n candidates, who runs
    pub choose: Option<Box<dyn FnMut(usize) -> (u64, usize)>>,
}
struct Cellar(UnsafeCell<Sched>);
unsafe impl Sync for Cellar {}
static SCHED: Cellar = Cellar(UnsafeCell::new(Sched {
    quantum: 0,
    steps: 0,
    switches: 0,
    waits: 0,
    stuck: 0,
    deadlock: false,
    trace: Vec::new(),
    choose: None,
}));

fn gate_wait(i: usize) {
    while GATES.0[i].load(Acquire) == 0 {
        unsafe {
            raw(SYS_FUTEX, &GATES.0[i] as *const _ as i64, 128, 0, 0, 0, 0);
        }
    }
    GATES.0[i].store(0, Relaxed);
}
fn gate_open(i: usize) {
    GATES.0[i].store(1, Release);
    unsafe {
        raw(SYS_FUTEX, &GATES.0[i] as *const _ as i64, 129, 1, 0, 0, 0);
    }
}

/// The running thread gives way. Only the holder of the baton gets here.
unsafe fn switch(me: usize, force: bool) {
    let s = &mut *SCHED.0.get();
    let live = LIVE_THREADS.load(Relaxed);
    let cands: [usize; MAX] = {
        let mut c = [0; MAX];
        let mut n = 0;
        for i in 0..MAX {
            if live >> i & 1 == 1 && !(force && i == me && live != 1 << me) {
                c[n] = i;
                n += 1;
            }
        }
        if n == 0 {
            return;
        }
        let (q, k) = match s.choose {
            Some(ref mut f) => f(n),
            None => (u64::MAX, 0),
        };
        s.quantum = q;
        c[0] = c[k];
        c
    };
    let next = cands[0];
    s.switches += 1;
    if s.trace.len() < 4000 {
        s.trace.push((s.steps, next as u8));
    }
    if next != me {
        gate_open(next);
        if me != NOBODY {
            gate_wait(me);
        }
    }
}

unsafe fn simulated_wait(addr: *const AtomicU32, expected: u32, timed: bool) -> i64 {
    let me = ME.with(|m| m.get());
    let mut polls = 0;
    loop {
        if (*addr).load(SeqCst) != expected {
            return 0;
        }
        let s = &mut *SCHED.0.get();
        s.waits += 1;
        s.stuck += 1;
        polls += 1;
        if timed && polls > 3 {
            return ret(-110);
        }
        if s.stuck > 100_000 {
            // nobody can go on any more
            s.deadlock = true;
            ME.with(|m| m.set(NOBODY));
            IDLE.store(1, Release);
            raw(SYS_FUTEX, &IDLE as *const _ as i64, 129, 1, 0, 0, 0);
            loop {
                raw(34, 0, 0, 0, 0, 0, 0); // pause
            }
        }
        switch(me, true);
    }
}

#[inline]
fn preemption_point() {
    let me = ME.with(|m| m.get());
    if me == NOBODY {
        return;
    }
    unsafe {
        let s = &mut *SCHED.0.get();
        s.steps += 1;
        s.stuck = 0;
        if s.quantum > 0 {
            s.quantum -= 1;
            return;
        }
        ME.with(|m| m.set(NOBODY));
        switch(me, false);
        ME.with(|m| m.set(me));
    }
}

pub struct Outcome {
    pub steps: u64,
    pub switches: u64,
    pub waits: u64,
    pub deadlock: bool,
    pub trace: Vec<(u64, u8)>,
}

/// Runs the tasks on real threads, one at a time, switching where `choose` says.
pub fn interleave(
    tasks: Vec<Box<dyn FnOnce() + Send>>,
    seeds: &[u64],
    choose: Box<dyn FnMut(usize) -> (u64, usize)>,
) -> Outcome {
    let n = tasks.len();
    assert!(n <= MAX);
    unsafe {
        *SCHED.0.get() = Sched {
            quantum: 0,
            steps: 0,
            switches: 0,
            waits: 0,
            stuck: 0,
            deadlock: false,
            trace: Vec::with_capacity(4096),
            choose: Some(choose),
        };
    }
    for g in &GATES.0 {
        g.store(0, Relaxed);
    }
    IDLE.store(0, Relaxed);
    LIVE_THREADS.store((1 << n) - 1, SeqCst);
    let mut handles = Vec::new();
    for (i, t) in tasks.into_iter().enumerate() {
        let seed = seeds[i];
        let h = std::thread::Builder::new()
            .stack_size(4 << 20)
            .spawn(move || {
                set_entropy(seed);
                gate_wait(i);
                ME.with(|m| m.set(i));
                t();
                ME.with(|m| m.set(NOBODY));
                unsafe {
                    let s = &mut *SCHED.0.get();
                    s.stuck = 0;
                    let left = LIVE_THREADS.load(Relaxed) & !(1 << i);
                    LIVE_THREADS.store(left, SeqCst);
                    if left == 0 {
                        IDLE.store(1, Release);
                        raw(SYS_FUTEX, &IDLE as *const _ as i64, 129, 1, 0, 0, 0);
                    } else {
                        switch(NOBODY, false);
                    }
                }
            })
            .expect("thread");
        handles.push(h);
    }
    // the first choice
    unsafe {
        switch(NOBODY, false);
    }
    while IDLE.load(Acquire) == 0 {
        unsafe {
            raw(SYS_FUTEX, &IDLE as *const _ as i64, 128, 0, 0, 0, 0);
        }
    }
    let s = unsafe { &mut *SCHED.0.get() };
    if !s.deadlock {
        for h in handles {
            let _ = h.join();
        }
    }
    s.choose = None;
    Outcome {
        steps: s.steps,
        switches: s.switches,
        waits: s.waits,
        deadlock: s.deadlock,
        trace: std::mem::take(&mut s.trace),
    }
}

// ---------------------------------------------------------------- edges of the code under test

const EDGES: usize = 1 << 14;
static NEXT_EDGE: AtomicU32 = AtomicU32::new(1);
static HITS: [AtomicU32; EDGES] = [const { AtomicU32::new(0) }; EDGES];
static EVER: [AtomicBool; EDGES] = [const { AtomicBool::new(false) }; EDGES];
static STEPS: AtomicU64 = AtomicU64::new(0);
static MOVED: AtomicU64 = AtomicU64::new(0);
static TOUCHED: AtomicUsize = AtomicUsize::new(0);
static TOUCH: [AtomicU32; EDGES] = [const { AtomicU32::new(0) }; EDGES];

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        if *p == 0 {
            *p = NEXT_EDGE.fetch_add(1, Relaxed) % EDGES as u32;
        }
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let i = *guard as usize % EDGES;
    let h = HITS[i].load(Relaxed);
    if h == 0 {
        let t = TOUCHED.load(Relaxed);
        if t < EDGES {
            TOUCH[t].store(i as u32, Relaxed);
            TOUCHED.store(t + 1, Relaxed);
        }
    }
    HITS[i].store(h + 1, Relaxed);
    STEPS.store(STEPS.load(Relaxed) + 1, Relaxed);
    preemption_point();
}

/// Edges taken so far, by whomever.
pub fn steps() -> u64 {
    STEPS.load(Relaxed)
}
/// Bytes moved so far.
pub fn moved() -> u64 {
    MOVED.load(Relaxed)
}

// What std does on behalf of the code under test has no edges that are counted; where it moves bytes it
// calls these.

#[no_mangle]
pub unsafe extern "C" fn memcpy(to: *mut u8, from: *const u8, n: usize) -> *mut u8 {
    MOVED.store(MOVED.load(Relaxed) + n as u64, Relaxed);
    asm!("rep movsb", inout("rcx") n => _, inout("rdi") to => _, inout("rsi") from => _, options(nostack, preserves_flags));
    to
}

#[no_mangle]
pub unsafe extern "C" fn memmove(to: *mut u8, from: *const u8, n: usize) -> *mut u8 {
    MOVED.store(MOVED.load(Relaxed) + n as u64, Relaxed);
    if (to as usize).wrapping_sub(from as usize) >= n {
        asm!("rep movsb", inout("rcx") n => _, inout("rdi") to => _, inout("rsi") from => _, options(nostack, preserves_flags));
    } else {
        asm!("std", "rep movsb", "cld", inout("rcx") n => _, inout("rdi") to.wrapping_add(n).wrapping_sub(1) => _,
            inout("rsi") from.wrapping_add(n).wrapping_sub(1) => _, options(nostack));
    }
    to
}

// Bytes compared, with the address they are compared from.
std::arch::global_asm!(
    ".globl memcmp", ".globl bcmp", ".type memcmp, @function", ".type bcmp, @function", "memcmp:", "bcmp:",
    "mov rcx, [rsp]", "mov r8, rsp", "jmp {}", sym compare
);
unsafe extern "C" fn compare(a: *const u8, b: *const u8, n: usize, from: usize, stack: *const usize) -> i32 {
    if crate::learn::recording() && for_crate(from, stack) {
        crate::learn::bytes(a, n);
        crate::learn::bytes(b, n);
    }
    let mut i = 0;
    while i + 8 <= n {
        let (x, y) = ((a.add(i) as *const u64).read_unaligned(), (b.add(i) as *const u64).read_unaligned());
        if x != y {
            return if x.swap_bytes() < y.swap_bytes() { -1 } else { 1 };
        }
        i += 8;
    }
    while i < n {
        let (x, y) = (a.add(i).read_volatile(), b.add(i).read_volatile());
        if x != y {
            return i32::from(x) - i32::from(y);
        }
        i += 1;
    }
    0
}
extern "C" {
    static _start: u8;
    static etext: u8;
}
/// The crate compares, or something of std that it calls. In memory, the simulator comes first, then the
/// crate, then std.
unsafe fn for_crate(from: usize, stack: *const usize) -> bool {
    let (first, last) = (FIRST.load(Relaxed), LAST.load(Relaxed));
    if from < first || from > last && from > &etext as *const u8 as usize {
        return false;
    }
    for i in 0..24 {
        let at = *stack.add(i);
        if at >= first && at <= last {
            return true;
        }
        if at >= &_start as *const u8 as usize && at < first {
            return false;
        }
    }
    false
}
/// Where the crate under test lies.
static FIRST: AtomicUsize = AtomicUsize::new(usize::MAX);
static LAST: AtomicUsize = AtomicUsize::new(0);
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_pcs_init(start: *const [usize; 2], stop: *const [usize; 2]) {
    let mut p = start;
    while p < stop {
        FIRST.fetch_min((*p)[0], Relaxed);
        LAST.fetch_max((*p)[0], Relaxed);
        p = p.add(1);
    }
}

// Comparisons of numbers, in the crate under test.

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp1(c: u8, _: u8) {
    if crate::learn::recording() {
        crate::learn::number(u64::from(c));
    }
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp2(c: u16, _: u16) {
    if crate::learn::recording() {
        crate::learn::number(u64::from(c));
    }
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp4(c: u32, _: u32) {
    if crate::learn::recording() {
        crate::learn::number(u64::from(c));
    }
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp8(c: u64, _: u64) {
    if crate::learn::recording() {
        crate::learn::number(c);
    }
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp1(_: u8, _: u8) {}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp2(_: u16, _: u16) {}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp4(_: u32, _: u32) {}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp8(_: u64, _: u64) {}
/// cases: how many, of how many bits, and each
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_switch(_: u64, cases: *const u64) {
    if crate::learn::recording() && *cases.add(1) > 8 {
        for i in 0..*cases as usize {
            crate::learn::number(*cases.add(2 + i));
        }
    }
}

/// Forgets the edges taken so far, but not that they were taken at all.
pub fn edges_reset() {
    let t = TOUCHED.load(Relaxed);
    for x in &TOUCH[..t] {
        let i = x.load(Relaxed) as usize;
        HITS[i].store(0, Relaxed);
        EVER[i].store(true, Relaxed);
    }
    TOUCHED.store(0, Relaxed);
}

/// A summary of the edges taken since the reset, with how often (in powers of two).
fn edges_signature() -> u64 {
    let mut h = 0u64;
    for x in &TOUCH[..TOUCHED.load(Relaxed)] {
        let i = x.load(Relaxed);
        let n = HITS[i as usize].load(Relaxed);
        h = h.wrapping_add(crate::src::mix(u64::from(i), u64::from(32 - n.leading_zeros())));
    }
    h
}
thread_local! {
    static SIGNATURES: std::cell::RefCell<Vec<u64>> = const { std::cell::RefCell::new(Vec::new()) };
}
/// One parse is over.
pub fn edges_done() {
    if ME.with(|m| m.get()) != NOBODY {
        return;
    }
    if TOUCHED.load(Relaxed) > 0 {
        let s = edges_signature();
        let on = meter_pause();
        SIGNATURES.with(|l| l.borrow_mut().push(s));
        meter_resume(on);
        edges_reset();
    }
}
/// What the parses of this thread looked like.
pub fn signatures() -> Vec<u64> {
    SIGNATURES.with(|l| std::mem::take(&mut *l.borrow_mut()))
}
pub fn edges_ever() -> Vec<u64> {
    (0..EDGES).filter(|i| EVER[*i].load(Relaxed)).map(|i| i as u64).collect()
}
pub fn edges_known() -> u32 {
    NEXT_EDGE.load(Relaxed) - 1
}
