//! The driver: seeds, runs, workers, minimisation, replay, evidence.
//!
//! Every run happens in a process forked for it from a worker that has run nothing, so one run
//! is one seed and nothing else; a crash, a hang or a deadlock of the code under test ends only
//! that process and is a finding like any other.

mod apart;
mod canon;
mod ctx;
mod descs;
mod dumpw;
mod gen;
mod learn;
mod oracle;
mod pools;
mod refdec;
mod src;
mod sys;
mod threads;
mod v;
mod work;
mod world;

use ctx::{bad, hex, Bad, Ctx, Res};
use src::{hash_bytes, mix, Src};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::Write as _;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

// ---------------------------------------------------------------- operating system

extern "C" {
    fn fork() -> i32;
    fn _exit(c: i32) -> !;
    fn waitpid(p: i32, st: *mut i32, f: i32) -> i32;
    fn pipe2(fds: *mut i32, flags: i32) -> i32;
    fn close(a: i32) -> i32;
    fn read(fd: i32, b: *mut u8, n: usize) -> isize;
    fn write(fd: i32, b: *const u8, n: usize) -> isize;
    fn poll(f: *mut PollFd, n: u64, ms: i32) -> i32;
    fn kill(p: i32, s: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setitimer(which: i32, new: *const [i64; 4], old: *mut [i64; 4]) -> i32;
    fn setrlimit(which: i32, r: *const [u64; 2]) -> i32;
    fn personality(p: u64) -> i32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn getrusage(who: i32, r: *mut [i64; 18]) -> i32;
}
#[repr(C)]
struct PollFd {
    fd: i32,
    events: i16,
    revents: i16,
}
const CLOEXEC: i32 = 0o2000000;

fn pipe() -> (i32, i32) {
    let mut f = [0i32; 2];
    if unsafe { pipe2(f.as_mut_ptr(), CLOEXEC) } != 0 {
        harness("pipe");
    }
    (f[0], f[1])
}
fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let n = unsafe { write(fd, b.as_ptr(), b.len()) };
        if n <= 0 {
            return;
        }
        b = &b[n as usize..];
    }
}
fn harness(m: &str) -> ! {
    eprintln!("HARNESS ERROR: {}", m);
    std::process::exit(2)
}

// ---------------------------------------------------------------- panics and crashes

static LAST: Mutex<String> = Mutex::new(String::new());
pub fn last_panic() -> String {
    LAST.lock().map(|l| l.clone()).unwrap_or_default()
}

/// The image being parsed, where it is still known after a crash.
static NOTE: AtomicUsize = AtomicUsize::new(0);
const NOTE_SIZE: usize = 1 << 20;
pub fn note_image(b: &[u8]) {
    let p = NOTE.load(Relaxed) as *mut u8;
    if p.is_null() {
        return;
    }
    let n = b.len().min(NOTE_SIZE - 8);
    unsafe {
        std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(8), n);
        (p as *mut u64).write(n as u64);
    }
}
fn noted() -> Vec<u8> {
    let p = NOTE.load(Relaxed) as *mut u8;
    unsafe {
        let n = (p as *mut u64).read() as usize;
        (p as *mut u64).write(0);
        std::slice::from_raw_parts(p.add(8), n.min(NOTE_SIZE - 8)).to_vec()
    }
}
fn shared(n: usize) -> *mut u8 {
    let p = unsafe { mmap(std::ptr::null_mut(), n, 3, 0x21, -1, 0) };
    if p as isize == -1 {
        harness("mmap");
    }
    p
}

// ---------------------------------------------------------------- one run

#[derive(Clone, Default)]
struct Outcome {
    bad: Option<(String, String)>,
    hash: u64,
    now: u64,
    evals: u64,
    faults: Vec<(String, u64)>,
    probes: Vec<(String, u64)>,
    max: Vec<(String, u64)>,
    cases: Vec<u64>,
    states: Vec<u64>,
    edges: Vec<u64>,
    known_edges: u64,
    sample: String,
    image: Vec<u8>,
    log: Vec<String>,
    choices: Vec<u64>,
    cpu_us: u64,
}

#[derive(Default)]
struct Enc(Vec<u8>);
impl Enc {
    fn u(&mut self, v: u64) {
        self.0.extend_from_slice(&v.to_le_bytes());
    }
    fn s(&mut self, s: &[u8]) {
        self.u(s.len() as u64);
        self.0.extend_from_slice(s);
    }
    fn l(&mut self, l: &[u64]) {
        self.u(l.len() as u64);
        for x in l {
            self.u(*x);
        }
    }
    fn m(&mut self, l: &[(String, u64)]) {
        self.u(l.len() as u64);
        for (k, v) in l {
            self.s(k.as_bytes());
            self.u(*v);
        }
    }
}
struct Dec<'a>(&'a [u8]);
impl<'a> Dec<'a> {
    fn u(&mut self) -> Option<u64> {
        if self.0.len() < 8 {
            return None;
        }
        let (a, b) = self.0.split_at(8);
        self.0 = b;
        Some(u64::from_le_bytes(a.try_into().unwrap()))
    }
    fn s(&mut self) -> Option<Vec<u8>> {
        let n = self.u()? as usize;
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a.to_vec())
    }
    fn t(&mut self) -> Option<String> {
        Some(String::from_utf8_lossy(&self.s()?).into_owned())
    }
    fn l(&mut self) -> Option<Vec<u64>> {
        let n = self.u()?;
        (0..n).map(|_| self.u()).collect()
    }
    fn m(&mut self) -> Option<Vec<(String, u64)>> {
        let n = self.u()?;
        (0..n).map(|_| Some((self.t()?, self.u()?))).collect()
    }
}
impl Outcome {
    fn encode(&self) -> Vec<u8> {
        let mut e = Enc::default();
        let (c, m) = self.bad.clone().unwrap_or_default();
        e.s(c.as_bytes());
        e.s(m.as_bytes());
        for v in [self.hash, self.now, self.evals, self.known_edges, self.cpu_us] {
            e.u(v);
        }
        e.m(&self.faults);
        e.m(&self.probes);
        e.m(&self.max);
        e.l(&self.cases);
        e.l(&self.states);
        e.l(&self.edges);
        e.l(&self.choices);
        e.s(self.sample.as_bytes());
        e.s(&self.image);
        e.s(self.log.join("\n").as_bytes());
        e.u(0x5EA1ED);
        e.0
    }
    fn decode(b: &[u8]) -> Option<Outcome> {
        let mut d = Dec(b);
        let (c, m) = (d.t()?, d.t()?);
        let o = Outcome {
            bad: if c.is_empty() { None } else { Some((c, m)) },
            hash: d.u()?,
            now: d.u()?,
            evals: d.u()?,
            known_edges: d.u()?,
            cpu_us: d.u()?,
            faults: d.m()?,
            probes: d.m()?,
            max: d.m()?,
            cases: d.l()?,
            states: d.l()?,
            edges: d.l()?,
            choices: d.l()?,
            sample: d.t()?,
            image: d.s()?,
            log: d.t()?.split('\n').map(String::from).collect(),
        };
        if d.u()? != 0x5EA1ED {
            return None;
        }
        Some(o)
    }
}

fn decide(prop: &str, src: &mut Src, ctx: &mut Ctx) -> Res {
    match prop {
        "C01" => oracle::c01(src, ctx),
        "C02" => oracle::c02(src, ctx),
        "C03" => oracle::c03(src, ctx),
        "C04" => oracle::c04(src, ctx),
        "C05" | "C06" | "C07" | "C08" | "C09" | "C10" | "C19" => oracle::fidelity_world(prop, src, ctx),
        "C11" | "C12" | "C13" | "C26" => pools::world(prop, src, ctx),
        "C14" => threads::c14(src, ctx),
        "C27" => apart::c27(src, ctx),
        "C15" => oracle::c15(src, ctx),
        "C16" => oracle::c16(src, ctx),
        "C17" | "C25" => oracle::c17(prop, src, ctx),
        "C18" => dumpw::c18(src, ctx),
        "C20" | "C21" | "C24" => descs::world(prop, src, ctx),
        "C22" => pools::c22(src, ctx),
        "C23" => work::c23(src, ctx),
        _ => harness("no such property"),
    }
}

#[derive(Clone)]
struct Job {
    prop: String,
    seed: u64,
    thorough: bool,
    scratch: String,
}

fn cpu_us() -> u64 {
    let mut r = [0i64; 18];
    unsafe {
        getrusage(0, &mut r);
    }
    ((r[0] + r[2]) * 1_000_000 + r[1] + r[3]) as u64
}

/// The body of a forked process: one run, on a thread of its own.
fn body(job: &Job, entropy: u64, mut src: Src, record: bool) -> Outcome {
    let stack = if job.prop == "C01" { 2 << 20 } else { 16 << 20 };
    let j = job.clone();
    sys::edges_reset();
    let r = std::thread::Builder::new().stack_size(stack).spawn(move || {
        sys::set_entropy(entropy);
        let mut ctx = Ctx::new(record, j.thorough);
        ctx.scratch = j.scratch.clone();
        if j.prop == "C01" {
            sys::meter_start();
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| decide(&j.prop, &mut src, &mut ctx)));
        sys::meter_stop();
        let r = match r {
            Ok(r) => r,
            // the simulator itself is at fault
            Err(_) => Err(Bad { class: "HARNESS".to_string(), msg: last_panic() }),
        };
        sys::edges_done();
        let mut o = Outcome {
            bad: r.err().map(|b| (b.class, b.msg)),
            hash: ctx.hash,
            now: ctx.now,
            evals: ctx.evals,
            faults: ctx.faults.iter().map(|(k, v)| (k.to_string(), *v)).collect(),
            probes: ctx.probes.iter().map(|(k, v)| (k.to_string(), *v)).collect(),
            max: ctx.max.iter().map(|(k, v)| (k.to_string(), *v)).collect(),
            cases: ctx.cases,
            states: ctx.states,
            edges: sys::edges_ever(),
            known_edges: u64::from(sys::edges_known()),
            sample: ctx.sample.unwrap_or_default(),
            image: ctx.image.unwrap_or_default(),
            log: ctx.log,
            choices: if record { src.choices() } else { Vec::new() },
            cpu_us: 0,
        };
        o.states.extend(sys::signatures());
        if o.bad.is_none() {
            o.image.clear();
        }
        o.hash = mix(o.hash, o.bad.as_ref().map_or(0, |b| hash_bytes(b.1.as_bytes())));
        o.cpu_us = cpu_us();
        o
    });
    match r.expect("thread").join() {
        Ok(o) => o,
        Err(_) => Outcome { bad: Some(("HARNESS".to_string(), last_panic())), ..Outcome::default() },
    }
}

const CPU_SECONDS: i64 = 10;
const WALL_MS: i32 = 60_000;

/// Forks, runs, and says how it ended. The caller must be a process with one thread.
/// What a function says in a process of its own, in which nothing of it happened before.
pub fn elsewhere(f: impl FnOnce() -> (u64, String)) -> Option<(u64, String)> {
    let (r, w) = pipe();
    let pid = unsafe { fork() };
    if pid < 0 {
        harness("fork");
    }
    if pid == 0 {
        unsafe {
            close(r);
            prctl(1, 9, 0, 0, 0);
            setitimer(2, &[0, 0, CPU_SECONDS, 0], std::ptr::null_mut());
        }
        let (n, s) = f();
        let mut o = n.to_le_bytes().to_vec();
        o.extend_from_slice(s.as_bytes());
        write_all(w, &o);
        unsafe { _exit(0) }
    }
    let mut buf = Vec::new();
    let mut chunk = [0u8; 4096];
    unsafe {
        close(w);
        loop {
            let n = read(r, chunk.as_mut_ptr(), chunk.len());
            if n <= 0 {
                break;
            }
            buf.extend_from_slice(&chunk[..n as usize]);
        }
        close(r);
        waitpid(pid, &mut 0, 0);
    }
    if buf.len() < 8 {
        return None;
    }
    let mut n = [0u8; 8];
    n.copy_from_slice(&buf[..8]);
    Some((u64::from_le_bytes(n), String::from_utf8_lossy(&buf[8..]).to_string()))
}

fn execute(job: &Job, entropy: u64, src: Src, record: bool) -> Outcome {
    let (r, w) = pipe();
    if NOTE.load(Relaxed) == 0 {
        NOTE.store(shared(NOTE_SIZE) as usize, Relaxed);
    }
    let pid = unsafe { fork() };
    if pid < 0 {
        harness("fork");
    }
    if pid == 0 {
        unsafe {
            close(r);
            prctl(1, 9, 0, 0, 0);
            setitimer(2, &[0, 0, CPU_SECONDS, 0], std::ptr::null_mut());
            setrlimit(9, &[8 << 30, 8 << 30]);
            setrlimit(4, &[0, 0]);
        }
        let o = body(job, entropy, src, record);
        write_all(w, &o.encode());
        unsafe { _exit(0) }
    }
    unsafe {
        close(w);
    }
    let mut buf = Vec::new();
    let mut chunk = vec![0u8; 1 << 16];
    let mut stalled = false;
    loop {
        let mut f = PollFd { fd: r, events: 1, revents: 0 };
        let k = unsafe { poll(&mut f, 1, WALL_MS) };
        if k == 0 {
            stalled = true;
            unsafe {
                kill(pid, 9);
            }
        }
        let n = unsafe { read(r, chunk.as_mut_ptr(), chunk.len()) };
        if n <= 0 {
            break;
        }
        buf.extend_from_slice(&chunk[..n as usize]);
    }
    let mut st = 0;
    unsafe {
        close(r);
        waitpid(pid, &mut st, 0);
    }
    let image = noted();
    if let Some(o) = Outcome::decode(&buf) {
        return o;
    }
    let sig = st & 0x7F;
    let (class, msg) = if stalled || sig == 27 {
        ("hang", format!("did not come to an end (after {} s of processor time, or stuck)", CPU_SECONDS))
    } else if sig != 0 {
        ("crash", format!("the process died of signal {} ({})", sig, match sig {
            6 => "abort: allocation failure, stack overflow, or panic while panicking",
            11 => "segmentation fault",
            _ => "",
        }))
    } else if st >> 8 == 2 {
        ("HARNESS", "a run ended with a harness error".to_string())
    } else {
        ("crash", format!("the process exited with status {}", st >> 8))
    };
    Outcome { bad: Some((class.to_string(), msg)), image, ..Outcome::default() }
}

/// Runs that are not judged, only listened to: in rounds, as what one round finds leads the next one further.
fn learn(job: &Job) {
    if job.prop == "C18" {
        return;
    }
    let at = shared(learn::SIZE) as usize;
    let start = Instant::now();
    let each = if job.prop == "C12" { LESSONS / 8 } else { LESSONS };
    for round in 0..3 {
        learn::record_at(at);
        let mut pids = Vec::new();
        for w in 0..8 {
            let pid = unsafe { fork() };
            if pid < 0 {
                harness("fork");
            }
            if pid == 0 {
                unsafe {
                    prctl(1, 9, 0, 0, 0);
                }
                for i in (w..each).step_by(8) {
                    if start.elapsed().as_secs() > 20 {
                        break;
                    }
                    let s = mix(run_seed(job, i), 0x1EA51 + round);
                    let _ = execute(job, mix(s, 7), Src::generate(s), false);
                }
                unsafe { _exit(0) }
            }
            pids.push(pid);
        }
        for p in pids {
            unsafe {
                waitpid(p, &mut 0, 0);
            }
        }
        learn::record_at(0);
        learn::set(learn::read(at));
    }
}
const LESSONS: u64 = 400;

fn run_seed(job: &Job, run: u64) -> u64 {
    mix(mix(job.seed, hash_bytes(job.prop.as_bytes())), run)
}
fn run(job: &Job, i: u64, record: bool) -> Outcome {
    let s = run_seed(job, i);
    execute(job, mix(s, 7), Src::generate(s), record)
}
/// A script is always run with the hash seeds of the run it comes from.
fn replay(job: &Job, entropy: u64, script: &[u64], record: bool) -> Outcome {
    execute(job, entropy, Src::replay(script.to_vec()), record)
}

// ---------------------------------------------------------------- a batch

#[derive(Default)]
struct Batch {
    runs: u64,
    evals: u64,
    sim_us: u64,
    digest: u64,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    max: BTreeMap<String, u64>,
    cases: HashSet<u64>,
    states: HashSet<u64>,
    edges: BTreeSet<u64>,
    known_edges: u64,
    samples: Vec<(u64, String)>,
    hashes: Vec<(u64, u64)>,
    worst: Option<(u64, Outcome)>,
    cpu_max: u64,
    slowest: u64,
    cut: bool,
}

fn batch(job: &Job, first: u64, runs: u64, workers: u64, wall: f64) -> Batch {
    let start = Instant::now();
    let stop = shared(4096) as *const AtomicU64;
    unsafe {
        (*stop).store(u64::MAX, SeqCst);
    }
    let mut fds = Vec::new();
    let mut pids = Vec::new();
    for w in 0..workers {
        let (r, wr) = pipe();
        let pid = unsafe { fork() };
        if pid < 0 {
            harness("fork");
        }
        if pid == 0 {
            unsafe {
                close(r);
                prctl(1, 9, 0, 0, 0);
            }
            let mut j = job.clone();
            if !j.scratch.is_empty() {
                j.scratch = format!("{}/{}", j.scratch, w);
                let _ = std::fs::create_dir_all(&j.scratch);
            }
            let mut i = first + w;
            let mut cut = 0u64;
            while i < first + runs && i < unsafe { (*stop).load(SeqCst) } {
                if start.elapsed().as_secs_f64() > wall {
                    cut = 1;
                    break;
                }
                let o = run(&j, i, false);
                if o.bad.is_some() {
                    unsafe {
                        (*stop).fetch_min(i, SeqCst);
                    }
                }
                let b = o.encode();
                let mut m = Enc::default();
                m.u(i);
                m.s(&b);
                write_all(wr, &m.0);
                i += workers;
            }
            let mut m = Enc::default();
            m.u(u64::MAX);
            m.u(cut);
            write_all(wr, &m.0);
            unsafe { _exit(0) }
        }
        unsafe {
            close(wr);
        }
        fds.push(r);
        pids.push(pid);
    }
    let mut b = Batch::default();
    let mut bufs: Vec<Vec<u8>> = fds.iter().map(|_| Vec::new()).collect();
    let mut done = vec![false; fds.len()];
    let mut ended = vec![false; fds.len()];
    let mut chunk = vec![0u8; 1 << 18];
    while !ended.iter().all(|e| *e) {
        let mut ps: Vec<PollFd> =
            fds.iter().zip(&ended).map(|(f, e)| PollFd { fd: if *e { -1 } else { *f }, events: 1, revents: 0 }).collect();
        unsafe {
            poll(ps.as_mut_ptr(), ps.len() as u64, 1000);
        }
        for (k, p) in ps.iter().enumerate() {
            if p.revents == 0 {
                continue;
            }
            let n = unsafe { read(fds[k], chunk.as_mut_ptr(), chunk.len()) };
            if n <= 0 {
                ended[k] = true;
                continue;
            }
            bufs[k].extend_from_slice(&chunk[..n as usize]);
            let mut at = 0;
            loop {
                let rest = &bufs[k][at..];
                if rest.len() < 16 {
                    break;
                }
                let i = u64::from_le_bytes(rest[..8].try_into().unwrap());
                let len = u64::from_le_bytes(rest[8..16].try_into().unwrap()) as usize;
                if i == u64::MAX {
                    done[k] = true;
                    b.cut |= len == 1;
                    break;
                }
                if rest.len() < 16 + len {
                    break;
                }
                match Outcome::decode(&rest[16..16 + len]) {
                    Some(o) => b.take(i, o),
                    None => harness("a worker's message is broken"),
                }
                at += 16 + len;
            }
            bufs[k].drain(..at);
        }
    }
    for (k, p) in pids.iter().enumerate() {
        let mut st = 0;
        unsafe {
            close(fds[k]);
            waitpid(*p, &mut st, 0);
        }
        if !done[k] {
            harness("a worker ended early");
        }
    }
    b
}

impl Batch {
    fn take(&mut self, i: u64, o: Outcome) {
        self.runs += 1;
        self.evals += o.evals;
        self.sim_us += o.now;
        if o.cpu_us > self.cpu_max {
            self.cpu_max = o.cpu_us;
            self.slowest = i;
        }
        self.digest = self.digest.wrapping_add(mix(i, o.hash));
        self.hashes.push((i, o.hash));
        for (k, v) in &o.faults {
            *self.faults.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &o.probes {
            *self.probes.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &o.max {
            let e = self.max.entry(k.clone()).or_insert(0);
            *e = (*e).max(*v);
        }
        if self.cases.len() < 20_000_000 {
            self.cases.extend(o.cases.iter());
        }
        if self.states.len() < 20_000_000 {
            self.states.extend(o.states.iter());
        }
        self.edges.extend(o.edges.iter());
        self.known_edges = self.known_edges.max(o.known_edges);
        if !o.sample.is_empty() {
            self.samples.push((i, o.sample.clone()));
            self.samples.sort();
            self.samples.truncate(4);
        }
        if o.bad.is_some() && self.worst.as_ref().map_or(true, |w| i < w.0) {
            self.worst = Some((i, o));
        }
    }
}

// ---------------------------------------------------------------- minimisation

struct Shrink<'a> {
    job: &'a Job,
    entropy: u64,
    class: String,
    best: Vec<u64>,
    execs: u64,
    start: Instant,
}
impl<'a> Shrink<'a> {
    fn over(&self) -> bool {
        self.execs >= 4000 || self.start.elapsed().as_secs_f64() > 25.0
    }
    fn fails(&mut self, c: &[u64]) -> bool {
        if self.over() {
            return false;
        }
        self.execs += 1;
        match replay(self.job, self.entropy, c, false).bad {
            Some((class, _)) => class == self.class,
            None => false,
        }
    }
    fn try_it(&mut self, c: Vec<u64>) -> bool {
        if c != self.best && self.fails(&c) {
            self.best = c;
            while self.best.last() == Some(&0) {
                self.best.pop();
            }
            return true;
        }
        false
    }
    fn go(&mut self) {
        // the shortest failing prefix
        let (mut lo, mut hi) = (0, self.best.len());
        while lo < hi && !self.over() {
            let mid = (lo + hi) / 2;
            let c = self.best[..mid].to_vec();
            if self.fails(&c) {
                hi = mid;
            } else {
                lo = mid + 1;
            }
        }
        if hi < self.best.len() {
            let c = self.best[..hi].to_vec();
            self.try_it(c);
        }
        loop {
            let before = self.best.clone();
            let mut n = (self.best.len() / 2).max(1);
            loop {
                let mut i = 0;
                while i < self.best.len() && !self.over() {
                    let e = (i + n).min(self.best.len());
                    let mut c = self.best.clone();
                    c.drain(i..e);
                    if self.try_it(c) {
                        continue;
                    }
                    if self.best[i..e].iter().any(|x| *x != 0) {
                        let mut c = self.best.clone();
                        for x in &mut c[i..e] {
                            *x = 0;
                        }
                        self.try_it(c);
                    }
                    i += n;
                }
                if n == 1 || self.over() {
                    break;
                }
                n /= 2;
            }
            let mut i = 0;
            while i < self.best.len() && !self.over() {
                let mut step = self.best[i];
                while step > 0 && i < self.best.len() && !self.over() {
                    if step <= self.best[i] {
                        let mut c = self.best.clone();
                        c[i] -= step;
                        if self.try_it(c) {
                            continue;
                        }
                    }
                    step /= 2;
                }
                i += 1;
            }
            if self.best == before || self.over() {
                break;
            }
        }
    }
}

// ---------------------------------------------------------------- files

fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7F => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn obj<V: std::fmt::Display>(m: &BTreeMap<String, V>) -> String {
    let l: Vec<String> = m.iter().map(|(k, v)| format!("{}: {}", q(k), v)).collect();
    format!("{{{}}}", l.join(", "))
}

struct Violation {
    run: u64,
    entropy: u64,
    choices: Vec<u64>,
    original: usize,
    execs: u64,
    out: Outcome,
    reproduces: bool,
}

fn write_replay(path: &str, job: &Job, v: &Violation) {
    let (class, msg) = v.out.bad.clone().unwrap_or_default();
    let mut s = String::from("{\n");
    s.push_str(&format!("\"property\": {},\n", q(&job.prop)));
    s.push_str(&format!("\"tier\": {},\n", q(if job.thorough { "thorough" } else { "quick" })));
    s.push_str(&format!("\"seed\": {},\n", job.seed));
    s.push_str(&format!("\"run\": {},\n", v.run));
    s.push_str(&format!("\"entropy\": \"{}\",\n", v.entropy));
    s.push_str(&format!("\"class\": {},\n", q(&class)));
    s.push_str(&format!("\"message\": {},\n", q(&msg)));
    s.push_str(&format!("\"hash\": \"{:016x}\",\n", v.out.hash));
    s.push_str(&format!("\"reproduces\": {},\n", v.reproduces));
    s.push_str(&format!("\"choices_before_minimising\": {},\n", v.original));
    s.push_str(&format!("\"executions_while_minimising\": {},\n", v.execs));
    let c: Vec<String> = v.choices.iter().map(|x| x.to_string()).collect();
    s.push_str(&format!("\"choices\": [{}],\n", c.join(",")));
    let c: Vec<String> = learn::nums().iter().map(|x| x.to_string()).collect();
    s.push_str(&format!("\"numbers_compared_with\": [{}],\n", c.join(",")));
    let c: Vec<String> = learn::texts().iter().map(|x| hex(x.as_bytes())).collect();
    s.push_str(&format!("\"texts_compared_with\": \"{}\",\n", c.join(",")));
    s.push_str(&format!("\"image\": \"{}\",\n", hex(&v.out.image[..v.out.image.len().min(70_000)])));
    let t: Vec<String> = v.out.log.iter().filter(|l| !l.is_empty()).take(5000).map(|l| q(l)).collect();
    s.push_str(&format!("\"trace\": [\n{}\n]\n}}\n", t.join(",\n")));
    if std::fs::write(path, s).is_err() {
        harness("cannot write the replay file");
    }
}

fn field(text: &str, key: &str) -> Option<String> {
    let p = format!("\"{}\": ", key);
    text.lines().find(|l| l.starts_with(&p)).map(|l| l[p.len()..].trim_end_matches(',').trim_matches('"').to_string())
}

fn do_replay(path: &str, scratch: String) -> i32 {
    let text = std::fs::read_to_string(path).unwrap_or_else(|_| harness("cannot read the replay file"));
    let get = |k: &str| field(&text, k).unwrap_or_else(|| harness("not a replay file"));
    let job = Job {
        prop: get("property"),
        seed: get("seed").parse().unwrap_or(0),
        thorough: get("tier") == "thorough",
        scratch,
    };
    let choices: Vec<u64> = get("choices")
        .trim_matches(|c| c == '[' || c == ']')
        .split(',')
        .filter_map(|x| x.trim().parse().ok())
        .collect();
    let entropy = get("entropy").parse().unwrap_or(1);
    let nums = get("numbers_compared_with").trim_matches(|c| c == '[' || c == ']').split(',').filter_map(|x| x.trim().parse().ok()).collect();
    let texts = get("texts_compared_with").split(',').filter(|x| !x.is_empty()).filter_map(ctx::unhex).collect();
    learn::set(learn::Learned { nums, texts });
    let o = replay(&job, entropy, &choices, true);
    for l in &o.log {
        println!("{}", l);
    }
    match o.bad {
        Some((class, msg)) => {
            println!("{}: {}", class, msg);
            let same = class == get("class") && format!("{:016x}", o.hash) == get("hash");
            println!("{}", if same { "same outcome as recorded" } else { "NOT the outcome recorded" });
            if class == "HARNESS" {
                return 2;
            }
            println!("VIOLATION property={} replay={}", job.prop, path);
            1
        }
        None => {
            println!("the recorded choices no longer break {}", job.prop);
            0
        }
    }
}

// ---------------------------------------------------------------- a check

fn quick_runs(prop: &str) -> u64 {
    match prop {
        "C12" => 1500,
        "C18" => 4000,
        "C14" | "C27" => 7000,
        "C13" => 12000,
        "C16" => 20000,
        "C01" | "C15" | "C26" => 25000,
        _ => 40000,
    }
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}

fn rule(prop: &str) -> &'static str {
    match prop {
        "C02" => "one evaluation is one parse of a proper prefix (of an accepted delivery, or as torn by the simulated disk); distinct by file and cut",
        "C03" => "one evaluation is one delivery judged by the reference decoder's length rule; counted as non-trivial when the reference found a wrong length; distinct by content",
        "C04" => "one evaluation is one file with damage inside one attribute's body; counted as non-trivial when it was accepted and so compared; distinct by content",
        "C11" | "C12" | "C13" | "C26" => "one evaluation is one operation on the pool checked against the model; non-trivial: distinct histories of operations",
        "C14" => "one evaluation is one parse under a schedule compared with the same parse alone; non-trivial: distinct (schedule, images) pairs",
        "C27" => "one evaluation is one operation of a session under a schedule compared with the same operation alone; non-trivial: distinct (schedule, sessions) pairs",
        "C23" => "one evaluation is one measured parse, part of a pool's history, or descriptor; distinct by content",
        "C24" => "one evaluation is one string parsed as one kind of descriptor and its error judged; distinct by content",
        "C25" => "one evaluation is one file with a damaged discriminator and more damage behind it; distinct by content",
        "C20" | "C21" => "one evaluation is one string, as read from a delivery or damaged further, parsed and judged by the reference grammar; distinct by content",
        "C22" => "one evaluation is one pair of constants of a history compared; non-trivial: distinct constants",
        "C17" => "one evaluation is one accepted file with one damaged discriminator; distinct by content",
        "C18" => "one evaluation is one execution of the dump program; distinct by (file, sequence of system call results)",
        _ => "one evaluation is one delivery parsed and judged; non-trivial when it contains the parts the property is about; distinct by content",
    }
}

fn check(args: &[String]) -> i32 {
    let prop = args[0].clone();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let num = |n: &str| arg(args, n).and_then(|v| v.parse::<f64>().ok());
    let scratch = std::env::var("SIM_SCRATCH").unwrap_or_default();
    let job = Job { prop: prop.clone(), seed, thorough, scratch };
    let workers = num("--workers").map_or(8, |v| v as u64).max(1);
    let base = quick_runs(&prop);
    let runs = num("--runs").map_or(if thorough { base * 40 } else { base }, |v| v as u64);
    let wall = num("--wall").unwrap_or(if thorough { 600.0 } else { 100.0 });
    let out = arg(args, "--evidence").unwrap_or_else(|| format!("evidence/{}.json", prop));
    let replays = arg(args, "--replays").unwrap_or_else(|| "replays".to_string());

    let t0 = Instant::now();
    learn(&job);
    let b = batch(&job, num("--first").map_or(0, |v| v as u64), runs, workers, wall);
    let searched = t0.elapsed().as_secs_f64();

    // the first and last runs once more: one seed is one execution
    let mut again = 0u64;
    let mut same = 0u64;
    let mut job1 = job.clone();
    if !job1.scratch.is_empty() {
        job1.scratch.push_str("/x");
        let _ = std::fs::create_dir_all(&job1.scratch);
    }
    if b.worst.is_none() {
        let mut h = b.hashes.clone();
        h.sort();
        let step = (h.len() / 12).max(1);
        for (i, x) in h.iter().step_by(step) {
            again += 1;
            if run(&job1, *i, false).hash == *x {
                same += 1;
            } else {
                eprintln!("note: run {} was not the same execution again", i);
            }
        }
    }

    let mut violation = None;
    if let Some((i, ref first)) = b.worst {
        let (class, msg) = first.bad.clone().unwrap();
        if class == "HARNESS" {
            eprintln!("run {}", i);
            harness(&msg);
        }
        eprintln!("run {}: {}: {}", i, class, msg);
        let s = run_seed(&job, i);
        let entropy = mix(s, 7);
        // a crashed run cannot report its choices; its seed still makes them
        let rec = run(&job1, i, true);
        let mut choices = rec.choices.clone();
        if choices.is_empty() {
            let mut r = src::Rng::new(s);
            let mut v = Vec::new();
            for _ in 0..200_000 {
                v.push(r.next());
            }
            choices = v;
        }
        let crashed = rec.choices.is_empty();
        let mut out = rec;
        let mut execs = 0;
        let original = choices.len();
        let reproduces = out.bad.as_ref().map_or(false, |x| x.0 == class);
        if !reproduces {
            eprintln!("note: the run did not fail the same way again");
            out = first.clone();
        } else if !crashed {
            let mut sh = Shrink { job: &job1, entropy, class: class.clone(), best: choices.clone(), execs: 0, start: Instant::now() };
            if class != "hang" && !args.iter().any(|a| a == "--unminimised") {
                sh.go();
            }
            execs = sh.execs;
            choices = sh.best;
            out = replay(&job1, entropy, &choices, true);
        } else {
            // scripts take choices modulo what is asked for only when generated; find them by replaying
            let (c, e) = crash_choices(&job1, s, entropy, &class);
            choices = c;
            execs = e;
            let o = replay(&job1, entropy, &choices, true);
            out = Outcome { hash: o.hash, bad: o.bad, image: if o.image.is_empty() { out.image } else { o.image }, log: o.log, ..out };
        }
        violation = Some(Violation { run: i, entropy, choices, original, execs, out, reproduces });
    }

    let path = format!("{}/{}.json", replays, prop);
    if let Some(ref v) = violation {
        let _ = std::fs::create_dir_all(&replays);
        write_replay(&path, &job, v);
    }
    evidence(&out, &job, &b, searched, again, same, violation.as_ref(), t0.elapsed().as_secs_f64(), workers);
    println!(
        "{}: {} runs, {} evaluations, {} distinct cases, {} distinct states, {}/{} edges, digest {:016x}, {:.1} s{}",
        prop, b.runs, b.evals, b.cases.len(), b.states.len(), b.edges.len(), b.known_edges, b.digest, searched,
        if b.cut { " (stopped by the clock)" } else { "" }
    );
    match violation {
        Some(v) => {
            let (class, msg) = v.out.bad.clone().unwrap_or_default();
            println!("{}: {}", class, msg);
            println!("VIOLATION property={} replay={}", prop, path);
            1
        }
        None => 0,
    }
}

/// A run that kills its process: its choices are recorded outside of it.
fn crash_choices(job: &Job, seed: u64, entropy: u64, class: &str) -> (Vec<u64>, u64) {
    src::mirror(shared(src::MIRROR * 8 + 8) as usize);
    let _ = execute(job, entropy, Src::generate(seed), false);
    let c = src::mirrored();
    src::mirror(0);
    let mut sh = Shrink { job, entropy, class: class.to_string(), best: c, execs: 0, start: Instant::now() };
    if class != "hang" {
        sh.go();
    }
    (sh.best, sh.execs)
}

#[allow(clippy::too_many_arguments)]
fn evidence(path: &str, job: &Job, b: &Batch, searched: f64, again: u64, same: u64, v: Option<&Violation>, wall: f64, workers: u64) {
    let per_hour = |n: f64| (n / searched.max(0.001) * 3600.0).round();
    let mut samples: Vec<String> = b.samples.iter().map(|(i, s)| format!("{{\"run\": {}, \"what\": {}}}", i, q(s))).collect();
    if let Some(v) = v {
        let (c, m) = v.out.bad.clone().unwrap_or_default();
        samples.insert(0, format!("{{\"run\": {}, \"violation\": {}}}", v.run, q(&format!("{}: {}", c, m))));
    }
    let (real, stub): (&[&str], &[&str]) = match job.prop.as_str() {
        "C18" => (
            &["examples/basic_read_class.rs and the jbcrs crate as built from /repo, std, kernel pipes and processes"],
            &["results of open, stat, read, write and getrandom: decided by a preloaded library according to the run's plan"],
        ),
        "C14" | "C27" => (
            &["the jbcrs crate as built from /repo, std, real threads"],
            &["thread scheduler (one thread at a time, switched at compiler-inserted edges), futex waits, hash seeds, clock"],
        ),
        "C11" | "C12" | "C13" | "C22" | "C26" => (
            &["the jbcrs crate as built from /repo, std"],
            &["the clients, their connections and crashes (simulated)", "hash seeds"],
        ),
        "C23" => (
            &["the jbcrs crate as built from /repo, std"],
            &["disk, page cache, writers, readers (simulated)", "hash seeds", "heap (metered, capped)", "memcpy and memmove (counted)"],
        ),
        _ => (
            &["the jbcrs crate as built from /repo, std"],
            &["disk, page cache, writers, readers (simulated)", "hash seeds", "heap (metered, capped)"],
        ),
    };
    let arr = |l: &[&str]| l.iter().map(|s| q(s)).collect::<Vec<_>>().join(", ");
    let states_rule = match job.prop.as_str() {
        "C14" | "C27" => "distinct sequences of (step, thread) context switches, plus distinct edge-hit signatures of single parses",
        "C18" => "distinct sequences of system call results",
        "C11" | "C12" | "C13" | "C26" => "distinct model states reached",
        "C22" => "distinct sets of constants compared",
        _ => "distinct signatures of a parse: which edges of the crate's control flow were taken, and how often (by power of two)",
    };
    let s = format!(
        "{{\n\"property\": {},\n\"tier\": {},\n\"seed\": {},\n\"level\": \"exploration\",\n\"coverage\": {{\n\
         \"evaluations\": {},\n\"distinct_nontrivial\": {},\n\"rule\": {},\n\"samples\": [{}],\n\
         \"simulated_runs\": {},\n\"seeds_per_hour\": {},\n\"evaluations_per_hour\": {},\n\"simulated_time_s\": {:.6},\n\
         \"faults_injected\": {},\n\"probes\": {},\n\"maxima\": {},\n\
         \"distinct_states\": {},\n\"distinct_states_measure\": {},\n\
         \"numbers_and_texts_learned\": [{}, {}],\n\
         \"edges_reached\": {},\n\"edges_known\": {},\n\
         \"batch_digest\": \"{:016x}\",\n\"runs_executed_again\": {},\n\"of_those_identical\": {},\n\
         \"longest_run_cpu_ms\": {},\n\"longest_run\": {},\n\"workers\": {},\n\"stopped_by_clock\": {},\n\
         \"ran_real_code\": [{}],\n\"ran_a_stub\": [{}]\n}},\n\
         \"assumptions\": [{}],\n\"wall_s\": {:.2},\n\"violations\": {}\n}}\n",
        q(&job.prop), q(if job.thorough { "thorough" } else { "quick" }), job.seed,
        b.evals, b.cases.len(), q(rule(&job.prop)), samples.join(", "),
        b.runs, per_hour(b.runs as f64), per_hour(b.evals as f64), b.sim_us as f64 / 1e6,
        obj(&b.faults), obj(&b.probes), obj(&b.max),
        b.states.len(), q(states_rule),
        learn::nums().len(), learn::texts().len(),
        b.edges.len(), b.known_edges,
        b.digest, again, same,
        b.cpu_max / 1000, b.slowest, workers, b.cut,
        arr(real), arr(stub),
        arr(&[
            "the simulator's reference decoder and models were written from the JVM specification and the properties, and are trusted",
            "a seeded search: what no run reached is not covered",
        ]),
        wall, v.is_some() as u32
    );
    if let Some(d) = std::path::Path::new(path).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    if std::fs::write(path, s).is_err() {
        harness("cannot write the evidence file");
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    // the same addresses every time
    unsafe {
        let p = personality(0xFFFF_FFFF);
        if p >= 0 && p & 0x0004_0000 == 0 && std::env::var_os("SIM_FIXED").is_none() {
            personality(p as u64 | 0x0004_0000);
            use std::os::unix::process::CommandExt;
            let e = std::process::Command::new(std::env::current_exe().unwrap()).args(&args).env("SIM_FIXED", "1").exec();
            eprintln!("note: addresses are not fixed: {}", e);
        }
    }
    std::panic::set_hook(Box::new(|i| {
        let on = sys::meter_pause();
        let s = format!("{}", i);
        if let Ok(mut l) = LAST.lock() {
            *l = s;
        }
        sys::meter_resume(on);
    }));
    let scratch = std::env::var("SIM_SCRATCH").unwrap_or_default();
    let code = match args.first().map(|s| s.as_str()) {
        Some("replay") if args.len() > 1 => do_replay(&args[1], scratch),
        Some("one") if args.len() > 2 => {
            // sim one C05 17: that run, with its log
            let job = Job {
                prop: args[1].clone(),
                seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
                thorough: std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false),
                scratch,
            };
            learn(&job);
            let o = run(&job, args[2].parse().unwrap_or(0), true);
            for l in &o.log {
                println!("{}", l);
            }
            println!("{:?}\nhash {:016x}, {} choices, {} us of cpu\nimage {}", o.bad, o.hash, o.choices.len(), o.cpu_us, hex(&o.image));
            0
        }
        Some("learn") if args.len() > 1 => {
            // sim learn C05: what would be learned
            let job = Job {
                prop: args[1].clone(),
                seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
                thorough: false,
                scratch,
            };
            learn(&job);
            println!("{:x?}\n{:?}", learn::nums(), learn::texts());
            0
        }
        Some("digest") if args.len() > 1 => {
            // sim digest C05 --runs 100: the same with several numbers of workers
            let job = Job {
                prop: args[1].clone(),
                seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
                thorough: false,
                scratch,
            };
            let n = arg(&args, "--runs").and_then(|v| v.parse().ok()).unwrap_or(200);
            learn(&job);
            let d: Vec<u64> = [8u64, 3, 1].iter().map(|w| batch(&job, 0, n, *w, 1e9).digest).collect();
            println!("{}: {} runs, digests {:016x?}", args[1], n, d);
            (d[0] != d[1] || d[1] != d[2]) as i32 * 2
        }
        Some(p) if p.len() == 3 && p.starts_with('C') => check(&args),
        _ => {
            eprintln!("usage: sim C01..C27 [--runs n] [--wall s] [--workers n] | sim replay FILE | sim one C05 RUN | sim digest C05");
            2
        }
    };
    let _ = std::io::stdout().flush();
    let _ = bad::<()>;
    std::process::exit(code)
}
