//! C27: several pools and descriptors in use at once, on one thread and on others. What each of them
//! answers has to be what it answers when nothing else is going on.

use crate::canon;
use crate::ctx::{bad, Ctx, Res};
use crate::gen::{self, Focus};
use crate::oracle::err;
use crate::pools;
use crate::src::{hash_bytes, mix, Src};
use crate::sys;
use jbcrs::basic::{Item, Pool};
use jbcrs::{Error, MethodDescriptor, TypeDescriptor};
use std::cell::RefCell;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::{Arc, Mutex};

#[derive(Clone)]
enum Start {
    New,
    Sized(u16),
    Default,
    /// read from a class file, if it is one
    File(Arc<Vec<u8>>),
}

#[derive(Clone)]
enum Op {
    Push(Item),
    Get(u16),
    Last,
    /// a class of what was pushed last
    PushClass,
    NameLast,
    Utf8(u16),
    Name(u16),
    NameOpt(u16),
    Iterate(u16),
    Length,
    Hash(Item),
    Same(Item, Item),
    Type(String),
    Method(String),
    Parse(Arc<Vec<u8>>),
}

/// What one user does with one pool.
#[derive(Clone)]
pub struct Session {
    start: Start,
    ops: Vec<Op>,
}

impl Session {
    /// Roughly, in operations: what is large takes as long as many that are not.
    fn cost(&self) -> usize {
        let file = match self.start {
            Start::File(ref f) => f.len(),
            _ => 0,
        };
        let ops = self.ops.iter().map(|o| match *o {
            Op::Parse(ref b) => b.len(),
            Op::Type(ref t) | Op::Method(ref t) => t.len(),
            _ => 0,
        });
        (file + ops.sum::<usize>()) / 64
    }
}

struct User {
    pool: Pool,
    last: u16,
    done: usize,
    answers: Vec<String>,
}

fn show<T>(r: Result<T, Error>, f: impl FnOnce(T) -> String) -> String {
    match r {
        Ok(x) => f(x),
        Err(Error::InvalidDescriptor { desc, at }) => format!("descriptor {:?} at {}", desc, at),
        Err(e) => format!("{:?}", err(&e)),
    }
}

fn begin(s: &Start) -> User {
    let pool = match *s {
        Start::New => Pool::new(),
        Start::Sized(n) => Pool::with_capacity(n),
        Start::Default => Pool::default(),
        Start::File(ref b) => match jbcrs::basic::parse(b) {
            Ok((p, _)) => p,
            Err(_) => Pool::new(),
        },
    };
    User { pool, last: 0, done: 0, answers: Vec::new() }
}

fn item(it: &Item) -> String {
    format!("{:?}", canon::item(it))
}

/// The next operation of a session. The hasher is always the same one.
fn step(u: &mut User, s: &Session) {
    let op = &s.ops[u.done];
    u.done += 1;
    let r = catch_unwind(AssertUnwindSafe(|| match *op {
        Op::Push(ref it) => {
            let r = u.pool.push(it.clone());
            if let Ok(i) = r {
                u.last = i;
            }
            show(r, |i| i.to_string())
        }
        Op::Get(i) => show(u.pool.get(i), item),
        Op::PushClass => {
            let r = u.pool.push(Item::Class(u.last));
            if let Ok(i) = r {
                u.last = i;
            }
            show(r, |i| i.to_string())
        }
        Op::NameLast => show(u.pool.get_class_name(u.last), |s| format!("{:?}", s)),
        Op::Last => show(u.pool.get(u.last), item),
        Op::Utf8(i) => show(u.pool.get_utf8(i), |s| format!("{:?}", s)),
        Op::Name(i) => show(u.pool.get_class_name(i), |s| format!("{:?}", s)),
        Op::NameOpt(i) => show(u.pool.get_class_name_opt(i), |s| format!("{:?}", s)),
        Op::Iterate(n) => {
            let mut h = 0;
            let mut k = 0;
            for (i, it) in u.pool.iter().take(usize::from(n)) {
                h = mix(mix(h, u64::from(i)), hash_bytes(item(it).as_bytes()));
                k += 1;
            }
            format!("{} constants, {:x}", k, h)
        }
        Op::Length => format!("{} {}", u.pool.len(), u.pool.is_empty()),
        Op::Hash(ref it) => {
            let mut h = pools::Recorder::default();
            it.hash(&mut h);
            format!("{:x}", h.finish())
        }
        Op::Same(ref a, ref b) => (*a == *b).to_string(),
        Op::Type(ref t) => show(t.parse::<TypeDescriptor>(), |d| format!("{:?} {}", d, d)),
        Op::Method(ref t) => show(t.parse::<MethodDescriptor>(), |d| format!("{:?} {}", d, d)),
        Op::Parse(ref b) => show(jbcrs::basic::parse(b), |(p, c)| format!("{:x}", hash_bytes(format!("{:?}", canon::class(&p, &c)).as_bytes()))),
    }));
    u.answers.push(r.unwrap_or_else(|_| "panicked".to_string()));
}

fn whole(s: &Session) -> Vec<String> {
    let mut u = begin(&s.start);
    while u.done < s.ops.len() {
        step(&mut u, s);
    }
    u.answers
}

fn digest(a: &[String]) -> u64 {
    a.iter().fold(0, |h, x| mix(h, hash_bytes(x.as_bytes())))
}

fn op(src: &mut Src, seen: &mut Vec<Item>, texts: &mut Vec<String>, files: &[Arc<Vec<u8>>]) -> Op {
    let index = |src: &mut Src| if src.chance(100) { src.u16() } else { src.below(40) as u16 };
    let text = |src: &mut Src, texts: &mut Vec<String>| {
        let t = match src.below(4) {
            0 if !texts.is_empty() => texts[src.usize(texts.len())].clone(),
            1 if !texts.is_empty() => {
                let k = src.usize(texts.len());
                gen::twist(src, &texts[k].clone())
            }
            _ => gen::descriptor(src),
        };
        texts.push(t.clone());
        t
    };
    let it = |src: &mut Src, seen: &mut Vec<Item>| {
        let x = match src.below(4) {
            0 if !seen.is_empty() => seen[src.usize(seen.len())].clone(),
            1 if !seen.is_empty() => {
                let k = src.usize(seen.len());
                pools::twin(src, &seen[k].clone())
            }
            _ => pools::item(src),
        };
        seen.push(x.clone());
        x
    };
    match src.below(28) {
        24 => Op::Push(Item::UTF8(text(src, texts))),
        25 => Op::PushClass,
        26 | 27 => Op::NameLast,
        0..=8 => Op::Push(it(src, seen)),
        9 => Op::Get(index(src)),
        10 => Op::Last,
        11 => Op::Utf8(index(src)),
        12 => Op::Name(index(src)),
        13 => Op::NameOpt(index(src)),
        14 => Op::Iterate(src.below(50) as u16),
        15 => Op::Length,
        16 => Op::Hash(it(src, seen)),
        17 => Op::Same(it(src, seen), it(src, seen)),
        18..=20 => Op::Type(text(src, texts)),
        21 | 22 => Op::Method(text(src, texts)),
        _ => match files.first() {
            Some(_) => Op::Parse(files[src.usize(files.len())].clone()),
            None => Op::Length,
        },
    }
}

fn session(src: &mut Src, seen: &mut Vec<Item>, texts: &mut Vec<String>, files: &[Arc<Vec<u8>>]) -> Session {
    let start = match src.below(5) {
        0 => Start::New,
        1 => Start::Sized(if src.chance(500) { src.below(20) as u16 } else { src.u16() }),
        2 => Start::Default,
        _ => files.first().map_or(Start::New, |_| Start::File(files[src.usize(files.len())].clone())),
    };
    let many = if src.chance(100) { 300 } else { 40 };
    let mut ops: Vec<Op> = (0..src.range(1, many)).map(|_| op(src, seen, texts, files)).collect();
    if src.chance(250) {
        // a class, and what it is called
        let name = op(src, seen, texts, files);
        let at = src.usize(ops.len() + 1);
        let mut named = vec![match name {
            Op::Type(t) | Op::Method(t) | Op::Push(Item::UTF8(t)) => Op::Push(Item::UTF8(t)),
            _ => Op::Push(Item::UTF8(gen::descriptor(src))),
        }];
        named.extend(vec![Op::PushClass, Op::NameLast, Op::NameLast]);
        ops.splice(at..at, named);
    }
    Session { start, ops }
}

/// C16: nothing is left of a session.
pub fn leaves(src: &mut Src, ctx: &mut Ctx, file: &[u8]) -> Res {
    let files = vec![Arc::new(file.to_vec())];
    let s = session(src, &mut Vec::new(), &mut Vec::new(), &files);
    ctx.evals += 1;
    sys::meter_start();
    let (from, moved) = (sys::steps(), sys::moved());
    for _ in 0..3 {
        whole(&s);
    }
    let cost = 1 + (sys::steps() - from) / 3 + (sys::moved() - moved + sys::meter_now().total as u64) / 300;
    let times = 1 + (200_000 / cost).min(100);
    ctx.ev("session again and again", &[s.ops.len() as u64, times]);
    let mut grown = isize::MAX;
    // what is kept once, however late, is not what is kept each time
    for _ in 0..2 {
        let before = sys::meter_now().live;
        for _ in 0..times {
            whole(&s);
        }
        grown = grown.min(sys::meter_now().live - before);
    }
    sys::meter_stop();
    if grown > 0 {
        return bad("leak", format!("after {} more of the same {} operations on a pool and descriptors, {} bytes more of the heap are used", times, s.ops.len(), grown));
    }
    Ok(())
}

pub fn c27(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut files = Vec::new();
    for _ in 0..src.below(3) {
        let focus = *src.pick(&[Focus::Pool, Focus::Text, Focus::Desc, Focus::Mixed]);
        let mut b = gen::class(src, focus);
        if src.chance(300) {
            let n = src.usize(b.len());
            b.truncate(n);
            ctx.fault("read cut short");
        }
        files.push(Arc::new(b));
    }
    let n = 2 + src.usize(5);
    let (mut seen, mut texts) = (Vec::new(), Vec::new());
    let mut sessions: Vec<Session> = Vec::new();
    for k in 0..n {
        let from = if k > 0 && src.chance(500) { Some(sessions[src.usize(k)].clone()) } else { None };
        let s = match from {
            // nearly the same as another one
            Some(mut s) => {
                ctx.fault("session repeated with changes");
                for _ in 0..src.below(6) {
                    let at = src.usize(s.ops.len() + 1);
                    match src.below(4) {
                        0 => s.ops.truncate(at.max(1)),
                        1 if at < s.ops.len() => {
                            let b = src.usize(s.ops.len());
                            s.ops.swap(at, b);
                        }
                        2 if at < s.ops.len() => s.ops[at] = op(src, &mut seen, &mut texts, &files),
                        _ => s.ops.insert(at, op(src, &mut seen, &mut texts, &files)),
                    }
                }
                s
            }
            None => session(src, &mut seen, &mut texts, &files),
        };
        ctx.ev("session of operations", &[s.ops.len() as u64]);
        sessions.push(s);
    }
    // each alone, in a process in which nothing else has happened
    let mut alone = Vec::new();
    for s in &sessions {
        let seed = src.below(1 << 32);
        let one = || {
            std::thread::scope(|t| {
                t.spawn(|| {
                    sys::set_entropy(seed);
                    let a = whole(s);
                    (digest(&a), a.join("\u{2}"))
                })
                .join()
                .unwrap_or((1, "the thread died".to_string()))
            })
        };
        alone.push(crate::elsewhere(one).unwrap_or((1, "the process died".to_string())));
    }
    for a in &alone {
        ctx.ev("answers alone", &[a.0]);
    }
    let check = |ctx: &mut Ctx, i: usize, got: &[String], when: &str| -> Res {
        ctx.evals += got.len() as u64;
        if digest(got) == alone[i].0 {
            return Ok(());
        }
        let (k, was) = match alone[i].1.split('\u{2}').zip(got).enumerate().find(|(_, (a, b))| *a != b.as_str()) {
            Some((k, (a, _))) => (k, a),
            None => (0, "the process died"),
        };
        let now: String = got.get(k).map_or("", |x| &x[..]).chars().take(160).collect();
        let was: String = was.chars().take(160).collect();
        bad("answer differs", format!("operation {} of a session of {}: alone {}; {} {}", k, got.len(), was, when, now))
    };

    // ---------------- a long history on one thread
    if src.chance(60) {
        let mut left = *src.pick(&[3_000u64, 8_000, 8_000, 60_000]);
        // one or several that do not take long, in turns
        let weight = |i: usize| 2 + sessions[i].ops.len() + sessions[i].cost();
        let least = (0..n).map(weight).min().unwrap_or(2);
        let most = least * 4 + if src.chance(500) { 24 } else { 0 };
        let mut few: Vec<usize> = (0..n).filter(|&i| weight(i) <= most).collect();
        while few.len() > 3 {
            few.remove(src.usize(few.len()));
        }
        ctx.probe("long histories");
        ctx.ev("long history of sessions/operations", &[few.len() as u64, left]);
        for k in 0.. {
            let i = few[k % few.len()];
            check(ctx, i, &whole(&sessions[i]), "in a long history")?;
            left = left.saturating_sub(weight(i) as u64);
            if left == 0 {
                break;
            }
        }
        for i in 0..n {
            check(ctx, i, &whole(&sessions[i]), "after a long history")?;
        }
    }

    // ---------------- interleaved, on threads, each of which has several sessions
    let t = 1 + src.usize(4);
    let style = src.below(3);
    let mut jobs: Vec<Vec<usize>> = Vec::new();
    for _ in 0..t {
        jobs.push((0..src.range(1, 4)).map(|_| src.usize(n)).collect());
    }
    let turns: Vec<u64> = (0..t).map(|_| src.below(1 << 40)).collect();
    let seeds: Vec<u64> = (0..t).map(|_| src.below(1 << 40)).collect();
    ctx.fault("hash seed changed");
    let results: Arc<Mutex<Vec<(usize, usize, Vec<String>)>>> = Arc::new(Mutex::new(Vec::new()));
    let shared = Arc::new(sessions.clone());
    let mut tasks: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    for (who, js) in jobs.iter().enumerate() {
        let (js, shared, results, turn) = (js.clone(), shared.clone(), results.clone(), turns[who]);
        tasks.push(Box::new(move || {
            let mut users: Vec<(usize, User)> = js.iter().map(|&i| (i, begin(&shared[i].start))).collect();
            // whose turn it is follows from a number of the run's
            let mut x = turn | 1;
            loop {
                let open: Vec<usize> = (0..users.len()).filter(|&k| users[k].1.done < shared[users[k].0].ops.len()).collect();
                if open.is_empty() {
                    break;
                }
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                let k = open[(x >> 33) as usize % open.len()];
                let i = users[k].0;
                step(&mut users[k].1, &shared[i]);
            }
            results.lock().unwrap().extend(users.into_iter().map(|(i, u)| (who, i, u.answers)));
        }));
    }
    let moved = Rc::new(RefCell::new(std::mem::replace(src, Src::replay(vec![]))));
    let inner = moved.clone();
    let mut left = if ctx.thorough { 3000 } else { 500 };
    let mut turn = 1u64;
    let out = sys::interleave(
        tasks,
        &seeds,
        Box::new(move |n| {
            let mut s = inner.borrow_mut();
            if left == 0 {
                // whoever has to wait now gives way to any other
                turn = turn.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                return (u64::MAX, (turn >> 33) as usize % n);
            }
            left -= 1;
            let q = match style {
                0 => s.below(8),
                1 => s.below(150),
                _ => match s.below(3) {
                    0 => s.below(3),
                    1 => s.below(60),
                    _ => s.below(2000),
                },
            };
            (q, s.usize(n))
        }),
    );
    *src = std::mem::replace(&mut *moved.borrow_mut(), Src::replay(vec![]));
    ctx.now += out.steps;
    let mut h = 0;
    for (at, who) in &out.trace {
        h = mix(h, at << 3 | u64::from(*who));
    }
    ctx.states.push(h);
    ctx.ev("interleaved steps/switches/waits/order", &[out.steps, out.switches, out.waits, h]);
    if ctx.record {
        let s: Vec<String> = out.trace.iter().take(300).map(|(at, w)| format!("{}:{}", at, w)).collect();
        ctx.log.push(format!("schedule (step:thread) {}", s.join(" ")));
    }
    *ctx.faults.entry("preemption inside the crate").or_insert(0) += out.switches;
    if out.waits > 0 {
        ctx.probe("runs in which a thread had to wait for a lock");
    }
    if out.deadlock {
        return bad("deadlock", "all threads wait for each other".to_string());
    }
    let mut all = match results.lock() {
        Ok(r) => r.clone(),
        Err(_) => return bad("answer differs", "a thread died".to_string()),
    };
    all.sort();
    if all.len() != jobs.iter().map(|j| j.len()).sum::<usize>() {
        return bad("answer differs", "a thread died".to_string());
    }
    for (who, i, got) in &all {
        check(ctx, *i, got, &format!("interleaved, on thread {},", who))?;
    }
    ctx.cases.push(mix(h, alone.iter().fold(0, |a, x| mix(a, x.0))));
    // and once more, one after the other
    for (i, s) in sessions.iter().enumerate() {
        check(ctx, i, &whole(s), "after everything else")?;
    }
    if ctx.sample.is_none() {
        let ops: usize = all.iter().map(|x| x.2.len()).sum();
        ctx.sample = Some(format!("{} threads, {} sessions, {} operations, {} switches in {} steps, all answers as alone", t, all.len(), ops, out.switches, out.steps));
    }
    Ok(())
}
