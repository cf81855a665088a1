//! C14: real threads, one of which runs at any time, preempted at any edge of the code under test.

use crate::canon;
use crate::ctx::{bad, Ctx, Res};
use crate::gen::{self, Focus};
use crate::oracle::{parse, Got};
use crate::src::{hash_bytes, mix, Src};
use crate::sys;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

fn outcome(b: &[u8]) -> (u64, String) {
    match parse(b) {
        Got::Class(p, c) => {
            let s = format!("{:?}", canon::class(&p, &c));
            let it: Vec<u16> = p.iter().map(|x| x.0).collect();
            (mix(hash_bytes(s.as_bytes()), hash_bytes(format!("{:?}", it).as_bytes())), format!("accepted, {} constants", it.len()))
        }
        Got::Err(e) => {
            let s = format!("refused with {:?}", e);
            (hash_bytes(s.as_bytes()), s)
        }
        Got::Panic => (0, "panicked".to_string()),
    }
}

/// Annotation values nested this deep, ended early or not.
fn nested(depth: usize, whole: bool) -> Vec<u8> {
    let mut o = vec![0xCA, 0xFE, 0xBA, 0xBE, 0, 0, 0, 52, 0, 2];
    o.extend_from_slice(&gen::utf8_const("AnnotationDefault"));
    o.extend_from_slice(&[0; 6]);
    o.extend_from_slice(&[0; 6]);
    let mut b = Vec::new();
    for _ in 0..depth {
        b.extend_from_slice(&[b'[', 0, 1]);
    }
    if whole {
        b.extend_from_slice(&[b'I', 0, 1]);
    }
    o.extend_from_slice(&[0, 1, 0, 1]);
    o.extend_from_slice(&(b.len() as u32).to_be_bytes());
    o.extend_from_slice(&b);
    o
}

/// Names only, of which one or another ends in the middle of a character.
fn names(src: &mut Src) -> Vec<u8> {
    let n = src.range(1, 5);
    let mut o = vec![0xCA, 0xFE, 0xBA, 0xBE, 0, 0, 0, 52, 0, n as u8 + 1];
    for _ in 0..n {
        let whole = gen::utf8_const(&gen::string(src, 12));
        let mut b = whole[3..].to_vec();
        if src.chance(400) {
            let tail: &[u8] = *src.pick(&[&[0xED, 0xA0, 0xBD][..], &[0xED, 0xB0, 0x80], &[0xC3], &[0xE2, 0x82], &[0xED, 0xA0, 0xBD, 0xED], &[0xED, 0xAF, 0xBF, 0x61], &[0xF0, 0x9F], &[0], &[0xC0]]);
            b.extend_from_slice(tail);
        }
        o.push(1);
        o.extend_from_slice(&(b.len() as u16).to_be_bytes());
        o.extend_from_slice(&b);
    }
    o.extend_from_slice(&[0; 14]);
    o
}

fn image(src: &mut Src, ctx: &mut Ctx) -> Vec<u8> {
    if src.chance(120) {
        return names(src);
    }
    match src.below(10) {
        0 => nested(src.range(1, 60) as usize, true),
        1 => {
            ctx.fault("read cut short");
            nested(src.range(1, 60) as usize, false)
        }
        2 => crate::world::CORPUS[src.usize(6)].to_vec(),
        k => {
            let f = *src.pick(&[Focus::Mixed, Focus::Pool, Focus::Members, Focus::Code, Focus::Annot, Focus::Frames, Focus::Tables, Focus::Text]);
            let mut b = gen::class(src, f);
            if k >= 7 {
                let inside = if src.chance(500) { crate::oracle::stopped_inside(src, ctx, &crate::world::version(b.clone())) } else { None };
                if let Some(stopped) = inside {
                    b = stopped;
                } else if src.chance(500) {
                    let n = src.usize(b.len());
                    b.truncate(n);
                    ctx.fault("read cut short");
                } else {
                    let at = src.usize(b.len());
                    b[at] ^= 1 << src.below(8);
                    ctx.fault("bit flip");
                }
            }
            b
        }
    }
}

/// An image that is almost another one: same names, mostly the same contents, often the same length.
fn relative(src: &mut Src, ctx: &mut Ctx, images: &[Vec<u8>]) -> Vec<u8> {
    let mut b = images[src.usize(images.len())].clone();
    if b.is_empty() {
        return b;
    }
    let n = b.len();
    match src.below(6) {
        0 => {
            let k = src.usize(n);
            b.truncate(k);
            ctx.fault("read cut short");
        }
        1 => {
            // from the end of another one
            let o = &images[src.usize(images.len())];
            let k = src.usize(n.min(o.len()) + 1);
            b.truncate(k);
            b.extend_from_slice(&o[k.min(o.len())..]);
            ctx.fault("torn between versions");
        }
        k => {
            for _ in 0..src.range(1, 3) {
                // near the end as often as anywhere
                let at = if k < 4 { n - 1 - src.usize(n.min(100)) } else { src.usize(n) };
                b[at] = if src.chance(500) { b[at] ^ 1 << src.below(8) } else { src.below(4) as u8 };
            }
            ctx.fault("bytes of another version");
        }
    }
    b
}

/// The outcome of an image out of a buffer that held others before, wherever in it the image begins.
fn through(buf: &mut Option<Vec<u8>>, b: &[u8], at: usize) -> (u64, String) {
    match *buf {
        Some(ref mut v) if at + b.len() <= v.capacity() => {
            // what is before and behind the image stays as it was
            if v.len() < at + b.len() {
                v.resize(at + b.len(), 0xAA);
            }
            v[at..at + b.len()].copy_from_slice(b);
            outcome(&v[at..at + b.len()])
        }
        _ => outcome(b),
    }
}

pub fn c14(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = 2 + src.usize(5);
    let mut images: Vec<Vec<u8>> = Vec::new();
    for i in 0..n {
        let b = if i > 0 && src.chance(450) {
            relative(src, ctx, &images)
        } else {
            image(src, ctx)
        };
        images.push(b);
    }
    // what each is, parsed alone in a process that has parsed nothing
    let mut alone: Vec<(u64, String)> = Vec::new();
    for b in &images {
        let seed = src.below(1 << 32);
        let one = || {
            std::thread::scope(|s| {
                s.spawn(|| {
                    sys::set_entropy(seed);
                    outcome(b)
                })
                .join()
                .unwrap_or((1, "the thread died".to_string()))
            })
        };
        alone.push(crate::elsewhere(one).unwrap_or((1, "the process died".to_string())));
    }
    for (b, a) in images.iter().zip(&alone) {
        ctx.ev("image bytes/hash/outcome", &[b.len() as u64, hash_bytes(b), a.0]);
    }
    let check = |ctx: &mut Ctx, i: usize, got: &(u64, String), when: &str| -> Res {
        ctx.evals += 1;
        if got.0 != alone[i].0 {
            return bad(
                "outcome differs",
                format!("the same {} bytes: alone {}; {} {}", images[i].len(), alone[i].1, when, if got.1 == alone[i].1 { "with other contents" } else { &got.1 }),
            );
        }
        Ok(())
    };

    // ---------------- a long history on one thread
    if src.chance(if ctx.thorough { 30 } else { 12 }) {
        let long = if src.chance(300) { 70_000 } else { 3_000u64 };
        let tiny: Vec<usize> = (0..n).filter(|i| images[*i].len() < if long > 5000 { 60 } else { 400 }).collect();
        let own = nested(3, src.chance(500));
        let last = src.usize(n);
        ctx.probe("long histories");
        ctx.ev("long history of", &[long]);
        for k in 0..long as usize {
            if tiny.is_empty() {
                if let Got::Panic = parse(&own) {
                    break;
                }
                continue;
            }
            let i = tiny[k % tiny.len()];
            let r = outcome(&images[i]);
            check(ctx, i, &r, "in a long history")?;
        }
        for i in 0..n {
            let r = outcome(&images[(i + last) % n]);
            check(ctx, (i + last) % n, &r, "after a long history")?;
        }
    }

    // ---------------- interleaved
    let t = 2 + src.usize(3);
    let style = src.below(4);
    let mut jobs: Vec<Vec<usize>> = Vec::new();
    for _ in 0..t {
        let k = if src.chance(150) { src.range(20, 80) } else { src.range(1, 5) };
        jobs.push((0..k).map(|_| src.usize(n)).collect());
    }
    // a reader may use one buffer for everything it reads
    let most = images.iter().map(|b| b.len()).max().unwrap_or(0);
    let reuse: Vec<bool> = (0..t).map(|_| src.chance(500)).collect();
    if reuse.contains(&true) {
        ctx.fault("buffer used for one file after the other");
    }
    let seeds: Vec<u64> = (0..t).map(|_| src.below(1 << 40)).collect();
    let clocks: Vec<u64> = (0..t).map(|_| 1 + src.below(1 << 50)).collect();
    for j in &jobs {
        ctx.ev("thread with parses", &[j.len() as u64]);
    }
    ctx.fault("hash seed changed");
    ctx.fault("clock jump");
    let results: Arc<Mutex<Vec<(usize, usize, (u64, String))>>> = Arc::new(Mutex::new(Vec::new()));
    let shared = Arc::new(images.clone());
    let mut tasks: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    for (who, js) in jobs.iter().enumerate() {
        let (js, shared, results, clock, reuse) = (js.clone(), shared.clone(), results.clone(), clocks[who], reuse[who]);
        tasks.push(Box::new(move || {
            let mut mine = Vec::new();
            let mut buf = if reuse { Some(Vec::with_capacity(most + 16)) } else { None };
            for (k, i) in js.into_iter().enumerate() {
                sys::set_clock(clock + k as u64 * 977);
                mine.push((who, i, through(&mut buf, &shared[i], (clock as usize + if clock & 16 == 0 { k * 5 } else { 0 }) % 16)));
            }
            results.lock().unwrap().extend(mine);
        }));
    }
    // the scheduler's choices come out of the run's one source
    let moved = Rc::new(RefCell::new(std::mem::replace(src, Src::replay(vec![]))));
    let inner = moved.clone();
    let mut left = if ctx.thorough { 3000 } else { 700 };
    let mut turn = 1u64;
    let out = sys::interleave(
        tasks,
        &seeds,
        Box::new(move |n| {
            let mut s = inner.borrow_mut();
            if left == 0 {
                // whoever has to wait now gives way to any other
                turn = turn.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                return (u64::MAX, (turn >> 33) as usize % n);
            }
            left -= 1;
            let q = match style {
                0 => s.below(6),
                1 => s.below(60),
                2 => s.below(1500),
                _ => match s.below(3) {
                    0 => s.below(3),
                    1 => s.below(100),
                    _ => s.below(4000),
                },
            };
            (q, s.usize(n))
        }),
    );
    *src = std::mem::replace(&mut *moved.borrow_mut(), Src::replay(vec![]));
    ctx.now += out.steps;
    let mut h = 0;
    for (at, who) in &out.trace {
        h = mix(h, at << 3 | u64::from(*who));
    }
    ctx.states.push(h);
    ctx.ev("interleaved steps/switches/waits/order", &[out.steps, out.switches, out.waits, h]);
    if ctx.record {
        let s: Vec<String> = out.trace.iter().take(300).map(|(at, w)| format!("{}:{}", at, w)).collect();
        ctx.log.push(format!("schedule (step:thread) {}", s.join(" ")));
    }
    *ctx.faults.entry("preemption inside the parser").or_insert(0) += out.switches;
    if out.waits > 0 {
        ctx.probe("runs in which a thread had to wait for a lock");
    }
    if out.deadlock {
        return bad("deadlock", "all threads wait for each other".to_string());
    }
    let mut all = match results.lock() {
        Ok(r) => r.clone(),
        Err(_) => return bad("outcome differs", "a thread died".to_string()),
    };
    all.sort();
    if all.len() != jobs.iter().map(|j| j.len()).sum::<usize>() {
        return bad("outcome differs", "a thread died".to_string());
    }
    for (who, i, got) in &all {
        let r = check(ctx, *i, got, &format!("interleaved, on thread {},", who));
        if r.is_err() {
            ctx.image = Some(images[*i].clone());
            return r;
        }
    }
    ctx.cases.push(mix(h, alone.iter().fold(0, |a, x| mix(a, x.0))));
    // and once more, afterwards
    let mut buf = Some(Vec::with_capacity(most + 16));
    for i in 0..n {
        let r = through(&mut buf, &images[i], (clocks[0] as usize + i * 3) % 16);
        check(ctx, i, &r, "after everything else")?;
    }
    if ctx.sample.is_none() {
        ctx.sample = Some(format!(
            "{} threads, {} parses of {} images, {} switches in {} steps, all outcomes as alone",
            t, all.len(), n, out.switches, out.steps
        ));
    }
    Ok(())
}
