//! C23: how much work it takes. Steps are edges of the crate's control flow, counted by the simulator;
//! what happens below it is counted in bytes moved and bytes allocated.

use crate::ctx::{bad, Ctx, Res};
use crate::gen::{self, Focus};
use crate::oracle::{self, ANYTHING};
use crate::src::{hash_bytes, Src};
use crate::sys;
use crate::world::{self, Taste, World};
use jbcrs::basic::{Item, Pool, ReferenceKind};
use jbcrs::{MethodDescriptor, TypeDescriptor};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// So much of each is allowed per byte of input, and this much more in any case.
struct Bound {
    what: &'static str,
    steps: (u64, u64),
    bytes: (u64, u64),
}
const PARSE: Bound = Bound { what: "parsing", steps: (200, 20_000), bytes: (1000, 300_000) };
const POOL: Bound = Bound { what: "operations on a pool", steps: (400, 20_000), bytes: (1000, 300_000) };
const DESC: Bound = Bound { what: "reading and printing a descriptor", steps: (50, 20_000), bytes: (800, 100_000) };

fn measure(ctx: &mut Ctx, b: &Bound, n: u64, names: [&'static str; 2], f: &mut dyn FnMut()) -> Res {
    let (s, m) = (sys::steps(), sys::moved());
    sys::meter_start();
    let r = catch_unwind(AssertUnwindSafe(f));
    let t = sys::meter_stop().total;
    let (s, m) = (sys::steps() - s, sys::moved() - m);
    sys::edges_done();
    if r.is_err() {
        // not for this property to judge
        ctx.probe("panicked");
        return Ok(());
    }
    ctx.evals += 1;
    for (k, used, per) in [(0, s, b.steps), (1, m.max(t), b.bytes)] {
        let bound = per.0 * n + per.1;
        ctx.maximum(names[k], used * 1000 / bound);
        if used > bound {
            let unit = ["steps", "bytes moved or allocated"][k];
            return bad("too much work", format!("{} of size {} took {} {}, more than {} * {} + {}", b.what, n, used, unit, per.0, n, per.1));
        }
    }
    Ok(())
}

fn parse(ctx: &mut Ctx, img: &[u8]) -> Res {
    crate::note_image(img);
    ctx.cases.push(hash_bytes(img));
    let mut accepted = false;
    let r = measure(ctx, &PARSE, img.len() as u64, ["parse: steps in permille of the bound", "parse: bytes in permille of the bound"], &mut || {
        let r = jbcrs::basic::parse(img);
        accepted = r.is_ok();
    });
    ctx.probe(if accepted { "accepted" } else { "refused" });
    if r.is_err() {
        ctx.image = Some(img.to_vec());
    }
    r
}

fn bulk(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (mut img, label) = gen::bulk(src, gen::Focus::Mixed);
    ctx.probe(label);
    ctx.ev("file of bytes", &[img.len() as u64, hash_bytes(&img)]);
    let at = |src: &mut Src, n: usize| if src.chance(500) { n - 1 - src.usize(n.min(60)) } else { src.usize(n) };
    match src.below(6) {
        0 => {
            let k = at(src, img.len());
            img.truncate(k);
            ctx.fault("read cut short");
        }
        1 => {
            for _ in 0..src.range(1, 4) {
                let k = at(src, img.len());
                img[k] = src.u8();
                ctx.fault("byte exchanged");
            }
        }
        2 => {
            // a block of it once more
            let (a, b) = (src.usize(img.len()), src.usize(img.len()));
            let part = img[a.min(b)..a.max(b)].to_vec();
            let k = at(src, img.len());
            img.splice(k..k, part);
            ctx.fault("blocks repeated");
        }
        _ => {}
    }
    parse(ctx, &img)
}

/// A history of a pool that grows large, and how long each part of it takes.
fn pool(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = 1u32 << src.range(4, 16);
    let n = n.min(65_000) - src.below(8) as u32;
    let n = if src.chance(100) { src.learned(65_000).map_or(n, |k| k as u32 + 8) } else { n };
    // one kind or all of them; which operands differ, and where in them
    let kinds = src.below(40);
    let shape = src.below(6) as u32;
    let mut pool = if src.chance(500) { Pool::new() } else { Pool::with_capacity(src.u16()) };
    let text = |i: u32| match shape {
        0 => format!("x{}", i),
        1 => format!("{}{:05}", "com/example/a/rather/long/package/name/with/many/parts/".repeat(1), i),
        2 => format!("{:05}/com/example/a/rather/long/package/name/with/many/parts", i),
        3 => format!("com/example/a/rather/{:05}/package/name/with/many/parts", i),
        4 => ((i & 63) + 40).to_string() + &"a".repeat((i >> 6) as usize % 64) + &i.to_string(),
        _ => i.to_string(),
    };
    let wide = |i: u32| match shape {
        0 => u64::from(i),
        1 => u64::from(i) << 16,
        2 => u64::from(i) << 32,
        3 => u64::from(i) << 48 | 1,
        4 => (f64::from(i) + 0.5).to_bits(),
        _ => u64::from(i) << 32 | u64::from(i),
    };
    let half = |i: u32| match shape {
        0 => i,
        1 => i << 16,
        2 => i.reverse_bits(),
        3 => (i as f32).to_bits(),
        4 => !i,
        _ => i << 8,
    };
    let two = |i: u32| {
        let k = i as u16;
        match shape {
            0 => (k, 1),
            1 => (1, k),
            2 => (k, k),
            3 => (k, !k),
            4 => (k & 255, k >> 8),
            _ => (k >> 8, k & 255),
        }
    };
    let make = |i: u32| -> Item {
        let k = i as u16;
        let (a, b) = two(i);
        match if kinds < 16 { kinds as u32 } else { i % 16 } {
            0 => Item::Integer(half(i) as i32),
            1 => Item::UTF8(text(i)),
            2 => Item::Class(k),
            3 => Item::MethodRef { class: a, name_and_type: b },
            4 => Item::Float(f32::from_bits(half(i))),
            5 => Item::NameAndType { name: a, desc: b },
            6 => Item::String(k),
            7 => Item::Long(wide(i) as i64),
            8 => Item::Double(f64::from_bits(wide(i))),
            9 => Item::FieldRef { class: a, name_and_type: b },
            10 => Item::InterfaceMethodRef { class: a, name_and_type: b },
            11 => Item::InvokeDynamic { bootstrap_method_attribute: a, name_and_type: b },
            12 => Item::MethodHandle { kind: ReferenceKind::InvokeStatic, index: k },
            13 => Item::MethodType(k),
            14 => Item::Module(k),
            _ => Item::Package(k),
        }
    };
    ctx.ev("pool of constants", &[u64::from(n), kinds, u64::from(shape)]);
    ctx.cases.push(crate::src::mix(u64::from(n), kinds << 8 | u64::from(shape)));
    let names = ["pool: steps in permille of the bound", "pool: bytes in permille of the bound"];
    let mut items: Vec<Item> = (0..n).map(&make).collect();
    let again: Vec<Item> = items.clone();
    let mut last = 0;
    measure(ctx, &POOL, u64::from(n), names, &mut || {
        for it in items.drain(..) {
            if let Ok(i) = pool.push(it) {
                last = i;
            }
        }
    })?;
    // again, when all are there (or the pool is full)
    let mut again = again;
    measure(ctx, &POOL, u64::from(n), names, &mut || {
        for it in again.drain(..) {
            let _ = pool.push(it);
        }
    })?;
    measure(ctx, &POOL, u64::from(n), names, &mut || {
        for (i, it) in pool.iter() {
            last = last.max(i);
            std::hint::black_box(it);
        }
    })?;
    measure(ctx, &POOL, u64::from(n), names, &mut || {
        for i in 0..=n.min(65535) as u16 {
            let _ = pool.get(i).is_ok();
            let _ = pool.get_utf8(i).is_ok();
            let _ = pool.get_class_name(i).is_ok();
            let _ = pool.get_class_name_opt(i).is_ok();
            std::hint::black_box((pool.len(), pool.is_empty()));
        }
    })?;
    ctx.probe("pool filled, filled again, iterated, looked up");
    Ok(())
}

fn descriptor(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut s = gen::descriptor(src);
    let n = 1usize << src.range(1, 16);
    let n = if src.chance(100) { src.learned(65_000).map_or(n, |k| k as usize + 1) } else { n };
    s = match src.below(7) {
        0 => s.repeat(n / s.len().max(1) + 1),
        1 => format!("({})V", s.repeat(n / s.len().max(1) + 1)),
        2 => format!("L{};", src.pick(&["a", "é", "a/", "/", "[", "L", "\u{10000}"]).repeat(n)),
        3 => format!("(L{};){}", "a/b".repeat(n), s),
        4 => "[".repeat(n) + &s,
        5 => format!("({}", s.repeat(n / s.len().max(1) + 1)),
        _ => format!("({}){}", format!("L{};", "é".repeat(n / 200)).repeat(255), s),
    };
    if src.chance(300) {
        s = gen::twist(src, &s);
        ctx.fault("character lost, repeated or exchanged");
    }
    ctx.cases.push(hash_bytes(s.as_bytes()));
    ctx.ev("descriptor", &[s.len() as u64]);
    measure(ctx, &DESC, s.len() as u64, ["descriptor: steps in permille of the bound", "descriptor: bytes in permille of the bound"], &mut || {
        if let Ok(t) = s.parse::<TypeDescriptor>() {
            std::hint::black_box(t.to_string());
        }
        if let Ok(t) = s.parse::<MethodDescriptor>() {
            std::hint::black_box(t.to_string());
        }
    })?;
    ctx.probe("descriptor read and printed");
    Ok(())
}

pub fn c23(src: &mut Src, ctx: &mut Ctx) -> Res {
    match src.below(20) {
        0..=2 => {
            let focus = *src.pick(&[Focus::Mixed, Focus::Pool, Focus::Members, Focus::Code, Focus::Annot, Focus::Frames, Focus::Tables, Focus::Text]);
            let taste = Taste { focus, marks: ANYTHING, calm: 6, corpus: true, crafted: true };
            World::new(src, ctx, taste).run(&mut |src, ctx, d| {
                parse(ctx, &d.bytes)?;
                if let Some(ref v) = d.intact {
                    let mut img = v.bytes.clone();
                    if let Some(ref dec) = v.dec {
                        let m = &dec.marks[src.usize(dec.marks.len())];
                        if world::poke(src, ctx, &mut img, m) {
                            ctx.fault("misdirected small write (structure-aware)");
                            parse(ctx, &img)?;
                        }
                    }
                    if let Some(img) = oracle::stopped_inside(src, ctx, v) {
                        parse(ctx, &img)?;
                    }
                }
                Ok(())
            })
        }
        3 | 4 => pool(src, ctx),
        5 | 6 => {
            for _ in 0..4 {
                descriptor(src, ctx)?;
            }
            Ok(())
        }
        _ => {
            for _ in 0..4 {
                bulk(src, ctx)?;
            }
            Ok(())
        }
    }
}
