//! The oracles over what readers were delivered. Each judges the code under test against the
//! reference decoder, against itself under a fault, or against a resource bound.

use crate::canon;
use crate::ctx::{bad, Ctx, Res};
use crate::gen::{self, Focus};
use crate::refdec::{self, AttrSpan, Decoded, Mark, Reject, Verdict, MK};
use crate::src::{hash_bytes, mix, Src};
use crate::sys;
use crate::v::{self, Group, Scope, V};
use crate::world::{self, Delivery, Taste, World};
use jbcrs::basic::{AccessFlags, Class, Pool};
use jbcrs::{Error, MethodDescriptor, TypeDescriptor};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, PartialEq, Debug)]
pub enum E {
    Io,
    Utf8,
    Limit,
    NotAClass,
    Cp(u16),
    TooLarge,
    Desc,
    Insn(u8, u32),
    Frame(u8),
    Verif(u8),
    Elem(u8),
    Target,
    Path,
    Other,
}

pub fn err(e: &Error) -> E {
    match *e {
        Error::IO(_) => E::Io,
        Error::InvalidUTF8 => E::Utf8,
        Error::LimitExceeded => E::Limit,
        Error::NotAClass => E::NotAClass,
        Error::InvalidCPItem(i) => E::Cp(i),
        Error::CPTooLarge => E::TooLarge,
        Error::InvalidDescriptor { .. } => E::Desc,
        Error::InvalidInstruction { op_code, at } => E::Insn(op_code, at),
        Error::ReservedStackMapFrame(x) => E::Frame(x),
        Error::InvalidVerificationType(x) => E::Verif(x),
        Error::InvalidElementValue(x) => E::Elem(x),
        Error::InvalidTargetType => E::Target,
        Error::InvalidTypePath => E::Path,
        #[allow(unreachable_patterns)]
        _ => E::Other,
    }
}

pub enum Got {
    Class(Pool, Class),
    Err(E),
    Panic,
}

pub fn parse(b: &[u8]) -> Got {
    crate::note_image(b);
    let r = catch_unwind(AssertUnwindSafe(|| jbcrs::basic::parse(b)));
    sys::edges_done();
    match r {
        Ok(Ok((p, c))) => Got::Class(p, c),
        Ok(Err(e)) => Got::Err(err(&e)),
        Err(_) => Got::Panic,
    }
}

fn canon_of(p: &Pool, c: &Class) -> V {
    match catch_unwind(AssertUnwindSafe(|| canon::class(p, c))) {
        Ok(v) => v,
        Err(_) => V::S("a lookup panicked".to_string()),
    }
}

fn sample(ctx: &mut Ctx, f: impl FnOnce() -> String) {
    if ctx.sample.is_none() {
        ctx.sample = Some(f());
    }
}

// ---------------------------------------------------------------- fidelity

pub struct Fidelity {
    pub scope: Scope,
    /// whose refusal of well-formed files is reported here; None: everything
    pub blame: Option<&'static [Blame]>,
    pub must: fn(&Reject) -> bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Blame {
    Pool,
    Header,
    In(Group),
}

pub fn judge_fidelity(f: &Fidelity, ctx: &mut Ctx, d: &Delivery, extra: &dyn Fn(&Decoded, &Pool, &Class) -> Option<String>) -> Res {
    let verdict = refdec::decode(&d.bytes);
    let got = parse(&d.bytes);
    ctx.evals += 1;
    match (&verdict, &got) {
        (Verdict::Accept(dec), Got::Class(p, c)) => {
            let v = canon_of(p, c);
            if let Some(m) = v::diff(&dec.class, &v, &f.scope, &mut String::new()) {
                return bad("misreported", format!("accepted, but {}", m));
            }
            if let Some(m) = extra(dec, p, c) {
                return bad("misreported", format!("accepted, but {}", m));
            }
            ctx.probe("accepted and compared");
            if d.intact.is_none() {
                ctx.probe("accepted although damaged, compared");
            }
            let relevant = (f.scope.pool && matches!(&dec.class, V::N(_, x) if matches!(&x[2], V::L(l) if !l.is_empty())))
                || f.scope.header
                || dec.attrs.iter().any(|a| f.scope.groups.contains(&a.group));
            if relevant {
                ctx.cases.push(hash_bytes(&d.bytes));
                sample(ctx, || {
                    format!(
                        "{} bytes, {}, {} attributes: parsed and reference trees equal",
                        d.bytes.len(),
                        if d.intact.is_some() { "as stored" } else { "damaged" },
                        dec.attrs.len()
                    )
                });
            }
        }
        (Verdict::Accept(dec), _) => {
            if !dec.lenient.is_empty() {
                ctx.probe("refused with allowance");
                return Ok(());
            }
            let why = match got {
                Got::Err(ref e) => format!("{:?}", e),
                _ => "a panic".to_string(),
            };
            let b = blame(&d.bytes, dec, &got);
            if f.blame.map_or(true, |l| l.contains(&b)) {
                return bad("refused", format!("well-formed, but refused with {} (cause: {:?})", why, b));
            }
            ctx.probe("refused for another property's reason");
        }
        (Verdict::Reject(r), Got::Class(..)) => {
            if (f.must)(r) {
                return bad("accepted", format!("has to be refused ({:?}), but was accepted", r));
            }
        }
        (Verdict::Reject(r), _) => {
            if (f.must)(r) {
                ctx.probe("undefined value refused");
                ctx.cases.push(hash_bytes(&d.bytes));
            }
        }
        (Verdict::Unknown, _) => {}
    }
    Ok(())
}

/// Which part of a refused well-formed file is to blame: the attribute without which it is accepted.
fn blame(b: &[u8], dec: &Decoded, got: &Got) -> Blame {
    if let Got::Err(E::Utf8) = *got {
        if !dec.attrs.iter().any(|a| a.group == Group::Text) {
            return Blame::Pool;
        }
    }
    // a constant with a name that means nothing goes at the end of the pool
    let flags = dec.marks.iter().find(|m| m.kind == MK::Flags).map(|m| m.off);
    let (pool_end, count) = match flags {
        Some(f) => (f, u16::from_be_bytes([b[8], b[9]])),
        None => return Blame::Pool,
    };
    if count == 0xFFFF {
        return Blame::Pool;
    }
    let mut base = b.to_vec();
    base[8..10].copy_from_slice(&(count + 1).to_be_bytes());
    let extra = [1u8, 0, 3, b'?', b'?', b'?'];
    base.splice(pool_end..pool_end, extra.iter().cloned());
    for a in dec.attrs.iter().rev() {
        let mut x = base.clone();
        x[a.head + extra.len()..a.head + extra.len() + 2].copy_from_slice(&count.to_be_bytes());
        if let Got::Class(..) = parse(&x) {
            return Blame::In(a.group);
        }
    }
    // without any attribute at all?
    let mut x = b[..pool_end].to_vec();
    x.extend_from_slice(&[0; 14]);
    match parse(&x) {
        Got::Class(..) => Blame::Header,
        _ => Blame::Pool,
    }
}

/// Every way to look something up in a parsed pool.
pub fn pool_lookups(dec: &Decoded, p: &Pool) -> Option<String> {
    let slots = match dec.class {
        V::N(_, ref c) => match c[2] {
            V::L(ref l) => l,
            _ => return None,
        },
        _ => return None,
    };
    let n = slots.len() + 1;
    if p.len() as usize != n {
        return Some(format!("the pool's length is {}, not {}", p.len(), n));
    }
    if p.is_empty() != (n == 1) {
        return Some(format!("is_empty() is {} for a length of {}", p.is_empty(), n));
    }
    let text = |i: u16| -> Option<&String> {
        match slots.get((i as usize).wrapping_sub(1)) {
            Some(V::N("utf8", v)) => match v[0] {
                V::S(ref s) => Some(s),
                _ => None,
            },
            _ => None,
        }
    };
    let mut check = |i: u16| -> Option<String> {
        let slot = slots.get((i as usize).wrapping_sub(1)).filter(|_| i != 0);
        let gap = match slot {
            None | Some(V::N("gap", _)) => true,
            _ => false,
        };
        match (p.get(i), gap) {
            (Ok(it), true) => return Some(format!("index {} is unusable, but resolves to {:?}", i, it)),
            (Err(e), false) => return Some(format!("index {} is refused with {:?}", i, e)),
            (Err(e), true) => {
                if err(&e) != E::Cp(i) {
                    return Some(format!("index {} is refused with {:?}", i, e));
                }
            }
            (Ok(_), false) => {}
        }
        match (p.get_utf8(i), text(i)) {
            (Ok(ref s), Some(t)) if s == t => {}
            (Err(_), None) => {}
            (g, t) => return Some(format!("get_utf8({}) gives {:?}, stored is {:?}", i, g.ok(), t)),
        }
        let class = match slot {
            Some(V::N("class_ref", v)) => match v[0] {
                V::I(x) => Some(x as u16),
                _ => None,
            },
            _ => None,
        };
        let name = class.and_then(|c| text(c));
        match (p.get_class_name(i), name) {
            (Ok(ref s), Some(t)) if s == t => {}
            (Err(_), None) => {}
            (g, t) => return Some(format!("get_class_name({}) gives {:?}, stored is {:?}", i, g.ok(), t)),
        }
        match (p.get_class_name_opt(i), class, name) {
            (Ok(None), Some(0), _) => {}
            (Ok(Some(ref s)), Some(_), Some(t)) if s == t => {}
            (Err(_), c, None) if c != Some(0) => {}
            (g, _, t) => return Some(format!("get_class_name_opt({}) gives {:?}, stored is {:?}", i, g.ok(), t)),
        }
        None
    };
    let all: Vec<u16> = if n < 400 {
        (0..n as u16 + 3).chain([0x7FFF, 0xFFFF].iter().cloned()).collect()
    } else {
        let k = (n / 300) as u16;
        (0..300u16).map(|i| i * k).chain(n as u16 - 3..=(n as u16).saturating_add(2)).chain([0xFFFF].iter().cloned()).collect()
    };
    match catch_unwind(AssertUnwindSafe(|| all.into_iter().filter_map(&mut check).next())) {
        Ok(r) => r,
        Err(_) => Some("a lookup panicked".to_string()),
    }
}

/// The access flags of the JVM specification.
pub fn named_flags(f: AccessFlags, stored: u16) -> Option<String> {
    macro_rules! named {
        ($($n:ident = $b:expr),* $(,)*) => {{
            $(
                if f.contains(AccessFlags::$n) != (stored & $b == $b) {
                    return Some(format!(
                        "of the stored flags {:#06x}, {} (bits {:#06x}) is reported as {}",
                        stored, stringify!($n), $b, f.contains(AccessFlags::$n)
                    ));
                }
            )*
        }};
    }
    include!("flags.in");
    None
}

fn header_flags(dec: &Decoded, _p: &Pool, c: &Class) -> Option<String> {
    let parts = match dec.class {
        V::N(_, ref x) => x,
        _ => return None,
    };
    let bits = |v: &V| match *v {
        V::I(x) => x as u16,
        _ => 0,
    };
    if let Some(m) = named_flags(c.access_flags, bits(&parts[3])) {
        return Some(m);
    }
    let member = |v: &V, i: usize| match *v {
        V::L(ref l) => match l[i] {
            V::N(_, ref x) => bits(&x[0]),
            _ => 0,
        },
        _ => 0,
    };
    for (i, f) in c.fields.iter().enumerate() {
        if let Some(m) = named_flags(f.access_flags, member(&parts[7], i)) {
            return Some(m);
        }
    }
    for (i, f) in c.methods.iter().enumerate() {
        if let Some(m) = named_flags(f.access_flags, member(&parts[8], i)) {
            return Some(m);
        }
    }
    None
}

fn nothing(_: &Decoded, _: &Pool, _: &Class) -> Option<String> {
    None
}
fn lookups(d: &Decoded, p: &Pool, _: &Class) -> Option<String> {
    pool_lookups(d, p)
}

const NONE: Scope = Scope { pool: false, pool_text: false, header: false, groups: &[] };

pub fn fidelity_world(prop: &str, src: &mut Src, ctx: &mut Ctx) -> Res {
    use Group::*;
    let any: &'static [MK] = &[MK::Opcode, MK::Operand, MK::SwitchBound, MK::WideOp, MK::ArrayKind, MK::CodeLen, MK::Count];
    let (focus, marks, f, extra): (Focus, &'static [MK], Fidelity, &dyn Fn(&Decoded, &Pool, &Class) -> Option<String>) = match prop {
        "C05" => (
            Focus::Pool,
            &[MK::CpTag, MK::CpNumber, MK::CpIndex, MK::HandleKind, MK::CpCount],
            Fidelity {
                scope: Scope { pool: true, pool_text: true, ..NONE },
                blame: Some(&[Blame::Pool]),
                must: |r| matches!(r, Reject::CpTag(..) | Reject::HandleKind(..)),
            },
            &lookups,
        ),
        "C06" => (
            *src.pick(&[Focus::Members, Focus::Mixed, Focus::Members, Focus::Mixed, Focus::Code, Focus::Annot, Focus::Frames, Focus::Tables, Focus::Pool, Focus::Text]),
            &[MK::Version, MK::Flags, MK::Index, MK::Count, MK::AttrName],
            Fidelity {
                scope: Scope { header: true, groups: &[Simple, Text], ..NONE },
                blame: None,
                must: |r| matches!(r, Reject::Magic | Reject::AttrName(..)),
            },
            &header_flags,
        ),
        "C07" => (
            Focus::Code,
            any,
            Fidelity {
                scope: Scope { groups: &[Code], ..NONE },
                blame: Some(&[Blame::In(Code)]),
                must: |r| matches!(r, Reject::Opcode { .. } | Reject::Table { .. }),
            },
            &nothing,
        ),
        "C08" => (
            Focus::Annot,
            &[MK::ElemTag, MK::Target, MK::PathKind, MK::Operand, MK::Index, MK::Count],
            Fidelity {
                scope: Scope { groups: &[Annot], ..NONE },
                blame: Some(&[Blame::In(Annot)]),
                must: |r| matches!(r, Reject::Elem(_) | Reject::Target(_) | Reject::Path(_)),
            },
            &nothing,
        ),
        "C09" => (
            Focus::Frames,
            &[MK::FrameType, MK::VerifTag, MK::Operand, MK::Index],
            Fidelity {
                scope: Scope { groups: &[Frames], ..NONE },
                blame: Some(&[Blame::In(Frames)]),
                must: |r| matches!(r, Reject::Frame(_) | Reject::Verif(_)),
            },
            &nothing,
        ),
        "C10" => (
            Focus::Tables,
            &[MK::Index, MK::Flags, MK::Count],
            Fidelity {
                scope: Scope { groups: &[Tables], ..NONE },
                blame: Some(&[Blame::In(Tables)]),
                must: |_| false,
            },
            &nothing,
        ),
        "C19" => (
            Focus::Text,
            &[MK::CpText, MK::Text, MK::CpText, MK::CpTextLen],
            Fidelity {
                scope: Scope { pool_text: true, groups: &[Text], ..NONE },
                blame: Some(&[Blame::Pool, Blame::In(Text)]),
                must: |r| matches!(r, Reject::Utf8(_)),
            },
            &nothing,
        ),
        _ => unreachable!(),
    };
    // some runs look elsewhere, so that parts meet
    let focus = if src.chance(120) { Focus::Mixed } else { focus };
    let taste = Taste { focus, marks, calm: 6, corpus: true, crafted: false };
    World::new(src, ctx, taste).run(&mut |src, ctx, d| {
        judge_fidelity(&f, ctx, d, extra)?;
        // the same file again, with small writes gone astray in the parts the property is about
        if let Some(ref v) = d.intact {
            if let Some(ref dec) = v.dec {
                let liked: Vec<&Mark> = dec.marks.iter().filter(|m| marks.contains(&m.kind)).collect();
                if !liked.is_empty() {
                    for _ in 0..src.below(4) {
                        let mut img = v.bytes.clone();
                        let n = if src.chance(800) { 1 } else { 2 };
                        for _ in 0..n {
                            let m = liked[src.usize(liked.len())];
                            if world::poke(src, ctx, &mut img, m) {
                                ctx.fault("misdirected small write (structure-aware)");
                            }
                        }
                        let d = Delivery { bytes: img, intact: None };
                        let r = judge_fidelity(&f, ctx, &d, extra);
                        if r.is_err() {
                            ctx.image = Some(d.bytes);
                            return r;
                        }
                    }
                }
            }
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- C01

const TYPES: [&str; 12] = [
    "", "I", "[", "[[[", "L", "L;", "Lx", "Ljava/lang/String;", "V", "II", "[V", "Lé;",
];

/// Everything a caller can do with what a parse returned.
fn walk(src_bits: u64, p: &mut Pool, c: &Class) -> usize {
    let mut n = 0;
    let v = canon::class(p, c);
    n += match v {
        V::N(_, ref x) => x.len(),
        _ => 0,
    };
    let len = p.len();
    for i in (0..len.min(300)).chain([len.saturating_sub(1), len, len.saturating_add(1), 0x7FFF, 0xFFFE, 0xFFFF].iter().cloned()) {
        n += p.get(i).is_ok() as usize;
        if let Ok(s) = p.get_utf8(i) {
            n += descriptors(&s);
        }
        n += p.get_class_name(i).is_ok() as usize;
        n += p.get_class_name_opt(i).is_ok() as usize;
    }
    n += p.iter().count();
    n += p.is_empty() as usize;
    if src_bits & 3 == 0 {
        n += format!("{:?}", c).len();
        n += format!("{:#?}", c.attributes).len();
    }
    // the caller goes on with the pool
    use jbcrs::basic::Item;
    for it in vec![
        Item::Integer(src_bits as i32),
        Item::Long(src_bits as i64),
        Item::UTF8(String::from("Code")),
        Item::Double(0.5),
        Item::Class(1),
    ] {
        if let Ok(i) = p.push(it) {
            n += p.get(i).is_ok() as usize;
        }
    }
    n += p.iter().count();
    n
}

fn descriptors(s: &str) -> usize {
    let mut n = 0;
    let t: Result<TypeDescriptor, _> = s.parse();
    if let Ok(t) = t {
        n += t.to_string().len();
    }
    let m: Result<MethodDescriptor, _> = s.parse();
    if let Ok(m) = m {
        n += m.to_string().len();
    }
    n
}

fn survive(bits: u64, b: &[u8]) -> Result<bool, String> {
    catch_unwind(AssertUnwindSafe(|| match jbcrs::basic::parse(b) {
        Ok((mut p, c)) => {
            walk(bits, &mut p, &c);
            true
        }
        Err(e) => {
            let _ = format!("{:?} {}", e, e);
            false
        }
    }))
    .map_err(|_| crate::last_panic())
}

pub fn c01(src: &mut Src, ctx: &mut Ctx) -> Res {
    let focus = *src.pick(&[Focus::Mixed, Focus::Pool, Focus::Members, Focus::Code, Focus::Annot, Focus::Frames, Focus::Tables, Focus::Text]);
    let taste = Taste { focus, marks: ANYTHING, calm: 12, corpus: true, crafted: true };
    World::new(src, ctx, taste).run(&mut |src, ctx, d| {
        let mut images = vec![d.bytes.clone()];
        if let Some(ref v) = d.intact {
            if let Some(ref dec) = v.dec {
                for _ in 0..src.below(5) {
                    let mut img = v.bytes.clone();
                    for _ in 0..src.range(1, 3) {
                        let m = &dec.marks[src.usize(dec.marks.len())];
                        if world::poke(src, ctx, &mut img, m) {
                            ctx.fault("misdirected small write (structure-aware)");
                        }
                    }
                    images.push(img);
                }
            }
        }
        if let Some(ref v) = d.intact {
            for _ in 0..src.below(6) {
                images.extend(stopped_inside(src, ctx, v));
            }
            for _ in 0..src.below(2) {
                images.extend(lone_attribute(src, ctx, v));
            }
        }
        if src.chance(60) {
            images.push(noise(src));
            ctx.fault("arbitrary bytes");
        }
        for img in images {
            ctx.evals += 1;
            ctx.cases.push(hash_bytes(&img));
            let bits = src.below(1 << 32);
            // what a crash would have to be attributed to
            crate::note_image(&img);
            match survive(bits, &img) {
                Ok(accepted) => ctx.probe(if accepted { "parsed and walked" } else { "refused" }),
                Err(m) => {
                    ctx.image = Some(img);
                    return bad("panic", format!("panicked: {}", m));
                }
            }
            sample(ctx, || format!("{} bytes, intact: {}", d.bytes.len(), d.intact.is_some()));
        }
        if src.chance(100) {
            // descriptors read from damaged strings
            let mut s = crate::gen::string(src, 10);
            s.insert_str(0, src.pick(&TYPES));
            if src.chance(200) {
                s = "[".repeat(src.usize(600)) + &s;
            }
            if src.chance(300) {
                s = format!("({}){}", s.repeat(src.usize(300)), src.pick(&TYPES));
            }
            ctx.evals += 1;
            if catch_unwind(AssertUnwindSafe(|| descriptors(&s))).is_err() {
                return bad("panic", format!("parsing the descriptor {:?} panicked: {}", s, crate::last_panic()));
            }
        }
        Ok(())
    })
}

fn noise(src: &mut Src) -> Vec<u8> {
    let mut b = Vec::new();
    if src.chance(700) {
        b.extend_from_slice(&[0xCA, 0xFE, 0xBA, 0xBE, 0, 0, 0, 52]);
    }
    for _ in 0..src.below(80) {
        let x = if src.chance(500) { src.below(4) as u8 } else { src.u8() };
        b.push(x);
    }
    b
}

pub const ANYTHING: &[MK] = &[
    MK::Count, MK::AttrLen, MK::CodeLen, MK::CpCount, MK::CpTextLen, MK::SwitchBound, MK::Opcode, MK::CpTag,
    MK::AttrName, MK::ElemTag, MK::FrameType, MK::VerifTag, MK::CpText, MK::Text, MK::Target, MK::WideOp,
];

// ---------------------------------------------------------------- C02

pub fn c02(src: &mut Src, ctx: &mut Ctx) -> Res {
    let focus = *src.pick(&[Focus::Mixed, Focus::Pool, Focus::Members, Focus::Code, Focus::Annot, Focus::Frames, Focus::Tables, Focus::Text]);
    let taste = Taste { focus, marks: &[MK::Operand, MK::Index, MK::Flags, MK::CpNumber, MK::CpIndex], calm: 3, corpus: true, crafted: false };
    let mut seen = Vec::new();
    World::new(src, ctx, taste).run(&mut |src, ctx, d| {
        let h = hash_bytes(&d.bytes);
        let dec = match refdec::decode(&d.bytes) {
            Verdict::Accept(dec) => dec,
            Verdict::Reject(Reject::Eof) => {
                // a torn or early-ended read
                ctx.evals += 1;
                ctx.cases.push(h);
                if let Got::Class(..) = parse(&d.bytes) {
                    return bad("prefix accepted", format!("{} bytes end in the middle, but were accepted", d.bytes.len()));
                }
                return Ok(());
            }
            _ => return Ok(()),
        };
        if seen.contains(&h) {
            return Ok(());
        }
        seen.push(h);
        match parse(&d.bytes) {
            Got::Class(..) => {}
            _ => return Ok(()),
        }
        let used = dec.used;
        let mut cuts: Vec<usize> = Vec::new();
        if used <= if ctx.thorough { 1200 } else { 220 } {
            cuts.extend(0..used);
        } else {
            for _ in 0..60 {
                // at, in and around the structures, or anywhere
                let m = &dec.marks[src.usize(dec.marks.len())];
                let c = match src.below(4) {
                    0 => m.off,
                    1 => m.off + m.len,
                    2 => m.off + src.usize(m.len + 1),
                    _ => src.usize(used),
                };
                if c < used {
                    cuts.push(c);
                }
            }
            cuts.push(used - 1);
            cuts.push(used - 2);
        }
        for c in cuts {
            ctx.evals += 1;
            ctx.cases.push(mix(h, c as u64));
            ctx.fault("read cut short");
            match parse(&d.bytes[..c]) {
                Got::Class(..) => {
                    ctx.image = Some(d.bytes[..c].to_vec());
                    return bad("prefix accepted", format!("the first {} of {} bytes were accepted as a class", c, used));
                }
                Got::Err(E::Limit) => {}
                Got::Err(e) => {
                    ctx.image = Some(d.bytes[..c].to_vec());
                    return bad("wrong diagnosis", format!("the first {} of {} bytes were refused with {:?}, not as ended early", c, used, e));
                }
                Got::Panic => {
                    ctx.image = Some(d.bytes[..c].to_vec());
                    return bad("wrong diagnosis", format!("the first {} of {} bytes made the parser panic", c, used));
                }
            }
        }
        ctx.ev("cut everywhere, of", &[used as u64]);
        sample(ctx, || format!("{} bytes cut at every or many places, all refused as ended early", used));
        Ok(())
    })
}

// ---------------------------------------------------------------- C03

fn put4(img: &mut [u8], at: usize, v: u32) {
    img[at..at + 4].copy_from_slice(&v.to_be_bytes());
}
fn get4(img: &[u8], at: usize) -> u32 {
    u32::from_be_bytes([img[at], img[at + 1], img[at + 2], img[at + 3]])
}

/// Changes the declared length of the attribute and of everything around it.
fn relen(img: &mut [u8], attrs: &[AttrSpan], inner: &AttrSpan, marks: &[Mark], at: usize, delta: i64, with_inner: bool) {
    for a in attrs {
        let around = a.head < inner.head && a.body + a.len >= inner.body + inner.len;
        if around || (with_inner && a.head == inner.head) {
            let v = get4(img, a.head + 2) as i64 + delta;
            put4(img, a.head + 2, v.max(0) as u32);
        }
    }
    let _ = (marks, at);
}

pub fn c03(src: &mut Src, ctx: &mut Ctx) -> Res {
    let focus = *src.pick(&[Focus::Mixed, Focus::Members, Focus::Code, Focus::Annot, Focus::Frames, Focus::Tables, Focus::Text]);
    let taste = Taste { focus, marks: &[MK::AttrLen, MK::CodeLen, MK::AttrLen, MK::Count], calm: 4, corpus: true, crafted: false };
    fn judge(ctx: &mut Ctx, img: Vec<u8>, what: &str) -> Res {
        ctx.evals += 1;
        let v = refdec::decode(&img);
        let got = parse(&img);
        let r = match (&v, &got) {
            (Verdict::Reject(Reject::Length), Got::Class(..)) => bad(
                "length not enforced",
                format!("{}: content does not fill, or leaves, its declared length, but was accepted", what),
            ),
            (Verdict::Reject(Reject::Eof), Got::Class(..)) => {
                bad("length not enforced", format!("{}: more is declared than there is, but was accepted", what))
            }
            (Verdict::Accept(dec), Got::Err(E::Limit)) if dec.lenient.is_empty() => {
                bad("length too strict", format!("{}: every length is right, but was refused as exceeding", what))
            }
            (Verdict::Accept(dec), Got::Class(p, c)) => {
                // an opaque attribute has to be exactly as long as declared
                let sc = Scope { groups: &[Group::Simple], ..NONE };
                let v = canon_of(p, c);
                match v::diff(&opaque(&dec.class), &opaque(&v), &sc, &mut String::new()) {
                    Some(m) => bad("length not enforced", format!("{}: {}", what, m)),
                    None => Ok(()),
                }
            }
            _ => Ok(()),
        };
        if let Verdict::Reject(Reject::Length) = v {
            ctx.probe("wrong length refused");
            ctx.cases.push(hash_bytes(&img));
            sample(ctx, || format!("{}: {} bytes, refused", what, img.len()));
        }
        if r.is_err() {
            ctx.image = Some(img);
        }
        r
    }
    World::new(src, ctx, taste).run(&mut |src, ctx, d| {
        judge(ctx, d.bytes.clone(), "as delivered")?;
        let v = match d.intact {
            Some(ref v) => v.clone(),
            None => return Ok(()),
        };
        let dec = match v.dec {
            Some(ref dec) if !dec.attrs.is_empty() => dec,
            _ => return Ok(()),
        };
        for _ in 0..src.below(5) {
            if let Some(img) = stopped_inside(src, ctx, &v) {
                judge(ctx, img, "an attribute that ends early")?;
            }
        }
        for _ in 0..src.range(1, 8) {
            let mut img = v.bytes.clone();
            let a = &dec.attrs[src.usize(dec.attrs.len())];
            let what;
            match src.below(6) {
                0 => {
                    // the length field alone
                    let new = match src.below(6) {
                        0 => a.len as u32 + 1,
                        1 => (a.len as u32).wrapping_sub(1),
                        2 => a.len as u32 + src.range(2, 12) as u32,
                        3 => src.usize(a.len + 1) as u32,
                        4 => *src.pick(&[0u32, 0xFFFF_FFFF, 0x7FFF_FFFF, 0x8000_0000, 0x1_0000]),
                        _ => (img.len() - a.body) as u32 + src.below(3) as u32,
                    };
                    put4(&mut img, a.head + 2, new);
                    what = "length field overwritten";
                    ctx.fault("length field overwritten");
                    ctx.ev("length of attribute at/new", &[a.head as u64, u64::from(new)]);
                }
                1 | 2 => {
                    // something is left over inside the attribute
                    let n = src.range(1, 6) as usize;
                    let at = a.body + if src.chance(800) { a.len } else { src.usize(a.len + 1) };
                    let junk: Vec<u8> = (0..n).map(|_| if src.chance(500) { 0 } else { src.u8() }).collect();
                    img.splice(at..at, junk);
                    relen(&mut img, &dec.attrs, a, &dec.marks, at, n as i64, true);
                    what = "stale bytes left inside an attribute";
                    ctx.fault("stale bytes inside an attribute");
                    ctx.ev("inserted at/bytes", &[at as u64, n as u64]);
                }
                3 => {
                    // something is missing inside the attribute
                    if a.len == 0 {
                        continue;
                    }
                    let n = src.range(1, (a.len as u64).min(8)) as usize;
                    let at = a.body + if src.chance(700) { a.len - n } else { src.usize(a.len - n + 1) };
                    img.drain(at..at + n);
                    relen(&mut img, &dec.attrs, a, &dec.marks, at, -(n as i64), true);
                    what = "bytes lost inside an attribute";
                    ctx.fault("bytes lost inside an attribute");
                    ctx.ev("removed at/bytes", &[at as u64, n as u64]);
                }
                4 => {
                    // lost bytes the attribute's own length does not know about
                    let n = src.range(1, 4) as u32;
                    put4(&mut img, a.head + 2, (a.len as u32).saturating_sub(n));
                    let at = a.body + a.len;
                    if src.chance(500) {
                        img.splice(at..at, vec![0u8; n as usize]);
                        relen(&mut img, &dec.attrs, a, &dec.marks, at, i64::from(n), false);
                    }
                    what = "length shorter than the content";
                    ctx.fault("length shorter than the content");
                    ctx.ev("shortened at/bytes", &[a.head as u64, u64::from(n)]);
                }
                _ => {
                    // the length of a code array
                    let codes: Vec<&Mark> = dec.marks.iter().filter(|m| m.kind == MK::CodeLen).collect();
                    if codes.is_empty() {
                        continue;
                    }
                    let m = codes[src.usize(codes.len())];
                    let old = get4(&img, m.off);
                    let new = match src.below(6) {
                        0 => old + 1,
                        1 => old - 1,
                        2 => old + src.range(2, 10) as u32,
                        3 => src.below(u64::from(old) + 1) as u32,
                        4 => *src.pick(&[0xFFFF_FFFFu32, 0x7FFF_FFFF, 0x8000_0000, 0x1_0000, 0xFFFF_0000]),
                        _ => old.saturating_sub(src.range(2, 5) as u32),
                    };
                    put4(&mut img, m.off, new);
                    what = "length of a code array overwritten";
                    ctx.fault("code length overwritten");
                    ctx.ev("code length at/new", &[m.off as u64, u64::from(new)]);
                }
            }
            if img != v.bytes {
                judge(ctx, img, what)?;
            }
        }
        Ok(())
    })
}

/// Only what is carried opaquely, and where it is.
fn opaque(v: &V) -> V {
    match v {
        V::A(k, g, own, nested) => V::A(
            if *k == "Unknown" { "Unknown" } else { "known" },
            *g,
            if *k == "Unknown" { own.clone() } else { vec![] },
            nested.iter().map(opaque).collect(),
        ),
        V::L(l) => V::L(l.iter().map(opaque).collect()),
        V::N(n, l) => V::N(n, l.iter().map(opaque).collect()),
        x => x.clone(),
    }
}

// ---------------------------------------------------------------- C04

fn masked(v: &V, path: &[usize]) -> V {
    if path.is_empty() {
        return V::Any;
    }
    let replace = |l: &Vec<V>, i: usize, rest: &[usize]| {
        l.iter().enumerate().map(|(k, x)| if k == i { masked(x, rest) } else { x.clone() }).collect::<Vec<V>>()
    };
    match v {
        V::N("class", l) => V::N("class", replace(l, path[0], &path[1..])),
        V::L(l) => V::L(replace(l, path[0], &path[1..])),
        // a member: its attributes are last
        V::N(n, l) => {
            let mut l = l.clone();
            if let Some(x) = l.pop() {
                l.push(masked(&x, path));
            }
            V::N(n, l)
        }
        V::A(k, g, own, nested) => V::A(k, *g, own.clone(), replace(nested, path[0], &path[1..])),
        x => x.clone(),
    }
}

pub fn c04(src: &mut Src, ctx: &mut Ctx) -> Res {
    let focus = *src.pick(&[Focus::Mixed, Focus::Members, Focus::Code, Focus::Annot, Focus::Frames, Focus::Tables, Focus::Text]);
    let taste = Taste { focus, marks: &[], calm: 2, corpus: true, crafted: false };
    let mut seen = Vec::new();
    World::new(src, ctx, taste).run(&mut |src, ctx, d| {
        let v = match d.intact {
            Some(ref v) => v.clone(),
            None => return Ok(()),
        };
        let dec = match v.dec {
            Some(ref dec) => dec,
            None => return Ok(()),
        };
        let spans: Vec<&AttrSpan> = dec.attrs.iter().filter(|a| a.len > 0).collect();
        if spans.is_empty() || seen.len() > 8 {
            return Ok(());
        }
        seen.push(());
        let before = match parse(&v.bytes) {
            Got::Class(p, c) => canon_of(&p, &c),
            _ => return Ok(()),
        };
        for _ in 0..src.range(2, 10) {
            let a = spans[src.usize(spans.len())];
            let mut img = v.bytes.clone();
            let inside: Vec<&Mark> =
                dec.marks.iter().filter(|m| m.off >= a.body && m.off + m.len <= a.body + a.len && m.len > 0).collect();
            for _ in 0..src.range(1, 2) {
                match src.below(5) {
                    0 => {
                        let at = a.body + src.usize(a.len);
                        img[at] ^= 1 << src.below(8);
                        ctx.ev("bit flip at", &[at as u64]);
                        ctx.fault("bit flip inside an attribute");
                    }
                    1 => {
                        // a lost block, as far as it is inside
                        let lo = a.body + src.usize(a.len);
                        let hi = (lo + 64).min(a.body + a.len);
                        for x in &mut img[lo..hi] {
                            *x = 0;
                        }
                        ctx.ev("zeroed", &[lo as u64, hi as u64]);
                        ctx.fault("block lost inside an attribute");
                    }
                    _ => {
                        if inside.is_empty() {
                            continue;
                        }
                        // lengths and counts most of all
                        let lens: Vec<&&Mark> = inside
                            .iter()
                            .filter(|m| matches!(m.kind, MK::Count | MK::AttrLen | MK::CodeLen | MK::SwitchBound))
                            .collect();
                        let m = if !lens.is_empty() && src.chance(600) {
                            *lens[src.usize(lens.len())]
                        } else {
                            inside[src.usize(inside.len())]
                        };
                        if world::poke(src, ctx, &mut img, m) {
                            ctx.fault("misdirected small write inside an attribute");
                        }
                    }
                }
            }
            if img == v.bytes {
                continue;
            }
            ctx.evals += 1;
            match parse(&img) {
                Got::Class(p, c) => {
                    let after = canon_of(&p, &c);
                    ctx.probe("damage accepted, rest compared");
                    ctx.cases.push(hash_bytes(&img));
                    if let Some(m) = v::diff(&masked(&before, &a.path), &after, &v::ALL, &mut String::new()) {
                        ctx.image = Some(img);
                        return bad(
                            "damage spread",
                            format!("damage inside the {} attribute at {}..{} changed what lies outside: {}", a.kind, a.body, a.body + a.len, m),
                        );
                    }
                    sample(ctx, || format!("{} bytes, damage inside a {} attribute, everything else unchanged", v.bytes.len(), a.kind));
                }
                _ => ctx.probe("damage refused"),
            }
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- C15, C16

/// Peak heap use may not exceed this many bytes per input byte ...
pub const PER_BYTE: u64 = 400;
/// ... plus this.
pub const CONSTANT: u64 = 88 * 1024;

fn small_world_image(src: &mut Src, ctx: &mut Ctx, d: &Delivery, images: &mut Vec<Vec<u8>>) {
    if let Some(ref v) = d.intact {
        if let Some(ref dec) = v.dec {
            let counts: Vec<&Mark> = dec
                .marks
                .iter()
                .filter(|m| matches!(m.kind, MK::Count | MK::CodeLen | MK::AttrLen | MK::CpCount | MK::CpTextLen | MK::SwitchBound))
                .collect();
            for _ in 0..src.below(6) {
                let mut img = v.bytes.clone();
                let m = counts[src.usize(counts.len())];
                if src.chance(600) {
                    let big = *src.pick(&[0xFFu8, 0x7F, 0x80, 0x10]);
                    img[m.off] = big;
                    for x in &mut img[m.off + 1..m.off + m.len] {
                        *x = 0xFF;
                    }
                    ctx.fault("count or length blown up");
                    ctx.ev("blown up at", &[m.off as u64]);
                } else if world::poke(src, ctx, &mut img, m) {
                    ctx.fault("misdirected small write (structure-aware)");
                }
                images.push(img);
            }
        }
    }
    if let Some(ref v) = d.intact {
        for _ in 0..src.below(3) {
            images.extend(lone_attribute(src, ctx, v));
        }
    }
    if src.chance(60) {
        images.push(noise(src));
        ctx.fault("arbitrary bytes");
    }
}

/// One attribute of a class in a file of its own, with one or all of its counts blown up, and cut somewhere
/// behind that: few bytes, however large the claims.
fn lone_attribute(src: &mut Src, ctx: &mut Ctx, v: &world::Version) -> Option<Vec<u8>> {
    let dec = v.dec.as_ref()?;
    let is = |m: &&Mark| matches!(m.kind, MK::Count | MK::CodeLen | MK::AttrLen | MK::SwitchBound);
    let mut all: Vec<(usize, usize)> = dec.marks.iter().filter(is).map(|m| (m.off, m.off + m.len)).collect();
    all.sort_unstable();
    let inside = |a: &refdec::AttrSpan| -> &[(usize, usize)] {
        let lo = all.partition_point(|m| m.0 < a.body);
        &all[lo..lo + all[lo..].partition_point(|m| m.1 <= a.body + a.len)]
    };
    let with: Vec<&refdec::AttrSpan> = dec.attrs.iter().filter(|a| !inside(a).is_empty() && a.kind != "Unknown").collect();
    let mut kinds: Vec<&str> = with.iter().map(|a| a.kind).collect();
    kinds.sort_unstable();
    kinds.dedup();
    if kinds.is_empty() {
        return None;
    }
    let kind = kinds[src.usize(kinds.len())];
    let of: Vec<&&refdec::AttrSpan> = with.iter().filter(|a| a.kind == kind).collect();
    let a = of[src.usize(of.len())];
    let mut body = v.bytes[a.body..a.body + a.len].to_vec();
    let marks = inside(a);
    let one = marks[src.usize(marks.len())].0;
    let every = src.chance(300);
    for m in marks.iter().filter(|m| if every { m.0 <= one } else { m.0 == one }) {
        let k = m.0 - a.body;
        for x in &mut body[k..m.1 - a.body] {
            *x = 0xFF;
        }
        body[k] = *src.pick(&[0xFFu8, 0x7F, 0xFF, 0x10]);
    }
    body.truncate(one - a.body + 4 + src.below(40) as usize);
    let mut o = vec![0xCA, 0xFE, 0xBA, 0xBE, 0, 0, 0, 52, 0, 2];
    o.extend_from_slice(&gen::utf8_const(kind));
    o.extend_from_slice(&[0; 12]);
    o.extend_from_slice(&[0, 1, 0, 1]);
    o.extend_from_slice(&(body.len() as u32).to_be_bytes());
    o.extend_from_slice(&body);
    ctx.fault("count or length blown up");
    ctx.fault("read cut short");
    ctx.ev("lone attribute of bytes", &[o.len() as u64, one as u64]);
    Some(o)
}

/// An image whose parse has to stop at a chosen point inside of the file: an attribute that is said to
/// end there, or an undefined value put there.
pub fn stopped_inside(src: &mut Src, ctx: &mut Ctx, v: &world::Version) -> Option<Vec<u8>> {
    let dec = v.dec.as_ref()?;
    let mut img = v.bytes.clone();
    if src.chance(500) {
        let with: Vec<usize> = (0..dec.attrs.len()).filter(|i| dec.attrs[*i].len > 0).collect();
        if with.is_empty() {
            return None;
        }
        let mut a = &dec.attrs[with[src.usize(with.len())]];
        if src.chance(600) {
            // every kind as often as any other
            let mut kinds: Vec<&str> = with.iter().map(|i| dec.attrs[*i].kind).collect();
            kinds.sort_unstable();
            kinds.dedup();
            let kind = kinds[src.usize(kinds.len())];
            let of: Vec<usize> = with.iter().cloned().filter(|i| dec.attrs[*i].kind == kind).collect();
            a = &dec.attrs[of[src.usize(of.len())]];
        }
        let mut k = src.usize(a.len);
        if src.chance(500) {
            let marks: Vec<&Mark> = dec.marks.iter().filter(|m| m.off >= a.body && m.off < a.body + a.len && m.len > 0).collect();
            if !marks.is_empty() {
                let m = marks[src.usize(marks.len())];
                k = m.off - a.body + src.usize(m.len);
            }
        }
        let k = k as u32;
        img[a.head + 2..a.head + 6].copy_from_slice(&k.to_be_bytes());
        ctx.ev("attribute said to end after", &[a.head as u64, u64::from(k)]);
        ctx.fault("attribute length shortened");
    } else {
        const TAGS: [MK; 10] = [
            MK::CpTag, MK::HandleKind, MK::Opcode, MK::WideOp, MK::ArrayKind, MK::FrameType, MK::VerifTag, MK::ElemTag, MK::Target, MK::PathKind,
        ];
        let kinds: Vec<MK> = TAGS.iter().cloned().filter(|k| dec.marks.iter().any(|m| m.kind == *k)).collect();
        if kinds.is_empty() {
            return None;
        }
        let k = kinds[src.usize(kinds.len())];
        let at: Vec<&Mark> = dec.marks.iter().filter(|m| m.kind == k && m.len > 0).collect();
        if at.is_empty() {
            return None;
        }
        let m = at[src.usize(at.len())];
        img[m.off] = if k == MK::FrameType { *src.pick(&[128u8, 200, 246]) } else { *src.pick(&[0xE0u8, 0xFD, 0xCB]) };
        ctx.ev("undefined value at", &[m.off as u64]);
        ctx.fault("discriminator damaged");
    }
    Some(img)
}

pub fn c15(src: &mut Src, ctx: &mut Ctx) -> Res {
    let focus = *src.pick(&[Focus::Mixed, Focus::Pool, Focus::Members, Focus::Code, Focus::Annot, Focus::Frames, Focus::Tables, Focus::Text]);
    let taste = Taste { focus, marks: ANYTHING, calm: 6, corpus: true, crafted: true };
    World::new(src, ctx, taste).run(&mut |src, ctx, d| {
        let mut images = vec![d.bytes.clone()];
        small_world_image(src, ctx, d, &mut images);
        for img in images {
            crate::note_image(&img);
            sys::meter_start();
            let r = catch_unwind(AssertUnwindSafe(|| jbcrs::basic::parse(&img)));
            let m = sys::meter_now();
            drop(r);
            sys::meter_stop();
            ctx.evals += 1;
            ctx.cases.push(hash_bytes(&img));
            let n = img.len() as u64;
            let bound = PER_BYTE * n + CONSTANT;
            ctx.maximum("peak in percent of the bound", m.peak as u64 * 100 / bound);
            ctx.maximum("peak heap bytes", m.peak as u64);
            if n > 2000 {
                ctx.maximum("peak bytes per input byte (inputs over 2000 bytes)", m.peak as u64 / n);
            }
            if m.peak as u64 > bound {
                let msg = format!("parsing {} bytes used {} bytes of heap, more than {} * {} + {}", n, m.peak, PER_BYTE, n, CONSTANT);
                ctx.image = Some(img);
                return bad("too much memory", msg);
            }
            sample(ctx, || format!("{} bytes: peak {} bytes in {} allocations", n, m.peak, m.allocs));
        }
        Ok(())
    })
}

pub fn c16(src: &mut Src, ctx: &mut Ctx) -> Res {
    let focus = *src.pick(&[Focus::Mixed, Focus::Pool, Focus::Members, Focus::Code, Focus::Annot, Focus::Frames, Focus::Tables, Focus::Text]);
    let taste = Taste { focus, marks: ANYTHING, calm: 6, corpus: true, crafted: true };
    // whatever is set up once, on first use, is set up now
    for c in &world::CORPUS {
        let _ = parse(c);
    }
    let _ = parse(&[0xCA]);
    let mut leaks = 0u32;
    World::new(src, ctx, taste).run(&mut |src, ctx, d| {
        let mut images = vec![d.bytes.clone()];
        small_world_image(src, ctx, d, &mut images);
        if let Some(ref v) = d.intact {
            for _ in 0..src.below(4) {
                let cut = src.usize(v.bytes.len() + 1);
                images.push(v.bytes[..cut].to_vec());
                ctx.fault("read cut short");
                ctx.ev("cut at", &[cut as u64]);
            }
            for _ in 0..src.below(8) {
                images.extend(stopped_inside(src, ctx, v));
            }
        }
        if src.chance(60) {
            crate::apart::leaves(src, ctx, &d.bytes)?;
        }
        if src.chance(40) {
            // again and again: what grows by a little each time shows in the end
            let img = &images[src.usize(images.len())];
            let times = 1 + (40_000 / (img.len() + 40)).min(300);
            crate::note_image(img);
            sys::meter_start();
            for _ in 0..3 {
                let _ = catch_unwind(AssertUnwindSafe(|| jbcrs::basic::parse(img).is_ok()));
            }
            let first = sys::meter_now().live;
            for _ in 0..times {
                let _ = catch_unwind(AssertUnwindSafe(|| jbcrs::basic::parse(img).is_ok()));
            }
            let grown = sys::meter_now().live - first;
            sys::meter_stop();
            ctx.evals += 1;
            ctx.fault("the same parse hundreds of times");
            ctx.ev("parsed again and again", &[times as u64, img.len() as u64]);
            if grown > 0 && times > 20 {
                let msg = format!("after {} more parses of the same {} bytes, {} bytes more of the heap are used", times, img.len(), grown);
                ctx.image = Some(img.clone());
                return bad("leak", msg);
            }
        }
        for img in images {
            crate::note_image(&img);
            let keep = src.below(2);
            sys::meter_start();
            let mut growth = [0isize; 3];
            let mut before = 0;
            let mut accepted = false;
            for g in &mut growth {
                if keep == 1 {
                    // the results overlap, and are dropped in another order
                    let a = catch_unwind(AssertUnwindSafe(|| jbcrs::basic::parse(&img)));
                    let b = catch_unwind(AssertUnwindSafe(|| jbcrs::basic::parse(&img)));
                    accepted = matches!(a, Ok(Ok(_)));
                    match (a, b) {
                        (Ok(Ok((p, c))), Ok(Ok((q, e)))) => {
                            drop(q);
                            drop(c);
                            drop(p);
                            drop(e);
                        }
                        (a, b) => {
                            drop(a);
                            drop(b);
                        }
                    }
                } else {
                    let r = catch_unwind(AssertUnwindSafe(|| jbcrs::basic::parse(&img)));
                    accepted = matches!(r, Ok(Ok(_)));
                    if let Ok(Ok((mut p, c))) = r {
                        // use it before dropping it
                        let _ = catch_unwind(AssertUnwindSafe(|| {
                            use jbcrs::basic::Item;
                            let _ = p.iter().count();
                            let _ = p.get_utf8(1);
                            let _ = p.push(Item::UTF8(String::from("left behind?")));
                            let _ = p.push(Item::Integer(4711));
                        }));
                        drop(c);
                    }
                }
                let now = sys::meter_now().live;
                *g = now - before;
                before = now;
            }
            sys::meter_stop();
            ctx.evals += 1;
            ctx.cases.push(hash_bytes(&img));
            ctx.probe(if accepted { "parsed three times, dropped" } else { "refused three times" });
            if growth[1] > 0 && growth[2] > 0 {
                let msg = format!("each parse of these {} bytes leaves {} bytes of heap behind (refused: {})", img.len(), growth[2], !accepted);
                ctx.image = Some(img);
                return bad("leak", msg);
            }
            if growth[0] > 0 {
                leaks += 1;
                if leaks > 2 {
                    let msg = format!("parsing different inputs keeps leaving memory behind, {} bytes last", growth[0]);
                    ctx.image = Some(img);
                    return bad("leak", msg);
                }
            }
            sample(ctx, || format!("{} bytes, parsed three times, heap growth {:?}", img.len(), growth));
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- C17

/// C17: one damage. C25: more damage behind it.
pub fn c17(prop: &str, src: &mut Src, ctx: &mut Ctx) -> Res {
    let focus = *src.pick(&[Focus::Mixed, Focus::Pool, Focus::Members, Focus::Code, Focus::Annot, Focus::Annot, Focus::Frames, Focus::Frames, Focus::Text]);
    let taste = Taste { focus, marks: &[], calm: 2, corpus: true, crafted: false };
    World::new(src, ctx, taste).run(&mut |src, ctx, d| {
        let v = match d.intact {
            Some(ref v) => v.clone(),
            None => return Ok(()),
        };
        let dec = match v.dec {
            Some(ref dec) => dec,
            None => return Ok(()),
        };
        if !matches!(parse(&v.bytes), Got::Class(..)) {
            return Ok(());
        }
        const KINDS: [MK; 13] = [
            MK::Magic, MK::CpTag, MK::HandleKind, MK::AttrName, MK::Opcode, MK::WideOp, MK::ArrayKind, MK::FrameType,
            MK::VerifTag, MK::ElemTag, MK::Target, MK::PathKind, MK::CpText,
        ];
        let kinds: Vec<MK> = KINDS
            .iter()
            .cloned()
            .filter(|k| dec.marks.iter().any(|m| m.len > 0 && (m.kind == *k || (*k == MK::CpText && m.kind == MK::Text))))
            .collect();
        for _ in 0..src.range(2, 10) {
            let k = kinds[src.usize(kinds.len())];
            let at: Vec<&Mark> =
                dec.marks.iter().filter(|m| m.len > 0 && (m.kind == k || (k == MK::CpText && m.kind == MK::Text))).collect();
            let m = at[src.usize(at.len())];
            let mut img = v.bytes.clone();
            match k {
                MK::Magic => {
                    let i = m.off + src.usize(4);
                    img[i] ^= 1 << src.below(8);
                }
                MK::AttrName => {
                    let x = match src.below(4) {
                        0 => 0,
                        1 => src.u16(),
                        2 => u16::from_be_bytes([img[8], img[9]]),
                        _ => src.below(u64::from(u16::from_be_bytes([img[8], img[9]])) + 2) as u16,
                    };
                    img[m.off..m.off + 2].copy_from_slice(&x.to_be_bytes());
                }
                MK::CpText => {
                    let i = m.off + src.usize(m.len);
                    img[i] = *src.pick(&[0x00u8, 0x80, 0xBF, 0xC0, 0xDF, 0xE0, 0xED, 0xEF, 0xF0, 0xF4, 0xFF, 0x41]);
                }
                _ => {
                    let x = match src.below(3) {
                        0 => *src.pick(&[0u8, 0xFF, 0x7F, 0x80, 0xFE, 0xCB, 0xFD]),
                        1 => img[m.off] ^ 1 << src.below(8),
                        _ => src.u8(),
                    };
                    img[m.off] = x;
                }
            }
            if img == v.bytes {
                continue;
            }
            // which error that has to be
            let reject = match refdec::decode(&img) {
                Verdict::Reject(r) => r,
                _ => continue,
            };
            let here = match (&reject, k) {
                (Reject::Magic, MK::Magic) => true,
                // later versions of the specification define tag 17
                (Reject::CpTag(i, t), MK::CpTag) => u32::from(*i) == m.at && *t != 17,
                (Reject::HandleKind(i, _), MK::HandleKind) => u32::from(*i) == m.at,
                (Reject::AttrName(_), MK::AttrName) => true,
                (Reject::Opcode { at, .. }, MK::Opcode) => *at == m.at && img[m.off] > 0xCA,
                (Reject::Opcode { at, .. }, MK::WideOp) | (Reject::Opcode { at, .. }, MK::ArrayKind) => *at == m.at,
                (Reject::Frame(_), MK::FrameType)
                | (Reject::Verif(_), MK::VerifTag)
                | (Reject::Elem(_), MK::ElemTag)
                | (Reject::Target(_), MK::Target)
                | (Reject::Path(_), MK::PathKind)
                | (Reject::Utf8(_), MK::CpText) => true,
                _ => false,
            };
            if !here {
                continue;
            }
            if prop == "C25" {
                // the first damage may only have led to the place that is refused; that has to remain the first
                let more = more_damage(src, ctx, dec, m.off + m.len, &mut img);
                match refdec::decode(&img) {
                    Verdict::Reject(ref r) if more && *r == reject => {}
                    _ => continue,
                }
            }
            ctx.evals += 1;
            ctx.ev("discriminator damaged at/to", &[m.off as u64, u64::from(img[m.off])]);
            ctx.fault("discriminator damaged");
            ctx.probe(match k {
                MK::Magic => "magic number damaged",
                MK::CpTag => "constant tag damaged",
                MK::HandleKind => "method handle kind damaged",
                MK::AttrName => "attribute name damaged",
                MK::Opcode => "operation code damaged",
                MK::WideOp => "wide operation code damaged",
                MK::ArrayKind => "array kind damaged",
                MK::FrameType => "frame type damaged",
                MK::VerifTag => "verification type damaged",
                MK::ElemTag => "element value kind damaged",
                MK::Target => "target type damaged",
                MK::PathKind => "path kind damaged",
                _ => "string bytes damaged",
            });
            ctx.cases.push(hash_bytes(&img));
            let got = match parse(&img) {
                Got::Class(..) => None,
                Got::Err(e) => Some(e),
                Got::Panic => Some(E::Other),
            };
            let fits = match (&reject, &got) {
                (Reject::Magic, Some(E::NotAClass)) => true,
                (Reject::CpTag(i, _), Some(E::Cp(x))) | (Reject::HandleKind(i, _), Some(E::Cp(x))) => i == x,
                (Reject::AttrName(i), Some(E::Cp(x))) => i == x,
                (Reject::Opcode { op, at }, Some(E::Insn(o, a))) => {
                    at == a && (op == o || (k != MK::Opcode && *o == img[m.off]))
                }
                (Reject::Frame(t), Some(E::Frame(x))) => t == x,
                (Reject::Verif(t), Some(E::Verif(x))) => t == x,
                (Reject::Elem(t), Some(E::Elem(x))) => t == x,
                (Reject::Target(_), Some(E::Target)) => true,
                (Reject::Path(_), Some(E::Path)) => true,
                (Reject::Utf8(_), Some(E::Utf8)) => true,
                _ => false,
            };
            sample(ctx, || format!("{:?} at offset {} of {} bytes: {:?}", reject, m.off, img.len(), got));
            if !fits {
                let msg = match got {
                    None => format!("{:?} at offset {}: accepted", reject, m.off),
                    Some(e) => format!("{:?} at offset {}: reported as {:?}", reject, m.off, e),
                };
                ctx.image = Some(img);
                return bad("wrong error", msg);
            }
        }
        Ok(())
    })
}

/// Damage of any kind behind the first one, which was the first because files are read from front to back.
fn more_damage(src: &mut Src, ctx: &mut Ctx, dec: &Decoded, from: usize, img: &mut [u8]) -> bool {
    if from >= img.len() {
        return false;
    }
    let before = img.to_vec();
    for _ in 0..src.range(1, 3) {
        match src.below(5) {
            0 | 1 => {
                let later: Vec<&Mark> = dec.marks.iter().filter(|m| m.off >= from && m.len > 0).collect();
                if later.is_empty() {
                    continue;
                }
                let near = src.chance(500);
                let m = later[src.usize(if near { later.len().min(12) } else { later.len() })];
                let k = m.off + src.usize(m.len);
                img[k] = *src.pick(&[0xFFu8, 0, 0x80, 0xCB, 0xE0, 0x7F, 0x01, 0xFD]);
                ctx.fault("second damage of a field");
            }
            2 => {
                for x in &mut img[from..] {
                    *x = 0;
                }
                ctx.fault("rest of the file lost (zeros)");
            }
            3 => {
                let k = from + src.usize(img.len() - from);
                let e = (k + 64).min(img.len());
                for x in &mut img[k..e] {
                    *x = src.u8();
                }
                ctx.fault("block garbled");
            }
            _ => {
                // the file's beginning where a later block belongs
                let k = from + src.usize(img.len() - from);
                let n = (img.len() - k).min(64).min(from);
                let (a, b) = img.split_at_mut(k);
                b[..n].copy_from_slice(&a[..n]);
                ctx.fault("block misplaced");
            }
        }
    }
    *img != before[..]
}
