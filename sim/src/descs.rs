//! C20, C21, C24: descriptors as they come out of delivered class files, against a reference grammar.

use crate::ctx::{bad, Ctx, Res};
use crate::gen::{self, Focus};
use crate::oracle::{parse, Got};
use crate::refdec::MK;
use crate::src::{hash_bytes, Src};
use crate::world::{Taste, World};
use jbcrs::{Error, MethodDescriptor, Type, TypeDescriptor};
use std::fmt::{self, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(PartialEq, Debug)]
struct Ref {
    dims: usize,
    base: char,
    name: String,
}

/// One type at the front: dimensions, then a tag or a name. None: not one.
fn one(c: &[char]) -> Option<(Ref, &[char])> {
    let dims = c.iter().take_while(|x| **x == '[').count();
    if dims > 255 {
        return None;
    }
    let c = &c[dims..];
    match c.first() {
        Some('L') => {
            let n = c.iter().position(|x| *x == ';')?;
            if n < 2 {
                return None;
            }
            Some((Ref { dims, base: 'L', name: c[1..n].iter().collect() }, &c[n + 1..]))
        }
        Some(x) if "ZBSIJFDC".contains(*x) => Some((Ref { dims, base: *x, name: String::new() }, &c[1..])),
        _ => None,
    }
}

fn type_ref(s: &str) -> Option<Ref> {
    let c: Vec<char> = s.chars().collect();
    match one(&c) {
        Some((r, rest)) if rest.is_empty() => Some(r),
        _ => None,
    }
}

fn method_ref(s: &str) -> Option<(Vec<Ref>, Option<Ref>)> {
    let c: Vec<char> = s.chars().collect();
    let mut c = &c[..];
    if c.first() != Some(&'(') {
        return None;
    }
    c = &c[1..];
    let mut params = Vec::new();
    while c.first() != Some(&')') {
        let (r, rest) = one(c)?;
        params.push(r);
        c = rest;
    }
    c = &c[1..];
    if params.len() > 255 {
        return None;
    }
    if c == ['V'] {
        return Some((params, None));
    }
    match one(c)? {
        (r, rest) if rest.is_empty() => Some((params, Some(r))),
        _ => None,
    }
}

pub fn accepted(s: &str) -> bool {
    type_ref(s).is_some() || method_ref(s).is_some()
}

fn shape(t: &TypeDescriptor) -> Ref {
    let (base, name) = match t.base_type {
        Type::Boolean => ('Z', ""),
        Type::Byte => ('B', ""),
        Type::Short => ('S', ""),
        Type::Int => ('I', ""),
        Type::Long => ('J', ""),
        Type::Float => ('F', ""),
        Type::Double => ('D', ""),
        Type::Char => ('C', ""),
        Type::Reference(ref n) => ('L', &n[..]),
        #[allow(unreachable_patterns)]
        _ => ('?', ""),
    };
    Ref { dims: t.dimensions as usize, base, name: name.to_string() }
}

/// The same, made from its parts and not from a string.
fn built(r: &Ref) -> TypeDescriptor {
    let base = match r.base {
        'Z' => Type::Boolean,
        'B' => Type::Byte,
        'S' => Type::Short,
        'I' => Type::Int,
        'J' => Type::Long,
        'F' => Type::Float,
        'D' => Type::Double,
        'C' => Type::Char,
        _ => Type::Reference(r.name.clone()),
    };
    TypeDescriptor::new(r.dims as u8, base)
}

/// Another type, that differs in one part.
fn other(src: &mut Src, r: &Ref) -> Ref {
    let mut o = Ref { dims: r.dims, base: r.base, name: r.name.clone() };
    let mut c: Vec<char> = r.name.chars().collect();
    let at = src.usize(c.len().max(1));
    match src.below(if c.is_empty() { 4 } else { 10 }) {
        0 => o.dims = r.dims ^ 1 << src.below(8),
        1 | 2 if r.base != 'L' => o.base = *src.pick(&['Z', 'B', 'S', 'I', 'J', 'F', 'D', 'C']),
        1 => o.base = *src.pick(&['Z', 'B', 'S', 'I', 'J', 'F', 'D', 'C']),
        3 if r.base != 'L' => {
            o.base = 'L';
            c = vec![r.base];
        }
        2 | 3 | 4 => c.push(*src.pick(&['x', ' ', '/', '\u{0}', '\u{301}'])),
        5 => {
            c.pop();
        }
        6 => c[at] = if c[at].is_lowercase() { c[at].to_ascii_uppercase() } else { c[at].to_ascii_lowercase() },
        7 => c[at] = *src.pick(&['x', '/', '.', '$', '\u{e9}']),
        8 => c.insert(at, 'x'),
        _ => {
            c.remove(at);
        }
    }
    o.name = if o.base == 'L' { c.into_iter().collect() } else { String::new() };
    if o == *r || o.base == 'L' && o.name.is_empty() {
        o = Ref { dims: r.dims ^ 1, base: r.base, name: r.name.clone() };
    }
    o
}

/// Something that takes so many bytes, and then fails.
struct Sink {
    text: String,
    room: usize,
}
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.text.len() + s.len() > self.room {
            return Err(fmt::Error);
        }
        self.text.push_str(s);
        Ok(())
    }
}

/// Printing into what is full after a while has to fail, and to have printed a part.
fn sink(src: &mut Src, ctx: &mut Ctx, s: &str, d: &dyn fmt::Display) -> Res {
    let room = if src.chance(200) { s.len() } else { src.usize(s.len() + 3) };
    let mut k = Sink { text: String::new(), room };
    ctx.fault(if room < s.len() { "printed into something that fails on the way" } else { "printed into something just large enough" });
    let done = write!(k, "{}", d).is_ok();
    if done != (room >= s.len()) || !s.starts_with(&k.text) || done && k.text != s {
        let t: String = k.text.chars().take(80).collect();
        return bad("printing failed otherwise", format!("a descriptor of {} bytes, printed into something that takes {} of them, returned {} and printed {:?} ({} bytes)", s.len(), room, if done { "success" } else { "failure" }, t, k.text.len()));
    }
    Ok(())
}

/// How many characters at the front can begin a descriptor: the grammar as an automaton, without the
/// limit of 255 parameters. Also: the parameters among them.
fn viable(c: &[char], method: bool) -> (usize, usize) {
    let mut i = 0;
    // 0: before anything of a method's, 1: among parameters, 2: the only type, 3: nothing may follow
    let mut state = if method { 0 } else { 2 };
    let mut returns = false;
    let mut dims = 0;
    let mut params = 0;
    while i < c.len() {
        match (state, c[i]) {
            (0, '(') => state = 1,
            (1, ')') if dims == 0 => {
                state = 2;
                returns = true;
            }
            (2, 'V') if returns && dims == 0 => state = 3,
            (1, '[') | (2, '[') => {
                dims += 1;
                if dims > 255 {
                    break;
                }
            }
            (1, 'L') | (2, 'L') => {
                let mut k = i + 1;
                while k < c.len() && c[k] != ';' {
                    k += 1;
                }
                if k == c.len() || k == i + 1 {
                    i = k;
                    break;
                }
                i = k;
                dims = 0;
                params += (state == 1) as usize;
                state = if state == 2 { 3 } else { 1 };
            }
            (1, x) | (2, x) if "ZBSIJFDC".contains(x) => {
                dims = 0;
                params += (state == 1) as usize;
                state = if state == 2 { 3 } else { 1 };
            }
            _ => break,
        }
        i += 1;
    }
    (i, params)
}

fn reported(ctx: &mut Ctx, s: &str) -> Res {
    let c: Vec<char> = s.chars().collect();
    let short: String = c.iter().take(80).collect();
    for method in [false, true] {
        let e = catch_unwind(AssertUnwindSafe(|| {
            if method {
                s.parse::<MethodDescriptor>().err()
            } else {
                s.parse::<TypeDescriptor>().err()
            }
        }));
        let what = if method { "method" } else { "type" };
        ctx.evals += 1;
        ctx.cases.push(hash_bytes(s.as_bytes()));
        match e {
            // for other properties to judge
            Err(_) | Ok(None) => ctx.probe("accepted"),
            Ok(Some(Error::InvalidDescriptor { desc, at })) => {
                if desc != s {
                    return bad("another string", format!("{:?} ({} characters) was refused as a {} descriptor, but the error names {:?} ({} characters)", short, c.len(), what, desc.chars().take(80).collect::<String>(), desc.chars().count()));
                }
                let (v, params) = viable(&c, method);
                if at > c.len() {
                    return bad("outside", format!("{:?} has {} characters, but the error is said to be at {}", short, c.len(), at));
                }
                // parameters too many may be noticed anywhere
                let early = params > 255;
                if (at > v || at + 1 < v) && !early {
                    return bad("wrong place", format!("{:?} ({} characters) as a {} descriptor goes wrong at {}, but the error is said to be at {}", short, c.len(), what, v, at));
                }
                ctx.probe(if at == v { "refused at the character that is wrong" } else { "refused just before the character that is wrong" });
                if ctx.sample.is_none() && s.len() > 6 {
                    ctx.sample = Some(format!("{:?} refused as a {} descriptor at {}", short, what, at));
                }
            }
            Ok(Some(e)) => return bad("another error", format!("{:?} was refused as a {} descriptor with {:?}", short, what, e)),
        }
    }
    Ok(())
}

fn judge(prop: &str, src: &mut Src, ctx: &mut Ctx, s: &str) -> Res {
    if prop == "C24" {
        return reported(ctx, s);
    }
    ctx.evals += 1;
    let short: String = if s.chars().count() > 80 { s.chars().take(80).chain("...".chars()).collect() } else { s.to_string() };
    let (accept, shapes, printed) = if prop == "C20" {
        let want = type_ref(s);
        let got: Result<Result<TypeDescriptor, Error>, _> = catch_unwind(AssertUnwindSafe(|| s.parse()));
        let got = match got {
            Ok(g) => g.ok(),
            Err(_) => return bad("panic", format!("{:?}: panicked: {}", short, crate::last_panic())),
        };
        let same = match (&want, &got) {
            (Some(w), Some(g)) => {
                let made = built(w);
                *w == shape(g) && made == *g && made.to_string() == s && built(&other(src, w)) != *g
            }
            _ => true,
        };
        ((want.is_some(), got.is_some()), same, got.map(|g| g.to_string()))
    } else {
        let want = method_ref(s);
        let got: Result<Result<MethodDescriptor, Error>, _> = catch_unwind(AssertUnwindSafe(|| s.parse()));
        let got = match got {
            Ok(g) => g.ok(),
            Err(_) => return bad("panic", format!("{:?}: panicked: {}", short, crate::last_panic())),
        };
        let same = match (&want, &got) {
            (Some(w), Some(g)) => {
                w.0.len() == g.params.len()
                    && w.0.iter().zip(&g.params).all(|(a, b)| *a == shape(b))
                    && match (&w.1, &g.return_type) {
                        (None, None) => true,
                        (Some(a), Some(b)) => *a == shape(b),
                        _ => false,
                    }
                    && {
                        let make = |p: Vec<TypeDescriptor>, r: Option<TypeDescriptor>| MethodDescriptor::new(p, r);
                        let params = || w.0.iter().map(built).collect::<Vec<_>>();
                        let made = make(params(), w.1.as_ref().map(built));
                        let n = w.0.len();
                        let at = src.usize(n.max(1));
                        let mut p = params();
                        let mut ret = w.1.as_ref().map(built);
                        match src.below(6) {
                            0 if n > 0 => p[at] = built(&other(src, &w.0[at])),
                            1 if n > 0 => {
                                p.remove(at);
                            }
                            2 if n > 1 && w.0[0] != w.0[at] => p.swap(0, at),
                            3 if n < 255 => p.push(TypeDescriptor::new(0, Type::Int)),
                            4 if w.1.is_some() => ret = None,
                            _ => ret = Some(w.1.as_ref().map_or(TypeDescriptor::new(0, Type::Int), |r| built(&other(src, r)))),
                        }
                        let unlike = make(p, ret);
                        made == *g && made.to_string() == s && unlike != *g
                    }
            }
            _ => true,
        };
        ((want.is_some(), got.is_some()), same, got.map(|g| g.to_string()))
    };
    if let (true, true) = accept {
        if prop == "C20" {
            if let Ok(d) = s.parse::<TypeDescriptor>() {
                sink(src, ctx, s, &d)?;
            }
        } else if let Ok(d) = s.parse::<MethodDescriptor>() {
            sink(src, ctx, s, &d)?;
        }
    }
    match accept {
        (true, false) => return bad("refused", format!("{:?} is a descriptor ({} characters), but was refused", short, s.chars().count())),
        (false, true) => return bad("accepted", format!("{:?} is no descriptor ({} characters), but was accepted", short, s.chars().count())),
        (true, true) => {
            if !shapes {
                return bad("misread", format!("{:?} was read as something else", short));
            }
            if printed.as_ref().map(|p| &p[..]) != Some(s) {
                return bad("printed differently", format!("{:?} ({} characters) prints as {:?}", short, s.chars().count(), printed.map(|p| p.chars().take(90).collect::<String>())));
            }
            ctx.probe("accepted and printed back");
            ctx.cases.push(hash_bytes(s.as_bytes()));
            if ctx.sample.is_none() && s.len() > 3 {
                ctx.sample = Some(format!("{:?} read and printed back", short));
            }
        }
        (false, false) => {
            ctx.probe("no descriptor, refused");
            ctx.cases.push(hash_bytes(s.as_bytes()));
        }
    }
    Ok(())
}

pub fn world(prop: &str, src: &mut Src, ctx: &mut Ctx) -> Res {
    let focus = if src.chance(150) { Focus::Text } else { Focus::Desc };
    let taste = Taste { focus, marks: &[MK::CpText, MK::CpTextLen], calm: 5, corpus: true, crafted: false };
    World::new(src, ctx, taste).run(&mut |src, ctx, d| {
        let mut strings: Vec<String> = Vec::new();
        if let Got::Class(p, _) = parse(&d.bytes) {
            for (i, _) in p.iter() {
                if let Ok(s) = p.get_utf8(i) {
                    strings.push(s.to_string());
                }
            }
        }
        for s in &strings {
            judge(prop, src, ctx, s)?;
        }
        // the strings of a block that was lost, repeated or exchanged
        for _ in 0..src.below(6) {
            if strings.is_empty() {
                break;
            }
            let a = &strings[src.usize(strings.len())];
            let s = match src.below(8) {
                0 => {
                    let b = &strings[src.usize(strings.len())];
                    ctx.fault("two strings spliced");
                    let k = src.usize(a.chars().count() + 1);
                    let m = src.usize(b.chars().count() + 1);
                    a.chars().take(k).chain(b.chars().skip(m)).collect()
                }
                1 => {
                    ctx.fault("part of a string repeated");
                    let c: Vec<char> = a.chars().collect();
                    let (i, j) = (src.usize(c.len() + 1), src.usize(c.len() + 1));
                    let (i, j) = (i.min(j), i.max(j));
                    c[..j].iter().chain(&c[i..]).collect()
                }
                2 => {
                    // one more than is allowed
                    ctx.fault("run of characters repeated beyond a limit");
                    let c: Vec<char> = a.chars().collect();
                    if c.is_empty() {
                        continue;
                    }
                    let i = src.usize(c.len());
                    let n = src.range(250, 260);
                    let n = if src.chance(300) { src.learned(3000).unwrap_or(n) } else { n } as usize;
                    c[..i].iter().chain(std::iter::repeat(&c[i]).take(n)).chain(&c[i + 1..]).collect::<String>()
                }
                3 => {
                    ctx.fault("a field's descriptor where a method's is, or the other way round");
                    match src.below(3) {
                        0 => format!("({})V", a),
                        1 => a.trim_start_matches('(').to_string(),
                        _ => format!("()[{}", a),
                    }
                }
                _ => {
                    ctx.fault("character lost, repeated or exchanged");
                    let t = gen::twist(src, a);
                    if src.chance(200) {
                        gen::twist(src, &t)
                    } else {
                        t
                    }
                }
            };
            ctx.ev("string of/hash", &[s.len() as u64, hash_bytes(s.as_bytes())]);
            judge(prop, src, ctx, &s)?;
        }
        Ok(())
    })
}
