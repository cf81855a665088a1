//! What the writers of the simulated system store: class files, structurally well-formed by the
//! JVM specification, of any shape, plus crafted ones that nest or count excessively.

use crate::refdec::OPCODES;
use crate::src::Src;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Focus {
    Mixed,
    Pool,
    Members,
    Code,
    Annot,
    Frames,
    Tables,
    Text,
    Desc,
}

const CLASS: u8 = 1;
const FIELD: u8 = 2;
const METHOD: u8 = 4;
const CODE: u8 = 8;

/// name, where the specification allows it, focus that prefers it
const ATTRS: [(&str, u8, Focus); 30] = [
    ("Code", METHOD, Focus::Code),
    ("ConstantValue", FIELD, Focus::Members),
    ("Deprecated", CLASS | FIELD | METHOD, Focus::Members),
    ("EnclosingMethod", CLASS, Focus::Members),
    ("Signature", CLASS | FIELD | METHOD, Focus::Members),
    ("SourceFile", CLASS, Focus::Members),
    ("Synthetic", CLASS | FIELD | METHOD, Focus::Members),
    ("SourceDebugExtension", CLASS, Focus::Text),
    ("BootstrapMethods", CLASS, Focus::Tables),
    ("Exceptions", METHOD, Focus::Tables),
    ("InnerClasses", CLASS, Focus::Tables),
    ("LineNumberTable", CODE, Focus::Tables),
    ("LocalVariableTable", CODE, Focus::Tables),
    ("LocalVariableTypeTable", CODE, Focus::Tables),
    ("MethodParameters", METHOD, Focus::Tables),
    ("Module", CLASS, Focus::Tables),
    ("ModuleMainClass", CLASS, Focus::Tables),
    ("ModulePackages", CLASS, Focus::Tables),
    ("AnnotationDefault", METHOD, Focus::Annot),
    ("RuntimeVisibleAnnotations", CLASS | FIELD | METHOD, Focus::Annot),
    ("RuntimeInvisibleAnnotations", CLASS | FIELD | METHOD, Focus::Annot),
    ("RuntimeVisibleParameterAnnotations", METHOD, Focus::Annot),
    ("RuntimeInvisibleParameterAnnotations", METHOD, Focus::Annot),
    ("RuntimeVisibleTypeAnnotations", 15, Focus::Annot),
    ("RuntimeInvisibleTypeAnnotations", 15, Focus::Annot),
    ("StackMapTable", CODE, Focus::Frames),
    // not attributes of the specification
    ("code", 15, Focus::Mixed),
    ("EnclosingMethods", 15, Focus::Mixed),
    ("", 15, Focus::Mixed),
    ("org.example.Unknown\u{e9}", 15, Focus::Mixed),
];

/// From here on, ATTRS are not of the specification.
const UNKNOWN: usize = 26;

/// A name that no specification defines, but often looks like one that it does.
fn unknown(s: &mut Src) -> String {
    let mut c: Vec<char> = ATTRS[s.usize(UNKNOWN)].0.chars().collect();
    let at = s.usize(c.len());
    match s.below(10) {
        0 => c.truncate(at),
        1 => c = c.split_off(at),
        2 => {
            c.remove(at);
        }
        3 => c.insert(at, *s.pick(&['s', ' ', '\u{0}', '.', '2', '\u{e9}', 'e'])),
        4 => c.push(*s.pick(&['s', ' ', '\u{0}', '2', '\u{e9}', '_'])),
        5 => {
            let x = c[at];
            c[at] = if x.is_lowercase() { x.to_ascii_uppercase() } else { x.to_ascii_lowercase() };
        }
        6 => c = ATTRS[s.usize(UNKNOWN)].0.chars().take(at + 1).chain(c[at..].iter().cloned()).collect(),
        7 => {
            for x in &mut c {
                *x = x.to_ascii_lowercase();
            }
        }
        8 => c = string(s, 12).chars().collect(),
        _ => c = format!("{}.{}", s.pick(&["org.x", "Runtime", "Code"]), ATTRS[s.usize(UNKNOWN)].0).chars().collect(),
    }
    let name: String = c.into_iter().collect();
    if ATTRS[..UNKNOWN].iter().any(|a| a.0 == name) {
        return "Unknown".to_string();
    }
    name
}

/// Encodes modified UTF-8.
pub fn mutf8(s: &str) -> Vec<u8> {
    let mut o = Vec::new();
    for u in s.encode_utf16() {
        if u != 0 && u < 0x80 {
            o.push(u as u8);
        } else if u < 0x800 {
            o.push(0xC0 | (u >> 6) as u8);
            o.push(0x80 | (u & 0x3F) as u8);
        } else {
            o.push(0xE0 | (u >> 12) as u8);
            o.push(0x80 | (u >> 6 & 0x3F) as u8);
            o.push(0x80 | (u & 0x3F) as u8);
        }
    }
    o
}

pub fn string(src: &mut Src, max: u64) -> String {
    let mut n = src.below(max + 1);
    let mut s = String::new();
    let mut shape = src.below(12);
    if src.chance(25) {
        // of a length that may matter
        let top = if src.chance(100) { 21_000 } else { 1200 };
        if let Some(k) = src.learned(top) {
            n = k;
            shape = *src.pick(&[0, 9, 12]);
        }
    }
    if src.chance(30) {
        // with a text that may matter
        if let Some(t) = src.learned_text() {
            let x = string_of(src, n.min(6), 9);
            let y = string_of(src, n.min(6), 9);
            let how = src.below(6);
            return match how {
                0 => t.to_string(),
                1 => format!("{}{}", t, x),
                2 => format!("{}{}", x, t),
                3 => format!("{}{}{}", x, t, y),
                4 => twist(src, t),
                _ => t.chars().take(n as usize).collect(),
            };
        }
    }
    s.push_str(&string_of(src, n, shape));
    s
}

fn string_of(src: &mut Src, n: u64, shape: u64) -> String {
    let mut s = String::new();
    let mut kind = src.below(12);
    let mut run = 0;
    let mut last = 'a';
    for _ in 0..n {
        match shape {
            // every character of its own kind
            0..=6 => kind = src.below(12),
            // runs of a kind
            7 | 8 => {
                if run == 0 {
                    kind = if src.chance(500) { 0 } else { src.below(12) };
                    run = src.range(1, 40);
                }
                run -= 1;
            }
            // nearly all of a kind
            9 => kind = if src.chance(40) { src.below(12) } else { 0 },
            10 => kind = if src.chance(40) { src.below(12) } else { 4 },
            12 => kind = 0,
            _ => kind = if src.chance(100) { src.below(12) } else { 99 },
        }
        let c = match kind {
            0..=3 => 0x61 + src.below(26) as u32,
            4 => src.range(0x20, 0x7E) as u32,
            5 => *src.pick(&[0u32, 0x2F, 0x3B, 0x5B, 0x7F, 0x28, 0x4C, 0x56]),
            6 => *src.pick(&[0u32, 1, 9, 10, 13, 0x1B, 0x20, 0x22, 0x24, 0x25, 0x27, 0x2E, 0x5C, 0x5F, 0x7B, 0x7D, 0x7F]),
            7 => 0x80 + src.below(0x780) as u32,
            8 => *src.pick(&[
                0x80u32, 0x85, 0xA0, 0xAD, 0xDF, 0xE9, 0x130, 0x131, 0x17F, 0x1C5, 0x301, 0x3A3, 0x3C2, 0x3C3, 0x5D0, 0x7FF,
                0x800, 0xFFF, 0x1000, 0x1100, 0x1E9E, 0x200B, 0x200D, 0x2028, 0x202E, 0x20AC, 0x212B, 0x3000, 0xAC00, 0xD7FF,
                0xE000, 0xEFFF, 0xF8FF, 0xFB01, 0xFDD0, 0xFE0F, 0xFEFF, 0xFFFC, 0xFFFD, 0xFFFE, 0xFFFF,
            ]),
            9 => 0x800 + src.below(0xD000) as u32,
            10 => *src.pick(&[0x1_0000u32, 0x1_03FF, 0x1_0400, 0x10_FFFF, 0xF_FFFF, 0x1_F600, 0x1_FFFE, 0xE_0001, 0x10_0000]),
            11 if src.chance(60) => src.learned(0x11_0000).unwrap_or(0x61) as u32,
            11 => 0x1_0000 + src.below(0x10_0000) as u32,
            _ => last as u32,
        };
        last = char::from_u32(c).unwrap_or('?');
        s.push(last);
    }
    s
}

const DESCS: [&str; 10] = [
    "I", "[[J", "Ljava/lang/String;", "()V", "(I[DLjava/util/Map$Entry;)[[Z", "(", "[", "L;", "java/lang/Object", "<init>",
];

struct Gen<'a> {
    s: &'a mut Src,
    o: Vec<u8>,
    focus: Focus,
    pool: u16,
    /// indices of the attribute names, per entry of ATTRS
    names: Vec<Vec<u16>>,
    budget: i64,
    big: u64,
    /// values written lately, some are written again
    late: [u16; 4],
    /// how many more tables may have hundreds of entries, or tens of thousands
    long: u32,
    huge: u32,
    large: bool,
    /// a number that occurs in several places of this file, if it may matter
    tune: Option<u64>,
    /// after so many tables, one of so many entries
    bulk: Option<(u32, u16)>,
    /// tables end early rather than make the file larger than this
    limit: usize,
}

fn p2(o: &mut Vec<u8>, v: u16) {
    o.extend_from_slice(&v.to_be_bytes());
}
fn p4(o: &mut Vec<u8>, v: u32) {
    o.extend_from_slice(&v.to_be_bytes());
}

pub fn utf8_const(s: &str) -> Vec<u8> {
    let m = mutf8(s);
    let mut o = vec![1];
    p2(&mut o, m.len() as u16);
    o.extend_from_slice(&m);
    o
}

fn constant(s: &mut Src, pool_hint: u64, focus: Focus) -> (Vec<u8>, u16) {
    let mut o = Vec::new();
    let idx = |s: &mut Src| {
        if s.chance(900) {
            s.below(pool_hint + 2) as u16
        } else {
            s.u16()
        }
    };
    if focus == Focus::Desc && s.chance(850) {
        let m = mutf8(&descriptor(s));
        if m.len() < 60_000 {
            o.push(1);
            p2(&mut o, m.len() as u16);
            o.extend_from_slice(&m);
            return (o, 1);
        }
    }
    let kind = if focus == Focus::Text { s.below(4) } else { s.below(19) };
    let mut slots = 1;
    match kind {
        0 | 1 => {
            let max = if s.chance(30) { 300 } else { 12 };
            let t = string(s, max);
            o = utf8_const(&t);
        }
        2 => {
            let d = *s.pick(&DESCS);
            o = utf8_const(d);
        }
        3 => o = utf8_const(""),
        4 => {
            o.push(3);
            p4(&mut o, s.u32());
        }
        5 => {
            o.push(4);
            p4(&mut o, s.u32());
        }
        6 | 7 => {
            o.push(5);
            o.extend_from_slice(&s.u64().to_be_bytes());
            slots = 2;
        }
        8 | 9 => {
            o.push(6);
            o.extend_from_slice(&s.u64().to_be_bytes());
            slots = 2;
        }
        10..=14 => {
            o.push([7, 8, 16, 19, 20][kind as usize - 10]);
            let x = idx(s);
            p2(&mut o, x);
        }
        15 | 16 => {
            o.push(*s.pick(&[9u8, 10, 11]));
            let (x, y) = (idx(s), idx(s));
            p2(&mut o, x);
            p2(&mut o, y);
        }
        17 => {
            o.push(*s.pick(&[12u8, 18]));
            let (x, y) = (idx(s), idx(s));
            p2(&mut o, x);
            p2(&mut o, y);
        }
        _ => {
            o.push(15);
            o.push(s.range(1, 9) as u8);
            let x = idx(s);
            p2(&mut o, x);
        }
    }
    (o, slots)
}

fn one_type(s: &mut Src, o: &mut String, dims: u64) {
    for _ in 0..dims {
        o.push('[');
    }
    match s.below(3) {
        0 | 1 => o.push(*s.pick(&['Z', 'B', 'S', 'I', 'J', 'F', 'D', 'C'])),
        _ => {
            o.push('L');
            match s.below(4) {
                0 => o.push_str(s.pick(&["java/lang/String", "A", "V", "L", "I", "a/b$C", "\u{e9}", "LL", "[", "(", ")"])),
                1 => {
                    let n = s.range(1, 12);
                    let t: String = string(s, n).chars().filter(|c| *c != ';').collect();
                    o.push_str(if t.is_empty() { "x" } else { &t });
                }
                _ => {
                    let max = if s.chance(20) { 300 } else { 6 };
                    for _ in 0..s.range(1, max) {
                        let c = *s.pick(&['a', 'Z', 'I', 'L', 'V', '/', '$', 'b', '\u{3b1}', '\u{10400}']);
                        o.push(c);
                    }
                }
            }
            o.push(';');
        }
    }
}
fn dims(s: &mut Src) -> u64 {
    match s.below(20) {
        0..=9 => 0,
        10..=15 => s.range(1, 4),
        16 | 17 if s.chance(600) => s.learned(256).unwrap_or(64),
        16 => s.range(1, 40),
        17 => s.range(126, 130),
        18 => s.range(253, 255),
        _ => 255,
    }
}

/// A text, with what may make it a descriptor in front and behind.
fn completed(s: &mut Src, t: &str) -> String {
    let mut o = String::new();
    for _ in 0..8 {
        let front = *s.pick(&["", "", "", "[", "[[", "L", "La", "Lx/", "[Ljava/", "(", "([", "(I", "(L", "(Lx;[", "()", "()L", "(JLa", "(La;I)"]);
        let back = *s.pick(&["", "", ";", "a;", "x/y;", "/Z;", "I", "J", "V", ")V", ")I", ";)V", "a;)V", "I)V", ")[La;", "I;[J)V", "Lb;", "Lb;)Lc;"]);
        o = format!("{}{}{}", front, t, back);
        if crate::descs::accepted(&o) {
            break;
        }
    }
    o
}

/// A descriptor, or something close to one.
pub fn descriptor(s: &mut Src) -> String {
    let mut o = String::new();
    if s.chance(25) {
        if let Some(t) = s.learned_text() {
            return completed(s, t);
        }
    }
    if s.chance(450) {
        let d = dims(s);
        one_type(s, &mut o, d);
    } else {
        o.push('(');
        let n = match s.below(20) {
            0..=13 => s.below(5),
            14..=16 => s.below(40),
            17 if s.chance(300) => s.learned(256).unwrap_or(64),
            17 => s.range(126, 130),
            18 => s.range(253, 255),
            _ => 255,
        };
        for _ in 0..n {
            let d = if n > 20 && s.chance(980) { 0 } else { dims(s) };
            one_type(s, &mut o, d);
        }
        o.push(')');
        if s.chance(500) {
            o.push('V');
        } else {
            let d = dims(s);
            one_type(s, &mut o, d);
        }
    }
    if s.chance(300) {
        o = twist(s, &o);
    }
    o
}

/// Loses, repeats, inserts or exchanges a character.
pub fn twist(s: &mut Src, of: &str) -> String {
    let mut c: Vec<char> = of.chars().collect();
    // a place: anywhere, but the ends are more interesting
    let at = |s: &mut Src, n: usize| match s.below(4) {
        0 => n - 1,
        1 => 0,
        _ => s.usize(n),
    };
    let any = |s: &mut Src| *s.pick(&['[', 'I', 'V', 'L', ';', '(', ')', 'Z', '/', 'x', 'J', 'D', ' ', '\u{0}', '\u{e9}', 'T', 'v', 'A']);
    match s.below(6) {
        0 if !c.is_empty() => {
            let i = at(s, c.len());
            c.remove(i);
        }
        1 if !c.is_empty() => {
            let i = at(s, c.len());
            c.insert(i, c[i]);
        }
        2 if !c.is_empty() => {
            let i = at(s, c.len());
            c[i] = any(s);
        }
        3 if !c.is_empty() => {
            let n = s.usize(c.len());
            c.truncate(n);
        }
        4 if c.len() > 1 => {
            let i = s.usize(c.len() - 1);
            c.swap(i, i + 1);
        }
        _ => {
            let i = s.usize(c.len() + 1);
            let x = any(s);
            c.insert(i, x);
        }
    }
    c.into_iter().collect()
}

/// A well-formed class file.
pub fn class(s: &mut Src, focus: Focus) -> Vec<u8> {
    // size class of this file
    let big = match s.below(40) {
        0..=23 => 0,
        24..=36 => 1,
        _ => 2,
    };
    let mut entries: Vec<(Vec<u8>, u16, Option<usize>)> = Vec::new();
    for (i, a) in ATTRS.iter().enumerate() {
        let likely = if focus == a.2 || focus == Focus::Mixed { 800 } else { 250 };
        if s.chance(likely) {
            let name = if i >= UNKNOWN && s.chance(600) { unknown(s) } else { a.0.to_string() };
            entries.push((utf8_const(&name), 1, Some(i)));
            if s.chance(60) {
                entries.push((utf8_const(a.0), 1, Some(i)));
            }
        }
    }
    let extra = match (focus, big) {
        (Focus::Pool, 0) | (Focus::Text, 0) => s.below(30),
        (Focus::Desc, _) => s.below(30),
        (Focus::Pool, 1) | (Focus::Text, 1) => s.below(150),
        (Focus::Pool, _) => s.below(1200),
        (_, 0) => s.below(6),
        (_, _) => s.below(30),
    };
    let hint = entries.len() as u64 + extra;
    for _ in 0..extra {
        let at = s.usize(entries.len() + 1);
        if !entries.is_empty() && s.chance(120) {
            // constants may occur more than once
            let dup = entries[s.usize(entries.len())].clone();
            entries.insert(at, dup);
        } else {
            let (b, slots) = constant(s, hint, focus);
            entries.insert(at, (b, slots, None));
        }
    }
    if s.chance(12) {
        // what follows has indices of more than 7, 8 or 15 bits
        let n = if s.chance(80) {
            *s.pick(&[32_700u64, 32_768, 33_000, 40_000, 65_000])
        } else {
            *s.pick(&[100u64, 127, 128, 200, 250, 255, 256, 257, 300, 511, 512, 1000])
        };
        let n = if s.chance(200) { s.learned(60_000).unwrap_or(n) } else { n };
        let at = s.usize(entries.len() + 1);
        let b = match s.below(4) {
            0 => (utf8_const(""), 1, None),
            1 => (vec![7, 0, 1], 1, None),
            2 => (vec![6, 0, 0, 0, 0, 0, 0, 0, 0], 2, None),
            _ => (vec![3, 0, 0, 0, 9], 1, None),
        };
        let n = n as usize / usize::from(b.1);
        if entries.len() < 250 {
            entries.splice(at..at, std::iter::repeat(b).take(n));
        }
    }
    let mut names = vec![Vec::new(); ATTRS.len()];
    let mut o = vec![0xCA, 0xFE, 0xBA, 0xBE];
    p2(&mut o, s.u16());
    p2(&mut o, if s.chance(300) { s.u16() } else { 45 + s.below(10) as u16 });
    let mut next = 1u16;
    let mut body = Vec::new();
    for (b, slots, name) in &entries {
        if let Some(i) = name {
            names[*i].push(next);
        }
        body.extend_from_slice(b);
        next += slots;
    }
    p2(&mut o, next);
    o.extend_from_slice(&body);

    let budget = [6, 24, 120][big as usize];
    let long = if s.chance(120) { 3 } else { 0 };
    let huge = if s.chance(4) { 1 } else { 0 };
    let tune = if s.chance(200) { s.learned(65536) } else { None };
    let mut g = Gen { s, o, focus, pool: next, names, budget, big, late: [0; 4], long, huge, large: true, tune, bulk: None, limit: usize::MAX };
    let (members, ifaces) = match (focus, big) {
        (Focus::Members, 0) => (4, 6),
        (Focus::Members, _) => (16, 40),
        (_, 0) => (2, 3),
        (_, _) => (5, 6),
    };
    g.flags();
    g.index();
    g.index();
    g.indices(ifaces - 1);
    for place in [FIELD, METHOD] {
        let mut n = g.s.below(members + 1) as u16;
        let leads = place == METHOD && matches!(focus, Focus::Code | Focus::Frames | Focus::Tables | Focus::Annot);
        if leads && n == 0 && g.s.chance(800) {
            n = 1;
        }
        if focus == Focus::Members && g.s.chance(20) {
            n = match g.s.below(3) {
                0 => 250 + g.s.below(30) as u16,
                1 => *g.s.pick(&[127, 128, 255, 256, 257]),
                _ => g.s.below(130) as u16,
            };
        }
        n = g.tuned(100, 600).unwrap_or(n);
        g.table(n, &mut |g| {
            g.flags();
            g.index();
            g.index();
            g.attrs(place, 0);
        });
    }
    let at = g.o.len();
    g.attrs(CLASS, 0);
    if g.s.chance(15) {
        // a file whose length is a round number, or one that may matter
        let len = g.o.len() + 6;
        let unit = *g.s.pick(&[256usize, 512, 1024, 4096, 8192]);
        let mut fill = (unit - len % unit) % unit;
        if g.s.chance(400) {
            if let Some(k) = g.s.learned(70_000) {
                fill = (k as usize).saturating_sub(len);
            }
        }
        let known: Vec<u16> = g.names[UNKNOWN..].iter().flatten().cloned().collect();
        if !known.is_empty() {
            let name = *g.s.pick(&known);
            g.w2(name);
            g.w4(fill as u32);
            g.o.resize(len + fill, 1);
            let n = 1 + (u16::from(g.o[at]) << 8 | u16::from(g.o[at + 1]));
            g.o[at..at + 2].copy_from_slice(&n.to_be_bytes());
        }
    }
    let mut o = g.o;
    // now and then, other tools leave something behind the class
    if s.chance(20) {
        for _ in 0..s.range(1, 9) {
            o.push(s.u8());
        }
    }
    o
}

impl<'a> Gen<'a> {
    fn w1(&mut self, v: u8) {
        self.o.push(v);
    }
    fn w2(&mut self, v: u16) {
        p2(&mut self.o, v);
    }
    fn w4(&mut self, v: u32) {
        p4(&mut self.o, v);
    }
    fn index(&mut self) {
        if let Some(v) = self.tuned(40, 65536) {
            return self.value(v);
        }
        let v = match self.s.below(20) {
            0..=12 => self.s.below(u64::from(self.pool) + 1) as u16,
            13..=14 => self.again(),
            _ => self.s.u16(),
        };
        self.value(v);
    }
    /// Now and then the number this file is about, if it is less than `n`.
    fn tuned(&mut self, permille: u64, n: u64) -> Option<u16> {
        match self.tune {
            Some(k) if k < n && self.s.chance(permille) => Some(k as u16),
            _ => None,
        }
    }
    fn again(&mut self) -> u16 {
        let i = self.s.usize(4);
        self.late[i]
    }
    fn value(&mut self, v: u16) {
        let l = self.late;
        self.late = [v, l[0], l[1], l[2]];
        self.w2(v);
    }
    /// A counted table, in which entries may repeat.
    fn table(&mut self, n: u16, entry: &mut dyn FnMut(&mut Gen)) {
        let at = self.o.len();
        self.w2(n);
        let n = self.entries(n, entry);
        self.o[at..at + 2].copy_from_slice(&n.to_be_bytes());
    }
    /// The same, counted by one byte.
    fn table1(&mut self, n: u8, entry: &mut dyn FnMut(&mut Gen)) {
        let at = self.o.len();
        self.w1(n);
        self.o[at] = self.entries(n.into(), entry) as u8;
    }
    fn entries(&mut self, n: u16, entry: &mut dyn FnMut(&mut Gen)) -> u16 {
        let mut starts: Vec<usize> = Vec::new();
        for i in 0..n {
            if self.o.len() > self.limit {
                return i;
            }
            starts.push(self.o.len());
            if self.bulk.is_some() && i >= 20 {
                // one of the first entries again
                let k = self.s.usize(18);
                let copy = self.o[starts[k]..starts[k + 1]].to_vec();
                self.o.extend_from_slice(&copy);
                continue;
            }
            // long tables repeat a short one
            if i > 0 && (i >= 20 || self.s.chance(60)) {
                let mut k = usize::from(i) - 1;
                if i >= 20 {
                    k -= self.s.usize(8);
                    if starts[k + 1] - starts[k] > 24 {
                        k = (0..usize::from(i)).min_by_key(|k| starts[k + 1] - starts[*k]).unwrap_or(k);
                    }
                }
                let copy = self.o[starts[k]..starts[k + 1]].to_vec();
                self.o.extend_from_slice(&copy);
            } else {
                entry(self);
            }
        }
        n
    }
    fn flags(&mut self) {
        let one = |s: &mut Src| 1u16 << s.below(16);
        let v = match self.s.below(16) {
            0..=3 => one(self.s),
            4 => 0,
            5 => one(self.s) | one(self.s),
            6 => one(self.s) | one(self.s) | one(self.s),
            7 => !one(self.s),
            8 => *self.s.pick(&[0x0001u16, 0x0009, 0x0021, 0x0031, 0x0601, 0x2601, 0x4031, 0x8000, 0x1018, 0x0040, 0xFFFF, 0x0401]),
            _ => self.s.below(65536) as u16,
        };
        self.w2(v);
    }
    fn num(&mut self) {
        let v = if self.s.chance(80) { self.again() } else { self.s.u16() };
        let v = self.tuned(100, 65536).unwrap_or(v);
        self.value(v);
    }
    fn byte(&mut self) {
        let v = if self.s.chance(300) { *self.s.pick(&[0u8, 1, 0x7F, 0x80, 0xFE, 0xFF]) } else { self.s.u8() };
        self.w1(v);
    }
    /// Whether this is the table that has very many entries.
    fn bulky(&mut self) -> Option<u16> {
        match self.bulk {
            Some((0, n)) => {
                self.bulk = Some((u32::MAX, 0));
                Some(n)
            }
            Some((u32::MAX, _)) | None => None,
            Some((k, n)) => {
                self.bulk = Some((k - 1, n));
                None
            }
        }
    }
    fn count(&mut self, max: u64) -> u16 {
        if let Some(n) = self.bulky() {
            return n;
        }
        if self.o.len() < 200_000 {
            if let Some(n) = self.tuned(60, 600) {
                return n;
            }
        }
        if self.long > 0 && self.s.chance(200) {
            self.long -= 1;
            return self.s.range(250, 262) as u16;
        }
        if self.s.chance(12) {
            return self.s.below(72) as u16;
        }
        if self.s.chance(8) {
            if let Some(n) = self.s.learned(600) {
                return n as u16;
            }
        }
        if self.large && self.s.chance(5) {
            // one that is as large as may matter
            if let Some(n) = self.s.learned(65536) {
                self.large = n < 600;
                return n as u16;
            }
        }
        let m = if self.big > 0 { max * 3 } else { max };
        self.s.below(m + 1) as u16
    }

    fn attrs(&mut self, place: u8, depth: usize) {
        let max = match (self.big, depth) {
            (0, 0) => 3,
            (0, _) => 2,
            (_, 0) => 5,
            _ => 4,
        };
        let at = self.o.len();
        self.w2(0);
        let mut n = 0u16;
        let want = self.s.below(max + 1);
        for _ in 0..want {
            if self.budget <= 0 {
                break;
            }
            if self.attr(place, depth) {
                n += 1;
            }
        }
        self.o[at..at + 2].copy_from_slice(&n.to_be_bytes());
    }

    fn attr(&mut self, place: u8, depth: usize) -> bool {
        let anywhere = self.s.chance(70);
        let mut cands = Vec::new();
        for (i, a) in ATTRS.iter().enumerate() {
            if self.names[i].is_empty() || !(anywhere || a.1 & place != 0) {
                continue;
            }
            if i == 0 && depth > 2 {
                continue;
            }
            // the focus is met often, and what leads there as well
            let leads = i == 0 && (self.focus == Focus::Frames || self.focus == Focus::Tables);
            let w = if a.2 == self.focus || leads { 6 } else { 1 };
            for _ in 0..w {
                cands.push(i);
            }
        }
        if cands.is_empty() {
            return false;
        }
        self.budget -= 1;
        let i = *self.s.pick(&cands);
        let name = *self.s.pick(&self.names[i].clone());
        self.w2(name);
        let at = self.o.len();
        self.w4(0);
        self.body(i, depth);
        let len = (self.o.len() - at - 4) as u32;
        self.o[at..at + 4].copy_from_slice(&len.to_be_bytes());
        true
    }

    fn indices(&mut self, max: u64) {
        let n = self.simple_count(max);
        self.table(n, &mut |g| g.index());
    }

    fn rows(&mut self, max: u64, cols: usize) {
        let n = self.simple_count(max);
        let mut last: Vec<u16> = Vec::new();
        self.table(n, &mut |g| {
            if last.is_empty() || !g.s.chance(250) {
                let at = g.o.len();
                for _ in 0..cols {
                    g.num();
                }
                last = g.o[at..].chunks(2).map(|c| u16::from(c[0]) << 8 | u16::from(c[1])).collect();
                return;
            }
            // a row that continues, or is nearly, the one before
            let (a, b) = (g.s.usize(cols), g.s.usize(cols));
            match g.s.below(8) {
                0 => {
                    last[0] = last[1];
                    last[1] = g.s.u16();
                }
                1 => last[0] = last[1],
                2 => last[0] = last[0].wrapping_add(last[1]),
                3 => last[a] = last[a].wrapping_add(1),
                4 => last[a] = last[a].wrapping_sub(1),
                5 => last.swap(a, b),
                6 => last[a] = last[b],
                _ => last[a] = g.s.u16(),
            }
            for v in last.clone() {
                g.w2(v);
            }
        });
    }

    /// For entries of a few bytes.
    fn simple_count(&mut self, max: u64) -> u16 {
        if self.huge > 0 && self.s.chance(400) {
            self.huge -= 1;
            return *self.s.pick(&[32767, 32768, 32769, 33000, 65535]);
        }
        self.count(max)
    }

    /// For counts of one byte.
    fn small_count(&mut self, max: u64) -> u8 {
        if self.long > 0 && self.s.chance(200) {
            self.long -= 1;
            return *self.s.pick(&[127, 128, 129, 200, 254, 255]);
        }
        self.count(max).min(255) as u8
    }

    fn body(&mut self, i: usize, depth: usize) {
        match ATTRS[i].0 {
            "Code" => self.code(depth),
            "ConstantValue" | "Signature" | "SourceFile" | "ModuleMainClass" => self.index(),
            "EnclosingMethod" => {
                self.index();
                self.index();
            }
            "Deprecated" | "Synthetic" => {}
            "SourceDebugExtension" => {
                let max = if self.s.chance(30) { 2000 } else { 20 };
                let t = mutf8(&string(self.s, max));
                self.o.extend_from_slice(&t);
            }
            "BootstrapMethods" => {
                let n = self.count(4);
                self.table(n, &mut |g| {
                    g.index();
                    g.indices(4);
                });
            }
            "Exceptions" | "ModulePackages" => self.indices(5),
            "InnerClasses" => {
                let n = self.count(4);
                self.table(n, &mut |g| {
                    g.index();
                    g.index();
                    g.index();
                    g.flags();
                });
            }
            "LineNumberTable" => self.rows(6, 2),
            "LocalVariableTable" | "LocalVariableTypeTable" => self.rows(4, 5),
            "MethodParameters" => {
                let n = if self.s.chance(50) { self.s.u8() } else { self.small_count(4) };
                self.table1(n, &mut |g| {
                    g.index();
                    g.flags();
                });
            }
            "Module" => {
                self.index();
                self.flags();
                self.index();
                let n = self.count(3);
                self.table(n, &mut |g| {
                    g.index();
                    g.flags();
                    g.index();
                });
                for _ in 0..2 {
                    let n = self.count(3);
                    self.table(n, &mut |g| {
                        g.index();
                        g.flags();
                        g.indices(3);
                    });
                }
                self.indices(3);
                let n = self.count(3);
                self.table(n, &mut |g| {
                    g.index();
                    g.indices(3);
                });
            }
            "AnnotationDefault" => self.element(depth + 1),
            "RuntimeVisibleAnnotations" | "RuntimeInvisibleAnnotations" => self.annotations(depth + 1),
            "RuntimeVisibleParameterAnnotations" | "RuntimeInvisibleParameterAnnotations" => {
                let n = self.small_count(3);
                self.table1(n, &mut |g| g.annotations(depth + 1));
            }
            "RuntimeVisibleTypeAnnotations" | "RuntimeInvisibleTypeAnnotations" => {
                let n = self.count(4);
                self.table(n, &mut |g| g.type_annotation(depth + 1));
            }
            "StackMapTable" => {
                let n = self.count(8);
                self.table(n, &mut |g| g.frame());
            }
            _ => {
                let mut n = if self.s.chance(50) { self.s.below(3000) } else { self.s.below(12) };
                if self.s.chance(50) {
                    n = self.s.learned(5000).unwrap_or(n);
                }
                for _ in 0..n {
                    let b = self.s.u8();
                    self.w1(b);
                }
            }
        }
    }

    fn annotations(&mut self, depth: usize) {
        let n = self.count(3);
        self.table(n, &mut |g| g.annotation(depth));
    }

    fn annotation(&mut self, depth: usize) {
        self.index();
        let most = if self.bulk.is_some() { 65535 } else { 300 };
        let n = self.count(3).min(if depth > 4 { 1 } else { most });
        self.table(n, &mut |g| {
            g.index();
            g.element(depth);
        });
    }

    fn element(&mut self, depth: usize) {
        let k = self.s.below(if depth >= 12 { 11 } else { 14 });
        match k {
            0..=9 => {
                let t = b"BCDFIJSZsc"[k as usize];
                self.w1(t);
                self.index();
            }
            10 => {
                self.w1(b'e');
                self.index();
                self.index();
            }
            11 => {
                self.w1(b'@');
                self.annotation(depth + 1);
            }
            _ => {
                self.w1(b'[');
                let most = if self.bulk.is_some() { 65535 } else { 300 };
                let n = self.count(3).min(if depth > 4 { 2 } else { most });
                self.table(n, &mut |g| g.element(depth + 1));
            }
        }
    }

    fn type_annotation(&mut self, depth: usize) {
        let t = *self.s.pick(&[
            0x00u8, 0x01, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x40, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46,
            0x47, 0x48, 0x49, 0x4A, 0x4B,
        ]);
        self.w1(t);
        match t {
            0x00 | 0x01 | 0x16 => self.byte(),
            0x10 | 0x17 | 0x42..=0x46 => self.num(),
            0x11 | 0x12 => {
                self.byte();
                self.byte();
            }
            0x40 | 0x41 => {
                if self.s.chance(20) {
                    // more entries than fit into a byte
                    let n = 250 + self.s.below(20) as u16;
                    self.w2(n);
                    for _ in 0..n {
                        self.w2(n);
                        self.w2(7);
                        self.w2(1);
                    }
                } else {
                    self.rows(3, 3)
                }
            }
            0x47..=0x4B => {
                self.num();
                self.byte();
            }
            _ => {}
        }
        let n = self.small_count(3);
        self.table1(n, &mut |g| {
            let k = g.s.below(4) as u8;
            g.w1(k);
            g.byte();
        });
        self.annotation(depth);
    }

    fn verif(&mut self) {
        let t = self.s.below(9) as u8;
        self.w1(t);
        if t > 6 {
            self.num();
        }
    }

    fn frame(&mut self) {
        let t = match self.s.below(8) {
            0 => self.s.below(64) as u8,
            1 => 64 + self.s.below(64) as u8,
            2 => 247,
            3 => 248 + self.s.below(3) as u8,
            4 => 251,
            5 => 252 + self.s.below(3) as u8,
            6 => 255,
            _ => *self.s.pick(&[0u8, 63, 64, 127, 247, 248, 250, 251, 252, 254]),
        };
        self.w1(t);
        match t {
            0..=63 => {}
            64..=127 => self.verif(),
            247 => {
                self.num();
                self.verif();
            }
            248..=251 => self.num(),
            252..=254 => {
                self.num();
                for _ in 0..t - 251 {
                    self.verif();
                }
            }
            _ => {
                self.num();
                for _ in 0..2 {
                    let n = self.count(4);
                    self.table(n, &mut |g| g.verif());
                }
            }
        }
    }

    fn code(&mut self, depth: usize) {
        self.num();
        self.num();
        let at = self.o.len();
        self.w4(0);
        let base = self.o.len();
        let n = match (self.focus, self.big) {
            (Focus::Code, 0) => self.s.range(1, 12),
            (Focus::Code, 1) => self.s.range(1, 60),
            (Focus::Code, _) => self.s.range(1, 400),
            _ => self.s.range(1, 4),
        };
        if self.focus == Focus::Code && self.s.chance(6) {
            // code whose offsets take more than 15 or 16 bits
            let block: Vec<u8> = (0..self.s.range(1, 40)).map(|_| *self.s.pick(&[0u8, 1, 0x2A, 0x57, 0x59, 0x60, 0xB1, 0xC2, 0x92, 0xBE])).collect();
            let mut want = *self.s.pick(&[32760usize, 32768, 65520, 65530, 65534, 65535, 65536, 65537, 66000]);
            if self.s.chance(300) {
                want = self.s.learned(70_000).map_or(want, |k| (k as usize).saturating_sub(3 * self.s.usize(2)));
            }
            while self.o.len() - base < want {
                let left = want - (self.o.len() - base);
                self.o.extend_from_slice(&block[..block.len().min(left)]);
            }
        }
        for _ in 0..n {
            self.instruction(base);
        }
        let len = (self.o.len() - base) as u32;
        self.o[at..at + 4].copy_from_slice(&len.to_be_bytes());
        self.rows(2, 4);
        self.attrs(CODE, depth + 1);
    }

    fn instruction(&mut self, base: usize) {
        let op = match self.s.below(10) {
            0..=6 => self.s.below(203) as u8,
            7 => *self.s.pick(&[0xAAu8, 0xAB, 0xC4, 0x84, 0xB9, 0xBA, 0xBC, 0xC5, 0x10, 0x11, 0x12, 0x13, 0x14]),
            8 => *self.s.pick(&[0xC8u8, 0xC9, 0xA7, 0xA8, 0xA9, 0xFE, 0xFF]),
            _ => 0,
        };
        if self.s.chance(20) {
            // at an offset that may matter
            if let Some(k) = self.s.learned(3000) {
                let at = base + k as usize;
                if at > self.o.len() {
                    self.o.resize(at, 0);
                }
            }
        }
        self.w1(op);
        if op >= 0xCB {
            return;
        }
        match OPCODES[op as usize].1 {
            '-' => {}
            'b' | 'u' => self.byte(),
            's' | 'j' | 'w' => self.num(),
            'J' => {
                let v = self.s.u32();
                self.w4(v);
            }
            'i' => {
                self.byte();
                self.byte();
            }
            'I' => {
                self.num();
                self.byte();
                self.w1(0);
            }
            'D' => {
                self.num();
                self.w2(0);
            }
            'a' => {
                let k = 4 + self.s.below(8) as u8;
                self.w1(k);
            }
            'm' => {
                self.num();
                self.byte();
            }
            'T' => {
                while (self.o.len() - base) % 4 != 0 {
                    self.w1(0);
                }
                let n = self.count(4) as u32 + 1;
                let d = self.s.u32();
                self.w4(d);
                let mut late = [d, 1];
                let low = match self.s.below(4) {
                    0 => 0,
                    1 => i32::MIN,
                    2 => i32::MAX - (n as i32 - 1),
                    _ => (self.s.u32() as i32).min(i32::MAX - n as i32),
                };
                self.w4(low as u32);
                self.w4((low + (n as i32 - 1)) as u32);
                for _ in 0..n {
                    let v = if self.s.chance(150) { *self.s.pick(&late) } else { self.s.u32() };
                    late[1] = v;
                    self.w4(v);
                }
            }
            'L' => {
                while (self.o.len() - base) % 4 != 0 {
                    self.w1(0);
                }
                let d = self.s.u32();
                self.w4(d);
                let n = self.count(4);
                let mut keys: Vec<i32> = (0..n).map(|_| self.s.u32() as i32).collect();
                keys.sort();
                keys.dedup();
                self.w4(keys.len() as u32);
                let mut late = [d, 1];
                for k in keys {
                    self.w4(k as u32);
                    let v = if self.s.chance(150) { *self.s.pick(&late) } else { self.s.u32() };
                    late[1] = v;
                    self.w4(v);
                }
            }
            _ => {
                let sub = *self.s.pick(&[0x15u8, 0x16, 0x17, 0x18, 0x19, 0x36, 0x37, 0x38, 0x39, 0x3A, 0x84, 0xA9]);
                self.w1(sub);
                self.num();
                if sub == 0x84 {
                    self.num();
                }
            }
        }
    }
}

/// Crafted files: structures that nest or count far beyond what is usual.
pub fn crafted(s: &mut Src) -> (Vec<u8>, &'static str) {
    let mut o = vec![0xCA, 0xFE, 0xBA, 0xBE, 0, 0, 0, 52];
    let names = [
        "AnnotationDefault", "Code", "RuntimeVisibleAnnotations", "BootstrapMethods", "Unknown", "StackMapTable",
        "Module", "RuntimeVisibleTypeAnnotations", "SourceDebugExtension",
    ];
    p2(&mut o, names.len() as u16 + 1);
    for n in &names {
        o.extend_from_slice(&utf8_const(n));
    }
    for _ in 0..3 {
        p2(&mut o, 1);
    }
    for _ in 0..3 {
        p2(&mut o, 0);
    }
    let depth = match s.below(4) {
        0 => s.range(1, 30),
        1 => s.range(50, 80),
        2 => s.range(100, 2000),
        _ => s.range(2000, 40_000),
    } as usize;
    let attr = |o: &mut Vec<u8>, name: u16, body: Vec<u8>| {
        p2(o, 1);
        p2(o, name);
        p4(o, body.len() as u32);
        o.extend_from_slice(&body);
    };
    let kind = s.below(9);
    let label = match kind {
        0 => {
            // arrays in arrays; every level may claim many elements
            let claim = *s.pick(&[1u16, 2, 0xFFFF]);
            let mut b = Vec::new();
            for _ in 0..depth {
                b.push(b'[');
                p2(&mut b, claim);
            }
            b.extend_from_slice(&[b'I', 0, 1]);
            attr(&mut o, 1, b);
            "nested arrays"
        }
        1 => {
            let claim = *s.pick(&[1u16, 2, 0xFFFF]);
            let mut b = Vec::new();
            for _ in 0..depth {
                b.push(b'@');
                p2(&mut b, 1);
                p2(&mut b, claim);
                p2(&mut b, 1);
            }
            b.extend_from_slice(&[b'I', 0, 1]);
            attr(&mut o, 1, b);
            "nested annotations"
        }
        2 => {
            // code in code, from the inside out
            let depth = depth.min(6000);
            let mut tail = Vec::new();
            let head = 14usize;
            let mut inner = 0usize;
            let mut out: Vec<Vec<u8>> = Vec::new();
            for level in 0..depth {
                let mut b = Vec::new();
                p2(&mut b, 1);
                p2(&mut b, 1);
                p4(&mut b, 1);
                b.push(0xB1);
                p2(&mut b, 0);
                if level == 0 {
                    p2(&mut b, 0);
                    inner = b.len();
                } else {
                    p2(&mut b, 1);
                    p2(&mut b, 2);
                    p4(&mut b, inner as u32);
                    inner += b.len();
                }
                out.push(b);
            }
            let _ = head;
            for b in out.into_iter().rev() {
                tail.extend_from_slice(&b);
            }
            attr(&mut o, 2, tail);
            "nested code"
        }
        3 => {
            // a table claiming many entries, alone or once per level
            let mut b = Vec::new();
            p2(&mut b, 0xFFFF);
            for _ in 0..s.below(20) {
                p2(&mut b, s.u16());
            }
            let name = *s.pick(&[3u16, 4, 6, 7, 8]);
            attr(&mut o, name, b);
            "huge count"
        }
        4 => {
            // bootstrap methods without arguments
            let n = s.range(1, 60_000) as u16;
            let mut b = Vec::new();
            p2(&mut b, n);
            for _ in 0..n {
                p4(&mut b, 0x0001_0000);
            }
            attr(&mut o, 4, b);
            "many bootstrap methods"
        }
        5 => {
            let mut b = Vec::new();
            p4(&mut b, 0x0001_0001);
            let n = s.below(4) as usize;
            let mut code = vec![0u8; n];
            code.push(0xAA);
            while code.len() % 4 != 0 {
                code.push(0);
            }
            p4(&mut code, 0);
            let (low, high) = *s.pick(&[
                (0i32, i32::MAX), (i32::MIN, i32::MAX), (1, 0), (5, -5), (i32::MIN, -1), (i32::MAX, i32::MAX),
                (0, 0x0FFF_FFFF), (i32::MAX, i32::MIN), (0, -2), (0, -1), (-1, i32::MAX - 1),
            ]);
            p4(&mut code, low as u32);
            p4(&mut code, high as u32);
            for _ in 0..s.below(3) {
                p4(&mut code, 4);
            }
            p4(&mut b, code.len() as u32);
            b.extend_from_slice(&code);
            p4(&mut b, 0);
            attr(&mut o, 2, b);
            "switch bounds"
        }
        6 => {
            // many small attributes
            let n = s.range(1, 3000) as u16;
            p2(&mut o, n);
            for _ in 0..n {
                p2(&mut o, 5);
                p4(&mut o, 0);
            }
            "many attributes"
        }
        7 => {
            let mut b = Vec::new();
            p4(&mut b, 0x0001_0001);
            let n = s.range(1, 70_000) as usize;
            p4(&mut b, n as u32);
            let op = *s.pick(&[0u8, 0xB1, 0xFF]);
            b.extend(std::iter::repeat(op).take(n));
            p4(&mut b, 0);
            attr(&mut o, 2, b);
            "long code"
        }
        _ => {
            // a pool that is full or nearly so
            let mut f = vec![0xCA, 0xFE, 0xBA, 0xBE, 0, 0, 0, 52];
            let count = 65535 - s.below(3) as u32;
            p2(&mut f, count as u16);
            let wide = s.below(3);
            let same = s.chance(300);
            let mut i = 1;
            while i < count {
                if wide > 0 && (i + 1 < count || wide == 2) && i % 3 == 0 {
                    f.push(5 + (i % 2) as u8);
                    f.extend_from_slice(&u64::from(if same { 1 } else { i }).to_be_bytes());
                    i += 2;
                } else {
                    f.push(3);
                    p4(&mut f, if same { 1 } else { i });
                    i += 1;
                }
            }
            for _ in 0..7 {
                p2(&mut f, 0);
            }
            o = f;
            "full pool"
        }
    };
    if s.chance(250) {
        let cut = s.usize(o.len());
        o.truncate(o.len() - cut);
    }
    (o, label)
}

/// As many as fit, few, or any number in between.
fn many(s: &mut Src) -> u16 {
    let top = 1u64 << s.range(4, 16);
    match s.below(4) {
        0 if top > 0x4000 => *s.pick(&[65535u16, 65534, 65533, 32769, 32768, 32767]),
        0 if s.chance(300) => s.learned(65536).unwrap_or(1000) as u16,
        0 => (top - 1).min(65535) as u16,
        _ => s.below(top.min(65536)) as u16,
    }
}

/// A file in which one thing is repeated a great many times.
pub fn bulk(s: &mut Src, wanted: Focus) -> (Vec<u8>, &'static str) {
    let limit = 1usize << if s.chance(60) { 20 } else { s.range(12, 18) };
    let mut kind = s.below(12);
    let own: Vec<usize> = (0..ATTRS.len()).filter(|&i| ATTRS[i].2 == wanted).collect();
    let tuned = wanted != Focus::Mixed && s.chance(600);
    if tuned {
        kind = match wanted {
            Focus::Pool => 2,
            Focus::Members => *s.pick(&[3u64, 4, 5, 6, 7]),
            Focus::Code => *s.pick(&[11u64, 11, 8]),
            _ => 8,
        };
    }
    // the pool: the names of attributes, a few constants, and many of them if they are what is repeated
    let mut entries: Vec<Vec<u8>> = ATTRS.iter().map(|a| utf8_const(a.0)).collect();
    if s.chance(250) {
        // the name of unknown attributes may be a long one
        let unit = *s.pick(&["x", "\u{0}", "\u{e9}", "Code"]);
        let n = usize::from(many(s)) / mutf8(unit).len();
        entries[29] = utf8_const(&unit.repeat(n));
    }
    let mut next = entries.len() as u32 + 1;
    let mut size = 0;
    let mut label = "";
    if kind <= 2 {
        let n = u32::from(many(s)) + next;
        let sub = s.below(11);
        let tag = *s.pick(&[7u8, 8, 9, 10, 11, 12, 15, 16, 18, 19, 20, 4, 6]);
        let (shape, other) = (s.below(5), s.below(5));
        while next < n.min(65534) && size < limit {
            let (b, slots) = match sub {
                0 => ([&[3u8][..], &next.to_be_bytes()].concat(), 1),
                1 => (vec![3, 0, 0, 0, 7], 1),
                2 => ([&[5u8, 0, 0, 0, 0][..], &next.to_be_bytes()].concat(), 2),
                3 => (utf8_const(&format!("x{}", next)), 1),
                4 => (utf8_const("x"), 1),
                5 => {
                    let unit = *s.pick(&["a", "\u{0}", "\u{e9}", "\u{2603}", "\u{1f600}"]);
                    let one = mutf8(unit).len();
                    let n = usize::from(many(s)) / one;
                    (utf8_const(&unit.repeat(n)), 1)
                }
                6 => {
                    let k = next as u16;
                    (vec![10, 0, (k & 7) as u8, (k >> 8) as u8, k as u8], 1)
                }
                7 => constant(s, u64::from(next), Focus::Pool),
                _ => {
                    // one kind, its operands following a rule
                    let k = next as u16;
                    let of = |shape| match shape {
                        0 => k,
                        1 => 0,
                        2 => !k,
                        3 => k & 0xFF,
                        _ => k >> 8 | k << 8,
                    };
                    let (x, y) = (of(shape), of(other));
                    let mut b = vec![tag];
                    match tag {
                        7 | 8 | 16 | 19 | 20 => p2(&mut b, x),
                        15 => {
                            b.push(y as u8 % 9 + 1);
                            p2(&mut b, x);
                        }
                        6 => {
                            for v in [y, 0, 0, x] {
                                p2(&mut b, v);
                            }
                        }
                        _ => {
                            p2(&mut b, x);
                            p2(&mut b, y);
                        }
                    }
                    (b, if tag == 6 { 2 } else { 1 })
                }
            };
            size += b.len();
            entries.push(b);
            next += u32::from(slots);
        }
        label = "many constants";
    }
    let mut o = vec![0xCA, 0xFE, 0xBA, 0xBE, 0, 0, 0, 52];
    p2(&mut o, next as u16);
    for e in &entries {
        o.extend_from_slice(e);
    }
    let mut names: Vec<Vec<u16>> = (1..=ATTRS.len() as u16).map(|i| vec![i]).collect();
    let limit = o.len() + limit;
    let big = s.below(2);
    let focus = *s.pick(&[Focus::Mixed, Focus::Code, Focus::Annot, Focus::Frames, Focus::Tables]);
    let mut g = Gen { s, o, focus, pool: next as u16, names: Vec::new(), budget: 40, big, late: [0; 4], long: 0, huge: 0, large: false, tune: None, bulk: None, limit };
    g.flags();
    g.index();
    g.index();
    let n = many(g.s);
    let skip = g.s.below(5) as u32;
    let ifaces = match kind {
        3 => {
            label = "many interfaces";
            n
        }
        _ => 0,
    };
    g.bulk = Some((u32::MAX, 0));
    g.table(ifaces, &mut |g| g.index());
    let members = match kind {
        4 | 5 => {
            label = "many members";
            g.names = if kind == 5 { names.clone() } else { vec![Vec::new(); ATTRS.len()] };
            n
        }
        _ => 0,
    };
    let swap = g.s.below(2) as u16;
    for (k, place) in [FIELD, METHOD].iter().enumerate() {
        let n = if swap == k as u16 { members } else { 0 };
        g.table(n, &mut |g| {
            g.budget = 8;
            g.flags();
            g.index();
            g.index();
            g.attrs(*place, 0);
        });
    }
    match kind {
        6 | 7 => {
            // many attributes, of one kind or of all
            if kind == 6 {
                let i = if g.s.chance(300) { 29 } else { g.s.usize(ATTRS.len()) };
                for (k, l) in names.iter_mut().enumerate() {
                    if k != i {
                        l.clear();
                    }
                }
            }
            g.names = names;
            label = "many attributes";
            g.table(n, &mut |g| {
                g.budget = 3;
                while !g.attr(15, 0) {
                    g.w2(0);
                    g.w4(0);
                    break;
                }
            });
        }
        8..=10 => {
            // one attribute with one large table
            label = "large table";
            let i = if tuned && !own.is_empty() { *g.s.pick(&own) } else { g.s.usize(ATTRS.len()) };
            for (k, l) in names.iter_mut().enumerate() {
                if k != i && i != 0 {
                    l.clear();
                }
            }
            g.names = names.clone();
            g.bulk = Some((skip, n));
            g.w2(1);
            g.w2(i as u16 + 1);
            let at = g.o.len();
            g.w4(0);
            if i >= 26 {
                let n = g.s.usize(g.limit);
                g.o.resize(at + 4 + n, 7);
            } else if i == 7 {
                // a debug extension
                let unit = *g.s.pick(&["a", "\u{0}", "\u{e9}", "\u{2603}", "\u{1f600}", "aaaaaaaaaaaaaaaaaaaaa\u{e9}"]);
                let one = mutf8(unit);
                let n = g.s.usize(g.limit) / one.len();
                g.o.extend_from_slice(&one.repeat(n));
            } else {
                g.body(i, 0);
            }
            let len = (g.o.len() - at - 4) as u32;
            g.o[at..at + 4].copy_from_slice(&len.to_be_bytes());
        }
        11 => {
            // long code
            label = "long code";
            g.w2(1);
            g.w2(1);
            let at = g.o.len();
            g.w4(0);
            g.w4(0x0001_0001);
            g.w4(0);
            let base = g.o.len();
            for _ in 0..g.s.range(1, 20) {
                g.instruction(base);
            }
            if g.s.chance(300) {
                // nothing but switches
                g.o.truncate(base);
                let op = *g.s.pick(&[0xAAu8, 0xAB]);
                let c = if g.s.chance(350) {
                    u32::from(many(g.s)).min(g.limit.saturating_sub(g.o.len()) as u32 / 8)
                } else {
                    g.s.below(4) as u32
                };
                g.o.extend_from_slice(&[op, 0, 0, 0]);
                g.w4(0);
                if op == 0xAA {
                    let low = *g.s.pick(&[0u32, 1, u32::MAX, 0x8000_0000, 0x7FFF_FFFF - c]);
                    g.w4(low);
                    g.w4(low.wrapping_add(c));
                    for k in 0..=c {
                        g.w4(k);
                    }
                } else {
                    g.w4(c);
                    for k in 0..c {
                        g.w4(k);
                        g.w4(1);
                    }
                }
            }
            while (g.o.len() - base) % 4 != 0 {
                g.w1(0);
            }
            let block = g.o[base..].to_vec();
            let most = usize::from(n).max(block.len());
            while g.o.len() - base + block.len() <= most {
                g.o.extend_from_slice(&block);
            }
            let len = (g.o.len() - base) as u32;
            g.o[base - 4..base].copy_from_slice(&len.to_be_bytes());
            g.rows(3, 4);
            g.names = names;
            g.attrs(CODE, 1);
            let len = (g.o.len() - at - 4) as u32;
            g.o[at..at + 4].copy_from_slice(&len.to_be_bytes());
        }
        _ => g.w2(0),
    }
    (g.o, label)
}
