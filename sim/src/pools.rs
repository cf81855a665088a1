//! The pool world: clients that share one constant pool, take turns at every operation, miss
//! replies and retry, stop midway and start over. The model is a list and a map.

use crate::canon;
use crate::ctx::{bad, Ctx, Res};
use crate::gen::{self, Focus};
use crate::oracle::{err, E};
use crate::refdec::{self, Verdict};
use crate::src::{hash_bytes, mix, Src};
use crate::v::V;
use jbcrs::basic::{Item, Pool, ReferenceKind};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn kind(k: u64) -> ReferenceKind {
    match k {
        0 => ReferenceKind::GetField,
        1 => ReferenceKind::GetStatic,
        2 => ReferenceKind::PutField,
        3 => ReferenceKind::PutStatic,
        4 => ReferenceKind::InvokeVirtual,
        5 => ReferenceKind::InvokeStatic,
        6 => ReferenceKind::InvokeSpecial,
        7 => ReferenceKind::NewInvokeSpecial,
        _ => ReferenceKind::InvokeInterface,
    }
}

/// A constant from a small domain, so that equal and almost equal ones meet.
/// Names of classes, and what is not quite one.
const NAMES: [&str; 24] = [
    "a", "java/lang/Object", "[I", "", "\0", "x/é", "[Ljava/lang/String;", "[[I", "[[Lx;", "Lx;", "java.lang.Object", "module-info",
    "a/b$C", "x;", "[", "/a", "a/", "package-info", " a", "a ", "java/lang/object", "V", "null", "\u{feff}a",
];

pub fn item(s: &mut Src) -> Item {
    let x = |s: &mut Src| -> u16 {
        match s.below(4) {
            0 if s.chance(300) => s.learned(1 << 16).unwrap_or(0x200) as u16,
            0 => *s.pick(&[0u16, 0xFFFF, 0x100, 0x8000]),
            _ => s.below(4) as u16,
        }
    };
    let bits = |s: &mut Src| -> u64 {
        if s.chance(60) {
            if let Some(x) = s.learned(u64::MAX) {
                return x;
            }
        }
        *s.pick(&[
            0u64, 1, 0x8000_0000, 0x8000_0000_0000_0000, 0x7FC0_0000, 0x7FC0_0001, 0x7FF8_0000_0000_0000,
            0x7FF8_0000_0000_0001, 0x7FF0_0000_0000_0001, 0xFFFF_FFFF, 0xFFFF_FFFF_FFFF_FFFF, 0x3F80_0000, 65, 0x7F80_0001,
        ])
    };
    match s.below(17) {
        0 if s.chance(300) => {
            // long ones, alike at both ends
            let mut n = *s.pick(&[3usize, 7, 15, 16, 31, 63, 64, 127, 255, 1000, 4000]);
            if s.chance(200) {
                n = s.learned(5000).map_or(n, |k| k as usize);
            }
            let mut t = s.pick(&["a", "é", "ab"]).repeat(n);
            if s.chance(500) {
                t.push_str(&s.below(4).to_string());
            }
            if s.chance(500) {
                t.push_str(&"a".repeat(n));
            }
            Item::UTF8(t)
        }
        0 if s.chance(300) => Item::UTF8(match s.below(4) {
            0 => gen::string(s, 24),
            1 => gen::descriptor(s).chars().take(400).collect(),
            _ => s.pick(&NAMES).to_string(),
        }),
        0 => Item::UTF8(s.pick(&["", "a", "b", "ab", "ba", "aa", "\u{0}", "é", "e\u{301}", "A", "0", "\u{10000}", "Code", " a", "a "]).to_string()),
        1 => Item::Integer(bits(s) as i32),
        2 => Item::Float(f32::from_bits(bits(s) as u32)),
        3 | 4 => Item::Long(bits(s) as i64),
        5 | 6 => Item::Double(f64::from_bits(bits(s))),
        7 => Item::Class(x(s)),
        8 => Item::String(x(s)),
        9 => Item::FieldRef { class: x(s), name_and_type: x(s) },
        10 => Item::MethodRef { class: x(s), name_and_type: x(s) },
        11 => Item::InterfaceMethodRef { class: x(s), name_and_type: x(s) },
        12 => Item::NameAndType { name: x(s), desc: x(s) },
        13 => Item::MethodHandle { kind: kind(s.below(9)), index: x(s) },
        14 => Item::MethodType(x(s)),
        15 => Item::InvokeDynamic { bootstrap_method_attribute: x(s), name_and_type: x(s) },
        _ => {
            if s.chance(500) {
                Item::Module(x(s))
            } else {
                Item::Package(x(s))
            }
        }
    }
}

/// A constant that is another one except for a bit or a character: what a careless comparison, hash or table
/// takes for the same one.
pub fn twin(s: &mut Src, it: &Item) -> Item {
    let b = |s: &mut Src, x: u16| x ^ 1 << s.below(16);
    match *it {
        Item::UTF8(ref t) => {
            let mut c: Vec<char> = t.chars().collect();
            let at = s.usize(c.len() + 1);
            match s.below(6) {
                0 if !c.is_empty() => {
                    c.remove(at.min(c.len() - 1));
                }
                1 => c.insert(at, *s.pick(&['a', '\0', 'é', ' '])),
                2 => c.extend_from_within(..),
                3 if !c.is_empty() => {
                    let n = c.len();
                    c.swap(at.min(n - 1), n / 2);
                }
                _ if c.is_empty() => c.push('a'),
                _ => {
                    let n = c.len();
                    let x = &mut c[at.min(n - 1)];
                    *x = if x.is_ascii_alphabetic() { (*x as u8 ^ 0x20) as char } else { 'b' };
                }
            }
            Item::UTF8(c.into_iter().collect())
        }
        Item::Integer(x) => match s.below(3) {
            0 => Item::Float(f32::from_bits(x as u32)),
            1 => Item::Long(i64::from(x)),
            _ => Item::Integer(x ^ 1 << s.below(32)),
        },
        Item::Float(x) => match s.below(3) {
            0 => Item::Integer(x.to_bits() as i32),
            1 => Item::Double(f64::from(x)),
            _ => Item::Float(f32::from_bits(x.to_bits() ^ 1 << s.below(32))),
        },
        Item::Long(x) => match s.below(3) {
            0 => Item::Double(f64::from_bits(x as u64)),
            1 => Item::Integer(x as i32),
            _ => Item::Long(x ^ 1 << s.below(64)),
        },
        Item::Double(x) => match s.below(3) {
            0 => Item::Long(x.to_bits() as i64),
            1 => Item::Float(x as f32),
            _ => Item::Double(f64::from_bits(x.to_bits() ^ 1 << s.below(64))),
        },
        Item::Class(x) => if s.chance(300) { Item::String(x) } else { Item::Class(b(s, x)) },
        Item::String(x) => if s.chance(300) { Item::MethodType(x) } else { Item::String(b(s, x)) },
        Item::MethodType(x) => if s.chance(300) { Item::Module(x) } else { Item::MethodType(b(s, x)) },
        Item::Module(x) => if s.chance(300) { Item::Package(x) } else { Item::Module(b(s, x)) },
        Item::Package(x) => if s.chance(300) { Item::Class(x) } else { Item::Package(b(s, x)) },
        Item::FieldRef { class, name_and_type } => match s.below(4) {
            0 => Item::MethodRef { class, name_and_type },
            1 => Item::FieldRef { class: b(s, class), name_and_type },
            2 => Item::FieldRef { class: name_and_type, name_and_type: class },
            _ => Item::FieldRef { class, name_and_type: b(s, name_and_type) },
        },
        Item::MethodRef { class, name_and_type } => match s.below(4) {
            0 => Item::InterfaceMethodRef { class, name_and_type },
            1 => Item::MethodRef { class: b(s, class), name_and_type },
            2 => Item::MethodRef { class: name_and_type, name_and_type: class },
            _ => Item::MethodRef { class, name_and_type: b(s, name_and_type) },
        },
        Item::InterfaceMethodRef { class, name_and_type } => match s.below(4) {
            0 => Item::NameAndType { name: class, desc: name_and_type },
            1 => Item::InterfaceMethodRef { class: b(s, class), name_and_type },
            2 => Item::InterfaceMethodRef { class: name_and_type, name_and_type: class },
            _ => Item::InterfaceMethodRef { class, name_and_type: b(s, name_and_type) },
        },
        Item::NameAndType { name, desc } => match s.below(4) {
            0 => Item::InvokeDynamic { bootstrap_method_attribute: name, name_and_type: desc },
            1 => Item::NameAndType { name: b(s, name), desc },
            2 => Item::NameAndType { name: desc, desc: name },
            _ => Item::NameAndType { name, desc: b(s, desc) },
        },
        Item::InvokeDynamic { bootstrap_method_attribute: x, name_and_type } => match s.below(4) {
            0 => Item::FieldRef { class: x, name_and_type },
            1 => Item::InvokeDynamic { bootstrap_method_attribute: b(s, x), name_and_type },
            2 => Item::InvokeDynamic { bootstrap_method_attribute: name_and_type, name_and_type: x },
            _ => Item::InvokeDynamic { bootstrap_method_attribute: x, name_and_type: b(s, name_and_type) },
        },
        Item::MethodHandle { kind: ref k, index } => match s.below(3) {
            0 => Item::MethodHandle { kind: kind(s.below(9)), index },
            1 => Item::MethodHandle { kind: k.clone(), index: b(s, index) },
            _ => Item::Class(index),
        },
        #[allow(unreachable_patterns)]
        _ => it.clone(),
    }
}

/// What makes two constants the same.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
enum Key {
    Number(&'static str, u64),
    Text(String),
    Other(String),
}
impl std::fmt::Display for Key {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match *self {
            Key::Number(n, x) => write!(f, "{}({:#x})", n, x),
            Key::Text(ref s) if s.len() > 80 => write!(f, "utf8({} bytes, hash {:x})", s.len(), hash_bytes(s.as_bytes())),
            Key::Text(ref s) => write!(f, "utf8({:?})", s),
            Key::Other(ref s) => f.write_str(s),
        }
    }
}
impl Key {
    fn hash(&self) -> u64 {
        match *self {
            Key::Number(n, x) => mix(hash_bytes(n.as_bytes()), x),
            Key::Text(ref s) => mix(1, hash_bytes(s.as_bytes())),
            Key::Other(ref s) => mix(2, hash_bytes(s.as_bytes())),
        }
    }
}

fn key(it: &Item) -> Key {
    let two = |a: u16, b: u16| u64::from(a) << 16 | u64::from(b);
    let (n, x) = match *it {
        Item::UTF8(ref s) => return Key::Text(s.clone()),
        Item::Integer(x) => ("integer", x as u32 as u64),
        Item::Float(x) => ("float", u64::from(x.to_bits())),
        Item::Long(x) => ("long", x as u64),
        Item::Double(x) => ("double", x.to_bits()),
        Item::Class(x) => ("class", u64::from(x)),
        Item::String(x) => ("string", u64::from(x)),
        Item::FieldRef { class, name_and_type } => ("field", two(class, name_and_type)),
        Item::MethodRef { class, name_and_type } => ("method", two(class, name_and_type)),
        Item::InterfaceMethodRef { class, name_and_type } => ("interface method", two(class, name_and_type)),
        Item::NameAndType { name, desc } => ("name and type", two(name, desc)),
        Item::MethodHandle { .. } => return Key::Other(format!("{:?}", canon::item(it))),
        Item::MethodType(x) => ("method type", u64::from(x)),
        Item::InvokeDynamic { bootstrap_method_attribute, name_and_type } => {
            ("invoke dynamic", two(bootstrap_method_attribute, name_and_type))
        }
        Item::Module(x) => ("module", u64::from(x)),
        Item::Package(x) => ("package", u64::from(x)),
        #[allow(unreachable_patterns)]
        _ => return Key::Other(format!("{:?}", it)),
    };
    Key::Number(n, x)
}

pub fn build(v: &V) -> Option<Item> {
    let (k, a) = match v {
        V::N(k, a) => (*k, a),
        _ => return None,
    };
    let n = |i: usize| match a[i] {
        V::I(x) => x,
        _ => 0,
    };
    let x = |i: usize| n(i) as u16;
    Some(match k {
        "utf8" => match a[0] {
            V::S(ref s) => Item::UTF8(s.clone()),
            _ => return None,
        },
        "integer" => Item::Integer(n(0) as i32),
        "float" => Item::Float(f32::from_bits(n(0) as u32)),
        "long" => Item::Long(n(0)),
        "double" => Item::Double(f64::from_bits(n(0) as u64)),
        "class_ref" => Item::Class(x(0)),
        "string" => Item::String(x(0)),
        "field_ref" => Item::FieldRef { class: x(0), name_and_type: x(1) },
        "method_ref" => Item::MethodRef { class: x(0), name_and_type: x(1) },
        "interface_method_ref" => Item::InterfaceMethodRef { class: x(0), name_and_type: x(1) },
        "name_and_type" => Item::NameAndType { name: x(0), desc: x(1) },
        "method_handle" => Item::MethodHandle { kind: kind(n(0) as u64 - 1), index: x(1) },
        "method_type" => Item::MethodType(x(0)),
        "invoke_dynamic" => Item::InvokeDynamic { bootstrap_method_attribute: x(0), name_and_type: x(1) },
        "module" => Item::Module(x(0)),
        "package" => Item::Package(x(0)),
        _ => return None,
    })
}

fn width(it: &Item) -> u32 {
    match *it {
        Item::Long(_) | Item::Double(_) => 2,
        _ => 1,
    }
}

struct Model {
    len: u32,
    at: BTreeMap<u16, Key>,
    by: BTreeMap<Key, Vec<u16>>,
}

impl Model {
    fn add(&mut self, i: u16, k: Key, w: u32) {
        self.by.entry(k.clone()).or_insert_with(Vec::new).push(i);
        self.at.insert(i, k);
        self.len += w;
    }
}

struct Client {
    list: Vec<Item>,
    pos: usize,
    got: Vec<(Key, u16)>,
}

pub fn world(prop: &str, src: &mut Src, ctx: &mut Ctx) -> Res {
    match catch_unwind(AssertUnwindSafe(|| world_inner(prop, src, ctx))) {
        Ok(r) => r,
        Err(_) => bad("panic", format!("an operation of the pool panicked: {}", crate::last_panic())),
    }
}

fn world_inner(prop: &str, src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut m = Model { len: 1, at: BTreeMap::new(), by: BTreeMap::new() };
    // ------------------------------------------------ where the pool comes from
    let near = match prop {
        "C12" => !src.chance(100),
        "C13" => src.chance(60),
        _ => src.chance(30),
    };
    let mut pool;
    let from = src.below(5);
    match from {
        0 => pool = Pool::new(),
        1 => pool = Pool::with_capacity(src.u16()),
        2 => pool = Pool::default(),
        _ => {
            // as read from a (possibly damaged, but accepted) class file
            let full = near && src.chance(300);
            let mut b = if full {
                full_pool(src)
            } else {
                gen::class(src, Focus::Pool)
            };
            if src.chance(200) && b.len() > 40 {
                let at = 10 + src.usize(b.len() - 10);
                b[at] ^= 1 << src.below(8);
                ctx.fault("bit flip in the file the pool is read from");
            }
            let dec = match refdec::decode(&b) {
                Verdict::Accept(d) if !d.lenient.contains(&"wide constant in the last slot") => d,
                _ => return Ok(()),
            };
            match jbcrs::basic::parse(&b) {
                Ok((p, _)) => pool = p,
                Err(_) => return Ok(()),
            }
            ctx.probe("pool read from a class file");
            if let V::N(_, ref parts) = dec.class {
                if let V::L(ref l) = parts[2] {
                    for (i, v) in l.iter().enumerate() {
                        if let Some(it) = build(v) {
                            m.add(i as u16 + 1, key(&it), width(&it));
                        }
                    }
                }
            }
            if u32::from(pool.len()) != m.len {
                // another property's business
                return Ok(());
            }
        }
    }
    ctx.ev("pool starts as/length", &[from, u64::from(m.len)]);
    if near || src.chance(80) {
        // filled up to a few free slots, or to some length
        let mut free = if near { src.below(8) as u32 } else { 65535 - (1u32 << src.range(5, 12)).max(m.len) };
        if !near && src.chance(400) {
            // or nearly as many as may matter
            if let Some(k) = src.learned(9000) {
                free = 65535 - (k as u32).saturating_sub(src.below(8) as u32).max(m.len);
            }
        }
        let wide = src.below(3);
        let shape = src.below(10) as u32;
        let mut i = 0u32;
        while m.len < 65535 - free {
            let it = if wide > 0 && i % 7 < wide as u32 && m.len + 2 <= 65535 - free {
                if i % 2 == 0 {
                    Item::Long(0x5000_0000_0000 + i64::from(i))
                } else {
                    Item::Double(f64::from_bits(0x4000_0000_0000_0000 + u64::from(i)))
                }
            } else {
                let x = i as u16;
                match if shape < 6 { 0 } else if shape < 8 { i % 8 } else { 1 + (shape + i) % 2 } {
                    1 => Item::UTF8(format!("name/of/number/{}", i)),
                    2 => Item::MethodRef { class: x, name_and_type: 0x4000 + (i >> 16) as u16 },
                    3 => Item::NameAndType { name: 0x4001, desc: x },
                    4 => Item::Float(f32::from_bits(0x3000_0000 + i)),
                    5 => Item::MethodHandle { kind: kind(u64::from(i) % 9), index: x.wrapping_add(0x1000) },
                    6 => Item::InvokeDynamic { bootstrap_method_attribute: x, name_and_type: 0x5000 },
                    7 => Item::FieldRef { class: 0x6000, name_and_type: x },
                    _ => Item::Integer(0x2000_0000 + i as i32),
                }
            };
            let (k, w) = (key(&it), width(&it));
            match pool.push(it) {
                Ok(x) if m.by.get(&k).map_or(false, |l| l.contains(&x)) => {}
                Ok(x) if u32::from(x) == m.len => m.add(x, k, w),
                Ok(x) => return bad("wrong index", format!("filling the pool: constant {} got index {} at length {}", k, x, m.len)),
                Err(e) => return bad("refused though it fits", format!("filling the pool: refused with {:?} at length {}", e, m.len)),
            }
            i += 1;
        }
        if near {
            ctx.probe("pool nearly full");
            ctx.fault("space for constants runs out");
        } else {
            ctx.probe("pool of some length");
        }
        ctx.ev("filled to", &[u64::from(m.len)]);
    }

    // ------------------------------------------------ clients
    let n = 1 + src.usize(4);
    let mut shared: Vec<Item> = (0..src.range(1, 10)).map(|_| item(src)).collect();
    for i in 0..shared.len() {
        if src.chance(300) {
            let t = twin(src, &shared[i]);
            shared.push(t);
        }
    }
    if prop == "C26" {
        for _ in 0..src.range(2, 12) {
            let it = match src.below(5) {
                // to what is there, to what comes, to nothing, to itself
                0 => Item::Class(src.below(u64::from(m.len) + 20) as u16),
                1 => Item::Class(m.len as u16),
                2 => Item::Class(*src.pick(&[0u16, 0xFFFF, 1, 2])),
                3 if src.chance(600) => Item::UTF8(src.pick(&NAMES).to_string()),
                3 => item(src),
                _ => Item::Class((m.len as u64).saturating_sub(src.below(6)) as u16),
            };
            shared.push(it);
        }
    }
    let mut clients = Vec::new();
    for _ in 0..n {
        let k = src.range(1, if near { 14 } else { 24 });
        let list = (0..k)
            .map(|_| if src.chance(350) { shared[src.usize(shared.len())].clone() } else { item(src) })
            .collect();
        clients.push(Client { list, pos: 0, got: Vec::new() });
    }
    let faulty = src.chance(700);
    let mut steps = 0;
    let mut digest = 0u64;
    while clients.iter().any(|c| c.pos < c.list.len()) && steps < 200 {
        steps += 1;
        ctx.now += src.range(1, 50);
        let c = src.usize(n);
        if clients[c].pos >= clients[c].list.len() {
            continue;
        }
        if faulty && src.chance(40) {
            // the client stops midway, and a new one starts over
            ctx.fault("client crash and restart");
            ctx.ev("client starts over", &[c as u64]);
            clients[c].pos = 0;
            clients[c].got.clear();
            continue;
        }
        ctx.evals += 1;
        if src.chance(match prop {
            "C13" => 300,
            _ => 80,
        }) {
            iterate(prop, ctx, &pool, &m, near, src)?;
            continue;
        }
        if src.chance(if prop == "C26" { 600 } else { 250 }) {
            lookup(prop, src, ctx, &pool, &m, &clients[c])?;
            continue;
        }
        let mut it = clients[c].list[clients[c].pos].clone();
        if prop == "C26" && src.chance(300) {
            // a class named by a string that is there
            let i = src.below(u64::from(m.len)) as u16;
            let near = m.at.range(i..).take(12).find(|(_, k)| matches!(k, Key::Text(_)));
            if let Some((i, _)) = near {
                it = Item::Class(*i);
            }
        }
        let k = key(&it);
        let idx = push(prop, ctx, &mut pool, &mut m, it, c)?;
        digest = mix(digest, k.hash() ^ m.len as u64);
        ctx.states.push(mix(digest, 17));
        if let Some(i) = idx {
            clients[c].got.push((k, i));
        }
        if faulty && src.chance(120) {
            // the reply is lost; the client will ask again
            ctx.fault("lost reply, push retried");
        } else {
            clients[c].pos += 1;
        }
        // what earlier pushes returned stays true
        if !near || src.chance(100) {
            for (k, i) in clients.iter().flat_map(|c| c.got.iter()) {
                check_at(&pool, *i, k)?;
            }
        }
        if pool.len() as u32 != m.len {
            return bad("length", format!("the length is {}, not {}", pool.len(), m.len));
        }
    }
    // ------------------------------------------------ afterwards: everything is as the model says
    for i in 0..m.len.saturating_add(3).min(65535) {
        let i = i as u16;
        match m.at.get(&i) {
            Some(k) => check_at(&pool, i, k)?,
            None => {
                if let Ok(x) = pool.get(i) {
                    return bad("phantom", format!("index {} was never handed out, but resolves to {}", i, key(x)));
                }
            }
        }
    }
    if prop == "C26" {
        let few = m.len < 3000;
        for i in 0..65536u32 {
            // all of a short pool, and some of a long one
            if if few { i < m.len + 3 || i % 4099 == 0 || i == 65535 } else { i % 61 == 0 || i + 40 > m.len } {
                names(&pool, &m, i as u16)?;
                ctx.evals += 1;
            }
        }
        ctx.probe("all names looked up");
    }
    if pool.get(65535).is_ok() {
        return bad("phantom", "index 65535 resolves".to_string());
    }
    iterate(prop, ctx, &pool, &m, near, src)?;
    if prop == "C11" || src.chance(200) {
        // every constant is found again where it is
        let all: Vec<Key> = m.by.keys().cloned().collect();
        let every = (all.len() / 200).max(1);
        for k in all.iter().step_by(every) {
            let i = m.by[k][0];
            let it = match pool.get(i) {
                Ok(it) => it.clone(),
                Err(_) => continue,
            };
            push(prop, ctx, &mut pool, &mut m, it, 99)?;
        }
    }
    ctx.cases.push(mix(digest, m.len as u64));
    if ctx.sample.is_none() {
        ctx.sample = Some(format!("{} clients, {} steps, length {} at the end, history digest {:016x}", n, steps, m.len, digest));
    }
    Ok(())
}

fn full_pool(src: &mut Src) -> Vec<u8> {
    let mut f = vec![0xCA, 0xFE, 0xBA, 0xBE, 0, 0, 0, 52];
    let count = 65535 - src.below(6) as u32;
    f.extend_from_slice(&(count as u16).to_be_bytes());
    let wide = src.below(3);
    let mut i = 1;
    while i < count {
        if wide > 0 && i + 1 < count && i % 3 == 0 {
            f.push(5 + (i % 2) as u8);
            f.extend_from_slice(&u64::from(i).to_be_bytes());
            i += 2;
        } else {
            f.push(3);
            f.extend_from_slice(&(i / 2).to_be_bytes());
            i += 1;
        }
    }
    f.extend_from_slice(&[0; 14]);
    f
}

fn check_at(pool: &Pool, i: u16, k: &Key) -> Res {
    match pool.get(i) {
        Ok(x) => {
            let g = key(x);
            if g != *k {
                return bad("wrong constant", format!("index {} was handed out for {}, but resolves to {}", i, k, g));
            }
            Ok(())
        }
        Err(e) => bad("wrong constant", format!("index {} was handed out for {}, but is refused with {:?}", i, k, e)),
    }
}

fn push(prop: &str, ctx: &mut Ctx, pool: &mut Pool, m: &mut Model, it: Item, c: usize) -> Result<Option<u16>, crate::ctx::Bad> {
    let (k, w) = (key(&it), width(&it));
    let before = m.len;
    let r = pool.push(it);
    ctx.ev("push by client/kind/result", &[
        c as u64,
        k.hash() & 0xFFFF,
        match r {
            Ok(i) => u64::from(i),
            Err(_) => 1 << 32,
        },
    ]);
    let after = u32::from(pool.len());
    if let Some(places) = m.by.get(&k) {
        ctx.probe("pushed a constant already present");
        match r {
            Ok(i) if places.contains(&i) => {}
            Ok(i) => return bad("not found again", format!("{} is at {:?}, but pushing it returned {}", k, places, i)),
            Err(e) => return bad("not found again", format!("{} is at {:?}, but pushing it was refused with {:?}", k, places, e)),
        }
        if after != before {
            return bad("not found again", format!("pushing {} again changed the length from {} to {}", k, before, after));
        }
        return Ok(Some(places[0]));
    }
    if before + w > 65535 {
        ctx.probe("pushed to a full pool");
        match r {
            Err(ref e) if err(e) == E::TooLarge => {}
            Err(e) => return bad("full pool", format!("a full pool refuses with {:?}", e)),
            Ok(i) => return bad("full pool", format!("at length {}, {} of width {} was put at {}", before, k, w, i)),
        }
        if after != before {
            return bad("full pool", format!("a refused push changed the length from {} to {}", before, after));
        }
        return Ok(None);
    }
    ctx.probe("pushed a new constant");
    let i = match r {
        Ok(i) => i,
        Err(e) => {
            let class = if prop == "C12" { "refused though it fits" } else { "push refused" };
            return bad(class, format!("at length {}, {} of width {} was refused with {:?}", before, k, w, e));
        }
    };
    if let Some(x) = m.at.get(&i) {
        return bad("shared index", format!("{} was put at {}, where {} is", k, i, x));
    }
    if after != before + w {
        return bad("length", format!("pushing {} of width {} changed the length from {} to {}", k, w, before, after));
    }
    if i == 0 || u32::from(i) + w > after {
        return bad("wrong index", format!("pushing {} returned {} at length {}", k, i, after));
    }
    if w == 2 {
        if let Ok(x) = pool.get(i + 1) {
            return bad("wrong index", format!("{} is at {}, but {} resolves to {}", k, i, i + 1, key(x)));
        }
    }
    m.add(i, k.clone(), w);
    check_at(pool, i, &k)?;
    Ok(Some(i))
}

fn lookup(prop: &str, src: &mut Src, ctx: &mut Ctx, pool: &Pool, m: &Model, c: &Client) -> Res {
    let i = match src.below(3) {
        0 if !c.got.is_empty() => c.got[src.usize(c.got.len())].1,
        1 => (m.len as u64 + src.below(3)).min(65535) as u16,
        _ => src.below(u64::from(m.len) + 1).min(65535) as u16,
    };
    ctx.ev("lookup", &[u64::from(i)]);
    let before = pool.len();
    let text = pool.get_utf8(i);
    let _ = (pool.get_class_name(i).is_ok(), pool.get_class_name_opt(i).is_ok());
    if prop == "C26" {
        names(pool, m, i)?;
    }
    let empty = pool.is_empty();
    match m.at.get(&i) {
        Some(k) => {
            check_at(pool, i, k)?;
            if let (Ok(Item::UTF8(ref s)), t) = (pool.get(i), &text) {
                if t.as_ref().ok() != Some(s) {
                    return bad("wrong constant", format!("get_utf8({}) is not what get({}) is", i, i));
                }
            } else if text.is_ok() {
                return bad("wrong constant", format!("get_utf8({}) resolves, but no string is there", i));
            }
        }
        None => {
            if pool.get(i).is_ok() || text.is_ok() {
                return bad("phantom", format!("index {} was never handed out, but resolves", i));
            }
        }
    }
    if pool.len() != before || empty != (m.len == 1) {
        return bad("length", format!("after a lookup the length is {} (was {}), is_empty is {}", pool.len(), before, empty));
    }
    Ok(())
}

/// C26: what an index resolves to by name, and which entry a refusal blames.
fn names(pool: &Pool, m: &Model, i: u16) -> Res {
    let text = |i: u16| -> Result<String, E> {
        match m.at.get(&i) {
            Some(Key::Text(s)) => Ok(s.clone()),
            _ => Err(E::Cp(i)),
        }
    };
    let (name, opt) = match m.at.get(&i) {
        Some(Key::Number("class", 0)) => (text(0), Ok(None)),
        Some(Key::Number("class", x)) => (text(*x as u16), text(*x as u16).map(Some)),
        _ => (Err(E::Cp(i)), Err(E::Cp(i))),
    };
    let entry = if m.at.contains_key(&i) { None } else { Some(E::Cp(i)) };
    let got = pool.get(i).err().map(|e| err(&e));
    if got != entry {
        return bad("name", format!("get({}) is refused as {:?}, not {:?}", i, got, entry));
    }
    let short = |x: &Result<String, E>| format!("{:?}", x).chars().take(200).collect::<String>();
    let got = pool.get_utf8(i).map_err(|e| err(&e));
    if got != text(i) {
        return bad("name", format!("get_utf8({}) is {}, not {}", i, short(&got), short(&text(i))));
    }
    let got = pool.get_class_name(i).map_err(|e| err(&e));
    if got != name {
        return bad("name", format!("get_class_name({}) is {}, not {}", i, short(&got), short(&name)));
    }
    let got = pool.get_class_name_opt(i).map_err(|e| err(&e));
    if got != opt {
        let f = |x: &Result<Option<String>, E>| format!("{:?}", x).chars().take(200).collect::<String>();
        return bad("name", format!("get_class_name_opt({}) is {}, not {}", i, f(&got), f(&opt)));
    }
    Ok(())
}

fn iterate(prop: &str, ctx: &mut Ctx, pool: &Pool, m: &Model, near: bool, src: &mut Src) -> Res {
    if prop != "C13" {
        // iteration as such is judged by C13; here it must not change anything
        let n = pool.iter().take(m.at.len() + 2).count();
        ctx.ev("iterated", &[n as u64]);
        return Ok(());
    }
    if pool.is_empty() != m.at.is_empty() {
        return bad("iteration", format!("a pool of {} constants is said to be {}", m.at.len(), if pool.is_empty() { "empty" } else { "not empty" }));
    }
    if src.chance(300) {
        return adapted(ctx, pool, m, src);
    }
    let stop = if src.chance(150) { src.usize(m.at.len() + 1) } else { usize::MAX };
    let mut it = pool.iter();
    let mut expect = m.at.iter();
    let mut n = 0;
    loop {
        if n == stop {
            ctx.fault("iteration abandoned midway");
            break;
        }
        match (it.next(), expect.next()) {
            (None, None) => {
                ctx.probe("iterated to the end");
                for _ in 0..3 {
                    if let Some((i, _)) = it.next() {
                        return bad("iteration", format!("after the end, iteration yields index {}", i));
                    }
                }
                break;
            }
            (Some((i, x)), Some((j, k))) => {
                n += 1;
                let deep = !near || n < 50 || n % 97 == 0 || n + 50 > m.at.len();
                if i != *j || (deep && key(x) != *k) {
                    return bad("iteration", format!("entry {} of the iteration is index {} with {}, not {} with {}", n, i, key(x), j, k));
                }
                match pool.get(i) {
                    Ok(y) if std::ptr::eq(x, y) => {}
                    Ok(y) if !deep || key(x) == key(y) => {}
                    _ => return bad("iteration", format!("index {} does not resolve to what iteration paired it with", i)),
                }
            }
            (Some((i, x)), None) => return bad("iteration", format!("one too many: index {} with {}", i, key(x))),
            (None, Some((j, k))) => return bad("iteration", format!("ends early: index {} with {} is missing", j, k)),
        }
    }
    ctx.ev("iterated", &[n as u64]);
    Ok(())
}

/// The other ways to iterate, which an iterator may do in a way of its own.
fn adapted(ctx: &mut Ctx, pool: &Pool, m: &Model, src: &mut Src) -> Res {
    let at: Vec<u16> = m.at.keys().cloned().collect();
    let n = at.len();
    let mut it = pool.iter();
    let mut pos = 0;
    let steps = src.below(6);
    for _ in 0..steps {
        let (low, high) = it.size_hint();
        if low > n - pos || high.map_or(false, |h| h < n - pos) {
            return bad("iteration", format!("size_hint is {:?}, but {} constants are left of {}", (low, high), n - pos, n));
        }
        let k = if src.chance(500) { src.usize(3) } else { src.usize(n - pos + 2) };
        let got = it.nth(k);
        let i = got.as_ref().map(|x| x.0);
        if i != at.get(pos + k).cloned() {
            return bad("iteration", format!("nth({}) behind {} constants is {:?}, not {:?}", k, pos, i, at.get(pos + k)));
        }
        if let Some((i, x)) = got {
            check_at(pool, i, &key(x))?;
        }
        pos = (pos + k + 1).min(n);
        if pos == n {
            break;
        }
    }
    ctx.probe("skipped within an iteration");
    let left = &at[pos..];
    let how = src.below(6);
    ctx.ev("iteration adapted after/how", &[pos as u64, how]);
    let step = 1 + src.usize(4);
    let got: Vec<u16> = match how {
        0 => {
            let c = it.count();
            if c != left.len() {
                return bad("iteration", format!("count() is {}, but {} constants are left", c, left.len()));
            }
            left.to_vec()
        }
        1 => {
            let l = it.last().map(|x| x.0);
            if l != left.last().cloned() {
                return bad("iteration", format!("last() is {:?}, not {:?}", l, left.last()));
            }
            left.to_vec()
        }
        2 => it.fold(Vec::new(), |mut l, x| {
            l.push(x.0);
            l
        }),
        3 => it.map(|x| x.0).collect(),
        4 => {
            let mut l = Vec::new();
            it.for_each(|x| l.push(x.0));
            l
        }
        _ => {
            let got: Vec<u16> = it.step_by(step).map(|x| x.0).collect();
            if got != left.iter().cloned().step_by(step).collect::<Vec<_>>() {
                return bad("iteration", format!("every {}th constant of {} is wrong", step, left.len()));
            }
            left.to_vec()
        }
    };
    if got != left {
        let k = got.iter().zip(left).position(|(a, b)| a != b).unwrap_or(got.len().min(left.len()));
        return bad("iteration", format!("way {}: entry {} of the iteration is {:?}, not {:?}", how, pos + k, got.get(k), left.get(k)));
    }
    Ok(())
}

// ---------------------------------------------------------------- C22

/// Writes down every call.
#[derive(Default)]
pub struct Recorder(Vec<u8>);
impl std::hash::Hasher for Recorder {
    fn finish(&self) -> u64 {
        hash_bytes(&self.0)
    }
    fn write(&mut self, b: &[u8]) {
        self.0.push(0xF0);
        self.0.extend_from_slice(&(b.len() as u32).to_le_bytes());
        self.0.extend_from_slice(b);
    }
    fn write_u8(&mut self, v: u8) {
        self.0.extend_from_slice(&[0xF1, v]);
    }
}

pub fn c22(src: &mut Src, ctx: &mut Ctx) -> Res {
    use std::collections::{HashMap, HashSet};
    use std::hash::{BuildHasher, Hash};
    let mut items: Vec<Item> = Vec::new();
    // constants of clients, and the same ones again, changed a little by lost updates
    for _ in 0..src.range(2, 25) {
        let it = match items.last() {
            Some(last) if src.chance(400) => twin(src, last),
            _ => item(src),
        };
        if src.chance(400) {
            items.push(it.clone());
        }
        items.push(it);
    }
    ctx.ev("constants of clients", &[items.len() as u64]);
    // constants read from a class file, and from the same file damaged
    if src.chance(700) {
        let b = gen::class(src, Focus::Pool);
        let mut c = b.clone();
        for _ in 0..src.range(1, 12) {
            let at = 10 + src.usize(c.len() - 10);
            c[at] ^= 1 << src.below(8);
        }
        ctx.fault("bit flips in the file constants are read from");
        for x in [&b, &c] {
            if let Ok((p, _)) = jbcrs::basic::parse(x) {
                let n = p.iter().count();
                let from = src.usize(n + 1);
                items.extend(p.iter().skip(from).take(60).map(|e| e.1.clone()));
            }
        }
        ctx.ev("constants with those of files", &[items.len() as u64]);
    }
    let keys: Vec<Key> = items.iter().map(key).collect();
    for (it, k) in items.iter().zip(&keys) {
        // a copy is the same constant
        let mut other = Item::Integer(7);
        other.clone_from(it);
        let c = it.clone();
        if key(&c) != *k || c != *it || key(&other) != *k {
            return bad("equality", format!("a copy of {:?} ({}) is {:?}", it, k, c));
        }
    }
    let states: Vec<std::collections::hash_map::RandomState> = (0..2).map(|_| Default::default()).collect();
    ctx.fault("hash seed changed");
    let hash = |it: &Item| -> (Vec<u8>, Vec<u64>) {
        let mut r = Recorder::default();
        it.hash(&mut r);
        (r.0, states.iter().map(|s| s.hash_one(it)).collect())
    };
    let hashes: Vec<_> = items.iter().map(|i| hash(i)).collect();
    let mut pairs = 0u64;
    for i in 0..items.len() {
        for j in 0..items.len() {
            pairs += 1;
            let same = keys[i] == keys[j];
            if (items[i] == items[j]) != same || (items[i] != items[j]) == same {
                let w = if same { "are the same, but compare as different" } else { "differ, but compare as equal" };
                return bad("equality", format!("{:?} and {:?} ({} and {}) {}", items[i], items[j], keys[i], keys[j], w));
            }
            if same && hashes[i] != hashes[j] {
                return bad("hash", format!("{:?} twice, with different hashes", items[i]));
            }
        }
    }
    ctx.evals += pairs;
    // what follows for the maps of a caller
    let set: HashSet<&Item> = items.iter().collect();
    let names: std::collections::BTreeSet<&Key> = keys.iter().collect();
    if set.len() != names.len() {
        return bad("hash", format!("{} different constants, but a set of them has {}", names.len(), set.len()));
    }
    let mut map: HashMap<Item, usize> = HashMap::new();
    for (i, it) in items.iter().enumerate() {
        map.insert(it.clone(), i);
    }
    for (i, it) in items.iter().enumerate() {
        match map.get(it) {
            Some(j) if keys[*j] == keys[i] => {}
            x => return bad("hash", format!("{:?} is in a map, but looking it up gives {:?}", it, x)),
        }
    }
    let h = keys.iter().fold(0, |a, k| mix(a, k.hash()));
    ctx.cases.extend(keys.iter().map(|k| k.hash()));
    ctx.ev("all pairs compared", &[pairs, h]);
    ctx.states.push(h);
    let mut kinds: Vec<u8> = items.iter().filter_map(|i| hash(i).0.get(1).cloned()).collect();
    kinds.sort();
    kinds.dedup();
    ctx.maximum("kinds of constants met in one run", kinds.len() as u64);
    if ctx.sample.is_none() {
        ctx.sample = Some(format!("{} constants, {} of them different, all pairs compared and hashed", items.len(), names.len()));
    }
    Ok(())
}
