// Builds small class files byte by byte.
#![allow(dead_code, unused_imports)]
extern crate jbcrs;
use jbcrs::basic::*;

pub fn u2(v: &mut Vec<u8>, x: u16) {
    v.push((x >> 8) as u8);
    v.push(x as u8);
}
pub fn u4(v: &mut Vec<u8>, x: u32) {
    u2(v, (x >> 16) as u16);
    u2(v, x as u16);
}

pub struct Cp {
    pub bytes: Vec<u8>,
    pub next: u16,
}
impl Cp {
    pub fn new() -> Cp {
        Cp { bytes: Vec::new(), next: 1 }
    }
    /// A constant of `slots` slots, returns its index.
    pub fn raw(&mut self, slots: u16, bytes: &[u8]) -> u16 {
        self.bytes.extend_from_slice(bytes);
        self.next += slots;
        self.next - slots
    }
    pub fn utf8_bytes(&mut self, s: &[u8]) -> u16 {
        let mut b = vec![1];
        u2(&mut b, s.len() as u16);
        b.extend_from_slice(s);
        self.raw(1, &b)
    }
    pub fn utf8(&mut self, s: &str) -> u16 {
        self.utf8_bytes(s.as_bytes())
    }
    pub fn class(&mut self, name: u16) -> u16 {
        let mut b = vec![7];
        u2(&mut b, name);
        self.raw(1, &b)
    }
}

pub fn attr(name: u16, body: &[u8]) -> Vec<u8> {
    let mut v = Vec::new();
    u2(&mut v, name);
    u4(&mut v, body.len() as u32);
    v.extend_from_slice(body);
    v
}
pub fn table(items: &[Vec<u8>]) -> Vec<u8> {
    let mut v = Vec::new();
    u2(&mut v, items.len() as u16);
    for i in items {
        v.extend_from_slice(i);
    }
    v
}
pub fn member(flags: u16, name: u16, desc: u16, attrs: &[Vec<u8>]) -> Vec<u8> {
    let mut v = Vec::new();
    u2(&mut v, flags);
    u2(&mut v, name);
    u2(&mut v, desc);
    v.extend(table(attrs));
    v
}
/// The body of a code attribute without exceptions.
pub fn code(code: &[u8], attrs: &[Vec<u8>]) -> Vec<u8> {
    let mut v = Vec::new();
    u2(&mut v, 2);
    u2(&mut v, 3);
    u4(&mut v, code.len() as u32);
    v.extend_from_slice(code);
    u2(&mut v, 0);
    v.extend(table(attrs));
    v
}
pub fn file(cp: &Cp, fields: &[Vec<u8>], methods: &[Vec<u8>], attrs: &[Vec<u8>]) -> Vec<u8> {
    let mut v = vec![0xCA, 0xFE, 0xBA, 0xBE, 0, 0, 0, 52];
    u2(&mut v, cp.next);
    v.extend_from_slice(&cp.bytes);
    u2(&mut v, 0x21);
    u2(&mut v, 0);
    u2(&mut v, 0);
    u2(&mut v, 0);
    v.extend(table(fields));
    v.extend(table(methods));
    v.extend(table(attrs));
    v
}
/// A class file with one method, which has the given code.
pub fn with_code(c: &[u8]) -> Vec<u8> {
    let mut cp = Cp::new();
    let name = cp.utf8("Code");
    let a = attr(name, &code(c, &[]));
    file(&cp, &[], &[member(1, 0, 0, &[a])], &[])
}
/// A class file with one attribute.
pub fn with_attr(name: &str, body: &[u8]) -> Vec<u8> {
    let mut cp = Cp::new();
    let n = cp.utf8(name);
    file(&cp, &[], &[], &[attr(n, body)])
}
/// The instructions of the first attribute of the first method, in order.
pub fn insns(class: &Class) -> Vec<(u32, String)> {
    match class.methods[0].attributes[0] {
        Attribute::Code { ref instructions, .. } => {
            let mut all: Vec<_> = instructions.iter().map(|(k, v)| (*k, format!("{:?}", v))).collect();
            all.sort();
            all
        }
        _ => panic!("no code"),
    }
}
