//! The reference decoder: reads a class file by the JVM specification (SE 9, chapter 4 and 6),
//! written independently of the code under test. It also notes where in the bytes everything
//! lies, which is how faults are placed.

use crate::v::{Group, V};
use std::collections::BTreeMap;

/// Why a class file has to be refused. In file order, the first reason.
#[derive(Clone, Debug, PartialEq)]
pub enum Reject {
    Magic,
    /// bytes end before what has to be read
    Eof,
    /// content leaves, or does not fill, its declared length
    Length,
    CpTag(u16, u8),
    HandleKind(u16, u8),
    Utf8(Option<u16>),
    AttrName(u16),
    Opcode { op: u8, at: u32 },
    Table { at: u32 },
    EmptyCode,
    Frame(u8),
    Verif(u8),
    Elem(u8),
    Target(u8),
    Path(u8),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum MK {
    Magic,
    Version,
    CpCount,
    CpTag,
    CpTextLen,
    CpText,
    CpIndex,
    CpNumber,
    HandleKind,
    Flags,
    Index,
    Count,
    AttrName,
    AttrLen,
    CodeLen,
    Opcode,
    Operand,
    WideOp,
    ArrayKind,
    Pad,
    SwitchBound,
    FrameType,
    VerifTag,
    ElemTag,
    Target,
    PathKind,
    Text,
}

#[derive(Clone, Debug)]
pub struct Mark {
    pub kind: MK,
    pub off: usize,
    pub len: usize,
    /// constant index, or code offset
    pub at: u32,
}

#[derive(Clone, Debug)]
pub struct AttrSpan {
    pub kind: &'static str,
    pub group: Group,
    /// offset of the name index; the body begins six bytes later
    pub head: usize,
    pub body: usize,
    pub len: usize,
    pub depth: usize,
    /// where it is in the tree: indices into nested lists, see `path_of`
    pub path: Vec<usize>,
}

pub struct Decoded {
    pub class: V,
    /// bytes the class occupies
    pub used: usize,
    pub marks: Vec<Mark>,
    pub attrs: Vec<AttrSpan>,
    /// reasons why refusing would be acceptable as well
    pub lenient: Vec<&'static str>,
}

pub enum Verdict {
    Accept(Decoded),
    Reject(Reject),
    /// nested beyond what the reference follows
    Unknown,
}

const MAX_DEPTH: usize = 100;
/// Every reader has to support this depth of nesting.
pub const SURE_DEPTH: usize = 32;

enum Stop {
    Rej(Reject),
    Deep,
}
type R<T> = Result<T, Stop>;

struct Dec<'a> {
    b: &'a [u8],
    p: usize,
    /// ends of the enclosing extents, innermost last
    end: usize,
    in_extent: bool,
    marks: Vec<Mark>,
    attrs: Vec<AttrSpan>,
    lenient: Vec<&'static str>,
    pool: Vec<Option<V>>,
    depth: usize,
    path: Vec<usize>,
    code_base: usize,
}

pub fn decode(b: &[u8]) -> Verdict {
    let mut d = Dec {
        b,
        p: 0,
        end: b.len(),
        in_extent: false,
        marks: Vec::new(),
        attrs: Vec::new(),
        lenient: Vec::new(),
        pool: Vec::new(),
        depth: 0,
        path: Vec::new(),
        code_base: 0,
    };
    match d.class() {
        Ok(class) => {
            if d.p != b.len() {
                d.lenient.push("trailing bytes");
            }
            d.lenient.sort();
            d.lenient.dedup();
            Verdict::Accept(Decoded { class, used: d.p, marks: d.marks, attrs: d.attrs, lenient: d.lenient })
        }
        Err(Stop::Rej(r)) => Verdict::Reject(r),
        Err(Stop::Deep) => Verdict::Unknown,
    }
}

fn rej<T>(r: Reject) -> R<T> {
    Err(Stop::Rej(r))
}

impl<'a> Dec<'a> {
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if n > self.end - self.p {
            return rej(if self.in_extent { Reject::Length } else { Reject::Eof });
        }
        let s = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(s)
    }
    fn mark(&mut self, kind: MK, len: usize, at: u32) {
        self.marks.push(Mark { kind, off: self.p, len, at });
    }
    fn num(&mut self, n: usize) -> R<u64> {
        let mut v = 0u64;
        for x in self.take(n)? {
            v = v << 8 | u64::from(*x);
        }
        Ok(v)
    }
    fn u1(&mut self, k: MK) -> R<u8> {
        self.mark(k, 1, 0);
        Ok(self.num(1)? as u8)
    }
    fn u2(&mut self, k: MK) -> R<u16> {
        self.mark(k, 2, 0);
        Ok(self.num(2)? as u16)
    }
    fn u4(&mut self, k: MK) -> R<u32> {
        self.mark(k, 4, 0);
        Ok(self.num(4)? as u32)
    }
    fn v1(&mut self, k: MK) -> R<V> {
        Ok(V::I(i64::from(self.u1(k)?)))
    }
    fn v2(&mut self, k: MK) -> R<V> {
        Ok(V::I(i64::from(self.u2(k)?)))
    }
    fn list2(&mut self, mut f: impl FnMut(&mut Self) -> R<V>) -> R<V> {
        let n = self.u2(MK::Count)?;
        let mut l = Vec::new();
        for _ in 0..n {
            l.push(f(self)?);
        }
        Ok(V::L(l))
    }
    fn list1(&mut self, mut f: impl FnMut(&mut Self) -> R<V>) -> R<V> {
        let n = self.u1(MK::Count)?;
        let mut l = Vec::new();
        for _ in 0..n {
            l.push(f(self)?);
        }
        Ok(V::L(l))
    }
    fn idx_list(&mut self) -> R<V> {
        self.list2(|d| d.v2(MK::Index))
    }

    fn class(&mut self) -> R<V> {
        self.mark(MK::Magic, 4, 0);
        if self.num(4)? != 0xCAFE_BABE {
            return rej(Reject::Magic);
        }
        let minor = self.v2(MK::Version)?;
        let major = self.v2(MK::Version)?;
        self.read_pool()?;
        let flags = self.v2(MK::Flags)?;
        let name = self.v2(MK::Index)?;
        let sup = self.v2(MK::Index)?;
        let ifs = self.idx_list()?;
        let fields = self.members("field", 7)?;
        let methods = self.members("method", 8)?;
        self.path = vec![9];
        let attrs = self.attributes()?;
        let pool = self.pool.iter().map(|s| s.clone().unwrap_or(V::N("gap", vec![]))).collect();
        Ok(V::N(
            "class",
            vec![minor, major, V::L(pool), flags, name, sup, ifs, fields, methods, V::L(attrs)],
        ))
    }

    fn members(&mut self, what: &'static str, part: usize) -> R<V> {
        let mut i = 0;
        self.list2(|d| {
            d.path = vec![part, i];
            i += 1;
            let flags = d.v2(MK::Flags)?;
            let name = d.v2(MK::Index)?;
            let desc = d.v2(MK::Index)?;
            let attrs = d.attributes()?;
            Ok(V::N(what, vec![flags, name, desc, V::L(attrs)]))
        })
    }

    fn read_pool(&mut self) -> R<()> {
        let count = self.u2(MK::CpCount)?;
        if count == 0 {
            self.lenient.push("constant_pool_count 0");
        }
        let mut i = 1u32;
        while i < u32::from(count) {
            self.mark(MK::CpTag, 1, i);
            let tag = self.num(1)? as u8;
            let start = self.marks.len();
            let v = match tag {
                1 => {
                    let n = self.u2(MK::CpTextLen)?;
                    self.mark(MK::CpText, n as usize, i);
                    let s = self.text(n as usize, Some(i as u16))?;
                    V::N("utf8", vec![V::S(s)])
                }
                3 => V::N("integer", vec![V::I(i64::from(self.u4(MK::CpNumber)? as i32))]),
                4 => V::N("float", vec![V::I(i64::from(self.u4(MK::CpNumber)?))]),
                5 | 6 => {
                    self.mark(MK::CpNumber, 8, i);
                    let n = self.num(8)? as i64;
                    V::N(if tag == 5 { "long" } else { "double" }, vec![V::I(n)])
                }
                7 | 8 | 16 | 19 | 20 => {
                    let kind = match tag {
                        7 => "class_ref",
                        8 => "string",
                        16 => "method_type",
                        19 => "module",
                        _ => "package",
                    };
                    V::N(kind, vec![self.v2(MK::CpIndex)?])
                }
                9 | 10 | 11 | 12 | 18 => {
                    let kind = match tag {
                        9 => "field_ref",
                        10 => "method_ref",
                        11 => "interface_method_ref",
                        12 => "name_and_type",
                        _ => "invoke_dynamic",
                    };
                    let a = self.v2(MK::CpIndex)?;
                    let b = self.v2(MK::CpIndex)?;
                    V::N(kind, vec![a, b])
                }
                15 => {
                    let k = self.u1(MK::HandleKind)?;
                    if k < 1 || k > 9 {
                        return rej(Reject::HandleKind(i as u16, k));
                    }
                    let x = self.v2(MK::CpIndex)?;
                    V::N("method_handle", vec![V::I(i64::from(k)), x])
                }
                _ => return rej(Reject::CpTag(i as u16, tag)),
            };
            for m in &mut self.marks[start..] {
                m.at = i;
            }
            self.pool.push(Some(v));
            i += 1;
            if tag == 5 || tag == 6 {
                self.pool.push(None);
                i += 1;
                if i > u32::from(count) {
                    self.lenient.push("wide constant in the last slot");
                }
            }
        }
        Ok(())
    }

    /// modified UTF-8
    fn text(&mut self, n: usize, cp: Option<u16>) -> R<String> {
        let bytes = self.take(n)?;
        let bad = || rej(Reject::Utf8(cp));
        // first to UTF-16 units
        let mut units: Vec<u16> = Vec::new();
        let mut i = 0;
        let cont = |j: usize| -> Option<u16> {
            match bytes.get(j) {
                Some(c) if c & 0xC0 == 0x80 => Some(u16::from(c & 0x3F)),
                _ => None,
            }
        };
        while i < bytes.len() {
            let c = bytes[i];
            if c >= 0x01 && c <= 0x7F {
                units.push(u16::from(c));
                i += 1;
            } else if c & 0xE0 == 0xC0 {
                match cont(i + 1) {
                    Some(x) => {
                        let u = u16::from(c & 0x1F) << 6 | x;
                        if u != 0 && u < 0x80 {
                            self.lenient.push("overlong string form");
                        }
                        units.push(u);
                    }
                    None => return bad(),
                }
                i += 2;
            } else if c & 0xF0 == 0xE0 {
                match (cont(i + 1), cont(i + 2)) {
                    (Some(x), Some(y)) => {
                        let u = u16::from(c & 0x0F) << 12 | x << 6 | y;
                        if u < 0x800 {
                            self.lenient.push("overlong string form");
                        }
                        units.push(u);
                    }
                    _ => return bad(),
                }
                i += 3;
            } else {
                return bad();
            }
        }
        // a Rust string cannot hold unpaired surrogates
        match String::from_utf16(&units) {
            Ok(s) => Ok(s),
            Err(_) => bad(),
        }
    }

    fn enter(&mut self) -> R<()> {
        self.depth += 1;
        if self.depth > SURE_DEPTH {
            self.lenient.push("deep nesting");
        }
        if self.depth > MAX_DEPTH {
            return Err(Stop::Deep);
        }
        Ok(())
    }

    fn attributes(&mut self) -> R<Vec<V>> {
        let n = self.u2(MK::Count)?;
        let mut l = Vec::new();
        for i in 0..n {
            self.path.push(i as usize);
            let a = self.attribute()?;
            self.path.pop();
            l.push(a);
        }
        Ok(l)
    }

    fn attribute(&mut self) -> R<V> {
        let head = self.p;
        let name_index = self.u2(MK::AttrName)?;
        let name = match self.pool.get((name_index as usize).wrapping_sub(1)) {
            Some(Some(V::N("utf8", v))) => match v[0] {
                V::S(ref s) => s.clone(),
                _ => unreachable!(),
            },
            _ => return rej(Reject::AttrName(name_index)),
        };
        let len = self.u4(MK::AttrLen)? as usize;
        if len > self.end - self.p {
            return rej(if self.in_extent { Reject::Length } else { Reject::Eof });
        }
        self.enter()?;
        let slot = self.attrs.len();
        self.attrs.push(AttrSpan {
            kind: "",
            group: Group::Simple,
            head,
            body: self.p,
            len,
            depth: self.depth,
            path: self.path.clone(),
        });
        let outer = (self.end, self.in_extent);
        self.end = self.p + len;
        // an attribute cut off by the end of the file is found above
        self.in_extent = true;
        let v = self.body(&name, name_index, len)?;
        if self.p != self.end {
            return rej(Reject::Length);
        }
        self.end = outer.0;
        self.in_extent = outer.1;
        self.depth -= 1;
        if let V::A(k, g, _, _) = v {
            self.attrs[slot].kind = k;
            self.attrs[slot].group = g;
        }
        Ok(v)
    }

    fn body(&mut self, name: &str, name_index: u16, len: usize) -> R<V> {
        use Group::*;
        let a = |k: &'static str, g: Group, own: Vec<V>| V::A(k, g, own, vec![]);
        Ok(match name {
            "ConstantValue" => a("ConstantValue", Simple, vec![self.v2(MK::Index)?]),
            "Signature" => a("Signature", Simple, vec![self.v2(MK::Index)?]),
            "SourceFile" => a("SourceFile", Simple, vec![self.v2(MK::Index)?]),
            "EnclosingMethod" => {
                let c = self.v2(MK::Index)?;
                let m = self.v2(MK::Index)?;
                a("EnclosingMethod", Simple, vec![c, m])
            }
            "Deprecated" => a("Deprecated", Simple, vec![]),
            "Synthetic" => a("Synthetic", Simple, vec![]),
            "SourceDebugExtension" => {
                self.mark(MK::Text, len, 0);
                a("SourceDebugExtension", Text, vec![V::S(self.text(len, None)?)])
            }
            "Code" => return self.code(),
            "Exceptions" => a("Exceptions", Tables, vec![self.idx_list()?]),
            "ModulePackages" => a("ModulePackages", Tables, vec![self.idx_list()?]),
            "ModuleMainClass" => a("ModuleMainClass", Tables, vec![self.v2(MK::Index)?]),
            "LineNumberTable" => a("LineNumberTable", Tables, vec![self.rows("line", 2)?]),
            "LocalVariableTable" => a("LocalVariableTable", Tables, vec![self.rows("local", 5)?]),
            "LocalVariableTypeTable" => a("LocalVariableTypeTable", Tables, vec![self.rows("local_type", 5)?]),
            "InnerClasses" => a("InnerClasses", Tables, vec![self.rows("inner", 4)?]),
            "MethodParameters" => {
                let l = self.list1(|d| {
                    let n = d.v2(MK::Index)?;
                    let f = d.v2(MK::Flags)?;
                    Ok(V::N("param", vec![n, f]))
                })?;
                a("MethodParameters", Tables, vec![l])
            }
            "BootstrapMethods" => {
                let l = self.list2(|d| {
                    let m = d.v2(MK::Index)?;
                    let args = d.idx_list()?;
                    Ok(V::N("bootstrap", vec![m, args]))
                })?;
                a("BootstrapMethods", Tables, vec![l])
            }
            "Module" => {
                let n = self.v2(MK::Index)?;
                let f = self.v2(MK::Flags)?;
                let ver = self.v2(MK::Index)?;
                let requires = self.rows("requires", 3)?;
                let exports = self.module_to("exports")?;
                let opens = self.module_to("opens")?;
                let uses = self.idx_list()?;
                let provides = self.list2(|d| {
                    let i = d.v2(MK::Index)?;
                    let w = d.idx_list()?;
                    Ok(V::N("provides", vec![i, w]))
                })?;
                a("Module", Tables, vec![n, f, ver, requires, exports, opens, uses, provides])
            }
            "AnnotationDefault" => a("AnnotationDefault", Annot, vec![self.element()?]),
            "RuntimeVisibleAnnotations" => {
                a("RuntimeVisibleAnnotations", Annot, vec![self.list2(|d| d.annotation())?])
            }
            "RuntimeInvisibleAnnotations" => {
                a("RuntimeInvisibleAnnotations", Annot, vec![self.list2(|d| d.annotation())?])
            }
            "RuntimeVisibleParameterAnnotations" => a(
                "RuntimeVisibleParameterAnnotations",
                Annot,
                vec![self.list1(|d| d.list2(|d| d.annotation()))?],
            ),
            "RuntimeInvisibleParameterAnnotations" => a(
                "RuntimeInvisibleParameterAnnotations",
                Annot,
                vec![self.list1(|d| d.list2(|d| d.annotation()))?],
            ),
            "RuntimeVisibleTypeAnnotations" => {
                a("RuntimeVisibleTypeAnnotations", Annot, vec![self.list2(|d| d.type_annotation())?])
            }
            "RuntimeInvisibleTypeAnnotations" => {
                a("RuntimeInvisibleTypeAnnotations", Annot, vec![self.list2(|d| d.type_annotation())?])
            }
            "StackMapTable" => a("StackMapTable", Frames, vec![self.list2(|d| d.frame())?]),
            _ => a(
                "Unknown",
                Simple,
                vec![V::I(i64::from(name_index)), V::B(self.take(len)?.to_vec())],
            ),
        })
    }

    fn rows(&mut self, what: &'static str, n: usize) -> R<V> {
        self.list2(|d| {
            let mut c = Vec::new();
            for i in 0..n {
                let k = if (what == "inner" && i == 3) || (what == "requires" && i == 1) {
                    MK::Flags
                } else {
                    MK::Index
                };
                c.push(d.v2(k)?);
            }
            Ok(V::N(what, c))
        })
    }

    fn module_to(&mut self, what: &'static str) -> R<V> {
        self.list2(|d| {
            let i = d.v2(MK::Index)?;
            let f = d.v2(MK::Flags)?;
            let to = d.idx_list()?;
            Ok(V::N(what, vec![i, f, to]))
        })
    }

    fn annotation(&mut self) -> R<V> {
        let t = self.v2(MK::Index)?;
        let pairs = self.list2(|d| {
            let n = d.v2(MK::Index)?;
            let e = d.element()?;
            Ok(V::N("pair", vec![n, e]))
        })?;
        Ok(V::N("annotation", vec![t, pairs]))
    }

    fn element(&mut self) -> R<V> {
        let tag = self.u1(MK::ElemTag)?;
        let simple = match tag {
            b'B' => "byte",
            b'C' => "char",
            b'D' => "double",
            b'F' => "float",
            b'I' => "int",
            b'J' => "long",
            b'S' => "short",
            b'Z' => "boolean",
            b's' => "string",
            b'c' => "class",
            b'e' => {
                let t = self.v2(MK::Index)?;
                let c = self.v2(MK::Index)?;
                return Ok(V::N("el_enum", vec![t, c]));
            }
            b'@' => {
                self.enter()?;
                let a = self.annotation()?;
                self.depth -= 1;
                return Ok(V::N("el_annotation", vec![a]));
            }
            b'[' => {
                self.enter()?;
                let l = self.list2(|d| d.element())?;
                self.depth -= 1;
                return Ok(V::N("el_array", vec![l]));
            }
            _ => return rej(Reject::Elem(tag)),
        };
        let i = self.v2(MK::Index)?;
        Ok(V::N("el", vec![V::S(simple.to_string()), i]))
    }

    fn type_annotation(&mut self) -> R<V> {
        let t = self.u1(MK::Target)?;
        let target = match t {
            // type_parameter_target, formal_parameter_target
            0x00 | 0x01 | 0x16 => vec![self.v1(MK::Operand)?],
            // supertype, throws, catch, offset targets
            0x10 | 0x17 | 0x42 | 0x43 | 0x44 | 0x45 | 0x46 => vec![self.v2(MK::Operand)?],
            // type_parameter_bound_target
            0x11 | 0x12 => {
                let a = self.v1(MK::Operand)?;
                let b = self.v1(MK::Operand)?;
                vec![a, b]
            }
            // empty_target
            0x13 | 0x14 | 0x15 => vec![],
            // localvar_target
            0x40 | 0x41 => vec![self.rows("range", 3)?],
            // type_argument_target
            0x47 | 0x48 | 0x49 | 0x4A | 0x4B => {
                let a = self.v2(MK::Operand)?;
                let b = self.v1(MK::Operand)?;
                vec![a, b]
            }
            _ => return rej(Reject::Target(t)),
        };
        let mut tv = vec![V::I(i64::from(t))];
        tv.extend(target);
        let path = self.list1(|d| {
            let k = d.u1(MK::PathKind)?;
            if k > 3 {
                return rej(Reject::Path(k));
            }
            let i = d.v1(MK::Operand)?;
            Ok(V::N("step", vec![V::I(i64::from(k)), i]))
        })?;
        let a = self.annotation()?;
        Ok(V::N("type_annotation", vec![V::N("target", tv), path, a]))
    }

    fn verif(&mut self) -> R<V> {
        let t = self.u1(MK::VerifTag)?;
        Ok(match t {
            0 => V::N("top", vec![]),
            1 => V::N("integer", vec![]),
            2 => V::N("float", vec![]),
            3 => V::N("double", vec![]),
            4 => V::N("long", vec![]),
            5 => V::N("null", vec![]),
            6 => V::N("uninitialized_this", vec![]),
            7 => V::N("object", vec![self.v2(MK::Index)?]),
            8 => V::N("uninitialized", vec![self.v2(MK::Operand)?]),
            _ => return rej(Reject::Verif(t)),
        })
    }

    fn frame(&mut self) -> R<V> {
        let t = self.u1(MK::FrameType)?;
        if t <= 63 {
            return Ok(V::N("same", vec![V::I(i64::from(t))]));
        }
        if t <= 127 {
            let s = self.verif()?;
            return Ok(V::N("same_1", vec![V::I(i64::from(t) - 64), s]));
        }
        if t <= 246 {
            return rej(Reject::Frame(t));
        }
        let delta = self.v2(MK::Operand)?;
        if t == 247 {
            let s = self.verif()?;
            return Ok(V::N("same_1", vec![delta, s]));
        }
        if t <= 250 {
            return Ok(V::N("chop", vec![delta, V::I(251 - i64::from(t))]));
        }
        if t == 251 {
            return Ok(V::N("same", vec![delta]));
        }
        if t <= 254 {
            let mut l = Vec::new();
            for _ in 0..t - 251 {
                l.push(self.verif()?);
            }
            return Ok(V::N("append", vec![delta, V::L(l)]));
        }
        let locals = self.list2(|d| d.verif())?;
        let stack = self.list2(|d| d.verif())?;
        Ok(V::N("full", vec![delta, locals, stack]))
    }

    fn code(&mut self) -> R<V> {
        let max_stack = self.v2(MK::Operand)?;
        let max_locals = self.v2(MK::Operand)?;
        let len = self.u4(MK::CodeLen)? as usize;
        if len > self.end - self.p {
            return rej(Reject::Length);
        }
        if len == 0 {
            return rej(Reject::EmptyCode);
        }
        if len > 65535 {
            self.lenient.push("code longer than 65535 bytes");
        }
        let outer = self.end;
        let base = self.p;
        let outer_base = self.code_base;
        self.code_base = base;
        self.end = base + len;
        let mut insns = Vec::new();
        while self.p < self.end {
            let at = (self.p - base) as u32;
            let start = self.marks.len();
            let insn = self.instruction(at)?;
            for m in &mut self.marks[start..] {
                m.at = at;
            }
            insns.push(V::N("insn", vec![V::I(i64::from(at)), insn]));
        }
        self.end = outer;
        self.code_base = outer_base;
        let exceptions = self.rows("handler", 4)?;
        let nested = self.attributes()?;
        Ok(V::A("Code", Group::Code, vec![max_stack, max_locals, V::L(insns), exceptions], nested))
    }

    fn i2(&mut self) -> R<V> {
        Ok(V::I(i64::from(self.u2(MK::Operand)? as i16)))
    }
    fn i4(&mut self) -> R<V> {
        Ok(V::I(i64::from(self.u4(MK::Operand)? as i32)))
    }

    fn instruction(&mut self, at: u32) -> R<V> {
        let op = self.u1(MK::Opcode)?;
        let (name, form) = match OPCODES.get(op as usize) {
            Some(&x) => x,
            None if op == 0xFE => ("impdep1", '-'),
            None if op == 0xFF => ("impdep2", '-'),
            None => return rej(Reject::Opcode { op, at }),
        };
        let ops = match form {
            '-' => vec![],
            // signed byte, signed short
            'b' => vec![V::I(i64::from(self.u1(MK::Operand)? as i8))],
            's' | 'j' => vec![self.i2()?],
            'J' => vec![self.i4()?],
            // unsigned byte, unsigned short
            'u' => vec![self.v1(MK::Operand)?],
            'w' => vec![self.v2(MK::Operand)?],
            'i' => {
                let x = self.v1(MK::Operand)?;
                let c = V::I(i64::from(self.u1(MK::Operand)? as i8));
                vec![x, c]
            }
            'I' => {
                let x = self.v2(MK::Operand)?;
                let c = self.v1(MK::Operand)?;
                if self.u1(MK::Pad)? != 0 {
                    self.lenient.push("reserved operand not zero");
                }
                vec![x, c]
            }
            'D' => {
                let x = self.v2(MK::Operand)?;
                if self.u2(MK::Pad)? != 0 {
                    self.lenient.push("reserved operand not zero");
                }
                vec![x]
            }
            'a' => {
                let k = self.u1(MK::ArrayKind)?;
                let n = match k {
                    4 => "boolean",
                    5 => "char",
                    6 => "float",
                    7 => "double",
                    8 => "byte",
                    9 => "short",
                    10 => "int",
                    11 => "long",
                    _ => return rej(Reject::Opcode { op, at }),
                };
                vec![V::S(n.to_string())]
            }
            'm' => {
                let x = self.v2(MK::Operand)?;
                let d = self.v1(MK::Operand)?;
                vec![x, d]
            }
            'T' => {
                self.padding()?;
                let default = self.i4()?;
                let low = self.u4(MK::SwitchBound)? as i32;
                let high = self.u4(MK::SwitchBound)? as i32;
                if low > high {
                    return rej(Reject::Table { at });
                }
                let mut l = Vec::new();
                for _ in 0..i64::from(high) - i64::from(low) + 1 {
                    l.push(self.i4()?);
                }
                vec![default, V::I(i64::from(low)), V::I(i64::from(high)), V::L(l)]
            }
            'L' => {
                self.padding()?;
                let default = self.i4()?;
                let n = self.u4(MK::SwitchBound)?;
                let mut m = BTreeMap::new();
                let mut last = None;
                let mut dup = false;
                for _ in 0..n {
                    let k = self.u4(MK::Operand)? as i32;
                    let v = self.i4()?;
                    if last.map_or(false, |l| l >= k) {
                        self.lenient.push("switch keys out of order");
                    }
                    last = Some(k);
                    if m.insert(k, v).is_some() {
                        dup = true;
                    }
                }
                let l = if dup {
                    V::Any
                } else {
                    V::L(m.into_iter().map(|(k, v)| V::N("case", vec![V::I(i64::from(k)), v])).collect())
                };
                vec![default, l]
            }
            'W' => {
                let sub = self.u1(MK::WideOp)?;
                let (n, f) = match OPCODES.get(sub as usize) {
                    Some(&x) => x,
                    None => return rej(Reject::Opcode { op, at }),
                };
                // the local variable instructions: loads, stores, ret, iinc
                return match sub {
                    0x15..=0x19 | 0x36..=0x3A | 0xA9 => {
                        assert_eq!(f, 'u');
                        Ok(V::N(n, vec![self.v2(MK::Operand)?]))
                    }
                    0x84 => {
                        let x = self.v2(MK::Operand)?;
                        let c = self.i2()?;
                        Ok(V::N(n, vec![x, c]))
                    }
                    _ => rej(Reject::Opcode { op, at }),
                };
            }
            _ => unreachable!(),
        };
        // one operation in several encodings
        let name = match name {
            "ldc_w" | "ldc2_w" => "ldc",
            "goto_w" => "goto",
            "jsr_w" => "jsr",
            n => n,
        };
        Ok(V::N(name, ops))
    }

    fn padding(&mut self) -> R<()> {
        while (self.p - self.code_base) % 4 != 0 {
            self.u1(MK::Pad)?;
        }
        Ok(())
    }
}

/// JVM specification, chapter 6: operation codes 0x00 to 0xCA.
pub const OPCODES: [(&str, char); 203] = [
    ("nop", '-'), ("aconst_null", '-'), ("iconst_m1", '-'), ("iconst_0", '-'), ("iconst_1", '-'),
    ("iconst_2", '-'), ("iconst_3", '-'), ("iconst_4", '-'), ("iconst_5", '-'), ("lconst_0", '-'),
    ("lconst_1", '-'), ("fconst_0", '-'), ("fconst_1", '-'), ("fconst_2", '-'), ("dconst_0", '-'),
    ("dconst_1", '-'), ("bipush", 'b'), ("sipush", 's'), ("ldc", 'u'), ("ldc_w", 'w'),
    ("ldc2_w", 'w'), ("iload", 'u'), ("lload", 'u'), ("fload", 'u'), ("dload", 'u'), ("aload", 'u'),
    ("iload_0", '-'), ("iload_1", '-'), ("iload_2", '-'), ("iload_3", '-'),
    ("lload_0", '-'), ("lload_1", '-'), ("lload_2", '-'), ("lload_3", '-'),
    ("fload_0", '-'), ("fload_1", '-'), ("fload_2", '-'), ("fload_3", '-'),
    ("dload_0", '-'), ("dload_1", '-'), ("dload_2", '-'), ("dload_3", '-'),
    ("aload_0", '-'), ("aload_1", '-'), ("aload_2", '-'), ("aload_3", '-'),
    ("iaload", '-'), ("laload", '-'), ("faload", '-'), ("daload", '-'), ("aaload", '-'),
    ("baload", '-'), ("caload", '-'), ("saload", '-'),
    ("istore", 'u'), ("lstore", 'u'), ("fstore", 'u'), ("dstore", 'u'), ("astore", 'u'),
    ("istore_0", '-'), ("istore_1", '-'), ("istore_2", '-'), ("istore_3", '-'),
    ("lstore_0", '-'), ("lstore_1", '-'), ("lstore_2", '-'), ("lstore_3", '-'),
    ("fstore_0", '-'), ("fstore_1", '-'), ("fstore_2", '-'), ("fstore_3", '-'),
    ("dstore_0", '-'), ("dstore_1", '-'), ("dstore_2", '-'), ("dstore_3", '-'),
    ("astore_0", '-'), ("astore_1", '-'), ("astore_2", '-'), ("astore_3", '-'),
    ("iastore", '-'), ("lastore", '-'), ("fastore", '-'), ("dastore", '-'), ("aastore", '-'),
    ("bastore", '-'), ("castore", '-'), ("sastore", '-'),
    ("pop", '-'), ("pop2", '-'), ("dup", '-'), ("dup_x1", '-'), ("dup_x2", '-'), ("dup2", '-'),
    ("dup2_x1", '-'), ("dup2_x2", '-'), ("swap", '-'),
    ("iadd", '-'), ("ladd", '-'), ("fadd", '-'), ("dadd", '-'),
    ("isub", '-'), ("lsub", '-'), ("fsub", '-'), ("dsub", '-'),
    ("imul", '-'), ("lmul", '-'), ("fmul", '-'), ("dmul", '-'),
    ("idiv", '-'), ("ldiv", '-'), ("fdiv", '-'), ("ddiv", '-'),
    ("irem", '-'), ("lrem", '-'), ("frem", '-'), ("drem", '-'),
    ("ineg", '-'), ("lneg", '-'), ("fneg", '-'), ("dneg", '-'),
    ("ishl", '-'), ("lshl", '-'), ("ishr", '-'), ("lshr", '-'), ("iushr", '-'), ("lushr", '-'),
    ("iand", '-'), ("land", '-'), ("ior", '-'), ("lor", '-'), ("ixor", '-'), ("lxor", '-'),
    ("iinc", 'i'),
    ("i2l", '-'), ("i2f", '-'), ("i2d", '-'), ("l2i", '-'), ("l2f", '-'), ("l2d", '-'),
    ("f2i", '-'), ("f2l", '-'), ("f2d", '-'), ("d2i", '-'), ("d2l", '-'), ("d2f", '-'),
    ("i2b", '-'), ("i2c", '-'), ("i2s", '-'),
    ("lcmp", '-'), ("fcmpl", '-'), ("fcmpg", '-'), ("dcmpl", '-'), ("dcmpg", '-'),
    ("ifeq", 'j'), ("ifne", 'j'), ("iflt", 'j'), ("ifge", 'j'), ("ifgt", 'j'), ("ifle", 'j'),
    ("if_icmpeq", 'j'), ("if_icmpne", 'j'), ("if_icmplt", 'j'), ("if_icmpge", 'j'),
    ("if_icmpgt", 'j'), ("if_icmple", 'j'), ("if_acmpeq", 'j'), ("if_acmpne", 'j'),
    ("goto", 'j'), ("jsr", 'j'), ("ret", 'u'), ("tableswitch", 'T'), ("lookupswitch", 'L'),
    ("ireturn", '-'), ("lreturn", '-'), ("freturn", '-'), ("dreturn", '-'), ("areturn", '-'),
    ("return", '-'),
    ("getstatic", 'w'), ("putstatic", 'w'), ("getfield", 'w'), ("putfield", 'w'),
    ("invokevirtual", 'w'), ("invokespecial", 'w'), ("invokestatic", 'w'),
    ("invokeinterface", 'I'), ("invokedynamic", 'D'),
    ("new", 'w'), ("newarray", 'a'), ("anewarray", 'w'), ("arraylength", '-'), ("athrow", '-'),
    ("checkcast", 'w'), ("instanceof", 'w'), ("monitorenter", '-'), ("monitorexit", '-'),
    ("wide", 'W'), ("multianewarray", 'm'), ("ifnull", 'j'), ("ifnonnull", 'j'),
    ("goto_w", 'J'), ("jsr_w", 'J'), ("breakpoint", '-'),
];

#[cfg(test)]
mod tests {
    use super::OPCODES;
    #[test]
    fn anchors() {
        for (op, n) in [(0x2A, "aload_0"), (0x36, "istore"), (0x57, "pop"), (0x84, "iinc"), (0x99, "ifeq"),
            (0xA7, "goto"), (0xAA, "tableswitch"), (0xB1, "return"), (0xB9, "invokeinterface"),
            (0xBC, "newarray"), (0xC4, "wide"), (0xCA, "breakpoint")] {
            assert_eq!(OPCODES[op].0, n);
        }
    }
}
