//! C18: the dump program, run for real against an operating system that interrupts, shortens
//! and fails its calls where the simulator says.

use crate::ctx::{bad, Ctx, Res};
use crate::gen::{self, Focus};
use crate::oracle::{parse, Got};
use crate::refdec::{self, Verdict};
use crate::src::{hash_bytes, mix, Src};
use crate::v::V;
use std::io::Read;
use std::os::fd::AsRawFd;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};

const EINTR: i64 = 4;

struct Run {
    code: Option<i32>,
    signal: Option<i32>,
    out: Vec<u8>,
    calls: Vec<(u8, i64, i64)>,
}

extern "C" {
    fn pipe2(fds: *mut i32, flags: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(a: i32) -> i32;
}

fn list(v: &[i64]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

#[derive(Default, Clone)]
struct Plan {
    opens: Vec<i64>,
    stats: Vec<i64>,
    reads: Vec<i64>,
    writes: Vec<i64>,
}

fn run(path: &str, seed: u64, p: &Plan, dir: &str) -> Run {
    let exe = std::env::current_exe().unwrap();
    let bin = exe.parent().unwrap().join("dump");
    let shim = std::env::var("SIM_SHIM").unwrap_or_else(|_| exe.parent().unwrap().join("shim.so").to_string_lossy().into_owned());
    let mut fds = [0i32; 2];
    unsafe {
        if pipe2(fds.as_mut_ptr(), 0o2000000) != 0 {
            panic!("pipe");
        }
    }
    let (lr, lw) = (fds[0], fds[1]);
    let mut c = Command::new(bin);
    c.arg(path)
        .env_clear()
        .env("LD_PRELOAD", shim)
        .env("SIM_FILE", path)
        .env("SIM_SEED", seed.to_string())
        .env("SIM_LOGFD", "99")
        .current_dir(dir)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null());
    for (n, v) in [("SIM_OPENS", &p.opens), ("SIM_STATS", &p.stats), ("SIM_READS", &p.reads), ("SIM_WRITES", &p.writes)] {
        if !v.is_empty() {
            c.env(n, list(v));
        }
    }
    unsafe {
        c.pre_exec(move || {
            dup2(lw, 99);
            Ok(())
        });
    }
    let mut child = c.spawn().expect("dump");
    unsafe {
        close(lw);
    }
    // the log is short enough for the pipe only if somebody reads it
    let log = std::thread::spawn(move || {
        use std::os::fd::FromRawFd;
        let mut f = unsafe { std::fs::File::from_raw_fd(lr) };
        let mut s = String::new();
        let _ = f.read_to_string(&mut s);
        s
    });
    let mut out = Vec::new();
    let mut so = child.stdout.take().unwrap();
    let _ = so.as_raw_fd();
    let _ = so.read_to_end(&mut out);
    let st = child.wait().expect("wait");
    let log = log.join().unwrap_or_default();
    let calls = log
        .lines()
        .filter_map(|l| {
            let mut f = l.split(' ');
            Some((f.next()?.as_bytes()[0], f.next()?.parse().ok()?, f.next()?.parse().ok()?))
        })
        .collect();
    Run { code: st.code(), signal: st.signal(), out, calls }
}

/// What a line about a constant has to say: its kind, and its operands in order.
struct Line {
    index: usize,
    kind: &'static str,
    values: Vec<String>,
}

fn constants(dec: &refdec::Decoded) -> Vec<Line> {
    const HANDLES: [&str; 10] = [
        "", "GetField", "GetStatic", "PutField", "PutStatic", "InvokeVirtual", "InvokeStatic", "InvokeSpecial", "NewInvokeSpecial", "InvokeInterface",
    ];
    let mut v = Vec::new();
    if let V::N(_, ref c) = dec.class {
        if let V::L(ref l) = c[2] {
            for (i, x) in l.iter().enumerate() {
                let (k, ops) = match *x {
                    V::N(k, ref ops) => (k, ops),
                    _ => continue,
                };
                let kind = match k {
                    "utf8" => "UTF8",
                    "integer" => "Integer",
                    "float" => "Float",
                    "long" => "Long",
                    "double" => "Double",
                    "class_ref" => "Class",
                    "string" => "String",
                    "field_ref" => "FieldRef",
                    "method_ref" => "MethodRef",
                    "interface_method_ref" => "InterfaceMethodRef",
                    "name_and_type" => "NameAndType",
                    "method_handle" => "MethodHandle",
                    "method_type" => "MethodType",
                    "invoke_dynamic" => "InvokeDynamic",
                    "module" => "Module",
                    "package" => "Package",
                    _ => continue,
                };
                let mut values = Vec::new();
                for (n, o) in ops.iter().enumerate() {
                    match *o {
                        V::S(ref s) => values.push(format!("{:?}", s)),
                        V::I(x) if k == "float" => values.push(format!("{:?}", f32::from_bits(x as u32))),
                        V::I(x) if k == "double" => values.push(format!("{:?}", f64::from_bits(x as u64))),
                        V::I(x) if k == "method_handle" && n == 0 => values.push(HANDLES[x as usize].to_string()),
                        V::I(x) => values.push(x.to_string()),
                        _ => {}
                    }
                }
                v.push(Line { index: i + 1, kind, values });
            }
        }
    }
    v
}

impl Line {
    /// Whether this is what a printed line says.
    fn said_by(&self, line: &str) -> bool {
        let start = format!("#{}: {}", self.index, self.kind);
        let mut rest = match line.strip_prefix(&start) {
            Some(r) if !r.starts_with(|c: char| c.is_alphanumeric()) => r,
            _ => return false,
        };
        for v in &self.values {
            // as a whole: 1 is not in 12, nor 0.5 in 10.5
            let part = |c: char| c.is_alphanumeric() || c == '.' || c == '-' || c == '_';
            let mut from = 0;
            let end = loop {
                let at = match rest[from..].find(v.as_str()) {
                    Some(at) => from + at,
                    None => return false,
                };
                let end = at + v.len();
                if v.starts_with('"') || !rest[..at].ends_with(part) && !rest[end..].starts_with(part) {
                    break end;
                }
                from = at + 1;
                while !rest.is_char_boundary(from) {
                    from += 1;
                }
            };
            rest = &rest[end..];
        }
        true
    }
}

/// All numbers, and all strings, below a value; without flags, and without the tags that stand for kinds.
fn content(v: &V, out: &mut Vec<String>) {
    match *v {
        V::I(x) => out.push(x.to_string()),
        V::B(ref b) => out.extend(b.iter().map(|x| x.to_string())),
        V::L(ref l) => l.iter().for_each(|x| content(x, out)),
        V::N(k, ref l) => {
            let skip: &[usize] = match k {
                "class" => &[2, 3],
                "field" | "method" | "target" | "step" => &[0],
                "inner" => &[3],
                "param" | "requires" | "exports" | "opens" => &[1],
                _ => &[],
            };
            l.iter().enumerate().filter(|(i, _)| !skip.contains(i)).for_each(|(_, x)| content(x, out));
        }
        V::A(k, _, ref own, ref nested) => {
            for (i, x) in own.iter().enumerate() {
                match *x {
                    V::S(ref s) => out.push(format!("{:?}", s)),
                    _ if k == "Module" && i == 1 => {}
                    _ => content(x, out),
                }
            }
            nested.iter().for_each(|x| content(x, out));
        }
        V::S(_) | V::Any => {}
    }
}

/// All numbers and strings in a printed text.
fn tokens(text: &str) -> Vec<String> {
    let mut out = Vec::new();
    let mut c = text.char_indices().peekable();
    while let Some((at, x)) = c.next() {
        if x == '"' {
            let mut end = text.len();
            while let Some((i, y)) = c.next() {
                if y == '\\' {
                    c.next();
                } else if y == '"' {
                    end = i + 1;
                    break;
                }
            }
            out.push(text[at..end].to_string());
        } else if x.is_alphanumeric() || x == '_' || x == '-' {
            let mut end = at + x.len_utf8();
            while let Some(&(i, y)) = c.peek() {
                if !(y.is_alphanumeric() || y == '_') {
                    break;
                }
                end = i + y.len_utf8();
                c.next();
            }
            let w = &text[at..end];
            let digits = w.strip_prefix('-').unwrap_or(w);
            if !digits.is_empty() && digits.bytes().all(|b| b.is_ascii_digit()) {
                out.push(w.to_string());
            }
        }
    }
    out
}

/// Where a printed class does not hold what the stored class does.
fn class_differs(class: &V, text: &str) -> Option<String> {
    let mut want = Vec::new();
    content(class, &mut want);
    let mut got = tokens(text);
    want.sort_unstable();
    got.sort_unstable();
    let i = want.iter().zip(&got).take_while(|(a, b)| a == b).count();
    if i == want.len() && i == got.len() {
        return None;
    }
    Some(format!("{} values are stored, {} printed; sorted, they differ first at {:?} and {:?}", want.len(), got.len(), want.get(i), got.get(i)))
}

pub fn c18(src: &mut Src, ctx: &mut Ctx) -> Res {
    let dir = ctx.scratch.clone();
    let path = format!("{}/in.class", dir);
    let focus = *src.pick(&[Focus::Mixed, Focus::Pool, Focus::Members, Focus::Code, Focus::Annot, Focus::Text]);
    let mut bytes = if src.chance(250) {
        crate::world::CORPUS[src.usize(6)].to_vec()
    } else {
        gen::class(src, focus)
    };
    match src.below(8) {
        0 => {
            let at = src.usize(bytes.len());
            bytes[at] ^= 1 << src.below(8);
            ctx.fault("bit flip in the file");
        }
        1 => {
            let n = src.usize(bytes.len());
            bytes.truncate(n);
            ctx.fault("file cut short");
        }
        2 if src.chance(300) => {
            bytes = (0..src.below(30)).map(|_| src.u8()).collect();
            ctx.fault("not a class file");
        }
        _ => {}
    }
    std::fs::write(&path, &bytes).expect("scratch");
    let seed = src.below(1 << 40);
    ctx.ev("file bytes/hash", &[bytes.len() as u64, hash_bytes(&bytes)]);
    ctx.image = Some(bytes.clone());

    // undisturbed
    let calm = run(&path, seed, &Plan::default(), &dir);
    ctx.evals += 1;
    let (accepted, verdict) = expected(&bytes);
    judge_end(&calm, accepted, false, "undisturbed")?;
    if accepted {
        let text = String::from_utf8_lossy(&calm.out).into_owned();
        if let Verdict::Accept(ref dec) = verdict {
            if !dec.lenient.contains(&"wide constant in the last slot") {
                let want = constants(dec);
                let got: Vec<&str> = text.lines().map(|l| l.trim_start()).filter(|l| is_entry(l)).collect();
                for i in 0..want.len().max(got.len()) {
                    match (want.get(i), got.get(i)) {
                        (Some(w), Some(g)) if w.said_by(g) => {}
                        (w, g) => {
                            let w = w.map(|w| format!("#{}: {} {:?}", w.index, w.kind, w.values));
                            return bad("constants", format!("constant line {}: should be {:?}, printed was {:?}", i + 1, w, g));
                        }
                    }
                }
                ctx.probe("constant listings compared with the file");
            }
        }
        match text.rfind("\nClass {").or_else(|| if text.starts_with("Class {") { Some(0) } else { None }) {
            Some(at) if text.trim_end().ends_with('}') => {
                if let Verdict::Accept(ref dec) = verdict {
                    if dec.lenient.is_empty() {
                        if let Some(m) = class_differs(&dec.class, &text[at..]) {
                            return bad("class", m);
                        }
                        ctx.probe("printed classes compared with the file");
                    }
                }
            }
            _ => return bad("no class", "the dump does not end with the class".to_string()),
        }
    }
    ctx.cases.push(mix(hash_bytes(&bytes), seed));

    // and with what the operating system may do
    for _ in 0..src.range(3, 6) {
        let mut p = Plan::default();
        let n = bytes.len() as u64;
        let harmless_only = src.chance(400);
        // reads: mostly short, with interruptions
        let mut k = 0;
        let mut sum = 0;
        while sum < n + 1 && k < 200 {
            k += 1;
            match src.below(8) {
                0 | 1 => p.reads.push(-EINTR),
                2 => p.reads.push(0),
                _ => {
                    let m = match src.below(3) {
                        0 => src.range(1, 8),
                        1 => src.range(1, 200),
                        _ => src.range(1, n + 2),
                    };
                    sum += m;
                    p.reads.push(m as i64);
                }
            }
        }
        if src.chance(300) {
            p.opens.push(-EINTR);
        }
        if src.chance(300) {
            p.stats.push(*src.pick(&[-5i64, -38, 1, 3, 100_000, 10]));
        }
        let lines = calm.out.iter().filter(|c| **c == b'\n').count() as u64;
        if src.chance(500) {
            for _ in 0..src.below(lines + 3).min(400) {
                p.writes.push(match src.below(4) {
                    0 => -EINTR,
                    1 => src.range(1, 30) as i64,
                    _ => 0,
                });
            }
        }
        if !harmless_only {
            match src.below(4) {
                0 => p.opens.push(-*src.pick(&[2i64, 13, 24, 5, 40])),
                1 => {
                    let at = src.usize(p.reads.len() + 1);
                    p.reads.insert(at, -*src.pick(&[5i64, 21, 12, 116]));
                }
                2 => {
                    let at = src.usize(p.reads.len() + 1);
                    p.reads.insert(at, -1000);
                }
                _ => {
                    // from here on, nothing can be written
                    let e = -*src.pick(&[32i64, 28, 5, 27]);
                    let at = src.below(lines + 2).min(60_000) as usize;
                    while p.writes.len() < at {
                        p.writes.push(0);
                    }
                    p.writes.truncate(at);
                    p.writes.push(e);
                }
            }
        }
        let r = run(&path, seed, &p, &dir);
        ctx.evals += 1;
        let mut hard_read = false;
        let mut hard_write = false;
        let mut read = 0usize;
        let mut h = 0;
        for &(what, planned, got) in &r.calls {
            h = mix(h, u64::from(what) ^ (planned as u64) << 8);
            let name = match (what, planned) {
                (b'o', x) if x == -EINTR => "open interrupted",
                (b'o', x) if x < 0 => {
                    hard_read = true;
                    "open failed"
                }
                (b's', x) if x < 0 => "stat failed",
                (b's', x) if x > 0 => "stat with a wrong size",
                (b'r', x) if x == -EINTR => "read interrupted",
                (b'r', -1000) => "early end of file",
                (b'r', x) if x < 0 => {
                    hard_read = true;
                    "read failed"
                }
                (b'w', x) if x == -EINTR => "write interrupted",
                (b'w', x) if x < 0 => {
                    hard_write = true;
                    "write failed"
                }
                (b'w', x) if x > 0 => "short write",
                (b'r', x) if x > 0 => "short read",
                _ => "",
            };
            if what == b'r' && got > 0 {
                read += got as usize;
            }
            if !name.is_empty() {
                ctx.fault(name);
            }
        }
        ctx.states.push(h);
        ctx.ev("run calls/hash/read/exit/output", &[
            r.calls.len() as u64,
            h,
            read as u64,
            r.code.map_or(999, |c| c as u64),
            hash_bytes(&r.out),
        ]);
        if ctx.record {
            ctx.log.push(format!("plan opens {:?} stats {:?} reads {:?} writes {:?}", p.opens, p.stats, p.reads, p.writes));
        }
        let early = r.calls.iter().any(|c| c.0 == b'r' && c.1 == -1000);
        let misled = r.calls.iter().any(|c| c.0 == b's' && c.1 != 0);
        // what the program has to go by: all of the file, if nothing kept it from reading that
        let seen = if early { &bytes[..read.min(bytes.len())] } else { &bytes[..] };
        let ok = !hard_read && if early { expected(seen).0 } else { accepted };
        if !hard_read && !early && read < bytes.len() && r.code == Some(0) {
            return bad("incomplete read", format!("succeeded after reading {} of {} bytes", read, bytes.len()));
        }
        if misled && r.code.map_or(false, |c| c != 0) && r.out.is_empty() {
            // who asks for the size of the file may give up on a wrong one
            ctx.probe("gave up on a wrong file size");
            continue;
        }
        judge_end(&r, ok, hard_write, if hard_read { "opening or reading failed" } else { "disturbed" })?;
        if ok && !hard_write {
            let same = if seen.len() == bytes.len() {
                r.out == calm.out
            } else {
                // an early end behind the class itself
                r.out == calm.out || accepted
            };
            if !same {
                let at = r.out.iter().zip(&calm.out).take_while(|(a, b)| a == b).count();
                return bad(
                    "dump differs",
                    format!("with harmless disturbances the dump differs from byte {} on ({} bytes, undisturbed {})", at, r.out.len(), calm.out.len()),
                );
            }
            ctx.probe("disturbed dumps equal to the undisturbed");
        } else {
            ctx.probe("runs that had to fail");
        }
        ctx.cases.push(mix(hash_bytes(&bytes), h));
    }
    if ctx.sample.is_none() {
        ctx.sample = Some(format!("{} bytes, parsed: {}, dump of {} bytes, under several fault plans", bytes.len(), accepted, calm.out.len()));
    }
    ctx.image = None;
    Ok(())
}

/// Whether these bytes have to be dumped: as the reference decoder says, or, where it would allow both, the
/// parser.
fn expected(b: &[u8]) -> (bool, Verdict) {
    let v = refdec::decode(b);
    let ok = match v {
        Verdict::Accept(ref d) if d.lenient.is_empty() => true,
        Verdict::Reject(_) => false,
        _ => matches!(parse(b), Got::Class(..)),
    };
    (ok, v)
}

fn is_entry(l: &str) -> bool {
    // "#12: ..."
    let b = l.as_bytes();
    if b.first() != Some(&b'#') {
        return false;
    }
    let d = b[1..].iter().take_while(|c| c.is_ascii_digit()).count();
    d > 0 && b.get(1 + d) == Some(&b':')
}

fn judge_end(r: &Run, ok: bool, hard_write: bool, when: &str) -> Res {
    if r.signal == Some(24) || r.signal == Some(9) {
        return bad("hang", format!("{}: the program did not come to an end", when));
    }
    if ok && !hard_write {
        if r.code != Some(0) {
            return bad("failed", format!("{}: should succeed, but ended with {:?}/{:?}", when, r.code, r.signal));
        }
        return Ok(());
    }
    if r.code == Some(0) {
        let why = if ok { "the output could not be written" } else { "there was no class file to print" };
        return bad("no failure status", format!("{}: {}, but it exited with success", when, why));
    }
    if !ok && !r.out.is_empty() {
        return bad("printed", format!("{}: nothing to print, but {} bytes were", when, r.out.len()));
    }
    Ok(())
}
