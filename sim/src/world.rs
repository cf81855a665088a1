//! The simulated system around the parser: programs that write class files to a disk, programs
//! that read them, a page cache, and a disk that loses, tears, misplaces and corrupts. One
//! queue of timed events; every decision is drawn from the run's `Src`.

use crate::ctx::{Ctx, Res};
use crate::gen::{self, Focus};
use crate::refdec::{self, Decoded, Mark, Verdict, MK};
use crate::src::{hash_bytes, Src};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub static CORPUS: [&[u8]; 6] = [
    include_bytes!("../corpus/AnyAnnotation.class"),
    include_bytes!("../corpus/CustomLinkedList$Element.class"),
    include_bytes!("../corpus/CustomLinkedList$Iter.class"),
    include_bytes!("../corpus/CustomLinkedList.class"),
    include_bytes!("../corpus/Fibonacci.class"),
    include_bytes!("../corpus/FizzBuzzStream.class"),
];

/// What a writer once set out to store.
pub struct Version {
    pub bytes: Vec<u8>,
    pub dec: Option<Decoded>,
}

pub fn version(bytes: Vec<u8>) -> Version {
    let dec = match refdec::decode(&bytes) {
        Verdict::Accept(d) => Some(d),
        _ => None,
    };
    Version { bytes, dec }
}

/// What a reader got.
pub struct Delivery {
    pub bytes: Vec<u8>,
    /// the version it is, if it is exactly one
    pub intact: Option<Rc<Version>>,
}

#[derive(Clone, Default)]
struct Inode {
    cache: Vec<u8>,
    durable: Vec<u8>,
    dirty: BTreeSet<usize>,
    links: u32,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Style {
    InPlace,
    Truncate,
    Rename,
    RenameNoSync,
    Append,
}

struct Writer {
    slot: usize,
    style: Style,
    version: usize,
    inode: usize,
    pos: usize,
    stage: u8,
    left: u64,
    epoch: u32,
}

struct Reader {
    slot: usize,
    inode: Option<usize>,
    pos: usize,
    buf: Vec<u8>,
    left: u64,
    epoch: u32,
}

#[derive(Clone, Copy, Debug)]
enum Ev {
    W(usize, u32),
    R(usize, u32),
    Crash,
    Media,
    Flush,
}

/// What kind of runs a property wants.
#[derive(Clone, Copy)]
pub struct Taste {
    pub focus: Focus,
    /// marks that targeted damage prefers
    pub marks: &'static [MK],
    /// one in how many runs has no fault at all
    pub calm: u64,
    pub corpus: bool,
    pub crafted: bool,
}

const BLOCK: usize = 64;

pub struct World<'a> {
    pub src: &'a mut Src,
    pub ctx: &'a mut Ctx,
    taste: Taste,
    versions: Vec<Rc<Version>>,
    by_hash: BTreeMap<u64, usize>,
    inodes: Vec<Inode>,
    names: Vec<usize>,
    durable_names: Vec<usize>,
    queue: BTreeMap<(u64, u64), Ev>,
    seq: u64,
    epoch: u32,
    enabled: u64,
    deliveries: u64,
}

const F_SHORT: u64 = 1;
const F_EINTR: u64 = 2;
const F_EIO: u64 = 4;
const F_EOF: u64 = 8;
const F_CRASH: u64 = 16;
const F_MEDIA: u64 = 32;
const F_TARGET: u64 = 64;
const F_BLOCKS: u64 = 128;
const F_TAIL: u64 = 256;

impl<'a> World<'a> {
    pub fn new(src: &'a mut Src, ctx: &'a mut Ctx, taste: Taste) -> World<'a> {
        World {
            src,
            ctx,
            taste,
            versions: Vec::new(),
            by_hash: BTreeMap::new(),
            inodes: Vec::new(),
            names: Vec::new(),
            durable_names: Vec::new(),
            queue: BTreeMap::new(),
            seq: 0,
            epoch: 0,
            enabled: 0,
            deliveries: 0,
        }
    }

    fn new_version(&mut self) -> usize {
        let bytes = if self.taste.crafted && self.src.chance(250) {
            gen::crafted(self.src).0
        } else if self.taste.corpus && self.src.chance(80) {
            CORPUS[self.src.usize(CORPUS.len())].to_vec()
        } else {
            gen::class(self.src, self.taste.focus)
        };
        self.ctx.ev("new version of bytes/hash", &[bytes.len() as u64, hash_bytes(&bytes)]);
        let h = hash_bytes(&bytes);
        let n = self.versions.len();
        self.by_hash.insert(h, n);
        self.versions.push(Rc::new(version(bytes)));
        n
    }

    fn at(&mut self, delay: u64, ev: Ev) {
        self.seq += 1;
        self.queue.insert((self.ctx.now + delay, self.seq), ev);
    }

    /// Runs the world until its events are used up; `judge` sees every delivery.
    pub fn run(&mut self, judge: &mut dyn FnMut(&mut Src, &mut Ctx, &Delivery) -> Res) -> Res {
        if self.src.chance(12) {
            return self.large(judge);
        }
        let calm = self.src.below(self.taste.calm) == 0;
        self.enabled = if calm { 0 } else { self.src.below(512) | self.src.below(512) };
        self.ctx.probe(if calm { "runs without faults" } else { "runs with faults" });
        let slots = 1 + self.src.usize(2);
        for _ in 0..slots {
            // every name starts out with a fully durable file
            let v = self.new_version();
            let b = self.versions[v].bytes.clone();
            self.inodes.push(Inode { cache: b.clone(), durable: b, dirty: BTreeSet::new(), links: 1 });
            let i = self.inodes.len() - 1;
            self.names.push(i);
        }
        self.durable_names = self.names.clone();

        let nw = self.src.usize(3);
        let nr = 1 + self.src.usize(3);
        let mut writers = Vec::new();
        for i in 0..nw {
            let slot = self.src.usize(slots);
            let style = *self.src.pick(&[
                Style::InPlace, Style::Truncate, Style::Rename, Style::RenameNoSync, Style::Append,
            ]);
            let left = self.src.range(1, 2);
            writers.push(Writer { slot, style, version: 0, inode: 0, pos: 0, stage: 0, left, epoch: 0 });
            let d = self.src.below(400);
            self.at(d, Ev::W(i, 0));
        }
        let mut readers = Vec::new();
        for i in 0..nr {
            let slot = self.src.usize(slots);
            let left = self.src.range(1, 5);
            readers.push(Reader { slot, inode: None, pos: 0, buf: Vec::new(), left, epoch: 0 });
            let d = self.src.below(300);
            self.at(d, Ev::R(i, 0));
        }
        if self.enabled & F_CRASH != 0 {
            for _ in 0..self.src.range(1, 2) {
                let d = self.src.below(1500);
                self.at(d, Ev::Crash);
            }
        }
        if self.enabled & (F_MEDIA | F_TARGET | F_BLOCKS | F_TAIL) != 0 {
            for _ in 0..self.src.range(1, 4) {
                let d = self.src.below(1200);
                self.at(d, Ev::Media);
            }
        }
        if nw > 0 && self.src.chance(300) {
            let d = self.src.below(800);
            self.at(d, Ev::Flush);
        }
        let mut budget = 400;
        while let Some((&k, &ev)) = self.queue.iter().next() {
            self.queue.remove(&k);
            self.ctx.now = k.0;
            budget -= 1;
            if budget == 0 {
                break;
            }
            match ev {
                Ev::W(i, e) => {
                    if e == self.epoch {
                        self.write_step(&mut writers[i], i);
                    }
                }
                Ev::R(i, e) => {
                    if e == self.epoch {
                        if let Some(bytes) = self.read_step(&mut readers[i], i) {
                            self.deliver(bytes, judge)?;
                        }
                    }
                }
                Ev::Flush => {
                    for n in 0..self.inodes.len() {
                        self.sync(n);
                    }
                    self.durable_names = self.names.clone();
                    self.ctx.ev("write-back", &[]);
                }
                Ev::Media => self.media(),
                Ev::Crash => {
                    self.crash();
                    for i in 0..writers.len() {
                        writers[i].stage = 0;
                        writers[i].epoch = self.epoch;
                        let d = self.src.below(300);
                        self.at(d, Ev::W(i, self.epoch));
                    }
                    for i in 0..readers.len() {
                        readers[i].inode = None;
                        readers[i].epoch = self.epoch;
                        readers[i].left = readers[i].left.max(1);
                        let d = self.src.below(200);
                        self.at(d, Ev::R(i, self.epoch));
                    }
                }
            }
        }
        Ok(())
    }

    /// A file in which something is repeated very often: delivered whole, then as the medium leaves it.
    fn large(&mut self, judge: &mut dyn FnMut(&mut Src, &mut Ctx, &Delivery) -> Res) -> Res {
        let (bytes, label) = gen::bulk(self.src, self.taste.focus);
        self.ctx.probe(label);
        self.by_hash.insert(hash_bytes(&bytes), 0);
        self.versions.push(Rc::new(version(bytes.clone())));
        self.deliver(bytes, judge)?;
        for _ in 0..self.src.below(3) {
            let v = self.versions[0].clone();
            let mut img = v.bytes.clone();
            let marks: &[Mark] = v.dec.as_ref().map_or(&[], |d| &d.marks[..]);
            damage(self.src, self.ctx, &mut img, marks, self.taste.marks, F_TARGET | F_MEDIA | F_BLOCKS | F_TAIL, &self.versions);
            self.ctx.now += 1000;
            self.deliver(img, judge)?;
        }
        Ok(())
    }

    fn deliver(&mut self, bytes: Vec<u8>, judge: &mut dyn FnMut(&mut Src, &mut Ctx, &Delivery) -> Res) -> Res {
        let h = hash_bytes(&bytes);
        let intact = self.by_hash.get(&h).map(|i| self.versions[*i].clone()).filter(|v| v.bytes == bytes);
        self.ctx.ev("delivered bytes/hash/intact", &[bytes.len() as u64, h, intact.is_some() as u64]);
        self.ctx.probe(if intact.is_some() { "intact deliveries" } else { "damaged deliveries" });
        self.deliveries += 1;
        let d = Delivery { bytes, intact };
        let r = judge(self.src, self.ctx, &d);
        if r.is_err() {
            self.ctx.image = Some(d.bytes);
        }
        r
    }

    fn sync(&mut self, n: usize) {
        let i = &mut self.inodes[n];
        i.durable = i.cache.clone();
        i.dirty.clear();
    }

    fn put(&mut self, n: usize, at: usize, data: &[u8]) {
        let i = &mut self.inodes[n];
        if i.cache.len() < at + data.len() {
            i.cache.resize(at + data.len(), 0);
        }
        i.cache[at..at + data.len()].copy_from_slice(data);
        for b in at / BLOCK..=(at + data.len()) / BLOCK {
            i.dirty.insert(b);
        }
    }

    fn write_step(&mut self, w: &mut Writer, id: usize) {
        if w.left == 0 {
            return;
        }
        let data = |s: &Self, w: &Writer| s.versions[w.version].bytes.clone();
        match w.stage {
            0 => {
                w.version = self.new_version();
                w.pos = 0;
                w.stage = 1;
                match w.style {
                    Style::InPlace => w.inode = self.names[w.slot],
                    Style::Truncate => {
                        w.inode = self.names[w.slot];
                        self.inodes[w.inode].cache.clear();
                        self.inodes[w.inode].dirty.insert(0);
                    }
                    Style::Append => {
                        // keeps what is there if it fits, and only writes the rest
                        w.inode = self.names[w.slot];
                        let cur = &self.inodes[w.inode].cache;
                        let same = cur.iter().zip(data(self, w).iter()).take_while(|(a, b)| a == b).count();
                        w.pos = same;
                        self.inodes[w.inode].cache.truncate(same);
                        self.inodes[w.inode].dirty.insert(same / BLOCK);
                    }
                    _ => {
                        self.inodes.push(Inode::default());
                        w.inode = self.inodes.len() - 1;
                    }
                }
                self.ctx.ev("writer opens file/version", &[id as u64, w.slot as u64, w.version as u64]);
            }
            1 => {
                let d = data(self, w);
                let chunk = self.src.range(1, 8) as usize * BLOCK / 2;
                let mut end = (w.pos + chunk).min(d.len());
                if self.enabled & F_SHORT != 0 && self.src.chance(150) && end > w.pos + 1 {
                    // a short write; the writer goes on from there
                    end = w.pos + 1 + self.src.usize(end - w.pos - 1);
                    self.ctx.fault("short write");
                }
                let at = w.pos;
                self.put(w.inode, at, &d[at..end]);
                w.pos = end;
                self.ctx.ev("writer wrote up to", &[id as u64, end as u64]);
                if end == d.len() {
                    w.stage = 2;
                    if w.style == Style::InPlace {
                        // an in-place writer cuts the file to its new length, if it remembers to
                        if self.src.chance(800) {
                            self.inodes[w.inode].cache.truncate(d.len());
                        } else {
                            self.ctx.fault("stale tail left by overwrite");
                        }
                    }
                }
            }
            2 => {
                w.stage = 3;
                if w.style != Style::RenameNoSync && self.src.chance(700) {
                    self.sync(w.inode);
                    self.ctx.ev("writer synced", &[id as u64]);
                }
            }
            _ => {
                if w.style == Style::Rename || w.style == Style::RenameNoSync {
                    self.names[w.slot] = w.inode;
                    self.ctx.ev("writer renamed", &[id as u64, w.slot as u64]);
                    if self.src.chance(500) {
                        self.durable_names[w.slot] = w.inode;
                    }
                }
                w.stage = 0;
                w.left -= 1;
                self.inodes[w.inode].links += 1;
            }
        }
        let d = self.src.range(5, 120);
        self.at(d, Ev::W(id, w.epoch));
    }

    fn read_step(&mut self, r: &mut Reader, id: usize) -> Option<Vec<u8>> {
        if r.left == 0 {
            return None;
        }
        let mut delay = self.src.range(5, 60);
        let mut out = None;
        match r.inode {
            None => {
                r.inode = Some(self.names[r.slot]);
                r.pos = 0;
                r.buf.clear();
                self.ctx.ev("reader opens", &[id as u64, r.slot as u64]);
            }
            Some(n) => {
                if self.enabled & F_EINTR != 0 && self.src.chance(60) {
                    self.ctx.fault("interrupted read (retried)");
                } else if self.enabled & F_EIO != 0 && self.src.chance(30) {
                    // the reader gives up; nothing may be delivered
                    self.ctx.fault("read error");
                    self.ctx.ev("reader fails", &[id as u64]);
                    r.inode = None;
                    r.left -= 1;
                } else {
                    let have = self.inodes[n].cache.len();
                    let mut k = self.src.range(1, 16) as usize * BLOCK;
                    if self.enabled & F_SHORT != 0 && self.src.chance(200) {
                        k = 1 + self.src.usize(k);
                        self.ctx.fault("short read");
                    }
                    let end = (r.pos + k).min(have);
                    let early = self.enabled & F_EOF != 0 && end < have && self.src.chance(60);
                    if early {
                        self.ctx.fault("early end of file");
                    }
                    if r.pos < end && !early {
                        r.buf.extend_from_slice(&self.inodes[n].cache[r.pos..end]);
                        r.pos = end;
                    } else {
                        self.ctx.ev("reader done", &[id as u64, r.buf.len() as u64]);
                        out = Some(std::mem::take(&mut r.buf));
                        r.inode = None;
                        r.left -= 1;
                        delay = self.src.range(20, 300);
                    }
                }
            }
        }
        self.at(delay, Ev::R(id, r.epoch));
        out
    }

    fn crash(&mut self) {
        self.epoch += 1;
        self.ctx.fault("crash and restart");
        self.ctx.ev("crash", &[]);
        for slot in 0..self.names.len() {
            if self.names[slot] != self.durable_names[slot] {
                if self.src.chance(500) {
                    self.ctx.fault("rename lost in crash");
                    self.names[slot] = self.durable_names[slot];
                } else {
                    self.durable_names[slot] = self.names[slot];
                }
            }
        }
        for n in 0..self.inodes.len() {
            if self.inodes[n].dirty.is_empty() && self.inodes[n].cache.len() == self.inodes[n].durable.len() {
                continue;
            }
            let i = self.inodes[n].clone();
            // the length may be the old or the new one, or one in between
            let (a, b) = (i.durable.len().min(i.cache.len()), i.durable.len().max(i.cache.len()));
            let len = match self.src.below(3) {
                0 => i.cache.len(),
                1 => i.durable.len(),
                _ => a + self.src.usize(b - a + 1),
            };
            let mut img = i.durable.clone();
            img.resize(len, 0);
            for &b in &i.dirty {
                let lo = b * BLOCK;
                let hi = ((b + 1) * BLOCK).min(len).min(i.cache.len());
                if lo >= hi {
                    continue;
                }
                match self.src.below(3) {
                    0 => self.ctx.fault("unsynced block lost"),
                    1 => img[lo..hi].copy_from_slice(&i.cache[lo..hi]),
                    _ => {
                        let cut = lo + self.src.usize(hi - lo);
                        img[lo..cut].copy_from_slice(&i.cache[lo..cut]);
                        self.ctx.fault("torn block");
                    }
                }
            }
            let i = &mut self.inodes[n];
            i.cache = img.clone();
            i.durable = img;
            i.dirty.clear();
        }
    }

    fn media(&mut self) {
        let slot = self.src.usize(self.names.len());
        let n = self.names[slot];
        let mut img = self.inodes[n].cache.clone();
        let times = if self.src.chance(250) { 2 + self.src.usize(3) } else { 1 };
        for _ in 0..times {
            let known = self.by_hash.get(&hash_bytes(&img)).map(|i| self.versions[*i].clone());
            let marks: &[Mark] = match known {
                Some(ref v) => v.dec.as_ref().map_or(&[], |d| &d.marks[..]),
                None => &[],
            };
            damage(self.src, self.ctx, &mut img, marks, self.taste.marks, self.enabled, &self.versions);
        }
        let i = &mut self.inodes[n];
        i.cache = img.clone();
        i.durable = img;
        i.dirty.clear();
    }
}

/// Pokes one value at a mark. Returns whether something changed.
pub fn poke(src: &mut Src, ctx: &mut Ctx, img: &mut [u8], m: &Mark) -> bool {
    if m.len == 0 || m.off + m.len > img.len() {
        return false;
    }
    let (off, len) = match m.kind {
        MK::CpText | MK::Text => (m.off + src.usize(m.len), 1),
        MK::CpNumber => (m.off + src.usize(m.len), 1),
        _ => (m.off, m.len),
    };
    let old = img[off..off + len].iter().fold(0u64, |a, b| a << 8 | u64::from(*b));
    let max = if len >= 8 { u64::MAX } else { (1u64 << (8 * len)) - 1 };
    let new = match src.below(8) {
        0 => old.wrapping_add(1) & max,
        1 => old.wrapping_sub(1) & max,
        2 => src.below(20).min(max),
        3 => old ^ 1 << src.below(8 * len as u64),
        4 => *src.pick(&[0, max, max >> 1, (max >> 1) + 1, max - 1, 0x7F & max, 0x80 & max, 0xC0 & max, 0xED & max]),
        5 => old.wrapping_add(src.below(16)) & max,
        6 if src.chance(300) => src.learned(max).unwrap_or(max / 3),
        _ => src.below(if len >= 8 { u64::MAX } else { max + 1 }),
    };
    for k in 0..len {
        img[off + k] = (new >> (8 * (len - 1 - k))) as u8;
    }
    ctx.ev("poked at/len/old/new", &[off as u64, len as u64, old, new]);
    new != old
}

pub fn damage(
    src: &mut Src,
    ctx: &mut Ctx,
    img: &mut Vec<u8>,
    marks: &[Mark],
    favoured: &[MK],
    enabled: u64,
    versions: &[Rc<Version>],
) {
    if img.is_empty() {
        return;
    }
    let mut kinds: Vec<u8> = Vec::new();
    if enabled & F_TARGET != 0 && !marks.is_empty() {
        kinds.extend_from_slice(&[0, 0, 0, 0]);
    }
    if enabled & F_MEDIA != 0 {
        kinds.extend_from_slice(&[1, 2]);
    }
    if enabled & F_BLOCKS != 0 {
        kinds.extend_from_slice(&[3, 4, 5, 6]);
    }
    if enabled & F_TAIL != 0 {
        kinds.extend_from_slice(&[7, 8]);
    }
    if kinds.is_empty() {
        kinds.push(1);
    }
    let len = img.len();
    let blocks = (len + BLOCK - 1) / BLOCK;
    let span = |b: usize| b * BLOCK..((b + 1) * BLOCK).min(len);
    match *src.pick(&kinds) {
        0 => {
            let liked: Vec<&Mark> = marks.iter().filter(|m| favoured.contains(&m.kind)).collect();
            let m = if !liked.is_empty() && src.chance(800) {
                liked[src.usize(liked.len())]
            } else {
                &marks[src.usize(marks.len())]
            };
            if poke(src, ctx, img, m) {
                ctx.fault("misdirected small write (structure-aware)");
            }
        }
        1 => {
            let at = src.usize(len);
            let bit = src.below(8);
            img[at] ^= 1 << bit;
            ctx.ev("bit flip at/bit", &[at as u64, bit]);
            ctx.fault("bit flip");
        }
        2 => {
            let at = src.usize(len);
            img[at] = src.u8();
            ctx.ev("byte garbled at", &[at as u64]);
            ctx.fault("byte garbled");
        }
        3 => {
            let b = src.usize(blocks);
            for x in &mut img[span(b)] {
                *x = 0;
            }
            ctx.ev("block zeroed", &[b as u64]);
            ctx.fault("block lost (zeros)");
        }
        4 => {
            let (a, b) = (src.usize(blocks), src.usize(blocks));
            let (x, y) = (span(a), span(b));
            let part: Vec<u8> = img[x].to_vec();
            let k = part.len().min(y.len());
            img[y.start..y.start + k].copy_from_slice(&part[..k]);
            ctx.ev("block from/to", &[a as u64, b as u64]);
            ctx.fault("block misplaced");
        }
        5 => {
            // a block that is there twice: everything behind it moves
            let b = src.usize(blocks);
            let part: Vec<u8> = img[span(b)].to_vec();
            let at = span(b).end;
            img.splice(at..at, part);
            ctx.ev("block repeated", &[b as u64]);
            ctx.fault("block repeated");
        }
        6 => {
            let v = versions[src.usize(versions.len())].clone();
            let b = src.usize(blocks);
            let s = span(b);
            if s.start < v.bytes.len() {
                let e = s.end.min(v.bytes.len());
                img[s.start..e].copy_from_slice(&v.bytes[s.start..e]);
            }
            ctx.ev("block of another version", &[b as u64]);
            ctx.fault("stale block");
        }
        7 => {
            let n = src.usize(len + 1);
            img.truncate(n);
            ctx.ev("cut to", &[n as u64]);
            ctx.fault("tail lost");
        }
        _ => {
            let n = src.range(1, 40);
            for _ in 0..n {
                let b = src.u8();
                img.push(b);
            }
            ctx.ev("grown by", &[n]);
            ctx.fault("junk tail");
        }
    }
}
