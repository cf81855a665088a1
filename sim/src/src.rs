//! The one source of choices of a simulated run.
//!
//! Every decision (which event is next, how long it takes, which fault strikes where,
//! what is stored) is drawn from a `Src`. In generating mode the numbers come from one
//! PRNG seeded with (seed, property, run) and are recorded; in replaying mode they come
//! from a recorded list, which is also what the minimiser edits.

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    Rng::new(a ^ b.rotate_left(32).wrapping_mul(0xD6E8_FEB8_6659_FD93)).next()
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ (b.len() as u64);
    for &x in b {
        h ^= u64::from(x);
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    mix(h, 1)
}

/// Where choices are also noted, for runs that do not live to report them.
pub const MIRROR: usize = 1 << 20;
static MIRROR_AT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
pub fn mirror(at: usize) {
    MIRROR_AT.store(at, std::sync::atomic::Ordering::SeqCst);
}
pub fn mirrored() -> Vec<u64> {
    let p = MIRROR_AT.load(std::sync::atomic::Ordering::SeqCst) as *const u64;
    unsafe { (0..(*p as usize).min(MIRROR)).map(|i| *p.add(1 + i)).collect() }
}
fn note(v: u64) {
    let p = MIRROR_AT.load(std::sync::atomic::Ordering::Relaxed) as *mut u64;
    if !p.is_null() {
        unsafe {
            let n = *p as usize;
            if n < MIRROR {
                *p.add(1 + n) = v;
                *p = n as u64 + 1;
            }
        }
    }
}

pub struct Src {
    rng: Option<Rng>,
    script: Vec<u64>,
    pos: usize,
}

impl Src {
    pub fn generate(seed: u64) -> Src {
        Src { rng: Some(Rng::new(seed)), script: Vec::new(), pos: 0 }
    }
    pub fn replay(script: Vec<u64>) -> Src {
        Src { rng: None, script, pos: 0 }
    }
    /// The choices made so far.
    pub fn choices(&self) -> Vec<u64> {
        self.script[..self.pos.min(self.script.len())].to_vec()
    }
    /// A number in 0..n; 0 is the simplest choice. A finished script answers 0.
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match self.rng {
            Some(ref mut r) => {
                let v = r.next() % n;
                self.script.push(v);
                note(v);
                v
            }
            None => self.script.get(self.pos).cloned().unwrap_or(0).min(n - 1),
        };
        self.pos += 1;
        v
    }
    /// A number in lo..=hi.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// True with a probability of `permille`/1000.
    pub fn chance(&mut self, permille: u64) -> bool {
        self.below(1000) >= 1000 - permille.min(1000)
    }
    pub fn pick<'a, T>(&mut self, from: &'a [T]) -> &'a T {
        &from[self.usize(from.len())]
    }
    pub fn u8(&mut self) -> u8 {
        self.below(256) as u8
    }
    /// A number the code under test compares with, or next to one, if it is below `n`.
    pub fn learned(&mut self, n: u64) -> Option<u64> {
        let l = crate::learn::nums();
        let l = &l[..l.partition_point(|x| *x <= n)];
        if l.is_empty() {
            return None;
        }
        let v = l[self.usize(l.len())];
        let v = match self.below(4) {
            0 | 1 => v,
            2 => v + 1,
            _ => v - 1,
        };
        if v < n {
            Some(v)
        } else {
            None
        }
    }
    /// A text the code under test compares with.
    pub fn learned_text(&mut self) -> Option<&'static str> {
        let l = crate::learn::texts();
        if l.is_empty() {
            return None;
        }
        Some(&l[self.usize(l.len())])
    }
    /// A 16-bit value, biased to small values, to boundaries, and to what is compared with.
    pub fn u16(&mut self) -> u16 {
        match self.below(8) {
            0 | 1 => self.below(16) as u16,
            2 | 3 => self.below(256) as u16,
            4 if self.chance(500) => self.learned(1 << 16).unwrap_or(0x1234) as u16,
            4 => *self.pick(&[0u16, 1, 0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF]),
            _ => self.below(65536) as u16,
        }
    }
    pub fn u32(&mut self) -> u32 {
        match self.below(8) {
            0 | 1 => self.below(16) as u32,
            2 => self.below(65536) as u32,
            3 if self.chance(500) => self.learned(1 << 32).unwrap_or(0x1234_5678) as u32,
            3 => *self.pick(&[
                0u32, 1, 0x7F, 0x80, 0xFF, 0x7FFF, 0x8000, 0xFFFF, 0x1_0000, 0x7FFF_FFFF,
                0x8000_0000, 0xFFFF_FFFF, 0x7F80_0000, 0x7FC0_0001, 0x7F80_0001, 0xFF80_0000,
            ]),
            4 => (self.below(16) as u32).wrapping_neg(),
            _ => self.below(1 << 32) as u32,
        }
    }
    pub fn u64(&mut self) -> u64 {
        match self.below(6) {
            0 => self.below(16),
            1 if self.chance(500) => self.learned(u64::MAX).unwrap_or(0x1234_5678_9ABC_DEF0),
            1 => *self.pick(&[
                0u64, 1, 0x8000_0000_0000_0000, 0x7FF0_0000_0000_0000, 0x7FF8_0000_0000_0001,
                0x7FF0_0000_0000_0001, 0xFFF0_0000_0000_0000, 0xFFFF_FFFF_FFFF_FFFF, 0xFFFF_FFFF,
            ]),
            _ => (self.below(1 << 32) << 32) | self.below(1 << 32),
        }
    }
}
