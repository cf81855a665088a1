//! What the code under test compares with: the constants of its comparisons, and its texts.
//!
//! Before the search, a few runs are made in which the compiler's calls at comparisons (in the crate under
//! test) and at the comparisons of byte strings are recorded. What is found is a dictionary the writers of the
//! simulated system draw from, so that what depends on one value is met. It guides the search only;
//! it is part of a replay file, so that a replay does not depend on what would be learned then.

use std::sync::atomic::{AtomicPtr, AtomicU64, AtomicUsize, Ordering::*};

const NUMS: usize = 1 << 14;
const TEXTS: usize = 1 << 12;
pub const LONGEST: usize = 40;

#[repr(C)]
pub struct Board {
    nums: [AtomicU64; NUMS],
    keys: [AtomicU64; TEXTS],
    texts: [[u8; LONGEST + 8]; TEXTS],
}
pub const SIZE: usize = std::mem::size_of::<Board>();
static BOARD: AtomicUsize = AtomicUsize::new(0);

/// From now on (until 0) comparisons are recorded at this address, shared by processes.
pub fn record_at(p: usize) {
    BOARD.store(p, SeqCst);
}
#[inline]
pub fn recording() -> bool {
    BOARD.load(Relaxed) != 0
}

#[cold]
pub fn number(v: u64) {
    let b = unsafe { &*(BOARD.load(Relaxed) as *const Board) };
    let key = v.wrapping_add(1);
    if v < 16 || key == 0 {
        return;
    }
    let mut h = crate::src::mix(v, 3) as usize;
    for _ in 0..64 {
        match b.nums[h % NUMS].compare_exchange(0, key, Relaxed, Relaxed) {
            Ok(_) => return,
            Err(k) if k == key => return,
            _ => h = h.wrapping_add(1),
        }
    }
}

extern "C" {
    static __executable_start: u8;
    static _end: u8;
}

/// Two byte strings are compared: if one is part of the program, it is worth knowing.
#[cold]
pub unsafe fn bytes(a: *const u8, n: usize) {
    let at = a as usize;
    if n < 2 || n > LONGEST || at < &__executable_start as *const u8 as usize || at >= &_end as *const u8 as usize {
        return;
    }
    let b = BOARD.load(Relaxed) as *mut Board;
    let s = std::slice::from_raw_parts(a, n);
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in s {
        h = (h ^ u64::from(*x)).wrapping_mul(0x100_0000_01b3);
    }
    let key = h | 1;
    let mut i = h as usize >> 8;
    for _ in 0..64 {
        let k = i % TEXTS;
        match (&(*b).keys)[k].compare_exchange(0, key, Relaxed, Relaxed) {
            Ok(_) => {
                let t = &mut (&mut (*b).texts)[k];
                for (to, from) in t[1..].iter_mut().zip(s) {
                    *to = *from;
                }
                t[0] = n as u8;
                return;
            }
            Err(x) if x == key => return,
            _ => i = i.wrapping_add(1),
        }
    }
}

#[derive(Default)]
pub struct Learned {
    pub nums: Vec<u64>,
    pub texts: Vec<String>,
}
static LEARNED: AtomicPtr<Learned> = AtomicPtr::new(std::ptr::null_mut());

/// Only while there is one thread.
pub fn set(l: Learned) {
    LEARNED.store(Box::into_raw(Box::new(l)), SeqCst);
}
pub fn get() -> Option<&'static Learned> {
    unsafe { LEARNED.load(Relaxed).as_ref() }
}
pub fn nums() -> &'static [u64] {
    get().map_or(&[], |l| &l.nums)
}
pub fn texts() -> &'static [String] {
    get().map_or(&[], |l| &l.texts)
}

/// What is on the board, in an order that does not depend on who wrote first.
pub fn read(p: usize) -> Learned {
    let b = unsafe { &*(p as *const Board) };
    let mut nums: Vec<u64> = b.nums.iter().map(|x| x.load(SeqCst)).filter(|x| *x != 0).map(|x| x.wrapping_sub(1)).collect();
    // sizes and tags of the compiler's own making are not worth trying
    nums.retain(|v| *v < 1 << 62 || *v > u64::MAX - (1 << 33));
    nums.sort();
    let mut texts: Vec<String> = b.texts.iter().filter(|t| t[0] > 0)
        .filter_map(|t| String::from_utf8(t[1..=usize::from(t[0])].to_vec()).ok()).collect();
    // short texts may be compared with as numbers
    for v in &nums {
        let c = v.to_le_bytes();
        let n = 8 - v.leading_zeros() as usize / 8;
        if n >= 2 && c[..n].iter().all(|b| (0x21..0x7F).contains(b)) {
            texts.push(c[..n].iter().map(|b| char::from(*b)).collect());
        }
    }
    texts.sort();
    texts.dedup();
    Learned { nums, texts }
}
