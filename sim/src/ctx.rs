//! What a simulated run reports: its event log, what struck, what was evaluated.

use crate::src::mix;
use std::collections::BTreeMap;

#[derive(Debug, Clone)]
pub struct Bad {
    /// what stays the same while a failing run is minimised
    pub class: String,
    pub msg: String,
}
pub type Res = Result<(), Bad>;

pub fn bad<T>(class: &str, msg: String) -> Result<T, Bad> {
    Err(Bad { class: class.to_string(), msg })
}

pub struct Ctx {
    pub record: bool,
    pub log: Vec<String>,
    pub hash: u64,
    pub now: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub evals: u64,
    /// hashes of the distinct non-trivial cases
    pub cases: Vec<u64>,
    /// hashes of the distinct states
    pub states: Vec<u64>,
    pub sample: Option<String>,
    pub thorough: bool,
    pub max: BTreeMap<&'static str, u64>,
    pub image: Option<Vec<u8>>,
    pub scratch: String,
}

impl Ctx {
    pub fn new(record: bool, thorough: bool) -> Ctx {
        Ctx {
            record,
            log: Vec::new(),
            hash: 0,
            now: 0,
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            evals: 0,
            cases: Vec::new(),
            states: Vec::new(),
            sample: None,
            thorough,
            max: BTreeMap::new(),
            image: None,
            scratch: String::new(),
        }
    }
    /// Notes an event of the run.
    pub fn ev(&mut self, what: &'static str, nums: &[u64]) {
        let mut h = mix(self.hash, crate::src::hash_bytes(what.as_bytes()));
        h = mix(h, self.now);
        for n in nums {
            h = mix(h, *n);
        }
        self.hash = h;
        if self.record {
            let mut s = format!("t={}us {}", self.now, what);
            for n in nums {
                s.push_str(&format!(" {}", n));
            }
            self.log.push(s);
        }
    }
    pub fn fault(&mut self, what: &'static str) {
        *self.faults.entry(what).or_insert(0) += 1;
    }
    pub fn probe(&mut self, what: &'static str) {
        *self.probes.entry(what).or_insert(0) += 1;
    }
    pub fn maximum(&mut self, what: &'static str, v: u64) {
        let e = self.max.entry(what).or_insert(0);
        *e = (*e).max(v);
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}
pub fn unhex(s: &str) -> Option<String> {
    let b: Option<Vec<u8>> = (0..s.len() / 2).map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect();
    String::from_utf8(b?).ok()
}
