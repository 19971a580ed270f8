use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// xorshift64*, the only source of randomness of the bounded checks
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Rng { let mut r = Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03); if r.0 == 0 { r.0 = 1 } for _ in 0..4 { r.next(); } r }
    pub fn next(&mut self) -> u64 { let mut x = self.0; x ^= x >> 12; x ^= x << 25; x ^= x >> 27; self.0 = x; x.wrapping_mul(0x2545F4914F6CDD1D) }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { ((self.next() >> 16) % n as u64) as usize } }
    pub fn flip(&mut self) -> bool { self.next() >> 33 & 1 == 1 }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.next() as u8).collect() }
    pub fn shuffle<T>(&mut self, v: &mut Vec<T>) { for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j) } }
    pub fn ident(&mut self) -> String { let n = 1 + self.below(8); (0..n).map(|_| *self.pick(&['a', 'b', 'c', 'z', 'A', 'Z', '0', '9', '-', '_'])).collect() }
    /// a text that the code under test mentions
    pub fn word(&mut self) -> String { self.pick(words()).clone() }
    /// any text, including the troublesome ones
    pub fn text(&mut self) -> String {
        if self.chance(1, 20) { return self.word() }
        let n = self.below(12);
        (0..n).map(|_| *self.pick(&['a', 'b', 'Z', '0', ' ', '.', '#', ':', '/', '?', '"', '\\', '\n', 'é', '✓', '😀', '\u{0}', '+', '=', '-', '_'])).collect()
    }
    /// an id that is not this one, but nearly
    pub fn near(&mut self, s: &str) -> String {
        let c: Vec<char> = s.chars().collect();
        match self.below(23) { 22 => { let w = self.word(); if w == s { format!("{}x", w) } else { w } }
            0 | 1 => format!("{}x", s), 2 => format!("{}0", s), 3 => c[..c.len().saturating_sub(1)].iter().collect(), 4 => match s.split_once('#') { Some((d, f)) => format!("{}#{}", d, f.to_uppercase()), None => s.to_uppercase() },
            5 => format!(" {}", s), 6 => format!("{} ", s), 7 => format!("{}#x", s), 8 => s.replacen('#', "#k", 1) + "k", 9 => s.replacen('#', "x#", 1) + "x", 10 => s.replacen('#', "/p#", 1) + "/", 11 => format!("{}?q", s),
            12 | 13 => { let t = *self.pick(&["/", ".", "#", ":", ";", "=", "%20", "é", "\u{feff}", "\u{a0}", "/.", "?", "&", ",", "-", "_"]); format!("{}{}", s, t) }
            14 => { let t = *self.pick(&["/", "x", "#", ":", "\u{feff}", "\u{a0}", "."]); format!("{}{}", t, s) }
            // the case of one letter
            15 | 16 => { let l: Vec<usize> = (0..c.len()).filter(|i| c[*i].is_ascii_alphabetic()).collect(); if l.is_empty() { return format!("{}a", s) } let i = *self.pick(&l); c.iter().enumerate().map(|(j, x)| if j == i { if x.is_ascii_lowercase() { x.to_ascii_uppercase() } else { x.to_ascii_lowercase() } } else { *x }).collect() }
            17 => { let u = s.to_lowercase(); if u == s { s.to_uppercase() } else { u } }
            // one letter less, or twice
            18 if !c.is_empty() => { let i = self.below(c.len()); c.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, x)| *x).collect() }
            19 if !c.is_empty() => { let i = self.below(c.len()); c.iter().enumerate().flat_map(|(j, x)| vec![*x; if j == i { 2 } else { 1 }]).collect() }
            20 => format!("{}{}", s, s), 21 => match s.split_once('#') { Some((d, f)) => format!("{}/#{}", d, f), None => format!("{}/", s) },
            _ => format!("{}y", s) } }
    /// printable text with no character JSON escapes
    pub fn plain(&mut self) -> String {
        if self.chance(1, 24) { return self.word() }
        let n = self.below(12);
        (0..n).map(|_| *self.pick(&['a', 'b', 'Z', '0', ' ', '.', '#', ':', '/', '?', 'é', '✓', '😀', '+', '=', '-', '_', '~'])).collect()
    }
}
/// the texts in the source of the code under test (see words_file in check.py)
pub fn words() -> &'static [String] {
    static W: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    W.get_or_init(|| { let v: Vec<String> = std::env::var("DIDCOMM_VERIF_WORDS").ok().and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default().lines().map(|l| l.to_string()).filter(|l| !l.is_empty()).collect(); if v.is_empty() { vec!["id".into(), "did".into()] } else { v } })
}
/// snake_case as camelCase
pub fn camel(s: &str) -> String { s.split('_').enumerate().map(|(i, w)| if i == 0 || w.is_empty() { w.to_string() } else { w[..1].to_uppercase() + &w[1..] }).collect() }

pub struct Ctx {
    pub prop: String, pub seed: u64, pub thorough: bool, pub only: Option<u64>,
    pub evaluations: u64, pub distinct: BTreeSet<u64>, pub samples: Vec<Value>, pub failures: Vec<Value>, pub known: Vec<Value>, pub rule: String, pub bound: String,
    case: u64,
}
pub fn hash(s: &str) -> u64 { let mut h = 0xcbf29ce484222325u64; for b in s.as_bytes() { h ^= *b as u64; h = h.wrapping_mul(0x100000001b3) } h }

thread_local! { static LAST: RefCell<String> = RefCell::new(String::new()); }
pub fn last() -> String { LAST.with(|l| l.borrow().clone()) }

impl Ctx {
    pub fn new(prop: &str, seed: u64, thorough: bool, only: Option<u64>) -> Ctx {
        std::panic::set_hook(Box::new(|i| { LAST.with(|l| *l.borrow_mut() = format!("{}", i)) }));
        Ctx { prop: prop.into(), seed, thorough, only, evaluations: 0, distinct: BTreeSet::new(), samples: vec![], failures: vec![], known: vec![], rule: String::new(), bound: String::new(), case: 0 }
    }
    pub fn n(&self, quick: u64) -> u64 { if self.thorough { quick * 20 } else { quick } }
    /// One case. `input` describes it completely; `f` returns Err(what went wrong).
    /// A panic of the code under test is a failure as well.
    pub fn case<F: FnOnce() -> Result<(), String>>(&mut self, label: &str, input: Value, nontrivial: bool, f: F) {
        let k = self.case; self.case += 1;
        if let Some(o) = self.only { if o != k { return } }
        self.evaluations += 1;
        let text = format!("{}|{}", label, input);
        if nontrivial { self.distinct.insert(hash(&text)); }
        if self.samples.len() < 4 && (k % 7 == 3 || self.samples.is_empty()) { self.samples.push(json!({"case": k, "label": label, "input": input.clone()})) }
        let r = match catch_unwind(AssertUnwindSafe(f)) { Ok(r) => r, Err(_) => Err(format!("panic: {}", LAST.with(|l| l.borrow().clone()))) };
        if let Err(msg) = r {
            if self.failures.len() < 20 { self.failures.push(json!({"case": k, "label": label, "input": input, "what": msg})) }
        }
    }
    pub fn write(&self, out: &str) {
        let v = json!({"property": self.prop, "seed": self.seed, "thorough": self.thorough, "evaluations": self.evaluations, "distinct_nontrivial": self.distinct.len(),
            "rule": self.rule, "bound": self.bound, "samples": self.samples, "failures": self.failures});
        std::fs::write(out, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    }
}
/// runs a future that never waits on anything external
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    use std::task::*;
    fn noop(_: *const ()) {} fn cl(_: *const ()) -> RawWaker { RawWaker::new(std::ptr::null(), &VT) }
    static VT: RawWakerVTable = RawWakerVTable::new(cl, noop, noop, noop);
    let w = unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) };
    let mut cx = Context::from_waker(&w);
    let mut f = Box::pin(f);
    loop { if let Poll::Ready(r) = f.as_mut().poll(&mut cx) { return r } }
}
pub fn b64(b: &[u8]) -> String { base64::encode_config(b, base64::URL_SAFE_NO_PAD) }
pub fn sha256(b: &[u8]) -> Vec<u8> { use sha2::{Digest, Sha256}; Sha256::digest(b).to_vec() }
/// any JSON value without floating point numbers
pub fn any_json(r: &mut Rng, depth: usize) -> Value {
    match r.below(if depth == 0 { 5 } else { 7 }) {
        0 => Value::Null, 1 => json!(r.flip()), 2 => json!(r.next()), 3 => json!(r.text()), 4 => json!(-(r.below(1000) as i64)),
        5 => Value::Array((0..r.below(4)).map(|_| any_json(r, depth - 1)).collect()),
        _ => Value::Object((0..r.below(4)).map(|_| (r.text(), any_json(r, depth - 1))).collect()),
    }
}
