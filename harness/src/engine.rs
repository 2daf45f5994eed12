//! A small property-based testing engine in the style of Hypothesis.
//!
//! A check body draws bounded integers from a `Src`; the sequence of drawn
//! integers (the *tape*) is the case.  Random cases are produced from
//! hash(seed, property, sub, index); a failing tape is shrunk by deleting and
//! minimising its entries and becomes the replay file.

use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::{self, Debug, Write as _};

// ---------------------------------------------------------------- allocator
/// Counts the bytes each thread requests, so that "allocates in proportion to
/// the input" is checkable.
pub struct CountingAlloc;
thread_local! { static ALLOCATED: Cell<u64> = const { Cell::new(0) }; }
unsafe impl std::alloc::GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let _ = ALLOCATED.try_with(|c| c.set(c.get().wrapping_add(l.size() as u64)));
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        let _ = ALLOCATED.try_with(|c| c.set(c.get().wrapping_add(n as u64)));
        std::alloc::System.realloc(p, l, n)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        let _ = ALLOCATED.try_with(|c| c.set(c.get().wrapping_add(l.size() as u64)));
        std::alloc::System.alloc_zeroed(l)
    }
}
pub fn allocated() -> u64 {
    ALLOCATED.with(|c| c.get())
}

// ---------------------------------------------------------------- rng
pub fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = Fnv::new();
    h.add(s.as_bytes());
    h.0
}
pub struct Fnv(pub u64);
impl Fnv {
    pub fn new() -> Fnv {
        Fnv(0xcbf2_9ce4_8422_2325)
    }
    pub fn add(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x0000_0100_0000_01B3);
        }
    }
}
impl fmt::Write for Fnv {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.add(s.as_bytes());
        Ok(())
    }
}

// ---------------------------------------------------------------- dictionary
/// Integer and string literals of the code under test (a fuzzing dictionary:
/// generators draw from it now and then, so that behaviour special to a
/// constant in the code is reached).  Checks do not depend on its content.
pub fn dict() -> &'static (Vec<u64>, Vec<Vec<u8>>) {
    static D: std::sync::OnceLock<(Vec<u64>, Vec<Vec<u8>>)> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut files = Vec::new();
        let mut dirs = vec![std::path::PathBuf::from("/repo/src")];
        while let Some(d) = dirs.pop() {
            for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
                let p = e.path();
                if p.is_dir() {
                    dirs.push(p);
                } else if p.extension().is_some_and(|x| x == "rs") {
                    files.push(p);
                }
            }
        }
        files.sort();
        let mut ints = std::collections::BTreeSet::new();
        let mut strs = std::collections::BTreeSet::new();
        for f in files {
            literals(&std::fs::read(&f).unwrap_or_default(), &mut ints, &mut strs);
        }
        (ints.into_iter().collect(), strs.into_iter().collect())
    })
}

fn literals(t: &[u8], ints: &mut std::collections::BTreeSet<u64>, strs: &mut std::collections::BTreeSet<Vec<u8>>) {
    let word = |b: u8| b.is_ascii_alphanumeric() || b == b'_';
    let mut i = 0;
    while i < t.len() {
        let c = t[i];
        if t[i..].starts_with(b"//") {
            while i < t.len() && t[i] != b'\n' {
                i += 1;
            }
        } else if c == b'"' {
            let mut s = Vec::new();
            i += 1;
            while i < t.len() && t[i] != b'"' {
                if t[i] == b'\\' && i + 1 < t.len() {
                    i += 1;
                    let e = match t[i] {
                        b'n' => b'\n',
                        b'r' => b'\r',
                        b't' => b'\t',
                        b'0' => 0,
                        b'x' if i + 2 < t.len() => {
                            let h = std::str::from_utf8(&t[i + 1..i + 3]).ok().and_then(|h| u8::from_str_radix(h, 16).ok());
                            i += 2;
                            h.unwrap_or(b'?')
                        }
                        b => b,
                    };
                    s.push(e);
                } else {
                    s.push(t[i]);
                }
                i += 1;
            }
            i += 1;
            if !s.is_empty() && s.len() <= 64 {
                strs.insert(s);
            }
        } else if c == b'\'' && i + 2 < t.len() && t[i + 1] != b'\\' && t[i + 2] == b'\'' {
            strs.insert(vec![t[i + 1]]);
            ints.insert(t[i + 1] as u64);
            i += 3;
        } else if c == b'\'' && i + 3 < t.len() && t[i + 1] == b'\\' && t[i + 3] == b'\'' {
            i += 4;
        } else if word(c) {
            let st = i;
            while i < t.len() && word(t[i]) {
                i += 1;
            }
            if c.is_ascii_digit() {
                let w: String = t[st..i].iter().filter(|b| **b != b'_').map(|b| *b as char).collect();
                let w = w.to_ascii_lowercase();
                let (radix, d) = match w.get(..2) {
                    Some("0x") => (16, &w[2..]),
                    Some("0b") => (2, &w[2..]),
                    Some("0o") => (8, &w[2..]),
                    _ => (10, &w[..]),
                };
                let d = if radix == 16 { d } else { d.split(['u', 'i', 'f']).next().unwrap_or("") };
                if let Ok(v) = u64::from_str_radix(d, radix) {
                    ints.insert(v);
                }
            }
        } else {
            i += 1;
        }
    }
}

// ---------------------------------------------------------------- choices
enum Mode {
    Random(u64),
    Replay(Vec<u64>),
}

pub struct Src {
    mode: Mode,
    pub tape: Vec<u64>,
    pub index: u64,
    large: Option<usize>,
}

impl Src {
    pub fn random(seed: u64, index: u64) -> Src {
        Src { mode: Mode::Random(seed), tape: Vec::new(), index, large: None }
    }
    pub fn replay(tape: Vec<u64>, index: u64) -> Src {
        Src { mode: Mode::Replay(tape), tape: Vec::new(), index, large: None }
    }
    /// A value in `0..=max`; 0 is the simplest.
    pub fn upto(&mut self, max: u64) -> u64 {
        let v = match &mut self.mode {
            Mode::Random(s) => {
                *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
                let z = mix(*s);
                if max == u64::MAX {
                    z
                } else {
                    ((z as u128 * (max as u128 + 1)) >> 64) as u64
                }
            }
            Mode::Replay(t) => t.get(self.tape.len()).copied().unwrap_or(0).min(max),
        };
        self.tape.push(v);
        v
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.upto(hi - lo)
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.upto(n as u64 - 1) as usize
    }
    /// An index below `n`, with 2^k and its neighbours over-represented.
    pub fn place(&mut self, n: usize) -> usize {
        if self.chance(1, 3) {
            return self.scaled(32).min(n as u64 - 1) as usize;
        }
        self.below(n)
    }
    pub fn bool(&mut self) -> bool {
        self.upto(1) == 1
    }
    /// True with probability p/q; the simplest outcome is false.
    pub fn chance(&mut self, p: u64, q: u64) -> bool {
        self.upto(q - 1) >= q - p
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    pub fn byte(&mut self) -> u8 {
        self.upto(255) as u8
    }
    /// A size in 0..=max, biased towards small values but reaching max.
    pub fn size(&mut self, max: usize) -> usize {
        let max = max as u64;
        let v = match self.upto(31) {
            0..=11 => self.upto(max.min(4)),
            12..=20 => self.upto(max.min(16)),
            21..=27 => self.upto(max.min(64)),
            28 => self.literal(max),
            29 => {
                let bits = 64 - max.leading_zeros();
                self.scaled(bits).min(max)
            }
            _ => self.upto(max),
        };
        v as usize
    }
    /// An integer in `0..=max` that is, or is next to, an integer literal of
    /// the code under test.  The value itself goes on the tape, so a replay
    /// does not depend on the dictionary.
    pub fn literal(&mut self, max: u64) -> u64 {
        if let Mode::Random(s) = &mut self.mode {
            *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let z = mix(*s);
            let d = &dict().0;
            let n = d.partition_point(|v| *v <= max);
            if n > 0 {
                let v = d[(z % n as u64) as usize];
                let v = match (z >> 32) % 4 {
                    0 => v.saturating_add(1).min(max),
                    1 => v.saturating_sub(1),
                    _ => v,
                };
                self.tape.push(v);
                return v;
            }
        }
        self.upto(max)
    }
    /// A byte string of at most `max` bytes satisfying `ok`, taken from the
    /// string literals of the code under test.
    pub fn literal_bytes(&mut self, max: usize, ok: fn(u8) -> bool) -> Vec<u8> {
        if let Mode::Random(s) = &mut self.mode {
            *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let z = mix(*s);
            let d = &dict().1;
            if !d.is_empty() {
                let v: Vec<u8> =
                    d[(z % d.len() as u64) as usize].iter().copied().filter(|b| ok(*b)).take(max).collect();
                self.tape.push(v.len() as u64);
                self.tape.extend(v.iter().map(|b| *b as u64));
                return v;
            }
        }
        let n = self.upto(max as u64);
        (0..n).map(|_| self.byte()).filter(|b| ok(*b)).collect()
    }
    /// An integer of at most `bits` bits with a uniformly drawn magnitude, and
    /// with boundary values (2^k, 2^k - 1) over-represented.
    pub fn scaled(&mut self, bits: u32) -> u64 {
        let k = self.upto(bits as u64) as u32;
        let top = if k == 64 { u64::MAX } else { (1u64 << k) - 1 };
        let max = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
        match self.upto(11) {
            0 | 1 => top,
            2 | 3 => top.saturating_add(1).min(max),
            4 => top.saturating_add(2).min(max),
            5 => self.literal(max),
            _ => self.upto(top),
        }
    }
    /// 0 in most cases; one time in `one_in` a magnitude of up to `bits` bits
    /// (for the dimensions that are small in nearly every case: counts of
    /// headers, settings or fragments, lengths of names and values).
    pub fn stretch(&mut self, one_in: u64, bits: u32) -> usize {
        if self.chance(1, one_in) {
            self.scaled(bits) as usize
        } else {
            0
        }
    }
    /// Chooses one large size of up to `bits` bits for this case; it is used by
    /// the first of the places that ask for one with `large` and draw it.
    pub fn arm(&mut self, bits: u32) {
        let k = self.range(8, bits as u64);
        let n = match self.upto(3) {
            0 => 1u64 << k,
            1 => (1u64 << k) - 1,
            2 => (1u64 << k) + 1 + self.upto(8),
            _ => (1u64 << (k - 1)) + self.upto(1 << (k - 1)),
        };
        self.large = Some(n as usize);
    }
    /// The large size of this case (at most `cap`), once.
    pub fn large(&mut self, cap: usize) -> Option<usize> {
        if self.large.is_some() && self.chance(2, 3) {
            return self.large.take().map(|n| n.min(cap));
        }
        None
    }
    pub fn more(&mut self, n: usize, max: usize, avg: u64) -> bool {
        n < max && self.chance(avg, avg + 1)
    }
    /// A list of at most `max` elements, about `avg` on average.
    pub fn list<T>(&mut self, max: usize, avg: u64, mut f: impl FnMut(&mut Src) -> T) -> Vec<T> {
        let mut out = Vec::new();
        while self.more(out.len(), max, avg) {
            out.push(f(self));
        }
        out
    }
    /// Arbitrary bytes.
    pub fn bytes(&mut self, max: usize) -> Vec<u8> {
        if self.chance(1, 24) {
            return self.literal_bytes(max, |_| true);
        }
        let n = self.size(max);
        (0..n).map(|_| self.byte()).collect()
    }
    /// `n` bytes from two draws (for long payloads).
    pub fn bulk(&mut self, n: usize) -> Vec<u8> {
        let seed = self.upto(1 << 20);
        let mut s = seed;
        // one in sixteen repeats a short block, as records do
        let period = if seed % 16 == 9 { 1 + (seed / 16 % 64) as usize } else { usize::MAX };
        let mut block: Vec<u8> = Vec::new();
        (0..n)
            .map(|i| {
                if seed == 0 {
                    (i % 251) as u8
                } else if i >= period {
                    block[i % period]
                } else if period < usize::MAX {
                    s = mix(s);
                    block.push(s as u8);
                    s as u8
                } else {
                    s = mix(s);
                    s as u8
                }
            })
            .collect()
    }
    /// `n` bytes of an alphabet from two draws.
    pub fn bulk_of(&mut self, n: usize, alphabet: &[u8]) -> Vec<u8> {
        self.bulk(n).into_iter().map(|b| alphabet[b as usize % alphabet.len()]).collect()
    }
    /// Bytes of a length up to `max`, individually drawn when short.
    pub fn payload(&mut self, max: usize) -> Vec<u8> {
        let n = self.size(max);
        let mut v = if n <= 32 { (0..n).map(|_| self.byte()).collect() } else { self.bulk(n) };
        if n > 0 && self.chance(1, 10) {
            // one octet over and over at either end, as in records of a fixed length
            let fill = *self.pick(&[0u8, 0xff, b' ', b'0']);
            let run = 1 + self.below(n);
            let at = if self.chance(1, 3) { 0 } else { n - run };
            v[at..at + run].fill(fill);
        }
        v
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = i - self.below(i + 1);
            v.swap(i, j);
        }
    }
}

// ---------------------------------------------------------------- context
#[derive(Default)]
pub struct Ctx {
    pub render: Option<String>,
    hash: Option<Fnv>,
    pub nontrivial: bool,
    pub classes: BTreeMap<&'static str, u64>,
    pub known: BTreeMap<&'static str, String>,
}

pub fn show(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, c) in b.iter().enumerate() {
        if i >= 400 {
            let _ = write!(s, "...({} bytes)", b.len());
            break;
        }
        match c {
            b'\\' => s.push_str("\\\\"),
            b'\r' => s.push_str("\\r"),
            b'\n' => s.push_str("\\n"),
            0x20..=0x7e => s.push(*c as char),
            _ => {
                let _ = write!(s, "\\x{:02x}", c);
            }
        }
    }
    s
}

impl Ctx {
    pub fn start(&mut self, render: bool) {
        self.render = if render { Some(String::new()) } else { None };
        self.hash = Some(Fnv::new());
        self.nontrivial = false;
    }
    pub fn hash(&self) -> u64 {
        self.hash.as_ref().map(|h| h.0).unwrap_or(0)
    }
    /// Records part of the case: counted for distinctness, shown in samples
    /// and replays.
    pub fn input(&mut self, name: &str, v: &dyn Debug) {
        if let Some(h) = &mut self.hash {
            h.add(name.as_bytes());
            let _ = write!(h, "{:?}", v);
        }
        if let Some(r) = &mut self.render {
            let mut t = format!("{:?}", v);
            if t.len() > 2000 {
                let mut n = 2000;
                while !t.is_char_boundary(n) {
                    n -= 1;
                }
                t.truncate(n);
                t.push_str("...");
            }
            let _ = write!(r, "{}={}; ", name, t);
        }
    }
    pub fn bytes(&mut self, name: &str, v: &[u8]) {
        if let Some(h) = &mut self.hash {
            h.add(name.as_bytes());
            h.add(v);
        }
        if let Some(r) = &mut self.render {
            let _ = write!(r, "{}=\"{}\"; ", name, show(v));
        }
    }
    pub fn class(&mut self, c: &'static str) {
        *self.classes.entry(c).or_insert(0) += 1;
    }
    pub fn class_if(&mut self, b: bool, c: &'static str) {
        if b {
            self.class(c)
        }
    }
    pub fn nontrivial(&mut self, b: bool) {
        self.nontrivial |= b;
    }
    pub fn known(&mut self, id: &'static str, what: String) {
        self.known.entry(id).or_insert(what);
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}
#[macro_export]
macro_rules! same {
    ($what:expr, $got:expr, $want:expr) => {{
        match (&$got, &$want) {
            (g, w) => {
                if !(*g == *w) {
                    return Err(format!("{}: got {:?}, expected {:?}", $what, g, w));
                }
            }
        }
    }};
}

pub type R = Result<(), String>;
pub type CaseFn = fn(&mut Src, &mut Ctx) -> R;
#[derive(Clone, Copy)]
pub enum Kind {
    /// All indices 0..n (`src.index`), each once.
    Every(u64),
    /// This many random cases (per round; the thorough tier runs many rounds).
    Random(u64),
}
#[derive(Clone, Copy)]
pub struct Sub {
    pub name: &'static str,
    pub kind: Kind,
    pub f: CaseFn,
}
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}
pub fn sub(name: &'static str, kind: Kind, f: CaseFn) -> Sub {
    Sub { name, kind, f }
}

// ---------------------------------------------------------------- running one case
thread_local! {
    pub static PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC.try_with(|p| *p.borrow_mut() = Some(format!("panic at {}: {}", loc, msg)));
    }));
}

pub fn run_case(f: CaseFn, src: &mut Src, ctx: &mut Ctx) -> R {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(src, ctx)));
    match r {
        Ok(r) => r,
        Err(_) => Err(PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".to_string())),
    }
}

pub fn case_seed(seed: u64, prop: &str, sub: &str, index: u64) -> u64 {
    mix(mix(mix(seed) ^ hash_str(prop)) ^ hash_str(sub)).wrapping_add(mix(index.wrapping_mul(0xD134_2543_DE82_EF95)))
}

/// Shrinks a failing tape (shortlex order); returns the smallest tape found
/// and its failure message.
pub fn shrink(f: CaseFn, index: u64, tape: Vec<u64>, msg: String) -> (Vec<u64>, String) {
    let t0 = std::time::Instant::now();
    let mut evals = 0u32;
    let mut best = tape;
    let mut best_msg = msg;
    let mut ctx = Ctx::default();
    let mut attempt = |cand: &[u64], best: &mut Vec<u64>, best_msg: &mut String| -> bool {
        if evals > 6000 || t0.elapsed().as_secs() > 20 {
            return false;
        }
        evals += 1;
        let mut src = Src::replay(cand.to_vec(), index);
        ctx.start(false);
        if let Err(m) = run_case(f, &mut src, &mut ctx) {
            let used = src.tape;
            if used.len() < best.len() || (used.len() == best.len() && used < *best) {
                *best = used;
                *best_msg = m;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // delete blocks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i + size <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + size);
                if !attempt(&c, &mut best, &mut best_msg) {
                    // a length drawn just before may have to shrink with it
                    let mut hit = false;
                    if size <= 8 {
                        for back in 1..=2usize {
                            if i >= back && best[i - back] > 0 {
                                let mut c = best.clone();
                                c[i - back] -= 1;
                                c.drain(i..i + size);
                                if attempt(&c, &mut best, &mut best_msg) {
                                    hit = true;
                                    break;
                                }
                            }
                        }
                    }
                    if !hit {
                        i += 1.max(size / 4);
                    }
                }
            }
            size /= 2;
        }
        // minimise values
        let mut i = 0;
        while i < best.len() {
            if best[i] != 0 {
                let mut c = best.clone();
                c[i] = 0;
                if !attempt(&c, &mut best, &mut best_msg) {
                    let (mut lo, mut hi) = (0u64, best[i]);
                    while lo + 1 < hi && i < best.len() {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        c[i] = mid;
                        if attempt(&c, &mut best, &mut best_msg) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                    if i < best.len() && best[i] > 0 {
                        let mut c = best.clone();
                        c[i] -= 1;
                        attempt(&c, &mut best, &mut best_msg);
                    }
                }
            }
            i += 1;
        }
        if best == before {
            return (best, best_msg);
        }
    }
}

pub struct Stats {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub classes: BTreeMap<&'static str, u64>,
    pub known: BTreeMap<&'static str, String>,
    pub samples: Vec<String>,
    pub per_sub: Vec<(String, u64, bool)>,
}
