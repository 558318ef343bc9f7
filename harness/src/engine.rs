//! Choice-sequence property-testing engine: random generation, recording, replay, shrinking,
//! crash journalling and evidence.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

// ---------------------------------------------------------------- source of choices

pub struct Src {
    rng: u64,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut s = 0x1234_5678_9abc_def0u64;
    for p in parts {
        s ^= *p;
        let _ = splitmix(&mut s);
        s = splitmix(&mut s);
    }
    s
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    let mut h2 = h;
    splitmix(&mut h2)
}

impl Src {
    pub fn random(seed: u64) -> Src { Src { rng: seed, replay: None, pos: 0, rec: vec![] } }
    pub fn replay(ch: Vec<u64>) -> Src { Src { rng: 0, replay: Some(ch), pos: 0, rec: vec![] } }

    /// Uniform value in `0..n`; `n == 0` stands for the complete 64-bit range.
    pub fn below(&mut self, n: u64) -> u64 {
        let v = match &self.replay {
            Some(r) => {
                let c = r.get(self.pos).copied().unwrap_or(0);
                if n == 0 { c } else { c.min(n - 1) }
            }
            None => {
                let r = splitmix(&mut self.rng);
                if n == 0 { r } else { r % n }
            }
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
    pub fn u64(&mut self) -> u64 { self.below(0) }
    pub fn u128(&mut self) -> u128 { (self.u64() as u128) << 64 | self.u64() as u128 }
    pub fn byte(&mut self) -> u8 { self.below(256) as u8 }
    pub fn bool(&mut self) -> bool { self.below(2) == 1 }
    /// true with probability num/den; the simplest choice is `false`
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) >= den - num }
    /// inclusive
    pub fn range(&mut self, a: u64, b: u64) -> u64 { a + self.below(b - a + 1) }
    pub fn usize(&mut self, a: usize, b: usize) -> usize { self.range(a as u64, b as u64) as usize }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T { &s[self.below(s.len() as u64) as usize] }
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut x = self.below(total);
        for (i, v) in w.iter().enumerate() {
            if x < *v {
                return i;
            }
            x -= v;
        }
        unreachable!()
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.byte()).collect() }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        // the all-zero choice is the identity
        for i in 0..v.len().saturating_sub(1) {
            let j = i + self.below((v.len() - i) as u64) as usize;
            v.swap(i, j);
        }
    }
}

// ---------------------------------------------------------------- properties

#[derive(Clone, Debug)]
pub struct Fail {
    pub msg: String,
}

pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err($crate::engine::Fail { msg: format!($($t)*) }) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err($crate::engine::Fail { msg: format!($($t)*) }) } };
}

#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub fp: Option<u64>,
    pub classes: BTreeMap<String, u64>,
    pub sample: Option<String>,
    pub want_sample: bool,
    pub verbose: bool,
    /// extra counted executions inside the case
    pub inner: u64,
}

impl Ctx {
    pub fn class(&mut self, c: &str) { *self.classes.entry(c.to_string()).or_default() += 1; }
    pub fn class_if(&mut self, c: &str, b: bool) {
        if b {
            self.class(c)
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample || self.verbose {
            let s = f();
            if self.verbose {
                eprintln!("case: {s}");
            }
            let mut s2: String = s.chars().take(600).collect();
            if s2.len() < s.len() {
                s2.push_str("...");
            }
            self.sample = Some(s2);
        }
    }
    pub fn fingerprint(&mut self, b: &[u8]) { self.fp = Some(hash_bytes(b)); }
}

#[derive(Clone, Copy)]
pub struct Sub {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Src, &mut Ctx) -> Res,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub subs: &'static [Sub],
    /// reproductions of recorded findings: (name in known_findings, reproduces?)
    pub known: &'static [(&'static str, fn() -> bool)],
    pub assumptions: &'static [&'static str],
}

// ---------------------------------------------------------------- panic capture

thread_local! {
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
    static CAPTURE: Cell<bool> = const { Cell::new(false) };
}

pub fn install_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if CAPTURE.with(|c| c.get()) {
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "<non-string panic>".into());
            let msg: String = msg.chars().take(2000).collect();
            PANIC_MSG.with(|p| *p.borrow_mut() = format!("panic at {loc}: {msg}"));
        } else {
            default(info)
        }
    }));
}

/// Runs `f`, converting a panic into `Err(message)`.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let old = CAPTURE.with(|c| c.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    CAPTURE.with(|c| c.set(old));
    r.map_err(|_| PANIC_MSG.with(|p| p.borrow().clone()))
}

pub fn run_case(sub: &Sub, src: &mut Src, ctx: &mut Ctx) -> Res {
    crate::alloc::reset();
    match guarded(|| (sub.run)(src, ctx)) {
        Ok(r) => r,
        Err(p) => Err(Fail { msg: p }),
    }
}

// ---------------------------------------------------------------- shrinking

pub fn shrink(sub: &Sub, start: Vec<u64>, budget: usize) -> (Vec<u64>, Fail) {
    let mut left = budget;
    let try_it = |c: &[u64]| -> Option<(Vec<u64>, Fail)> {
        let mut src = Src::replay(c.to_vec());
        let mut ctx = Ctx::default();
        match run_case(sub, &mut src, &mut ctx) {
            Ok(()) => None,
            Err(f) => {
                let mut rec = src.rec;
                while rec.last() == Some(&0) {
                    rec.pop();
                }
                Some((rec, f))
            }
        }
    };
    let deadline = std::time::Instant::now() + std::time::Duration::from_secs(40);
    let Some((mut cur, mut fail)) = try_it(&start) else {
        return (start, Fail { msg: "failure did not reproduce while shrinking".into() });
    };
    let better = |a: &[u64], b: &[u64]| {
        a.len() < b.len() || (a.len() == b.len() && a.iter().cmp(b.iter()) == std::cmp::Ordering::Less)
    };
    loop {
        let mut improved = false;
        let mut size = (cur.len() / 2).max(1);
        // delete blocks, then zero blocks
        while size >= 1 {
            let mut i = 0;
            while i < cur.len() {
                if left == 0 || std::time::Instant::now() > deadline {
                    return (cur, fail);
                }
                let mut c = cur.clone();
                let end = (i + size).min(c.len());
                c.drain(i..end);
                left -= 1;
                if let Some((n, f)) = try_it(&c) {
                    if better(&n, &cur) {
                        cur = n;
                        fail = f;
                        improved = true;
                        continue;
                    }
                }
                if left == 0 {
                    return (cur, fail);
                }
                if i < cur.len() && cur[i..end.min(cur.len())].iter().any(|x| *x != 0) {
                    let mut c = cur.clone();
                    let e = end.min(c.len());
                    c[i..e].iter_mut().for_each(|x| *x = 0);
                    left -= 1;
                    if let Some((n, f)) = try_it(&c) {
                        if better(&n, &cur) {
                            cur = n;
                            fail = f;
                            improved = true;
                        }
                    }
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // lower individual values
        let mut i = 0;
        while i < cur.len() {
            let (mut lo, mut hi) = (0u64, cur[i]);
            let mut steps = 0;
            while lo < hi && steps < 12 {
                if left == 0 || std::time::Instant::now() > deadline {
                    return (cur, fail);
                }
                let mid = if steps == 0 { hi - 1 } else { lo + (hi - lo) / 2 };
                let mut c = cur.clone();
                if i >= c.len() {
                    break;
                }
                c[i] = mid;
                left -= 1;
                steps += 1;
                match try_it(&c) {
                    Some((n, f)) if better(&n, &cur) => {
                        cur = n;
                        fail = f;
                        improved = true;
                        hi = mid;
                    }
                    _ => {
                        if steps == 1 {
                            break;
                        }
                        lo = mid + 1;
                    }
                }
            }
            i += 1;
        }
        if !improved {
            return (cur, fail);
        }
    }
}

// ---------------------------------------------------------------- running one sub-property

pub struct Outcome {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub failure: Option<(u64, Vec<u64>, Fail)>,
}

pub fn case_seed(seed: u64, prop: &str, sub: &str, idx: u64) -> u64 {
    mix(&[seed, hash_bytes(prop.as_bytes()), hash_bytes(sub.as_bytes()), idx])
}

/// A journal tells the supervisor which cases were in flight when the process died.
pub struct Journal {
    ptr: *mut u64,
}
unsafe impl Sync for Journal {}
unsafe impl Send for Journal {}
impl Journal {
    pub const SLOTS: usize = 64;
    pub fn open(path: &str) -> Journal {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
        f.set_len((Self::SLOTS * 16) as u64).unwrap();
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), Self::SLOTS * 16, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        assert!(p != libc::MAP_FAILED);
        Journal { ptr: p as *mut u64 }
    }
    pub fn set(&self, slot: usize, sub: u64, idx: u64) {
        unsafe {
            self.ptr.add(slot * 2).write_volatile(sub + 1);
            self.ptr.add(slot * 2 + 1).write_volatile(idx);
        }
    }
    pub fn clear(&self, slot: usize) { unsafe { self.ptr.add(slot * 2).write_volatile(0) } }
    pub fn read(&self) -> Vec<(u64, u64)> {
        (0..Self::SLOTS)
            .filter_map(|s| unsafe {
                let a = self.ptr.add(s * 2).read_volatile();
                let b = self.ptr.add(s * 2 + 1).read_volatile();
                (a > 0).then(|| (a - 1, b))
            })
            .collect()
    }
}

pub fn run_sub(prop: &Prop, sub_no: usize, n: u64, seed: u64, journal: &Journal) -> Outcome {
    let sub = prop.subs[sub_no];
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let out = Mutex::new(Outcome {
        evaluations: 0,
        distinct: HashSet::new(),
        classes: BTreeMap::new(),
        samples: vec![],
        failure: None,
    });
    let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8).min(Journal::SLOTS);
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (next, stop, out) = (&next, &stop, &out);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(sc, move || {
                    let mut ev = 0;
                    let mut distinct = HashSet::new();
                    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
                    loop {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let idx = next.fetch_add(1, Ordering::Relaxed);
                        if idx >= n {
                            break;
                        }
                        journal.set(t, sub_no as u64, idx);
                        let mut src = Src::random(case_seed(seed, prop.id, sub.name, idx));
                        let mut ctx = Ctx { want_sample: idx % 37 == 5 && idx < 800, ..default() };
                        let r = run_case(&sub, &mut src, &mut ctx);
                        ev += 1 + ctx.inner;
                        if ctx.nontrivial {
                            let fp = ctx.fp.unwrap_or_else(|| mix(&src.rec));
                            distinct.insert(fp);
                        }
                        for (k, v) in ctx.classes {
                            *classes.entry(k).or_default() += v;
                        }
                        if let Some(s) = ctx.sample {
                            let mut o = out.lock().unwrap();
                            if o.samples.len() < 3 && ctx.nontrivial {
                                o.samples.push(s);
                            }
                        }
                        if let Err(f) = r {
                            stop.store(true, Ordering::Relaxed);
                            let mut o = out.lock().unwrap();
                            // keep the failure of the lowest index so that the report is stable
                            if o.failure.as_ref().map(|(i, ..)| *i > idx).unwrap_or(true) {
                                o.failure = Some((idx, src.rec, f));
                            }
                        }
                    }
                    journal.clear(t);
                    let mut o = out.lock().unwrap();
                    o.evaluations += ev;
                    o.distinct.extend(distinct);
                    for (k, v) in classes {
                        *o.classes.entry(k).or_default() += v;
                    }
                })
                .unwrap();
        }
    });
    out.into_inner().unwrap()
}

pub fn default<T: Default>() -> T { T::default() }
#[allow(dead_code)]
pub type StrSet = BTreeSet<String>;
