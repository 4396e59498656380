//! Case runner: every case is described (for replay), executed under catch_unwind and checked for
//! leaked / doubly dropped elements.
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
static CUR: AtomicU64 = AtomicU64::new(0);
static START: AtomicU64 = AtomicU64::new(0);
fn now_ms() -> u64 { std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64 }
/// a case that does not come back is reported as a failing case
pub fn watchdog(prop: String, seed: u64, thorough: bool, limit_ms: u64) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(200));
        let s = START.load(SeqCst);
        if s != 0 && now_ms().saturating_sub(s) > limit_ms {
            let id = CUR.load(SeqCst);
            println!("{}", serde_json::json!({"property": prop, "seed": seed, "tier": if thorough { "thorough" } else { "quick" },
                "evaluations": id, "distinct_nontrivial": 0, "samples": [], "truncated": true,
                "fail": {"case": id, "input": "?", "observed": format!("no result after {} ms", limit_ms)}}));
            std::process::exit(1);
        }
    });
}

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D) >> 11
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n.max(1)
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub only: Option<u64>,
    pub trace: Option<std::fs::File>,
    pub n: u64,
    pub seen: HashSet<u64>,
    pub samples: Vec<String>,
    pub fail: Option<(u64, String, String)>,
    pub deadline: Instant,
    pub truncated: bool,
}

pub type R = Result<(), String>;

impl Ctx {
    pub fn new(prop: &str, seed: u64, thorough: bool, only: Option<u64>, trace: Option<String>, secs: u64) -> Self {
        Ctx {
            prop: prop.into(), seed, thorough, only,
            trace: trace.map(|p| std::fs::File::create(p).unwrap()),
            n: 0, seen: HashSet::new(), samples: vec![], fail: None,
            deadline: Instant::now() + Duration::from_secs(secs), truncated: false,
        }
    }
    pub fn done(&mut self) -> bool {
        if self.fail.is_some() { return true; }
        if self.n % 64 == 0 && Instant::now() > self.deadline { self.truncated = true; return true; }
        self.truncated
    }
    pub fn reps(&self, quick: u64) -> u64 { if self.thorough { quick * 10 } else { quick } }
    /// one case; `nontrivial` by the rule of the property's generator
    pub fn case(&mut self, nontrivial: bool, desc: impl Fn() -> String, body: impl FnOnce() -> R) {
        let id = self.n;
        self.n += 1;
        if self.fail.is_some() { return; }
        if let Some(o) = self.only { if o != id { return; } }
        if let Some(f) = &mut self.trace {
            use std::io::Seek;
            let _ = f.set_len(0); let _ = f.rewind();
            let _ = writeln!(f, "{}\t{}", id, desc());
            let _ = f.flush();
        }
        let mut d = None;
        if nontrivial && self.seen.len() < 3_000_000 {
            let s = desc();
            let mut h = std::collections::hash_map::DefaultHasher::new();
            s.hash(&mut h);
            let new = self.seen.insert(h.finish());
            let l = self.seen.len();
            if new && self.samples.len() < 6 && (l == 1 || l == 20 || l == 333 || l == 1500 || l == 5000 || l == 20000) { self.samples.push(s.chars().take(300).collect()); }
            d = Some(s);
        }
        track_reset();
        CUR.store(id, SeqCst);
        START.store(now_ms(), SeqCst);
        let r = catch_unwind(AssertUnwindSafe(body));
        START.store(0, SeqCst);
        let r = match r {
            Ok(Ok(())) => track_check(),
            Ok(Err(e)) => Err(e),
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                Err(format!("panic: {}", m))
            }
        };
        if let Err(e) = r { self.fail = Some((id, d.unwrap_or_else(|| desc()), e)); }
    }
}

pub fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> R {
    if got == want { Ok(()) } else { Err(format!("{}: got {:?}, expected {:?}", what, got, want)) }
}
pub fn ok(what: &str, b: bool) -> R {
    if b { Ok(()) } else { Err(format!("does not hold: {}", what)) }
}

// ---- tracked values ------------------------------------------------------------------------------
struct Track { live: Vec<bool>, err: Option<String>, nlive: usize }
thread_local! { static TRACK: RefCell<Track> = RefCell::new(Track { live: vec![], err: None, nlive: 0 }); }
fn track_reset() { TRACK.with(|t| { let mut t = t.borrow_mut(); t.live.clear(); t.err = None; t.nlive = 0; }) }
fn track_check() -> R {
    TRACK.with(|t| {
        let t = t.borrow();
        if let Some(e) = &t.err { return Err(e.clone()); }
        if t.nlive != 0 { return Err(format!("{} element(s) leaked", t.nlive)); }
        Ok(())
    })
}
fn alloc() -> usize { TRACK.with(|t| { let mut t = t.borrow_mut(); t.live.push(true); t.nlive += 1; t.live.len() - 1 }) }
fn touch(id: usize, what: &str) {
    TRACK.with(|t| {
        let mut t = t.borrow_mut();
        if t.live.get(id) != Some(&true) { if t.err.is_none() { t.err = Some(format!("{} of a dead element", what)); } }
    })
}

/// an element whose order and equality look only at `k`; `t` tells equal elements apart
pub struct E { pub k: u16, pub t: u16, id: usize }
impl E { pub fn new(k: u16, t: u16) -> Self { E { k, t, id: alloc() } } }
impl Clone for E { fn clone(&self) -> Self { touch(self.id, "clone"); E::new(self.k, self.t) } }
impl Drop for E {
    fn drop(&mut self) {
        TRACK.with(|t| {
            let mut t = t.borrow_mut();
            if t.live.get(self.id) != Some(&true) { if t.err.is_none() { t.err = Some("double drop of an element".to_string()); } }
            else { t.live[self.id] = false; t.nlive -= 1; }
        })
    }
}
impl PartialEq for E { fn eq(&self, o: &E) -> bool { touch(self.id, "eq"); touch(o.id, "eq"); self.k == o.k } }
impl Eq for E {}
impl PartialOrd for E { fn partial_cmp(&self, o: &E) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for E { fn cmp(&self, o: &E) -> Ordering { touch(self.id, "cmp"); touch(o.id, "cmp"); self.k.cmp(&o.k) } }
impl std::fmt::Debug for E { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { touch(self.id, "fmt"); write!(f, "{}.{}", self.k, self.t) } }
impl Hash for E { fn hash<H: Hasher>(&self, h: &mut H) { touch(self.id, "hash"); self.k.hash(h) } }

pub type P = (u16, u16);
pub fn es(s: &[P]) -> Vec<E> { s.iter().map(|x| E::new(x.0, x.1)).collect() }
pub fn ps(s: &[E]) -> Vec<P> { s.iter().map(|e| { touch(e.id, "read"); (e.k, e.t) }).collect() }
pub fn ks(s: &[E]) -> Vec<u16> { s.iter().map(|e| { touch(e.id, "read"); e.k }).collect() }

/// sorted duplicate-free random (key, tag) list
pub fn rset(r: &mut Rng, n: u64, range: u64, tag: u16) -> Vec<P> {
    let mut s = std::collections::BTreeSet::new();
    for _ in 0..n { s.insert(r.below(range) as u16); }
    s.into_iter().map(|k| (k, tag)).collect()
}
pub fn mask(m: u32, mul: u16, off: u16, tag: u16) -> Vec<P> { (0..32).filter(|i| m & (1 << i) != 0).map(|i| (i as u16 * mul + off, tag)).collect() }
fn run(from: u16, n: u16, step: u16, tag: u16) -> Vec<P> { (0..n).map(|i| (from + i * step, tag)).collect() }
/// pairs of runs of the given sizes in all relative positions (apart, touching in one element, overlapping,
/// nested at either end, interleaved, equal, equal but for one element)
pub fn shapes(n: u16, m: u16) -> Vec<(Vec<P>, Vec<P>)> {
    let b = 300u16.max(n.max(m) + 2);
    let a = run(b, n, 1, 1);
    let mut v = vec![];
    let n1 = n.max(1); let m1 = m.max(1);
    for at in [b - m1, b - m1 + 1, b - m1 + 2, b, b + 1, (b + n1).saturating_sub(m1), b + n1 / 2, b + n1 - 1, b + n1, b + n1 + 1] { v.push((a.clone(), run(at, m, 1, 2))); }
    v.push((run(b, n, 2, 1), run(b + 1, m, 2, 2)));
    v.push((run(b, n, 3, 1), run(b, m, 2, 2)));
    if n == m && n > 0 {
        for d in [0usize, n as usize / 2, n as usize - 1] {
            let mut x = a.clone(); x.remove(d);
            let y = run(b, m, 1, 2);
            v.push((x, y.clone()));
            let mut x = a.clone(); let k = x.len(); if d == 0 { x[0].0 -= 1 } else if d == k - 1 { x[d].0 += 1 } else { x.remove(d); }
            v.push((x, y));
        }
    }
    v
}
/// pairs of sorted lists: all pairs of subsets of a small universe, one large against all small, runs of
/// threshold sizes in all positions, random pairs of all size ratios
pub fn pairs(c: &mut Ctx, u: u32, rand: u64, mut f: impl FnMut(&mut Ctx, u8, &[P], &[P])) {
    for x in 0..(1u32 << u) { for y in 0..(1u32 << u) {
        if c.done() { return; }
        f(c, ((x ^ y) % 3) as u8, &mask(x, 1, 0, 1), &mask(y, 1, 0, 2));
    } }
    for big in [9u16, 17, 40] {
        let l: Vec<P> = (0..big).map(|i| (i * 2 + 1, 1)).collect();
        let hi = big * 2 + 2;
        for i in 0..hi { for j in i..hi { if c.thorough || big < 20 || (i + j) % 3 == 0 {
            if c.done() { return; }
            let mut s: Vec<P> = vec![(i, 2), (j, 2)]; s.dedup_by_key(|p| p.0);
            f(c, (i % 3) as u8, &l, &s);
            f(c, (j % 3) as u8, &s, &l);
        } } }
        f(c, 0, &l, &[]); f(c, 1, &[], &l);
    }
    let sizes: &[u16] = if c.thorough { &[1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 18, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 512, 1025] } else { &[1, 2, 4, 8, 9, 16, 17, 18, 32, 33, 64, 65, 128, 129, 257] };
    for n in sizes { for m in sizes { for (i, (a, b)) in shapes(*n, *m).into_iter().enumerate() {
        if c.done() { return; }
        if *n as u32 * *m as u32 > 40000 && !c.thorough && i % 3 != 0 { continue; }
        f(c, (i % 3) as u8, &a, &b);
    } } }
    let mut r = Rng::new(c.seed);
    for i in 0..c.reps(rand) {
        if c.done() { return; }
        let rg = [8, 20, 60, 180, 600][r.below(5) as usize];
        let m = [3, 8, 30, 90, 300][r.below(5) as usize];
        let m2 = [3, 8, 30, 90, 300][r.below(5) as usize];
        let (na, nb) = (r.below(m), r.below(m2));
        let a = rset(&mut r, na, rg, 1);
        let b = rset(&mut r, nb, rg, 2);
        f(c, (i % 3) as u8, &a, &b);
    }
}
