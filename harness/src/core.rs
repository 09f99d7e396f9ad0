//! Choice-sequence test core: every case is a deterministic function of a list of
//! bounded choices, so cases can be enumerated, drawn at random, shrunk and replayed.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Src {
    data: Vec<u32>,
    pos: usize,
    rng: Option<u64>,
    pub log: Vec<(u32, u32)>,
    pub trace: Vec<String>,
    pub cover: BTreeMap<&'static str, u64>,
    /// size knob: 0 = small exhaustive shapes, larger = bigger random shapes
    pub size: usize,
    pub nontrivial: bool,
    live: bool,
}

fn next(r: &mut u64) -> u64 {
    *r = r.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *r;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Src {
    pub fn new(data: Vec<u32>, rng: Option<u64>, size: usize) -> Self {
        Src { data, pos: 0, rng, log: vec![], trace: vec![], cover: BTreeMap::new(), size, nontrivial: false, live: std::env::var_os("HARNESS_LIVE").is_some() }
    }
    /// A choice in 0..n; 0 is always the simplest one.
    pub fn pick(&mut self, n: usize) -> usize {
        assert!(n > 0);
        let v = if self.pos < self.data.len() {
            self.data[self.pos] as usize % n
        } else if let Some(r) = &mut self.rng {
            (next(r) % n as u64) as usize
        } else {
            0
        };
        self.pos += 1;
        self.log.push((v as u32, n as u32));
        v
    }
    pub fn flag(&mut self) -> bool {
        self.pick(2) == 1
    }
    /// true with probability 1/n
    pub fn rare(&mut self, n: usize) -> bool {
        self.pick(n) == n - 1
    }
    /// number of steps to run: up to `small` when enumerating, `big` when random
    pub fn steps(&mut self, small: usize, big: usize) -> usize {
        let m = if self.size == 0 { small } else { big };
        self.pick(m + 1)
    }
    pub fn t(&mut self, s: impl Into<String>) {
        let s = s.into();
        if self.live {
            println!("  {s}");
        }
        self.trace.push(s);
    }
    pub fn hit(&mut self, s: &'static str) {
        *self.cover.entry(s).or_default() += 1;
        self.nontrivial = true;
    }
    /// a random permutation of 0..n (identity when choices are 0)
    pub fn shuffle(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        for i in 0..n.saturating_sub(1) {
            let j = i + self.pick(n - i);
            v[i..=j].rotate_right(1);
        }
        v
    }
}

pub type Case = fn(&mut Src) -> Result<(), String>;

pub struct Outcome {
    pub log: Vec<(u32, u32)>,
    pub trace: Vec<String>,
    pub cover: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    pub res: Result<(), String>,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = RefCell::new(None);
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string().replace('\n', ": ");
        if std::env::var_os("HARNESS_LOUD").is_some() {
            eprintln!("{s}\n{}", std::backtrace::Backtrace::force_capture());
        }
        let _ = PANIC.try_with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some(s);
            }
        });
    }));
}

/// Run cases in the calling thread (a procedural macro can only be called from the compiler's).
pub static IN_PLACE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// Run one case in a fresh thread (fresh document, contexts and thread-locals).
pub fn run_case(case: Case, data: Vec<u32>, rng: Option<u64>, size: usize) -> Outcome {
    if IN_PLACE.load(std::sync::atomic::Ordering::Relaxed) {
        let mut s = Src::new(data, rng, size);
        let res = match catch_unwind(AssertUnwindSafe(|| case(&mut s))) {
            Ok(r) => r,
            Err(_) => Err(format!("panicked: {}", PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default())),
        };
        return Outcome { log: s.log, trace: s.trace, cover: s.cover, nontrivial: s.nontrivial, res };
    }
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let mut s = Src::new(data, rng, size);
            let res = match catch_unwind(AssertUnwindSafe(|| case(&mut s))) {
                Ok(r) => r,
                Err(_) => Err(format!(
                    "panicked: {}",
                    PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()
                )),
            };
            Outcome { log: s.log, trace: s.trace, cover: s.cover, nontrivial: s.nontrivial, res }
        })
        .unwrap()
        .join()
        .unwrap_or_else(|_| Outcome {
            log: vec![],
            trace: vec![],
            cover: BTreeMap::new(),
            nontrivial: false,
            res: Err("panicked while the case's data was dropped".into()),
        })
}

pub fn shrink(case: Case, first: Outcome, size: usize, budget: std::time::Duration) -> Outcome {
    let t0 = std::time::Instant::now();
    let mut best = first;
    let vals = |o: &Outcome| o.log.iter().map(|x| x.0).collect::<Vec<_>>();
    if best.log.is_empty() {
        return best;
    }
    let mut improved = true;
    while improved && t0.elapsed() < budget {
        improved = false;
        let mut chunk = best.log.len().max(1) / 2;
        while chunk >= 1 {
            let mut i = 0;
            while i < best.log.len() && t0.elapsed() < budget {
                let mut d = vals(&best);
                let e = (i + chunk).min(d.len());
                d.drain(i..e);
                let o = run_case(case, d, None, size);
                if o.res.is_err() && better(&o, &best) {
                    best = o;
                    improved = true;
                } else {
                    i += chunk;
                }
            }
            chunk /= 2;
        }
        let mut i = 0;
        while i < best.log.len() && t0.elapsed() < budget {
            let v = best.log[i].0;
            for w in [0, v / 2, v.saturating_sub(1)] {
                if w < v {
                    let mut d = vals(&best);
                    d[i] = w;
                    let o = run_case(case, d, None, size);
                    if o.res.is_err() && better(&o, &best) {
                        best = o;
                        improved = true;
                        break;
                    }
                }
            }
            i += 1;
        }
    }
    best
}
fn better(a: &Outcome, b: &Outcome) -> bool {
    let k = |o: &Outcome| (o.log.len(), o.log.iter().map(|x| x.0 as u64).sum::<u64>());
    !a.log.is_empty() && k(a) < k(b)
}

/// Next choice vector in depth-first order, None when exhausted.
pub fn odometer(log: &[(u32, u32)]) -> Option<Vec<u32>> {
    let mut v: Vec<(u32, u32)> = log.to_vec();
    while let Some((c, n)) = v.pop() {
        if c + 1 < n {
            let mut d: Vec<u32> = v.iter().map(|x| x.0).collect();
            d.push(c + 1);
            return Some(d);
        }
    }
    None
}

pub fn trace_hash(t: &[String]) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub exhaustive_cases: u64,
    pub exhausted: bool,
    pub cover: BTreeMap<String, u64>,
    pub samples: Vec<String>,
}
impl Stats {
    pub fn add(&mut self, o: &Outcome) {
        self.evals += 1;
        if o.nontrivial {
            self.nontrivial += 1;
            if self.distinct.len() < 3_000_000 {
                self.distinct.insert(trace_hash(&o.trace));
            }
            if self.samples.len() < 3 && o.trace.len() > 4 {
                let mut s = o.trace.join("; ");
                s.truncate(s.char_indices().nth(700).map(|x| x.0).unwrap_or(s.len()));
                self.samples.push(s);
            }
        }
        for (k, v) in &o.cover {
            *self.cover.entry(k.to_string()).or_default() += v;
        }
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
