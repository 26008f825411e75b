//! Shared harness machinery: seeded randomness, trace recording, isolated case execution.
use hifitime::{Duration, Epoch};
use rand::{Rng, RngExt, SeedableRng};
use rand_pcg::Pcg64Mcg;
use serde_json::{Map, Value, json};
use std::sync::mpsc;
use std::sync::{Arc, Mutex};
use std::time::Duration as StdDuration;

pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub scen: Vec<Value>,
    pub scratch: std::path::PathBuf,
}

impl Ctx {
    /// Number of random cases: quick or thorough.
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough { thorough } else { quick }
    }
    pub fn rng(&self, case: &str) -> Rng64 {
        let mut h: u64 = 0xcbf29ce484222325 ^ self.seed.wrapping_mul(0x9E3779B97F4A7C15);
        for b in case.bytes() {
            h ^= b as u64;
            h = h.wrapping_mul(0x100000001b3);
        }
        Rng64(Pcg64Mcg::seed_from_u64(h))
    }
}

pub struct Rng64(pub Pcg64Mcg);
impl Rng64 {
    pub fn u(&mut self, n: usize) -> usize {
        (self.0.next_u64() % (n as u64)) as usize
    }
    pub fn r(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.0.random::<f64>()
    }
    pub fn i(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.0.next_u64() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn b(&mut self) -> bool {
        self.u(2) == 0
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.u(v.len())]
    }
}

#[derive(Clone)]
pub struct Rec {
    id: String,
    ev: Arc<Mutex<Vec<Value>>>,
}

impl Rec {
    /// Record one event. `k` is the kind, the other fields come from `v` (an object).
    pub fn ev(&self, k: &str, v: Value) {
        let mut m = match v {
            Value::Object(m) => m,
            Value::Null => Map::new(),
            _ => panic!("event must be an object"),
        };
        m.insert("c".into(), json!(self.id));
        m.insert("k".into(), json!(k));
        self.ev.lock().unwrap().push(Value::Object(m));
    }
    pub fn begin(&self, v: Value) {
        self.ev("begin", v)
    }
}

pub type CaseFn = Box<dyn FnOnce(&Rec) + Send + 'static>;
pub struct Case {
    pub id: String,
    pub begin: Value,
    pub f: CaseFn,
}

pub fn case<F: FnOnce(&Rec) + Send + 'static>(id: impl Into<String>, begin: Value, f: F) -> Case {
    Case {
        id: id.into(),
        begin,
        f: Box::new(f),
    }
}

/// Runs the cases on a pool; a panic or a case that does not come back is recorded as an event.
pub fn run_cases(cases: Vec<Case>, timeout_s: u64) -> Vec<Value> {
    let n = cases.len();
    let queue = Arc::new(Mutex::new(cases.into_iter().enumerate().collect::<Vec<_>>()));
    queue.lock().unwrap().reverse();
    let out: Arc<Mutex<Vec<Option<Vec<Value>>>>> = Arc::new(Mutex::new(vec![None; n]));
    let hung = Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let mut hs = vec![];
    for _ in 0..8 {
        let queue = queue.clone();
        let out = out.clone();
        let hung = hung.clone();
        hs.push(std::thread::spawn(move || {
            loop {
                let job = queue.lock().unwrap().pop();
                let Some((i, c)) = job else { break };
                if hung.load(std::sync::atomic::Ordering::SeqCst) > 6 {
                    // Too many stuck threads: the verdict is already clear, the remaining cases are dropped.
                    continue;
                }
                let rec = Rec {
                    id: c.id.clone(),
                    ev: Arc::new(Mutex::new(vec![])),
                };
                rec.begin(c.begin.clone());
                let (tx, rx) = mpsc::channel();
                let r2 = rec.clone();
                let f = c.f;
                std::thread::Builder::new()
                    .stack_size(32 << 20)
                    .spawn(move || {
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&r2)));
                        let _ = tx.send(r.map_err(|e| {
                            if let Some(s) = e.downcast_ref::<String>() {
                                s.clone()
                            } else if let Some(s) = e.downcast_ref::<&str>() {
                                s.to_string()
                            } else {
                                "?".into()
                            }
                        }));
                    })
                    .unwrap();
                match rx.recv_timeout(StdDuration::from_secs(timeout_s)) {
                    Ok(Ok(())) => rec.ev("end", json!({})),
                    Ok(Err(msg)) => rec.ev("panic", json!({"msg": msg})),
                    Err(_) => {
                        hung.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        rec.ev("hang", json!({}))
                    }
                }
                let evs = rec.ev.lock().unwrap().clone();
                out.lock().unwrap()[i] = Some(evs);
            }
        }));
    }
    for h in hs {
        h.join().unwrap();
    }
    let out = out.lock().unwrap().clone();
    out.into_iter().flatten().flatten().collect()
}

pub fn clampi(x: f64) -> i64 {
    if x.is_nan() {
        2_000_000_000
    } else {
        x.clamp(-2.0e9, 2.0e9).round() as i64
    }
}

/// |x| / unit, rounded up, as an integer TLC can compare (NaN and overflow give 2e9).
/// The larger of two; an undefined value is larger than any
pub fn nmax(a: f64, b: f64) -> f64 { if a.is_nan() || b.is_nan() { f64::INFINITY } else { a.max(b) } }
pub fn mag(x: f64, unit: f64) -> i64 {
    let v = (x.abs() / unit).ceil();
    if v.is_nan() { 2_000_000_000 } else { v.min(2.0e9) as i64 }
}

/// A duration as a pair [s, ns] with 0 <= ns < 1e9
pub fn dur(d: Duration) -> Value {
    let ns = d.total_nanoseconds();
    let s = ns.div_euclid(1_000_000_000);
    let n = ns.rem_euclid(1_000_000_000);
    json!([s.clamp(-2_000_000_000, 2_000_000_000) as i64, n as i64])
}

pub fn ep(e: Epoch, zero: Epoch) -> Value {
    dur(e - zero)
}

pub fn hex(x: f64) -> String {
    format!("{:016x}", x.to_bits())
}

pub fn errs<E: std::fmt::Display>(e: &E) -> String {
    let s = format!("{e}");
    s.chars().filter(|c| c.is_ascii() && *c != '"' && *c != '\\').take(160).collect()
}
