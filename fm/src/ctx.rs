//! What a run observed, and how it reports it.

use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

use crate::rng::{hash_str, mix, Rng};

pub type R = Result<(), String>;

/// Fail the current case with a message.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => {
        if !$c {
            return Err(format!($($t)*));
        }
    };
}

/// Progress counter watched by the watchdog.
pub static BEAT: AtomicU64 = AtomicU64::new(0);
static WHERE: Mutex<String> = Mutex::new(String::new());

#[inline]
pub fn beat() {
    BEAT.fetch_add(1, Relaxed);
}

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Ctx {
    pub prop: &'static str,
    pub seed: u64,
    /// 1 in the quick tier.
    pub factor: usize,
    pub rng: Rng,
    shape: String,
    only: Option<String>,
    fails_here: usize,
    case_no: u64,
    pub fails: usize,
    pub evals: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    shapes: u64,
    keyed: HashSet<String>,
    counters: BTreeMap<&'static str, u64>,
}

fn env_num(name: &str, default: u64) -> u64 {
    std::env::var(name).ok().and_then(|v| v.parse().ok()).unwrap_or(default)
}

impl Ctx {
    pub fn new(prop: &'static str) -> Self {
        let seed = env_num("VERIF_SEED", 1);
        let factor = env_num("FM_FACTOR", 1) as usize;
        if env_num("FM_WATCHDOG", 1) == 1 && !cfg!(miri) {
            start_watchdog();
        }
        if std::env::var_os("FM_LOUD").is_none() {
            std::panic::set_hook(Box::new(|_| {}));
        }
        Ctx {
            prop,
            seed,
            factor,
            rng: Rng::new(seed),
            shape: String::new(),
            only: std::env::var("FM_ONLY").ok(),
            fails_here: 0,
            case_no: 0,
            fails: 0,
            evals: 0,
            distinct: HashSet::new(),
            samples: Vec::new(),
            shapes: 0,
            keyed: HashSet::new(),
            counters: BTreeMap::new(),
        }
    }

    /// Run everything for one key shape.
    pub fn shape(&mut self, name: &str, f: impl FnOnce(&mut Ctx)) {
        if let Some(only) = &self.only {
            if only != name {
                return;
            }
        }
        self.shape = name.to_string();
        self.fails_here = 0;
        self.case_no = 0;
        self.shapes += 1;
        self.rng = Rng::new(mix(self.seed) ^ hash_str(name) ^ hash_str(self.prop));
        if let Ok(mut w) = WHERE.lock() {
            *w = name.to_string();
        }
        println!("@@S {}", esc(name));
        let r = catch_unwind(AssertUnwindSafe(|| f(self)));
        if let Err(e) = r {
            let m = panic_message(&e);
            std::mem::forget(e);
            self.fail("", &format!("unexpected panic: {m}"));
        }
    }

    /// One case: run `f`, which returns a description of what is wrong if
    /// anything is. Panics are violations: nothing in a case is meant to panic
    /// past the case.
    pub fn case(&mut self, label: &str, f: impl FnOnce(&mut Ctx) -> R) -> bool {
        beat();
        if self.fails_here >= 3 {
            return false;
        }
        self.case_no += 1;
        let r = catch_unwind(AssertUnwindSafe(|| f(self)));
        match r {
            Ok(Ok(())) => true,
            Ok(Err(m)) => {
                self.fail(label, &m);
                false
            }
            Err(e) => {
                let m = panic_message(&e);
                std::mem::forget(e);
                self.fail(label, &format!("unexpected panic: {m}"));
                false
            }
        }
    }

    /// Messages of the form `@key=<key>@ text` may be listed findings: they
    /// are reported under that key and do not end the shape.
    pub fn fail(&mut self, label: &str, msg: &str) {
        let mut key = "";
        let mut msg = msg;
        if let Some((k, rest)) = msg.strip_prefix("@key=").and_then(|m| m.split_once('@')) {
            key = k;
            msg = rest.trim_start();
            self.count("reports under a finding's key", 1);
            if !self.keyed.insert(format!("{key} {}", self.shape)) {
                return;
            }
        } else {
            self.fails += 1;
            self.fails_here += 1;
        }
        let mut m = msg.to_string();
        if m.len() > 6000 {
            let mut e = 6000;
            while !m.is_char_boundary(e) {
                e -= 1;
            }
            m.truncate(e);
            m.push('…');
        }
        println!(
            "@@V {{\"shape\":{},\"case\":{},\"case_no\":{},\"key\":{},\"message\":{}}}",
            esc(&self.shape),
            esc(label),
            self.case_no,
            if key.is_empty() { "null".to_string() } else { esc(key) },
            esc(&m)
        );
    }

    /// Count one evaluation with a fingerprint of the situation it was in.
    #[inline]
    pub fn eval(&mut self, fp: u64) {
        self.evals += 1;
        if self.distinct.len() < 4_000_000 {
            self.distinct.insert(fp ^ self.shapes.wrapping_mul(0x9e37_79b9_7f4a_7c15));
        }
    }

    pub fn count(&mut self, name: &'static str, n: u64) {
        *self.counters.entry(name).or_insert(0) += n;
    }

    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 4 && self.evals % 97 == 1 || self.samples.is_empty() {
            let mut s = format!("{}: {}", self.shape, f());
            if s.chars().count() > 600 {
                s = s.chars().take(600).collect();
            }
            self.samples.push(s);
        }
    }

    pub fn shape_name(&self) -> &str {
        &self.shape
    }

    pub fn finish(self) {
        let mut c = String::new();
        for (k, v) in &self.counters {
            c.push_str(&format!("{}{}:{}", if c.is_empty() { "" } else { "," }, esc(k), v));
        }
        let s: Vec<String> = self.samples.iter().map(|s| esc(s)).collect();
        println!(
            "@@R {{\"evaluations\":{},\"distinct\":{},\"shapes\":{},\"fails\":{},\"counters\":{{{}}},\"samples\":[{}]}}",
            self.evals,
            self.distinct.len(),
            self.shapes,
            self.fails,
            c,
            s.join(",")
        );
    }
}

pub fn panic_message(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        (*s).to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "(opaque payload)".to_string()
    }
}

pub fn fp(parts: &[u64]) -> u64 {
    let mut h = 0x1234_5678_9abc_def0u64;
    for p in parts {
        h = mix(h ^ p);
    }
    h
}

fn cpu_ticks() -> Option<u64> {
    let s = std::fs::read_to_string("/proc/self/stat").ok()?;
    let rest = s.rsplit(')').next()?;
    let f: Vec<&str> = rest.split_whitespace().collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

/// Reports a violation when one case burns more than 90 CPU seconds without
/// making progress (an operation that does not return). CPU time rather than
/// wall time, so that a loaded machine cannot trigger it; every case takes
/// milliseconds.
fn start_watchdog() {
    std::thread::spawn(|| {
        let mut last = BEAT.load(Relaxed);
        let Some(mut at) = cpu_ticks() else { return };
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let now = BEAT.load(Relaxed);
            let Some(t) = cpu_ticks() else { return };
            if now != last {
                last = now;
                at = t;
            } else if t - at > 90 * 100 {
                let w = WHERE.lock().map(|w| w.clone()).unwrap_or_default();
                println!(
                    "@@V {{\"shape\":{},\"case\":\"watchdog\",\"case_no\":0,\"message\":\"an operation did not return within 90 CPU seconds\"}}",
                    esc(&w)
                );
                std::process::exit(3);
            }
        }
    });
}
