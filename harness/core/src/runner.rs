//! Case runner: drives the cases of one property over worker threads, catches
//! unexpected panics, keeps a crash-proof note of the running case, counts what
//! the monitors observed and writes a JSON report.
use crate::rng::{splitmix, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

#[derive(Debug, Clone)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}
pub type R = Result<(), Fail>;

pub fn fail<T>(sig: &str, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail {
        sig: sig.to_string(),
        msg: msg.into(),
    })
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $sig:expr, $($fmt:tt)*) => {
        if !($cond) {
            return $crate::fail($sig, format!($($fmt)*));
        }
    };
}

/// A monitor fault (never a verdict about the code under test).
#[macro_export]
macro_rules! harness_bug {
    ($($fmt:tt)*) => { return $crate::fail("HARNESS", format!($($fmt)*)) };
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Did the call panic? (expected rejections)
pub fn rejects<T>(f: impl FnOnce() -> T) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}
pub fn attempt<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f))
        .map_err(|_| LAST_PANIC.with(|p| std::mem::take(&mut *p.borrow_mut())))
}
pub fn clear_panic_note() {
    LAST_PANIC.with(|p| *p.borrow_mut() = String::new());
}

pub struct Ctx {
    pub rng: Rng,
    pub case: u64,
    pub thorough: bool,
    hash: std::collections::hash_map::DefaultHasher,
    desc: String,
    trivial: bool,
    counters: BTreeMap<&'static str, u64>,
    sets: BTreeMap<&'static str, HashSet<u64>>,
}

impl Ctx {
    pub fn new(case: u64, seed: u64, thorough: bool) -> Self {
        let mut x = seed ^ 0x5EED_0000_0000_0000;
        let a = splitmix(&mut x);
        let mut y = case.wrapping_mul(0xA24BAED4963EE407) ^ a;
        let mut rng = Rng::new(splitmix(&mut y));
        // a few cases are large
        if !cfg!(miri) {
            rng.tail = match splitmix(&mut y) % 1200 {
                0..=11 => 1,
                12..=14 => 2,
                _ => 0,
            };
            if case % 3001 == 1500 && case < if thorough { 3000000 } else { 180000 } {
                rng.tail = 3;
            }
            if case % 7919 == 2500 && case < if thorough { 400000 } else { 40000 } {
                rng.tail = 4;
            }
            if let Ok(t) = std::env::var("HH_TAIL") {
                rng.tail = t.parse().unwrap();
            }
        }
        Ctx {
            rng,
            case,
            thorough,
            hash: Default::default(),
            desc: String::new(),
            trivial: true,
            counters: BTreeMap::new(),
            sets: BTreeMap::new(),
        }
    }
    /// Count events a monitor observed.
    pub fn saw(&mut self, what: &'static str, n: usize) {
        *self.counters.entry(what).or_insert(0) += n as u64;
    }
    /// Record a distinct state, kind or interleaving.
    pub fn distinct<H: Hash>(&mut self, what: &'static str, h: H) {
        let mut s = std::collections::hash_map::DefaultHasher::new();
        h.hash(&mut s);
        self.sets.entry(what).or_default().insert(s.finish());
    }
    /// Add to the identity of the case.
    pub fn id<H: Hash>(&mut self, h: H) {
        h.hash(&mut self.hash);
    }
    /// The case is non-trivial by the property's rule.
    pub fn nontrivial(&mut self) {
        self.trivial = false;
    }
    pub fn describe(&mut self, s: impl Into<String>) {
        let s = s.into();
        s.hash(&mut self.hash);
        if self.desc.len() < 400 {
            if !self.desc.is_empty() {
                self.desc.push_str("; ");
            }
            self.desc.push_str(&s);
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub case: fn(&mut Ctx) -> R,
    /// number of cases: (quick, thorough, miri)
    pub cases: (u64, u64, u64),
    /// counters that must be positive for a verdict
    pub needs: &'static [&'static str],
    /// fixed histories with a name of their own, run once
    pub probes: &'static [(&'static str, fn() -> R)],
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// The first violations, for when a run does not come to its end.
static FOUND: Mutex<Vec<String>> = Mutex::new(Vec::new());

/// The case a worker is at (number + 1; 0: none) and how long it has been.
#[derive(Default)]
struct At {
    case: AtomicU64,
    ticks: AtomicU64,
}

/// Ends the process when a case does not end. Cases take milliseconds (large
/// ones seconds). Time is counted in naps of this thread, so that a machine
/// that stands still does not count.
#[cfg(not(miri))]
fn watch(at: std::sync::Arc<Vec<At>>, seconds: u64) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let mut stuck = vec![];
        let found = FOUND.lock().map(|f| f.clone()).unwrap_or_default();
        let limit = if found.is_empty() { 2 * seconds } else { 40 };
        for a in at.iter() {
            if a.ticks.fetch_add(1, Ordering::SeqCst) >= limit {
                let k = a.case.load(Ordering::SeqCst);
                if k > 0 {
                    stuck.push((k - 1).to_string());
                }
            }
        }
        if !stuck.is_empty() {
            for f in found {
                eprintln!("FOUND {}", f);
            }
            eprintln!("STUCK {}", stuck.join(" "));
            std::process::exit(97);
        }
    });
}

struct Tot {
    slowest: (u128, u64),
    evals: u64,
    nontrivial: HashSet<u64>,
    counters: BTreeMap<&'static str, u64>,
    sets: BTreeMap<&'static str, HashSet<u64>>,
    samples: Vec<String>,
    fails: Vec<(u64, Fail, String)>,
}

fn arg(name: &str) -> Option<String> {
    let v: Vec<String> = std::env::args().collect();
    v.iter().position(|a| a == name).and_then(|i| v.get(i + 1).cloned())
}

fn run_case(p: &Prop, ctx: &mut Ctx) -> R {
    let before = crate::heap::DAMAGED.load(Ordering::SeqCst);
    // what a case finds must not depend on what was done before it
    let mut x = ctx.rng.clone().u64() ^ 0xD157_0000;
    if splitmix(&mut x) % if cfg!(miri) { 8 } else { 3 } == 0 {
        let mut r = Rng::new(splitmix(&mut x));
        crate::disturb::disturb(&mut r);
        *ctx.counters.entry("cases after other operations, refused or broken off").or_insert(0) += 1;
    }
    let r = match catch_unwind(AssertUnwindSafe(|| (p.case)(ctx))) {
        Ok(r) => r,
        Err(_) => {
            let m = LAST_PANIC.with(|p| std::mem::take(&mut *p.borrow_mut()));
            // A panic raised by the monitor's own code is a monitor fault.
            // (its paths are relative, those of the library and std are absolute)
            if m.contains("[asked-outside]") {
                // raised by a layout of the monitor on a request of the library
                fail("asked-outside", format!("a user-defined layout is asked for an element it does not have: {}", m))
            } else if !m.starts_with('/') {
                fail("HARNESS", format!("panic in the monitor: {}", m))
            } else {
                fail("unexpected-panic", format!("a valid operation panicked: {}", m))
            }
        }
    };
    if r.is_ok() && crate::heap::DAMAGED.load(Ordering::SeqCst) != before {
        return fail("heap-canary", "memory outside a heap block was overwritten");
    }
    r
}

pub fn run_main(p: &'static Prop) {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        if std::env::var("HH_SHOW_PANICS").is_ok() {
            eprintln!("[panic] {} {}", loc, msg);
        }
        let _ = LAST_PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = format!("{}: {}", loc, msg);
            }
        });
    }));
    let seed: u64 = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = arg("--tier").map(|t| t == "thorough").unwrap_or(false);
    let config = arg("--config").unwrap_or_else(|| "plain".into());
    let mut cases = if cfg!(miri) {
        p.cases.2
    } else if thorough {
        p.cases.1
    } else {
        p.cases.0
    };
    if let Some(c) = arg("--cases").and_then(|s| s.parse().ok()) {
        cases = c;
    }
    if let Some(f) = arg("--factor").and_then(|s| s.parse::<f64>().ok()) {
        cases = (cases as f64 * f) as u64;
    }
    let first: u64 = arg("--first").and_then(|s| s.parse().ok()).unwrap_or(0);
    if let Some(k) = arg("--case").and_then(|s| s.parse::<u64>().ok()) {
        let mut ctx = Ctx::new(k, seed, thorough);
        let r = run_case(p, &mut ctx);
        println!("case {} ({}): {}", k, config, ctx.desc);
        match r {
            Ok(()) => println!("held"),
            Err(f) => {
                println!("FAIL sig={} {}", f.sig, f.msg);
                std::process::exit(1);
            }
        }
        return;
    }
    let threads: usize = if cfg!(miri) {
        1
    } else {
        arg("--threads")
            .and_then(|s| s.parse().ok())
            .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4))
    };
    #[cfg(not(miri))]
    let note = arg("--note").and_then(|f| {
        std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(f).ok()
    });
    let mut probe_fails = vec![];
    if arg("--no-probes").is_none() {
        for (name, f) in p.probes {
            let r = match catch_unwind(AssertUnwindSafe(f)) {
                Ok(r) => r,
                Err(_) => {
                    let m = LAST_PANIC.with(|p| std::mem::take(&mut *p.borrow_mut()));
                    if !m.starts_with('/') {
                        fail("HARNESS", format!("panic in the monitor: {}", m))
                    } else {
                        fail("unexpected-panic", m)
                    }
                }
            };
            if let Err(e) = r {
                probe_fails.push((name.to_string(), e));
            }
        }
    }
    let next = AtomicU64::new(first);
    let stop = AtomicBool::new(false);
    // No case begins after this time. What was observed until then counts.
    let until = arg("--soft")
        .and_then(|s| s.parse().ok())
        .map(|s| std::time::Instant::now() + std::time::Duration::from_secs(s));
    let at: std::sync::Arc<Vec<At>> = std::sync::Arc::new((0..threads.max(1)).map(|_| At::default()).collect());
    #[cfg(not(miri))]
    if let Some(s) = arg("--stuck").and_then(|s| s.parse().ok()) {
        watch(at.clone(), s);
    }
    let tot = Mutex::new(Tot {
        slowest: (0, 0),
        evals: 0,
        nontrivial: HashSet::new(),
        counters: BTreeMap::new(),
        sets: BTreeMap::new(),
        samples: vec![],
        fails: vec![],
    });
    let work = |w: usize| {
        let mut evals = 0u64;
        let mut nt: HashSet<u64> = HashSet::new();
        let mut counters: BTreeMap<&'static str, u64> = BTreeMap::new();
        let mut sets: BTreeMap<&'static str, HashSet<u64>> = BTreeMap::new();
        let mut slowest = (0, 0);
        loop {
            let k = next.fetch_add(1, Ordering::SeqCst);
            if k >= first + cases || stop.load(Ordering::SeqCst) {
                break;
            }
            if until.map(|u| std::time::Instant::now() >= u).unwrap_or(false) {
                break;
            }
            #[cfg(miri)]
            eprintln!("CASE {}", k);
            #[cfg(not(miri))]
            if let Some(f) = &note {
                use std::os::unix::fs::FileExt;
                let _ = f.write_at(&k.to_le_bytes(), 8 * w as u64);
            }
            at[w].ticks.store(0, Ordering::SeqCst);
            at[w].case.store(k + 1, Ordering::SeqCst);
            let t = std::time::Instant::now();
            let mut ctx = Ctx::new(k, seed, thorough);
            let r = run_case(p, &mut ctx);
            at[w].case.store(0, Ordering::SeqCst);
            slowest = slowest.max((t.elapsed().as_millis(), k));
            evals += 1;
            if !ctx.trivial {
                nt.insert(ctx.hash.finish());
            }
            for (n, c) in &ctx.counters {
                *counters.entry(n).or_insert(0) += c;
            }
            for (n, s) in std::mem::take(&mut ctx.sets) {
                sets.entry(n).or_default().extend(s);
            }
            if r.is_err() || k % (cases / 6).max(1) == 1 {
                let mut t = tot.lock().unwrap();
                if t.samples.len() < 8 {
                    t.samples.push(format!("case {}: {}", k, ctx.desc));
                }
                if let Err(f) = r {
                    let mut found = FOUND.lock().unwrap();
                    if found.len() < 3 && f.sig != "HARNESS" {
                        found.push(format!(
                            "{{\"case\":{},\"sig\":{},\"msg\":{},\"desc\":{}}}",
                            k, esc(&f.sig), esc(&f.msg), esc(&ctx.desc)
                        ));
                    }
                    t.fails.push((k, f, ctx.desc.clone()));
                    if t.fails.len() >= 12 {
                        stop.store(true, Ordering::SeqCst);
                    }
                }
            }
        }
        let mut t = tot.lock().unwrap();
        t.evals += evals;
        t.slowest = t.slowest.max(slowest);
        t.nontrivial.extend(nt);
        for (n, c) in counters {
            *t.counters.entry(n).or_insert(0) += c;
        }
        for (n, s) in sets {
            t.sets.entry(n).or_default().extend(s);
        }
    };
    if threads <= 1 {
        work(0);
    } else {
        std::thread::scope(|s| {
            for w in 0..threads {
                let work = &work;
                s.spawn(move || work(w));
            }
        });
    }
    let mut t = tot.into_inner().unwrap();
    t.fails.sort_by_key(|f| f.0);
    let mut o = String::new();
    o.push_str(&format!(
        "{{\"property\":{},\"config\":{},\"seed\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},",
        esc(p.id), esc(&config), seed, t.evals, t.nontrivial.len(), esc(p.rule)
    ));
    o.push_str(&format!("\"planned\":{},", cases));
    o.push_str(&format!("\"slowest case\":[{},{}],", t.slowest.0, t.slowest.1));
    let c: Vec<String> = t.counters.iter().map(|(n, v)| format!("{}:{}", esc(n), v)).collect();
    o.push_str(&format!("\"observed\":{{{}}},", c.join(",")));
    let c: Vec<String> = t.sets.iter().map(|(n, v)| format!("{}:{}", esc(n), v.len())).collect();
    o.push_str(&format!("\"distinct\":{{{}}},", c.join(",")));
    let s: Vec<String> = t.samples.iter().map(|s| esc(s)).collect();
    o.push_str(&format!("\"samples\":[{}],", s.join(",")));
    let missing: Vec<String> = p
        .needs
        .iter()
        .filter(|n| t.counters.get(**n).copied().unwrap_or(0) == 0)
        .map(|n| esc(n))
        .collect();
    o.push_str(&format!("\"unobserved\":[{}],", missing.join(",")));
    let f: Vec<String> = probe_fails
        .iter()
        .map(|(n, e)| {
            format!(
                "{{\"probe\":{},\"sig\":{},\"msg\":{}}}",
                esc(n),
                esc(&e.sig),
                esc(&e.msg)
            )
        })
        .collect();
    o.push_str(&format!("\"probes\":[{}],", f.join(",")));
    let f: Vec<String> = t
        .fails
        .iter()
        .map(|(k, f, d)| {
            format!(
                "{{\"case\":{},\"sig\":{},\"msg\":{},\"desc\":{}}}",
                k, esc(&f.sig), esc(&f.msg), esc(d)
            )
        })
        .collect();
    o.push_str(&format!("\"violations\":[{}]}}", f.join(",")));
    match arg("--out") {
        Some(f) if !cfg!(miri) => std::fs::write(f, o).unwrap(),
        _ => println!("REPORT {}", o),
    }
}
