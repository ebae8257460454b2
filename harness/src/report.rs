//! Verdicts and counts of one harness process, printed as one JSON line for check.py.
use crate::rng::{hash, Rng};
use std::collections::{BTreeMap, HashSet};

pub struct Cx {
    pub prop: String,
    pub seed: u64,
    /// work multiplier in percent
    pub scale: u64,
    pub rng: Rng,
    pub evals: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    nviol: u64,
    viol: Vec<(String, String)>,
    counters: BTreeMap<String, u64>,
    pub digest: u64,
    pub digests: Vec<(String, u64)>,
    crumb: Option<std::fs::File>,
    case: String,
    at: Option<(&'static str, usize, usize)>,
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

static PROGRESS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// Something was done: see `watch`
#[inline]
pub fn tick() {
    PROGRESS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
}

/// Reports an operation that never returns: nothing has been done although the process has computed for `limit`
/// seconds, or has neither done nor computed anything for four times as long.
#[cfg(not(miri))]
fn watch(limit: u64, path: String) {
    #[repr(C)]
    struct Timespec(i64, i64);
    extern "C" {
        fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
    }
    let cpu = || unsafe {
        let mut t = Timespec(0, 0);
        clock_gettime(2, &mut t);
        t.0 as u64
    };
    // (it must not be seen allocating later on)
    static READY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
    let watcher = std::thread::Builder::new().stack_size(256 << 10).spawn(move || {
        let (mut last, mut at, mut since) = (u64::MAX, 0, 0);
        READY.store(true, std::sync::atomic::Ordering::SeqCst);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let (p, now) = (PROGRESS.load(std::sync::atomic::Ordering::Relaxed), cpu());
            if p != last {
                last = p;
                at = now;
                since = 0;
                continue;
            }
            since += 1;
            let spins = now - at >= limit && since >= limit;
            if spins || since >= 4 * limit && now - at <= 1 {
                let what = if spins { "no operation returned for" } else { "every thread has been waiting for" };
                let case = std::fs::read_to_string(&path).unwrap_or_default();
                note(&path, "hang", &format!("[{}] {} {} s", case.trim(), what, since));
                std::process::abort()
            }
        }
    });
    while watcher.is_ok() && !READY.load(std::sync::atomic::Ordering::SeqCst) {
        std::thread::yield_now()
    }
}

/// Leaves a violation in a file, in case the process doesn't come to its end
fn note(path: &str, sig: &str, detail: &str) {
    use std::io::Write;
    if let Ok(mut f) = std::fs::OpenOptions::new().create(true).append(true).open(format!("{}.v", path)) {
        let _ = f.write_all(format!("[{},{}]\n", esc(sig), esc(detail)).as_bytes());
    }
}

thread_local! { static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

impl Cx {
    pub fn new(prop: &str) -> Self {
        let env = |k: &str, d: u64| std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d);
        let seed = env("VERIF_SEED", 1);
        std::panic::set_hook(Box::new(|info| {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "non-string panic".into()
            };
            let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
            let _ = LAST_PANIC.try_with(|p| {
                if let Ok(mut p) = p.try_borrow_mut() {
                    *p = format!("{}{}", msg, loc)
                }
            });
        }));
        let crumb = if cfg!(miri) {
            None
        } else {
            std::env::var("MON_CRUMB").ok().and_then(|p| std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(p).ok())
        };
        #[cfg(not(miri))]
        if let (Ok(path), limit @ 1..) = (std::env::var("MON_CRUMB"), env("MON_WATCHDOG", 0)) {
            watch(limit, path)
        }
        Cx {
            prop: prop.into(),
            seed,
            scale: env("MON_SCALE", 100),
            rng: Rng::new(seed.wrapping_mul(0x1_0001) ^ hash(prop.as_bytes())),
            evals: 0,
            distinct: HashSet::new(),
            samples: vec![],
            nviol: 0,
            viol: vec![],
            counters: BTreeMap::new(),
            digest: 0,
            digests: vec![],
            crumb,
            case: String::new(),
            at: None,
        }
    }
    pub fn n(&self, base: u64) -> u64 {
        (base * self.scale / 100).max(1)
    }
    /// Starts a case: remembered for violations, and left in a file in case the process dies
    pub fn case(&mut self, s: String) {
        tick();
        if let Some(f) = &self.crumb {
            use std::os::unix::fs::FileExt;
            let mut b = s.clone().into_bytes();
            b.resize(400, b' ');
            let _ = f.write_at(&b, 0);
        }
        self.case = s;
    }
    pub fn case_at(&mut self, name: &'static str, a: usize, b: usize) {
        self.at = Some((name, a, b));
        if self.evals & 1023 == 0 {
            self.case(format!("{} {} {}", name, a, b))
        }
    }
    pub fn eval_hash(&mut self, key: u64) {
        tick();
        self.evals += 1;
        if self.distinct.len() < 2_000_000 {
            self.distinct.insert(key);
        }
        if self.samples.len() < 4 && (self.evals & 16383 == 5000 || self.evals == 50) {
            let s = format!("{} (pair {:?})", self.case, self.at.map(|a| (a.1, a.2)));
            self.samples.push(s)
        }
    }
    /// Counts one evaluation (an oracle decision about one observed operation)
    pub fn eval(&mut self, key: &[u8]) {
        tick();
        self.evals += 1;
        if self.distinct.len() < 2_000_000 {
            self.distinct.insert(hash(key));
        }
        if self.samples.len() < 4 && (self.evals & (self.evals - 1)) == 0 && self.evals > 8 {
            let s = self.case.clone();
            if !s.is_empty() {
                self.samples.push(s)
            }
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counters.get_mut(k) {
            *v += n
        } else {
            self.counters.insert(k.into(), n);
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let v = self.counters.entry(k.into()).or_insert(0);
        *v = (*v).max(n);
    }
    pub fn observe(&mut self, bytes: &[u8]) {
        self.digest = self.digest.rotate_left(7) ^ hash(bytes);
    }
    /// `sig` identifies the kind and place of the violation (known findings are matched on it)
    pub fn violation(&mut self, sig: &str, detail: String) {
        self.nviol += 1;
        if self.viol.len() < 40 && self.viol.iter().filter(|v| v.0 == sig).count() < 3 {
            let d = format!("[{}{}] {}", self.case, self.at.map(|a| format!(" {} {} {}", a.0, a.1, a.2)).unwrap_or_default(), detail);
            if self.crumb.is_some() {
                if let Ok(path) = std::env::var("MON_CRUMB") {
                    note(&path, sig, &d)
                }
            }
            self.viol.push((sig.into(), d));
        }
    }
    pub fn check(&mut self, ok: bool, sig: &str, detail: impl FnOnce() -> String) -> bool {
        tick();
        if !ok {
            let d = detail();
            self.violation(sig, d);
        }
        ok
    }
    /// Collect what the allocator and the token ledger saw
    pub fn collect(&mut self) {
        for (kind, d) in crate::mem::take_violations() {
            let sig = format!("heap:{}", kind);
            self.violation(&sig, d);
        }
        let c = crate::tok::census();
        if c.double != 0 || c.garbage != 0 {
            thread_local! { static SEEN: std::cell::Cell<(u64, u64)> = const { std::cell::Cell::new((0, 0)) }; }
            let seen = SEEN.with(|s| s.get());
            if (c.double, c.garbage) != seen {
                SEEN.with(|s| s.set((c.double, c.garbage)));
                self.violation("drop:twice-or-garbage", format!("{} double and {} garbage drops so far", c.double, c.garbage));
            }
        }
    }
    pub fn finish(mut self) -> ! {
        self.collect();
        let mut o = String::new();
        o.push_str(&format!(
            "{{\"prop\":{},\"seed\":{},\"evals\":{},\"distinct\":{},\"digest\":\"{:016x}\",\"nviol\":{},",
            esc(&self.prop), self.seed, self.evals, self.distinct.len(), self.digest, self.nviol
        ));
        o.push_str("\"digests\":{");
        o.push_str(&self.digests.iter().map(|(k, v)| format!("{}:\"{:016x}\"", esc(k), v)).collect::<Vec<_>>().join(","));
        o.push_str("},\"counters\":{");
        o.push_str(&self.counters.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","));
        o.push_str("},\"samples\":[");
        o.push_str(&self.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","));
        o.push_str("],\"violations\":[");
        o.push_str(&self.viol.iter().map(|(s, d)| format!("[{},{}]", esc(s), esc(d))).collect::<Vec<_>>().join(","));
        o.push_str("]}");
        println!("MONRESULT {}", o);
        use std::io::Write;
        let _ = std::io::stdout().flush();
        std::process::exit(0)
    }
}

/// Runs `f`, turning a panic into Err(message)
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            let m = if p.is::<crate::tok::Blown>() { "fuse blown".to_string() } else { LAST_PANIC.with(|p| p.borrow().clone()) };
            Err(m)
        }
    }
}
