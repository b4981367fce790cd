//! Property-based-testing runner: proptest generates `Case`s (flat words that every check
//! decodes into configurations, operations and operands), runs a check on each, shrinks the
//! first failure, writes it as a replay file and reports evidence.

use proptest::collection::vec as pvec;
use proptest::prelude::*;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs::File;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const NCFG: usize = 12;
pub const NOP: usize = 6;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Case {
    pub cfg: Vec<u32>,
    pub ops: Vec<[u32; NOP]>,
}

impl Case {
    fn bytes(&self, sub: usize) -> Vec<u8> {
        let mut v: Vec<u32> = vec![sub as u32, self.ops.len() as u32];
        v.extend(&self.cfg);
        for o in &self.ops {
            v.extend(o);
        }
        v.iter().flat_map(|x| x.to_le_bytes()).collect()
    }
    fn from_bytes(b: &[u8]) -> Option<(usize, Case)> {
        let w: Vec<u32> = b.chunks_exact(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
        if w.len() < 2 + NCFG {
            return None;
        }
        let n = w[1] as usize;
        if w.len() < 2 + NCFG + n * NOP {
            return None;
        }
        let cfg = w[2..2 + NCFG].to_vec();
        let ops = (0..n)
            .map(|i| {
                let s = 2 + NCFG + i * NOP;
                let mut a = [0; NOP];
                a.copy_from_slice(&w[s..s + NOP]);
                a
            })
            .collect();
        Some((w[0] as usize, Case { cfg, ops }))
    }
}

fn splitmix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// A stream of decoded choices: first the generated words themselves, then values derived
/// from them, so that every choice is a function of the generated case.
pub struct Src<'a> {
    w: &'a [u32],
    i: usize,
    st: u64,
}

impl<'a> Src<'a> {
    pub fn new(w: &'a [u32]) -> Self {
        let mut st = 0u64;
        for &x in w {
            st = splitmix(st ^ x as u64);
        }
        if w.iter().all(|&x| x == 0) {
            st = 0;
        }
        Src { w, i: 0, st }
    }
    pub fn u32(&mut self) -> u32 {
        if self.i < self.w.len() {
            self.i += 1;
            self.w[self.i - 1]
        } else if self.st == 0 {
            0
        } else {
            self.st = splitmix(self.st);
            (self.st >> 16) as u32
        }
    }
    pub fn u64(&mut self) -> u64 {
        ((self.u32() as u64) << 32) | self.u32() as u64
    }
    /// Uniform in 0..n (n>0).
    pub fn below(&mut self, n: usize) -> usize {
        self.u32() as usize % n.max(1)
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn irange(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.u32() as i64) % (hi - lo + 1)
    }
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.u32() % den < num
    }
    /// Index chosen by weights.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let tot: u32 = w.iter().sum();
        let mut x = self.u32() % tot;
        for (i, &v) in w.iter().enumerate() {
            if x < v {
                return i;
            }
            x -= v;
        }
        w.len() - 1
    }
    /// f64 in [0,1).
    pub fn unit(&mut self) -> f64 {
        self.u32() as f64 / 4294967296.0
    }
}

pub struct Ctx {
    pub trace: String,
    pub nontrivial: bool,
    pub thorough: bool,
    pub classes: BTreeMap<&'static str, u64>,
    seen: HashSet<&'static str>,
}

impl Ctx {
    fn new(thorough: bool) -> Self {
        Ctx { trace: String::new(), nontrivial: false, thorough, classes: BTreeMap::new(), seen: HashSet::new() }
    }
    /// Count this case (once) in the class `c`.
    pub fn class(&mut self, c: &'static str) {
        if self.seen.insert(c) {
            *self.classes.entry(c).or_default() += 1;
        }
    }
}

/// Append a line to the case's readable trace.
#[macro_export]
macro_rules! step {
    ($ctx:expr, $($a:tt)*) => {{
        use std::fmt::Write as _;
        let _ = write!($ctx.trace, $($a)*);
        $ctx.trace.push_str("; ");
    }};
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

pub type CheckFn = fn(&Case, &mut Ctx) -> Result<(), String>;

pub struct Sub {
    pub name: &'static str,
    pub f: CheckFn,
    pub ops: (usize, usize),
    pub quick: u32,
    pub thorough: u32,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

fn exec(sub: &Sub, case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (sub.f)(case, ctx)));
    match r {
        Ok(r) => r,
        Err(_) => Err(format!("panicked: {}", LAST_PANIC.with(|p| p.borrow().clone()))),
    }
}

#[derive(Default)]
struct Stats {
    evals: u64,
    per_sub: BTreeMap<&'static str, u64>,
    nontrivial_hashes: HashSet<u64>,
    classes: BTreeMap<String, u64>,
    samples: Vec<String>,
}

fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn strategy(ops: (usize, usize)) -> impl Strategy<Value = Case> {
    (pvec(any::<u32>(), NCFG), pvec(any::<[u32; NOP]>(), ops.0..=ops.1)).prop_map(|(cfg, ops)| Case { cfg, ops })
}

struct Failure {
    sub: usize,
    chunk: u64,
    case: Case,
    msg: String,
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).map(|x| x as u64).unwrap_or(1)
}

fn tier_thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}

fn jesc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let mut t: String = s.chars().take(n).collect();
        t.push_str(" …");
        t
    }
}

fn write_replay(prop: &Prop, sub: usize, case: &Case, msg: &str, trace: &str) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}.replay", prop.id, prop.subs[sub].name));
    let mut s = String::new();
    s.push_str(&format!("property {}\nsub {}\n", prop.id, prop.subs[sub].name));
    s.push_str(&format!("cfg {}\n", case.cfg.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")));
    for o in &case.ops {
        s.push_str(&format!("op {}\n", o.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")));
    }
    s.push_str(&format!("# failure: {}\n", msg.replace('\n', " ")));
    s.push_str(&format!("# decoded: {}\n", clip(&trace.replace('\n', " "), 20000)));
    let _ = std::fs::write(&path, s);
    path
}

fn parse_replay(path: &Path) -> Result<(String, String, Case), String> {
    let txt = std::fs::read_to_string(path).map_err(|e| e.to_string())?;
    let (mut p, mut s, mut cfg, mut ops) = (String::new(), String::new(), vec![], vec![]);
    for l in txt.lines() {
        let mut it = l.splitn(2, ' ');
        let k = it.next().unwrap_or("");
        let v = it.next().unwrap_or("");
        let words = || -> Vec<u32> { v.split_whitespace().filter_map(|x| x.parse().ok()).collect() };
        match k {
            "property" => p = v.trim().into(),
            "sub" => s = v.trim().into(),
            "cfg" => cfg = words(),
            "op" => {
                let w = words();
                if w.len() != NOP {
                    return Err("bad op line".into());
                }
                let mut a = [0; NOP];
                a.copy_from_slice(&w);
                ops.push(a);
            }
            _ => {}
        }
    }
    if cfg.len() != NCFG {
        return Err("bad cfg line".into());
    }
    Ok((p, s, Case { cfg, ops }))
}

const CHUNKS: u64 = 24;

/// A case that normally takes milliseconds is taken not to end after this long.
const HANG_MS: u64 = 240_000;

fn report_hang(prop: &Prop, slot: &Path, ms: u64) {
    let Some((sub, case)) = std::fs::read(slot).ok().and_then(|b| Case::from_bytes(&b)) else { return };
    let msg = format!("the case did not end within {} s", ms / 1000);
    let path = write_replay(prop, sub, &case, &msg, "");
    let mut st = Stats::default();
    st.evals = 1;
    st.samples.push(format!("case of [{}] that does not end: cfg {:?} ops {:?}", prop.subs[sub].name, case.cfg, case.ops));
    write_evidence(prop, tier_thorough(), env_seed(), &st, Duration::from_millis(ms), 1, &BTreeMap::new());
    println!("failure [{}]: {}", prop.subs[sub].name, msg);
    println!("VIOLATION property={} replay={}", prop.id, path.display());
    let _ = std::io::stdout().flush();
    std::process::exit(1);
}

/// The worker process: runs every sub-check of one property.
pub fn worker(prop: &Prop, slot_dir: &Path) -> i32 {
    install_hook();
    let t0 = Instant::now();
    let seed = env_seed();
    let thorough = tier_thorough();
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let only = std::env::var("VERIF_SUB").ok();
    let mut jobs: Vec<(usize, u64, u32)> = vec![];
    for (si, s) in prop.subs.iter().enumerate() {
        if let Some(o) = &only {
            if o != s.name {
                continue;
            }
        }
        let total = ((if thorough { s.thorough } else { s.quick }) as f64 * scale).ceil().max(1.0) as u64;
        let chunks = CHUNKS.min(total);
        for c in 0..chunks {
            let n = total / chunks + if c < total % chunks { 1 } else { 0 };
            if n > 0 {
                jobs.push((si, c, n as u32));
            }
        }
    }
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let stats: Mutex<Stats> = Mutex::new(Stats::default());
    let fails: Mutex<Vec<Failure>> = Mutex::new(vec![]);
    let abort: Mutex<Option<String>> = Mutex::new(None);
    let sub_time: Mutex<BTreeMap<&'static str, f64>> = Mutex::new(BTreeMap::new());
    let nthreads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    // When each thread began its current case (milliseconds since t0, 0 = idle).
    let began: Vec<AtomicU64> = (0..nthreads).map(|_| AtomicU64::new(0)).collect();
    let done = AtomicBool::new(false);
    let running = AtomicUsize::new(nthreads);
    std::thread::scope(|sc| {
        {
            let (began, done) = (&began, &done);
            sc.spawn(move || {
                while !done.load(Ordering::SeqCst) {
                    std::thread::sleep(Duration::from_millis(50));
                    let now = t0.elapsed().as_millis() as u64;
                    for (t, b) in began.iter().enumerate() {
                        let b = b.load(Ordering::SeqCst);
                        if b > 0 && now > b + HANG_MS {
                            report_hang(prop, &slot_dir.join(format!("slot{t}")), now - b);
                        }
                    }
                }
            });
        }
        for t in 0..nthreads {
            let (jobs, next, stop, stats, fails, abort, sub_time) = (&jobs, &next, &stop, &stats, &fails, &abort, &sub_time);
            let (began, done, running) = (&began[t], &done, &running);
            let slot = File::create(slot_dir.join(format!("slot{t}"))).expect("slot");
            std::thread::Builder::new()
                .stack_size(32 << 20)
                .spawn_scoped(sc, move || loop {
                    let j = next.fetch_add(1, Ordering::SeqCst);
                    if j >= jobs.len() || stop.load(Ordering::SeqCst) {
                        if running.fetch_sub(1, Ordering::SeqCst) == 1 {
                            done.store(true, Ordering::SeqCst);
                        }
                        return;
                    }
                    let (si, chunk, n) = jobs[j];
                    let sub = &prop.subs[si];
                    let tj = Instant::now();
                    let mut key = [0u8; 32];
                    let mut st = splitmix(seed ^ 0x5eed) ^ fnv(prop.id) ^ fnv(sub.name).rotate_left(17) ^ chunk.wrapping_mul(0x9E3779B97F4A7C15);
                    for k in 0..4 {
                        st = splitmix(st);
                        key[k * 8..k * 8 + 8].copy_from_slice(&st.to_le_bytes());
                    }
                    let config = Config {
                        cases: n,
                        failure_persistence: None,
                        max_shrink_iters: 6000,
                        max_shrink_time: 40_000,
                        max_global_rejects: 1,
                        source_file: None,
                        ..Config::default()
                    };
                    let mut runner = TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &key));
                    let local = RefCell::new(Stats::default());
                    let own_fail = std::cell::Cell::new(false);
                    let res = runner.run(&strategy(sub.ops), |case| {
                        if !own_fail.get() && stop.load(Ordering::Relaxed) {
                            return Ok(());
                        }
                        let _ = slot.write_all_at(&case.bytes(si), 0);
                        let mut ctx = Ctx::new(thorough);
                        began.store(t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                        let r = exec(sub, &case, &mut ctx);
                        began.store(0, Ordering::SeqCst);
                        if !own_fail.get() {
                            let mut l = local.borrow_mut();
                            l.evals += 1;
                            *l.per_sub.entry(sub.name).or_default() += 1;
                            if ctx.nontrivial {
                                let h = fnv(&ctx.trace) ^ fnv(sub.name);
                                if l.nontrivial_hashes.insert(h) && chunk == 0 && l.samples.len() < 2 {
                                    l.samples.push(format!("[{}] {}", sub.name, clip(&ctx.trace, 500)));
                                }
                            }
                            for (k, v) in ctx.classes {
                                *l.classes.entry(format!("{}:{}", sub.name, k)).or_default() += v;
                            }
                        }
                        r.map_err(|m| {
                            own_fail.set(true);
                            stop.store(true, Ordering::SeqCst);
                            TestCaseError::fail(m)
                        })
                    });
                    {
                        let l = local.into_inner();
                        let mut s = stats.lock().unwrap();
                        s.evals += l.evals;
                        for (k, v) in l.per_sub {
                            *s.per_sub.entry(k).or_default() += v;
                        }
                        s.nontrivial_hashes.extend(l.nontrivial_hashes);
                        for (k, v) in l.classes {
                            *s.classes.entry(k).or_default() += v;
                        }
                        s.samples.extend(l.samples);
                        *sub_time.lock().unwrap().entry(sub.name).or_default() += tj.elapsed().as_secs_f64();
                    }
                    match res {
                        Ok(()) => {}
                        Err(TestError::Fail(why, case)) => {
                            let mut msg = format!("(not on every execution) {}", why.message());
                            for _ in 0..50 {
                                let mut ctx = Ctx::new(thorough);
                                if let Err(m) = exec(sub, &case, &mut ctx) {
                                    msg = m;
                                    break;
                                }
                            }
                            fails.lock().unwrap().push(Failure { sub: si, chunk, case, msg });
                        }
                        Err(TestError::Abort(r)) => {
                            *abort.lock().unwrap() = Some(format!("{}: {}", sub.name, r.message()));
                            stop.store(true, Ordering::SeqCst);
                        }
                    }
                })
                .expect("thread");
        }
    });
    let stats = stats.into_inner().unwrap();
    let mut fails = fails.into_inner().unwrap();
    fails.sort_by_key(|f| (f.case.ops.len(), f.sub, f.chunk));
    let violations = fails.len();
    write_evidence(prop, thorough, seed, &stats, t0.elapsed(), violations, &sub_time.into_inner().unwrap());
    println!(
        "{} tier={} seed={} cases={} nontrivial_distinct={} wall={:.1}s",
        prop.id,
        if thorough { "thorough" } else { "quick" },
        seed,
        stats.evals,
        stats.nontrivial_hashes.len(),
        t0.elapsed().as_secs_f64()
    );
    if let Some(a) = abort.into_inner().unwrap() {
        println!("ERROR property={} generator aborted: {a}", prop.id);
        return 2;
    }
    if let Some(f) = fails.first() {
        let mut ctx = Ctx::new(thorough);
        let _ = exec(&prop.subs[f.sub], &f.case, &mut ctx);
        let path = write_replay(prop, f.sub, &f.case, &f.msg, &ctx.trace);
        println!("failure [{}]: {}", prop.subs[f.sub].name, clip(&f.msg, 2000));
        println!("decoded case: {}", clip(&ctx.trace, 2000));
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        return 1;
    }
    0
}

fn write_evidence(prop: &Prop, thorough: bool, seed: u64, st: &Stats, wall: Duration, violations: usize, times: &BTreeMap<&'static str, f64>) {
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let mut s = String::from("{\n");
    s.push_str(&format!(" \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n", jesc(prop.id), if thorough { "thorough" } else { "quick" }, seed as i64));
    s.push_str(&format!(" \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n", st.evals, st.nontrivial_hashes.len(), jesc(prop.rule)));
    s.push_str("  \"cases_per_subcheck\": {");
    s.push_str(&st.per_sub.iter().map(|(k, v)| format!("{}: {}", jesc(k), v)).collect::<Vec<_>>().join(", "));
    s.push_str("},\n  \"cpu_s_per_subcheck\": {");
    s.push_str(&times.iter().map(|(k, v)| format!("{}: {:.2}", jesc(k), v)).collect::<Vec<_>>().join(", "));
    s.push_str("},\n  \"case_classes\": {");
    s.push_str(&st.classes.iter().map(|(k, v)| format!("{}: {}", jesc(k), v)).collect::<Vec<_>>().join(", "));
    s.push_str("},\n  \"samples\": [");
    let mut samples = st.samples.clone();
    samples.sort();
    s.push_str(&samples.iter().map(|x| jesc(x)).collect::<Vec<_>>().join(",\n   "));
    s.push_str("]\n },\n \"assumptions\": [");
    s.push_str(&prop.assumptions.iter().map(|x| jesc(x)).collect::<Vec<_>>().join(", "));
    s.push_str(&format!("],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", wall.as_secs_f64(), violations));
    let _ = std::fs::write(dir.join(format!("{}.json", prop.id)), s);
}

fn crash_signal(st: &std::process::ExitStatus) -> Option<i32> {
    // SIGILL, SIGABRT, SIGBUS, SIGFPE, SIGSEGV: the code under test crashed (stack overflow,
    // abort, panic while panicking). SIGKILL/SIGTERM mean we were stopped from outside.
    st.signal().filter(|s| [4, 6, 7, 8, 11].contains(s))
}

fn run_case_in_child(prop: &Prop, bin: &[u8], dir: &Path) -> Option<i32> {
    let f = dir.join("one");
    std::fs::write(&f, bin).ok()?;
    let me = std::env::current_exe().ok()?;
    let mut ch = Command::new(me).arg("exec-bin").arg(prop.id).arg(&f).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).spawn().ok()?;
    let t0 = Instant::now();
    loop {
        match ch.try_wait() {
            Ok(Some(st)) => return crash_signal(&st),
            Ok(None) if t0.elapsed() > Duration::from_secs(30) => {
                let _ = ch.kill();
                let _ = ch.wait();
                return None;
            }
            _ => std::thread::sleep(Duration::from_millis(5)),
        }
    }
}

/// The parent process: runs the worker under a watchdog, and turns a crash of the worker
/// (which would otherwise lose the failing case) into a reproducible violation.
pub fn run(prop: &Prop) -> i32 {
    let dir = std::env::temp_dir().join(format!("vh-{}-{}", prop.id, std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let code = run_in(prop, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn run_in(prop: &Prop, dir: &Path) -> i32 {
    let me = match std::env::current_exe() {
        Ok(m) => m,
        Err(e) => {
            println!("ERROR {e}");
            return 2;
        }
    };
    let _ = std::io::stdout().flush();
    let mut ch = match Command::new(me).arg("worker").arg(prop.id).arg(dir).spawn() {
        Ok(c) => c,
        Err(e) => {
            println!("ERROR cannot start worker: {e}");
            return 2;
        }
    };
    let limit = Duration::from_secs(if tier_thorough() { 4 * 3600 } else { 800 });
    let t0 = Instant::now();
    let st = loop {
        match ch.try_wait() {
            Ok(Some(st)) => break st,
            Ok(None) => {
                if t0.elapsed() > limit {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    println!("ERROR property={} watchdog: no answer within {}s", prop.id, limit.as_secs());
                    return 2;
                }
                std::thread::sleep(Duration::from_millis(20));
            }
            Err(e) => {
                println!("ERROR {e}");
                return 2;
            }
        }
    };
    if let Some(c) = st.code() {
        return if c == 0 || c == 1 { c } else { 2 };
    }
    let Some(sig) = crash_signal(&st) else {
        println!("ERROR property={} worker ended by signal {:?}", prop.id, st.signal());
        return 2;
    };
    println!("worker crashed (signal {sig}); looking for the case");
    for t in 0..64 {
        let Ok(b) = std::fs::read(dir.join(format!("slot{t}"))) else { continue };
        let Some((sub, mut case)) = Case::from_bytes(&b) else { continue };
        if run_case_in_child(prop, &case.bytes(sub), dir).is_none() {
            continue;
        }
        // Shrink by dropping operations.
        let mut budget = 120;
        let mut step = (case.ops.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < case.ops.len() && budget > 0 {
                let mut c2 = case.clone();
                let hi = (i + step).min(c2.ops.len());
                c2.ops.drain(i..hi);
                budget -= 1;
                if c2.ops.len() >= prop.subs[sub].ops.0 && run_case_in_child(prop, &c2.bytes(sub), dir).is_some() {
                    case = c2;
                } else {
                    i += step;
                }
            }
            if step == 1 || budget == 0 {
                break;
            }
            step = (step / 2).max(1);
        }
        let msg = format!("the process crashed with signal {sig} (stack overflow or abort)");
        let path = write_replay(prop, sub, &case, &msg, "");
        let mut st = Stats::default();
        st.evals = 1;
        st.samples.push(format!("crashing case of [{}]: cfg {:?} ops {:?}", prop.subs[sub].name, case.cfg, case.ops));
        write_evidence(prop, tier_thorough(), env_seed(), &st, t0.elapsed(), 1, &BTreeMap::new());
        println!("failure [{}]: {}", prop.subs[sub].name, msg);
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        return 1;
    }
    println!("ERROR property={} worker crashed with signal {sig} but no single case reproduces it", prop.id);
    2
}

pub fn exec_bin(prop: &Prop, file: &Path) -> i32 {
    install_hook();
    let Some((sub, case)) = std::fs::read(file).ok().and_then(|b| Case::from_bytes(&b)) else { return 2 };
    let thorough = tier_thorough();
    // Same stack as the workers.
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(32 << 20)
            .spawn_scoped(sc, || {
                let mut ctx = Ctx::new(thorough);
                match exec(&prop.subs[sub], &case, &mut ctx) {
                    Ok(()) => 0,
                    Err(_) => 1,
                }
            })
            .unwrap()
            .join()
            .unwrap_or(2)
    })
}

pub fn replay(props: &[Prop], file: &Path) -> i32 {
    install_hook();
    let (p, s, case) = match parse_replay(file) {
        Ok(x) => x,
        Err(e) => {
            println!("ERROR {e}");
            return 2;
        }
    };
    let Some((prop, sub)) = props.iter().find(|x| x.id == p).and_then(|pr| pr.subs.iter().find(|y| y.name == s).map(|y| (pr, y))) else {
        println!("ERROR unknown property or sub-check in replay file");
        return 2;
    };
    let mut ctx = Ctx::new(tier_thorough());
    let r = std::thread::scope(|sc| {
        let ctx = &mut ctx;
        let case = &case;
        std::thread::Builder::new().stack_size(32 << 20).spawn_scoped(sc, move || exec(sub, case, ctx)).unwrap().join()
    });
    println!("decoded: {}", ctx.trace);
    match r {
        Ok(Ok(())) => {
            println!("replay passes");
            0
        }
        Ok(Err(m)) => {
            println!("failure: {m}");
            println!("VIOLATION property={} replay={}", prop.id, file.display());
            1
        }
        Err(_) => 2,
    }
}
