//! Case runner, verdicts, evidence, panic hook, counting allocator, watchdog.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// ---------- counting allocator: live bytes attributed to the allocating thread ----------
pub struct Counting;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}
fn bump(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        bump(l.size() as i64);
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        bump(l.size() as i64);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        bump(-(l.size() as i64));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        bump(n as i64 - l.size() as i64);
        unsafe { System.realloc(p, l, n) }
    }
}
/// live heap bytes of this thread
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}
pub fn peak() -> i64 {
    PEAK.with(|l| l.get())
}
pub fn reset_peak() {
    PEAK.with(|p| p.set(live()))
}

// ---------- rng ----------
#[derive(Clone)]
pub struct Rng(u64);
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.u64() % n as u64) as usize
        }
    }
    /// inclusive range
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        if b <= a {
            a
        } else {
            a + self.below(b - a + 1)
        }
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())].clone()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    pub fn fork(&mut self) -> Rng {
        Rng(self.u64())
    }
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

// ---------- verdicts ----------
#[derive(Debug, Clone)]
pub enum Bad {
    /// an oracle refuted the property
    Violation(String),
    /// no progress although progress was due, after many reactor turns
    Stall(String),
    /// the case could not be set up or judged
    Inconclusive(String),
}
pub type Res<T = ()> = Result<T, Bad>;
pub fn violation<T>(s: impl Into<String>) -> Res<T> {
    Err(Bad::Violation(s.into()))
}
pub fn inconclusive<T>(s: impl Into<String>) -> Res<T> {
    Err(Bad::Inconclusive(s.into()))
}
impl From<std::io::Error> for Bad {
    fn from(e: std::io::Error) -> Self {
        Bad::Inconclusive(format!("harness io: {e:?}"))
    }
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err($crate::core::Bad::Violation(format!($($t)*))); } };
}

/// What one case tells the runner.
pub struct Case {
    pub rng: Rng,
    pub tier: Tier,
    pub scenario: &'static str,
    pub index: u64,
    /// human readable parameters; the distinctness signature too
    pub desc: String,
    /// counters of observed events
    pub ev: BTreeMap<&'static str, u64>,
    /// by the scenario's own rule
    pub nontrivial: bool,
    /// true in re-runs that must not use syscall fault injection
    pub no_inject: bool,
    /// (key of the finding, what was seen): fine if listed in the findings file, a violation otherwise
    pub known: Vec<(&'static str, String)>,
    pub slot: Arc<Slot>,
}
impl Case {
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.ev.entry(k).or_default() += n;
    }
    pub fn d(&mut self, s: impl AsRef<str>) {
        if !self.desc.is_empty() {
            self.desc.push(' ');
        }
        self.desc.push_str(s.as_ref());
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Scenario {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Case) -> Res,
}

// ---------- panic hook ----------
thread_local! { static PANICS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) }; }
/// panics on threads that do not belong to a case worker (multi threaded runtimes)
pub static FOREIGN_PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());
thread_local! { static WORKER: Cell<bool> = const { Cell::new(false) }; }
pub const INJECTED: &str = "INJECTED";
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        if msg.contains(INJECTED) {
            return;
        }
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let harness = std::env::var("PSMON_BT").is_ok();
        let text = format!("{msg} at {loc}");
        // one that ends the process: std's checks of unsafe preconditions, a panic where there must be none
        let fatal = msg.contains("unsafe precondition") || msg.contains("cannot unwind") || msg.contains("aborting process") || msg.contains("in a destructor during cleanup");
        if harness || fatal {
            eprintln!("panic: {text}\n{}", std::backtrace::Backtrace::force_capture());
        }
        if WORKER.try_with(|w| w.get()).unwrap_or(false) {
            let _ = PANICS.try_with(|p| p.borrow_mut().push(text));
        } else {
            FOREIGN_PANICS.lock().unwrap_or_else(|e| e.into_inner()).push(text);
        }
    }));
}
/// panics seen on this thread since the last call (excluding injected ones)
pub fn take_panics() -> Vec<String> {
    PANICS.with(|p| std::mem::take(&mut *p.borrow_mut()))
}
fn is_harness_panic(p: &str) -> bool {
    // location is the last " at " part; harness sources are given relative to the crate
    p.rsplit(" at ").next().map(|l| l.starts_with("src/") || l.contains("/verif/harness/")).unwrap_or(false)
}

// ---------- watchdog ----------
#[derive(Default)]
pub struct Slot {
    pub no: AtomicU64,
    pub tid: AtomicU64,
    pub busy: AtomicBool,
    /// advanced by the case's driver each time its runtime turns
    pub turns: AtomicU64,
    pub label: Mutex<String>,
}
fn thread_cpu_ms(tid: u64) -> Option<(char, u64)> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = s.rsplit(')').next()?;
    let f: Vec<&str> = rest.split_whitespace().collect();
    let st = f.first()?.chars().next()?;
    let ut: u64 = f.get(11)?.parse().ok()?;
    let stt: u64 = f.get(12)?.parse().ok()?;
    Some((st, (ut + stt) * 10))
}
pub fn gettid() -> u64 {
    unsafe { libc::syscall(libc::SYS_gettid) as u64 }
}

// ---------- runner ----------
#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub nontrivial: u64,
    pub per: BTreeMap<&'static str, (u64, u64)>, // scenario -> (run, planned)
    pub ev: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<(String, u64, String, String)>, // scenario,index,desc,msg
    pub known: Vec<String>,
    pub inconclusive: Vec<String>,
    pub unreproduced: Vec<String>,
    pub max_case_ms: u64,
}

pub struct Opts {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub evidence: String,
    pub workers: usize,
    pub cap: Duration,
    pub only: Option<(String, u64)>,
    pub scale: f64,
    pub replays: String,
    /// keys of listed findings of this property
    pub findings: Vec<String>,
    /// (k, n): every n-th job, starting with the k-th
    pub shard: (usize, usize),
}

pub fn case_seed(seed: u64, scenario: &str, index: u64) -> u64 {
    mix(mix(seed ^ 0x5eed).wrapping_add(hash_str(scenario)).wrapping_add(mix(index)))
}

fn one(o: &Opts, sc: &Scenario, index: u64, slot: &Arc<Slot>, no_inject: bool) -> (Case, Res) {
    let mut c = Case {
        rng: Rng::new(case_seed(o.seed, sc.name, index)),
        tier: o.tier,
        scenario: sc.name,
        index,
        desc: String::new(),
        ev: Default::default(),
        nontrivial: true,
        no_inject,
        known: vec![],
        slot: slot.clone(),
    };
    let _ = take_panics();
    *slot.label.lock().unwrap() = format!("{}#{}", sc.name, index);
    note_case(slot.no.load(Ordering::Relaxed), sc.name, index);
    slot.turns.fetch_add(1, Ordering::Relaxed);
    slot.busy.store(true, Ordering::SeqCst);
    let t = mix(case_seed(o.seed, sc.name, index) ^ 0x71c4);
    crate::net::leaps(if t % 4 == 0 && !cfg!(miri) { t | 1 } else { 0 });
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (sc.run)(&mut c)));
    let leapt = crate::net::leapt();
    crate::net::leaps(0);
    if leapt > 0 {
        c.count("clock_leaps", leapt);
    }
    slot.busy.store(false, Ordering::SeqCst);
    let panics = take_panics();
    let r = match r {
        Ok(r) => r,
        Err(_) => {
            // did the harness itself panic, or code under test that was called inline?
            match panics.last() {
                Some(p) if is_harness_panic(p) => inconclusive(format!("harness panic: {p}")),
                Some(p) => violation(format!("panic: {p}")),
                None => inconclusive("panic without message"),
            }
        }
    };
    let r = match (r, panics.iter().find(|p| !is_harness_panic(p))) {
        (Err(Bad::Violation(m)), _) => violation(m),
        (_, Some(p)) => violation(format!("code under test panicked: {p}")),
        (r, None) => match panics.first() {
            Some(p) if r.is_ok() => inconclusive(format!("harness task panic: {p}")),
            _ => r,
        },
    };
    (c, r)
}

pub fn run(o: &Opts, scenarios: &[Scenario]) -> Report {
    let start = Instant::now();
    let report = Mutex::new(Report::default());
    // job list: scenarios interleaved in proportion, so that a cap cuts all of them evenly
    let mut jobs: Vec<(usize, u64)> = Vec::new();
    let counts: Vec<u64> = scenarios
        .iter()
        .map(|s| {
            let n = if o.tier == Tier::Quick { s.quick } else { s.thorough };
            ((n as f64 * o.scale).ceil() as u64).max(1)
        })
        .collect();
    if let Some((name, idx)) = &o.only {
        for (i, s) in scenarios.iter().enumerate() {
            if s.name == name {
                jobs.push((i, *idx));
            }
        }
    } else {
        let mut all: Vec<(f64, usize, u64)> = Vec::new();
        for (i, n) in counts.iter().enumerate() {
            for k in 0..*n {
                all.push(((k as f64 + 0.5) / *n as f64, i, k));
            }
        }
        all.sort_by(|a, b| a.partial_cmp(b).unwrap());
        // every scenario starts early
        let mut first: Vec<(usize, u64)> = (0..scenarios.len()).map(|i| (i, 0)).collect();
        jobs.append(&mut first);
        jobs.extend(all.into_iter().filter(|j| j.2 != 0).map(|j| (j.1, j.2)));
    }
    let jobs: Vec<_> = jobs.into_iter().enumerate().filter(|(i, _)| i % o.shard.1 == o.shard.0).map(|j| j.1).collect();
    {
        let mut r = report.lock().unwrap();
        for (i, s) in scenarios.iter().enumerate() {
            r.per.insert(s.name, (0, counts[i]));
        }
    }
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let slots: Vec<Arc<Slot>> = (0..o.workers).map(|_| Arc::new(Slot::default())).collect();
    for (i, s) in slots.iter().enumerate() {
        s.no.store(i as u64, Ordering::Relaxed);
    }
    std::thread::scope(|scope| {
        // watchdog: a case whose runtime stopped turning while burning or sleeping
        let wd_slots = slots.clone();
        let (reportr, doner) = (&report, &done);
        scope.spawn(move || {
            let mut st: HashMap<usize, (u64, u64, Instant, u32)> = HashMap::new();
            while !doner.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(500));
                for (i, s) in wd_slots.iter().enumerate() {
                    if !s.busy.load(Ordering::SeqCst) {
                        st.remove(&i);
                        continue;
                    }
                    let turns = s.turns.load(Ordering::Relaxed);
                    let Some((state, cpu)) = thread_cpu_ms(s.tid.load(Ordering::Relaxed)) else {
                        continue;
                    };
                    let e = st.entry(i).or_insert((turns, cpu, Instant::now(), 0));
                    if e.0 != turns {
                        *e = (turns, cpu, Instant::now(), 0);
                        continue;
                    }
                    e.3 = if state == 'S' { e.3 + 1 } else { 0 };
                    let burned = cpu.saturating_sub(e.1);
                    let slow = if cfg!(miri) { 100 } else { 1 };
                    let livelock = burned > 45_000 * slow;
                    let blocked = e.2.elapsed() > Duration::from_secs(90) && e.3 > 120;
                    if livelock || blocked {
                        let label = s.label.lock().unwrap().clone();
                        let (sc, idx) = label.split_once('#').unwrap_or((&label, "0"));
                        let msg = if livelock {
                            format!("livelock: a single poll burned {burned} ms of cpu and did not return")
                        } else {
                            "deadlock: the runtime thread slept outside of its event loop and never came back".to_string()
                        };
                        let mut r = reportr.lock().unwrap();
                        r.violations.push((sc.to_string(), idx.parse().unwrap_or(0), String::new(), msg));
                        finish(o, &r, start.elapsed());
                        std::process::exit(1);
                    }
                }
            }
        });
        let hs: Vec<_> = slots
            .iter()
            .map(|slot| {
                let (jobs, next, stop, report) = (&jobs, &next, &stop, &report);
                scope.spawn(move || {
                    WORKER.with(|w| w.set(true));
                    slot.tid.store(gettid(), Ordering::Relaxed);
                    loop {
                        if stop.load(Ordering::SeqCst) || start.elapsed() > o.cap {
                            break;
                        }
                        let j = next.fetch_add(1, Ordering::SeqCst);
                        let Some((si, idx)) = jobs.get(j).copied() else { break };
                        let sc = &scenarios[si];
                        let t0 = Instant::now();
                        let (c, r) = one(o, sc, idx, slot, false);
                        let ms = t0.elapsed().as_millis() as u64;
                        if std::env::var("PSMON_TRACE").is_ok() {
                            eprintln!("{}#{} {}ms {:?} {}", sc.name, idx, ms, r, c.desc);
                        }
                        let mut unrepro = None;
                        let r = match r {
                            Err(Bad::Stall(m)) => {
                                // decided only if it happens again, without fault injection
                                let mut again = None;
                                for _ in 0..3 {
                                    let (c2, r2) = one(o, sc, idx, slot, true);
                                    match r2 {
                                        Err(Bad::Stall(m2)) => {
                                            again = Some(violation(format!("stall (reproduced): {m2}; first: {m} [{}]", c2.desc)));
                                            break;
                                        }
                                        Err(Bad::Violation(m2)) => {
                                            again = Some(violation(m2));
                                            break;
                                        }
                                        _ => {}
                                    }
                                }
                                again.unwrap_or_else(|| {
                                    unrepro = Some(format!("{}#{} {}", sc.name, idx, m));
                                    Ok(())
                                })
                            }
                            r => r,
                        };
                        let mut r = r;
                        if r.is_ok() {
                            for (k, text) in &c.known {
                                if !o.findings.iter().any(|f| f == k) {
                                    r = violation(text.clone());
                                }
                            }
                        }
                        let mut rep = report.lock().unwrap();
                        if r.is_ok() {
                            for (_, text) in &c.known {
                                if !rep.known.contains(text) {
                                    rep.known.push(text.clone());
                                }
                            }
                        }
                        rep.max_case_ms = rep.max_case_ms.max(ms);
                        if let Some(u) = unrepro {
                            rep.unreproduced.push(u.clone());
                            // a wedge that keeps happening is not an accident of this machine
                            if rep.unreproduced.len() >= 6 {
                                let m = format!("stalls in {} different cases, latest: {u}", rep.unreproduced.len());
                                rep.violations.push((sc.name.into(), idx, c.desc.clone(), m));
                                stop.store(true, Ordering::SeqCst);
                            }
                        }
                        match r {
                            Ok(()) => {
                                rep.evaluations += 1;
                                rep.per.get_mut(sc.name).unwrap().0 += 1;
                                for (k, v) in &c.ev {
                                    *rep.ev.entry(k).or_default() += v;
                                }
                                if c.nontrivial {
                                    rep.nontrivial += 1;
                                    rep.distinct.insert(hash_str(&format!("{} {}", sc.name, c.desc)));
                                }
                                if idx == 0 || (rep.samples.len() < 12 && idx % 7 == 3) {
                                    let ev: Vec<String> = c.ev.iter().map(|(k, v)| format!("{k}={v}")).collect();
                                    let d: String = c.desc.chars().take(400).collect();
                                    rep.samples.push(format!("{}#{}: {} | {}", sc.name, idx, d, ev.join(" ")));
                                }
                            }
                            Err(Bad::Inconclusive(m)) => {
                                rep.inconclusive.push(format!("{}#{}: {}", sc.name, idx, m));
                            }
                            Err(Bad::Violation(m)) | Err(Bad::Stall(m)) => {
                                rep.evaluations += 1;
                                rep.per.get_mut(sc.name).unwrap().0 += 1;
                                rep.violations.push((sc.name.into(), idx, c.desc.clone(), m));
                                if rep.violations.len() >= 3 {
                                    stop.store(true, Ordering::SeqCst);
                                }
                            }
                        }
                    }
                })
            })
            .collect();
        for h in hs {
            let _ = h.join();
        }
        done.store(true, Ordering::SeqCst);
    });
    let mut rep = report.into_inner().unwrap();
    let foreign = std::mem::take(&mut *FOREIGN_PANICS.lock().unwrap_or_else(|e| e.into_inner()));
    for p in foreign {
        if is_harness_panic(&p) {
            rep.inconclusive.push(format!("harness panic: {p}"));
        } else {
            rep.violations.push(("runtime-thread".into(), 0, String::new(), format!("code under test panicked: {p}")));
        }
    }
    finish(o, &rep, start.elapsed());
    rep
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// ---------- crashes ----------
// The cases run in a child process. It notes which cases are under way, so that a crash can be pinned on one.
static NOTES: std::sync::OnceLock<std::fs::File> = std::sync::OnceLock::new();
const NOTE: usize = 64;
fn note_case(no: u64, scenario: &str, index: u64) {
    use std::os::unix::fs::FileExt;
    if let Some(f) = NOTES.get() {
        let _ = f.write_all_at(format!("{:<63}\n", format!("{scenario}:{index}")).as_bytes(), no * NOTE as u64);
    }
}
pub fn keep_notes(path: &str) {
    if let Ok(f) = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(path) {
        let _ = NOTES.set(f);
    }
}
enum End {
    Exit(i32),
    Crash(i32, String),
}
fn child(args: &[String], notes: &str) -> std::io::Result<End> {
    use std::io::{Read, Write};
    use std::os::unix::process::{CommandExt, ExitStatusExt};
    let mut cmd = std::process::Command::new(std::env::current_exe()?);
    cmd.args(args).env("PSMON_CHILD", notes).stderr(std::process::Stdio::piped());
    // it does not outlive us
    unsafe {
        cmd.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    let mut c = cmd.spawn()?;
    let mut err = c.stderr.take().unwrap();
    let mut tail: Vec<u8> = vec![];
    let mut b = [0; 4096];
    while let Ok(n) = err.read(&mut b) {
        if n == 0 {
            break;
        }
        let _ = std::io::stderr().write_all(&b[..n]);
        tail.extend_from_slice(&b[..n]);
        if tail.len() > 1 << 16 {
            tail.drain(..1 << 15);
        }
    }
    let st = c.wait()?;
    Ok(match st.signal() {
        Some(s) if [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGTRAP].contains(&s) => End::Crash(s, String::from_utf8_lossy(&tail).into_owned()),
        Some(s) => End::Exit(128 + s),
        None => End::Exit(st.code().unwrap_or(2)),
    })
}
fn crash_report(o: &Opts, sc: &str, idx: u64, msg: String) -> i32 {
    let mut r = Report::default();
    r.evaluations = 1;
    r.violations.push((sc.to_string(), idx, String::new(), msg));
    finish(o, &r, Duration::ZERO);
    1
}
/// runs the cases in a child; one that crashes twice is a violation
pub fn supervise(o: &Opts, args: &[String]) -> i32 {
    let notes = format!("{}.running", o.evidence);
    let mut out = 2;
    for attempt in 0..2 {
        let e = child(args, &notes);
        let text = std::fs::read_to_string(&notes).unwrap_or_default();
        let _ = std::fs::remove_file(&notes);
        match e {
            Ok(End::Exit(code)) => {
                out = code;
                break;
            }
            Ok(End::Crash(sig, first)) => {
                let what = |t: &str| t.lines().find(|l| l.starts_with("panic: ") || l.contains("memory allocation of") || l.contains("overflowed its stack")).unwrap_or("").to_string();
                let m = format!("the process was ended by signal {sig} {}", what(&first));
                eprintln!("{m}; looking for the case");
                let mut cases: Vec<&str> = text.lines().map(|l| l.trim()).filter(|l| !l.is_empty()).collect();
                cases.dedup();
                let limit = Instant::now() + Duration::from_secs(120);
                for c in cases {
                    let mut a = args.to_vec();
                    a.extend(["--only".to_string(), c.to_string()]);
                    for _ in 0..2 {
                        if Instant::now() > limit {
                            break;
                        }
                        if let Ok(End::Crash(sig, t)) = child(&a, &notes) {
                            let _ = std::fs::remove_file(&notes);
                            let (sc, idx) = c.split_once(':').unwrap_or((c, "0"));
                            return crash_report(o, sc, idx.parse().unwrap_or(0), format!("the process was ended by signal {sig} {}", what(&t)));
                        }
                    }
                }
                let _ = std::fs::remove_file(&notes);
                if attempt == 1 {
                    return crash_report(o, "any", 0, format!("{m} (twice; not pinned on one case)"));
                }
            }
            Err(e) => {
                eprintln!("cannot start the cases: {e}");
                break;
            }
        }
    }
    out
}

fn finish(o: &Opts, r: &Report, wall: Duration) {
    let tier = if o.tier == Tier::Quick { "quick" } else { "thorough" };
    let list = |v: &[String]| v.iter().map(|s| js(s)).collect::<Vec<_>>().join(",");
    let per = r
        .per
        .iter()
        .map(|(k, (a, b))| format!("{}:{{\"run\":{a},\"planned\":{b}}}", js(k)))
        .collect::<Vec<_>>()
        .join(",");
    let ev = r.ev.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(",");
    let inc: Vec<String> = r.inconclusive.iter().take(20).cloned().collect();
    let out = format!(
        "{{\"property\":{},\"tier\":\"{tier}\",\"seed\":{},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"observed_events\":{{{}}},\"scenarios\":{{{}}},\"inconclusive_cases\":{},\"inconclusive_samples\":[{}],\"unreproduced_stalls\":[{}],\"max_case_ms\":{}}},\"assumptions\":[\"held on the executions listed, which sample inputs, segmentations, schedules and faults; loopback TCP of this kernel\"],\"wall_s\":{:.2},\"violations\":{}}}\n",
        js(&o.id),
        o.seed,
        r.evaluations,
        r.distinct.len(),
        js("cases are generated from VERIF_SEED per scenario (name#index); a case is non-trivial if it reached the situation its scenario is about (its own rule in the code), and distinct by its generated parameters"),
        list(&r.samples),
        ev,
        per,
        r.inconclusive.len(),
        list(&inc),
        list(&r.unreproduced),
        r.max_case_ms,
        wall.as_secs_f64(),
        r.violations.len()
    );
    if let Err(e) = std::fs::write(&o.evidence, out) {
        eprintln!("cannot write evidence {}: {e}", o.evidence);
    }
    for k in &r.known {
        println!("KNOWN-FINDING: property={} {k}", o.id);
    }
    for (sc, idx, desc, msg) in &r.violations {
        let _ = std::fs::create_dir_all(&o.replays);
        let path = format!("{}/{}-{}-{}.json", o.replays, o.id, sc, idx);
        let _ = std::fs::write(
            &path,
            format!(
                "{{\"property\":{},\"scenario\":{},\"index\":{idx},\"seed\":{},\"tier\":\"{tier}\",\"case\":{},\"violation\":{},\"replay_cmd\":{}}}\n",
                js(&o.id),
                js(sc),
                o.seed,
                js(desc),
                js(msg),
                js(&format!("cd /verif && VERIF_SEED={} ./check.sh {} {tier} --only {sc}:{idx}", o.seed, o.id))
            ),
        );
        println!("violated by {sc}#{idx}: {msg}\n  case: {desc}");
        println!("VIOLATION property={} replay={}", o.id, path);
    }
    println!(
        "{} {tier} seed={} cases={} distinct={} inconclusive={} unreproduced_stalls={} violations={} wall={:.1}s",
        o.id,
        o.seed,
        r.evaluations,
        r.distinct.len(),
        r.inconclusive.len(),
        r.unreproduced.len(),
        r.violations.len(),
        wall.as_secs_f64()
    );
    for i in r.inconclusive.iter().take(5) {
        println!("  inconclusive {i}");
    }
    for i in r.unreproduced.iter().take(5) {
        println!("  unreproduced stall {i}");
    }
}
