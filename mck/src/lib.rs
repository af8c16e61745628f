//! mck: a small exhaustive explorer.
//!
//! A check is a list of finite *spaces*. A space has a length and runs one case per index; the
//! explorer forks worker processes that take indices from shared counters until every index of every
//! space has been run, so each case runs in a process whose death can be attributed to it. A case that
//! violates the property returns `Err`; a case that kills or hangs its process is re-run alone in a
//! fresh process and reported if it does so again. Nothing is sampled.

use std::collections::BTreeMap;
use std::fs::{self, File, OpenOptions};
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicU8, Ordering::SeqCst};
use std::time::{Duration, Instant};

pub mod json;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// One finite space of cases.
pub trait Space {
    fn name(&self) -> String;
    /// What is enumerated (goes to the evidence file).
    fn rule(&self) -> String;
    fn len(&self) -> u64;
    /// Stable, human readable identity of a case. Known findings refer to it.
    fn key(&self, i: u64) -> String;
    fn run(&self, i: u64, cx: &mut Cx) -> Result<(), String>;
    /// Wall-clock limit of one case before it is suspected of not terminating.
    fn limit(&self) -> Duration {
        Duration::from_secs(20)
    }
}

/// A space given by closures.
pub struct FnSpace<K, R> {
    pub name: String,
    pub rule: String,
    pub len: u64,
    pub key: K,
    pub run: R,
    pub limit: Duration,
}

impl<K: Fn(u64) -> String, R: Fn(u64, &mut Cx) -> Result<(), String>> Space for FnSpace<K, R> {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn rule(&self) -> String {
        self.rule.clone()
    }
    fn len(&self) -> u64 {
        self.len
    }
    fn key(&self, i: u64) -> String {
        (self.key)(i)
    }
    fn run(&self, i: u64, cx: &mut Cx) -> Result<(), String> {
        (self.run)(i, cx)
    }
    fn limit(&self) -> Duration {
        self.limit
    }
}

pub fn space<K, R>(name: &str, rule: &str, len: u64, key: K, run: R) -> Box<dyn Space>
where
    K: Fn(u64) -> String + 'static,
    R: Fn(u64, &mut Cx) -> Result<(), String> + 'static,
{
    Box::new(FnSpace {
        name: name.into(),
        rule: rule.into(),
        len,
        key,
        run,
        limit: Duration::from_secs(20),
    })
}

/// A space over a list of cases.
pub fn list_space<T, R>(name: &str, rule: &str, cases: Vec<T>, run: R) -> Box<dyn Space>
where
    T: std::fmt::Debug + 'static,
    R: Fn(&T, &mut Cx) -> Result<(), String> + 'static,
{
    let cases = std::rc::Rc::new(cases);
    let c2 = cases.clone();
    space(
        name,
        rule,
        cases.len() as u64,
        move |i| format!("{:?}", cases[i as usize]),
        move |i, cx| run(&c2[i as usize], cx),
    )
}

/// Mixed-radix decoding of an index.
pub fn mixed(mut i: u64, radices: &[usize]) -> Vec<usize> {
    radices
        .iter()
        .map(|&r| {
            let d = (i % r as u64) as usize;
            i /= r as u64;
            d
        })
        .collect()
}
pub fn product(radices: &[usize]) -> u64 {
    radices.iter().map(|&r| r as u64).product()
}

/// All assignments of `radices` in which some `t` parameters take every combination of their values
/// and the others hold their default (index 0): the "at most t deviations from the default" space.
pub fn deviations(radices: &[usize], t: usize) -> Vec<Vec<usize>> {
    fn rec(r: &[usize], k: usize, left: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if k == r.len() {
            out.push(cur.clone());
            return;
        }
        cur.push(0);
        rec(r, k + 1, left, cur, out);
        cur.pop();
        if left > 0 {
            for v in 1..r[k] {
                cur.push(v);
                rec(r, k + 1, left - 1, cur, out);
                cur.pop();
            }
        }
    }
    let mut out = vec![];
    rec(radices, 0, t, &mut vec![], &mut out);
    // simplest first
    out.sort_by_key(|v| v.iter().filter(|x| **x != 0).count());
    out
}

/// FNV-1a with a final mix.
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for &x in b {
        h ^= x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    mix64(h ^ (b.len() as u64).wrapping_mul(0x9E3779B97F4A7C15))
}
pub fn mix64(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn hash_i32(b: &[i32]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for &x in b {
        h ^= x as u32 as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    mix64(h)
}

const NCOUNT: usize = 64;
const NOTE: usize = 1024;
const MAXW: usize = 32;
const MAXS: usize = 64;
const SETBITS: usize = 23;

#[repr(C)]
struct Slot {
    space: AtomicU32,
    idx: AtomicU64, // idx+1, 0 = idle
    started_ms: AtomicU64,
    // the chunk being worked on, so that a replacement worker finishes it
    rest_space: AtomicU32,
    rest_from: AtomicU64,
    rest_to: AtomicU64,
    // the cases this worker process ran, the latest HIST of them
    hist_len: AtomicU64,
    hist: [AtomicU64; HIST],
    note_len: AtomicU32,
    note: [AtomicU8; NOTE],
}

/// How many earlier cases of the same process are run again before a failure that a case alone does
/// not show (memory damaged or left behind by an earlier one).
const HIST: usize = 64;

#[repr(C)]
struct Shared {
    next: [AtomicU64; MAXS],
    done: [AtomicU64; MAXS],
    counters: [AtomicU64; NCOUNT],
    stop: AtomicU32,
    set_used: [AtomicU64; 2],
    slots: [Slot; MAXW],
    sets: [[AtomicU64; 1 << SETBITS]; 2],
}

fn map_shared() -> &'static Shared {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        &*(p as *const Shared)
    }
}

/// Counter names used by `Cx::add`.
static NAMES: std::sync::Mutex<Vec<&'static str>> = std::sync::Mutex::new(Vec::new());

pub struct Cx {
    sh: &'static Shared,
    slot: usize,
    names: &'static [&'static str],
    pub tier: Tier,
    pub replay: bool,
}

impl Cx {
    /// Adds to one of the check's declared counters.
    pub fn add(&self, name: &str, n: u64) {
        let k = self.names.iter().position(|x| *x == name).unwrap_or_else(|| panic!("undeclared counter {name}"));
        self.sh.counters[k].fetch_add(n, SeqCst);
    }
    /// One more transition of the system under test (an API call, an event delivered).
    pub fn transitions(&self, n: u64) {
        self.tick();
        self.sh.counters[0].fetch_add(n, SeqCst);
    }
    /// One more execution of the implementation compared, step by step, with the model.
    pub fn traces(&self, n: u64) {
        self.sh.counters[1].fetch_add(n, SeqCst);
    }
    /// One more execution of the implementation.
    pub fn evaluations(&self, n: u64) {
        self.tick();
        self.sh.counters[2].fetch_add(n, SeqCst);
    }
    /// Records a state by its hash; true when it is new across all workers.
    pub fn state(&self, h: u64) -> bool {
        self.insert(0, h)
    }
    /// Records an observed outcome by its hash (distinct outcomes are reported).
    pub fn outcome(&self, h: u64) -> bool {
        self.insert(1, h)
    }
    fn insert(&self, set: usize, h: u64) -> bool {
        let h = if h == 0 { 1 } else { h };
        let mask = (1usize << SETBITS) - 1;
        let mut k = mix64(h) as usize & mask;
        if self.sh.set_used[set].load(SeqCst) as usize > mask / 4 * 3 {
            return false; // saturated: the count is then a lower bound
        }
        loop {
            let v = self.sh.sets[set][k].load(SeqCst);
            if v == h {
                return false;
            }
            if v == 0 {
                match self.sh.sets[set][k].compare_exchange(0, h, SeqCst, SeqCst) {
                    Ok(_) => {
                        self.sh.set_used[set].fetch_add(1, SeqCst);
                        return true;
                    }
                    Err(v) if v == h => return false,
                    Err(_) => {}
                }
            }
            k = (k + 1) & mask;
        }
    }
    /// Describes the sub-case being run, so that a crash can be attributed to it.
    pub fn note(&self, s: &str) {
        let b = s.as_bytes();
        let n = b.len().min(NOTE);
        let sl = &self.sh.slots[self.slot];
        for i in 0..n {
            sl.note[i].store(b[i], SeqCst);
        }
        sl.note_len.store(n as u32, SeqCst);
        if self.replay {
            eprintln!("  . {s}");
        }
    }
    /// Restarts the case's clock (for cases that run many bounded executions).
    pub fn tick(&self) {
        self.sh.slots[self.slot].started_ms.store(now_ms(), SeqCst);
    }
}

fn now_ms() -> u64 {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut ts);
        ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
    }
}

thread_local! {
    static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}
/// The message of the last caught panic of this thread.
pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}

/// Runs `f`, turning a panic into `Err`.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("panicked: {}", last_panic()))
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub space: String,
    pub index: u64,
    pub key: String,
    pub msg: String,
}

pub struct Check {
    pub property: &'static str,
    pub level: &'static str,
    pub counters: Vec<&'static str>,
    pub assumptions: Vec<String>,
    pub spaces: Vec<Box<dyn Space>>,
    /// Extra text for the evidence.
    pub notes: Vec<(String, String)>,
    /// Address-space limit per worker in MiB (0: none, as under a sanitizer).
    pub mem_mb: u64,
    /// Wall-clock budget for the whole exploration.
    pub budget: Duration,
}

impl Check {
    pub fn new(property: &'static str, level: &'static str) -> Check {
        Check {
            property,
            level,
            counters: vec![],
            assumptions: vec![],
            spaces: vec![],
            notes: vec![],
            mem_mb: if cfg!(asan) { 0 } else { 6144 },
            budget: Duration::from_secs(std::env::var("MCK_BUDGET").ok().and_then(|v| v.parse().ok()).unwrap_or(420)),
        }
    }
    pub fn counter(mut self, n: &'static str) -> Self {
        self.counters.push(n);
        self
    }
    pub fn assume(mut self, s: &str) -> Self {
        self.assumptions.push(s.into());
        self
    }
    pub fn with(mut self, s: Box<dyn Space>) -> Self {
        // for development: only the spaces whose names start so
        if std::env::var("MCK_ONLY").is_ok_and(|o| !o.split(',').any(|o| s.name().starts_with(o))) {
            return self;
        }
        self.spaces.push(s);
        self
    }
}

#[derive(Clone, Debug)]
struct Known {
    property: String,
    space: String,
    key: String,
    msg: String,
    what: String,
}

/// known-findings.jsonl: {"property":..,"space":..,"key":..,"msg":..,"what":..}; `key` is the exact case,
/// `msg` a prefix of the observed failure.
fn load_known(path: &str, property: &str) -> Vec<Known> {
    let Ok(s) = fs::read_to_string(path) else { return vec![] };
    s.lines()
        .filter(|l| l.trim_start().starts_with('{'))
        .filter_map(|l| {
            let m = json::parse_flat(l)?;
            Some(Known {
                property: m.get("property")?.clone(),
                space: m.get("space")?.clone(),
                key: m.get("key")?.clone(),
                msg: m.get("msg")?.clone(),
                what: m.get("what")?.clone(),
            })
        })
        .filter(|k| k.property == property)
        .collect()
}

fn is_known<'a>(k: &'a [Known], v: &Violation) -> Option<&'a Known> {
    k.iter().find(|k| k.space == v.space && k.key == v.key && v.msg.starts_with(&k.msg))
}

fn set_mem_limit(mb: u64) {
    if mb > 0 {
        unsafe {
            let l = libc::rlimit { rlim_cur: mb << 20, rlim_max: mb << 20 };
            libc::setrlimit(libc::RLIMIT_AS, &l);
        }
    }
}

/// Runs one case in this process.
fn run_case(s: &dyn Space, i: u64, cx: &mut Cx) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(|| s.run(i, cx))) {
        Ok(r) => r,
        Err(_) => Err(format!("panicked: {}", last_panic())),
    }
}

fn child_setup(mem_mb: u64, quiet: bool) {
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &l);
        // uninitialised heap memory has a fixed content, so that reading it is repeatable
        if !cfg!(asan) {
            libc::mallopt(-6 /* M_PERTURB */, 0xA7);
        }
        if quiet {
            let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            libc::dup2(n, 1);
            libc::dup2(n, 2);
        }
    }
    set_mem_limit(mem_mb);
    quiet_panics();
}

fn worker(check: &Check, sh: &'static Shared, slot: usize, names: &'static [&'static str], tier: Tier, log: &str) -> ! {
    child_setup(check.mem_mb, true);
    sh.slots[slot].hist_len.store(0, SeqCst);
    let mut out = OpenOptions::new().append(true).create(true).open(log).unwrap();
    let mut cx = Cx { sh, slot, names, tier, replay: false };
    for (k, s) in check.spaces.iter().enumerate() {
        let n = s.len();
        let chunk = (n / 512).clamp(1, 64);
        let sl = &sh.slots[slot];
        loop {
            if sh.stop.load(SeqCst) != 0 {
                unsafe { libc::_exit(0) }
            }
            let (rk, rf, rt) = (sl.rest_space.load(SeqCst) as usize, sl.rest_from.load(SeqCst), sl.rest_to.load(SeqCst));
            let (start, end) = if rf < rt && rk == k {
                (rf, rt)
            } else {
                let start = sh.next[k].fetch_add(chunk, SeqCst);
                if start >= n {
                    break;
                }
                (start, (start + chunk).min(n))
            };
            sl.rest_space.store(k as u32, SeqCst);
            sl.rest_to.store(end, SeqCst);
            for i in start..end {
                sl.rest_from.store(i + 1, SeqCst);
                if sh.stop.load(SeqCst) != 0 {
                    unsafe { libc::_exit(0) }
                }
                sl.space.store(k as u32, SeqCst);
                sl.note_len.store(0, SeqCst);
                sl.started_ms.store(now_ms(), SeqCst);
                let h = sl.hist_len.load(SeqCst);
                sl.hist[h as usize % HIST].store((k as u64) << 48 | i, SeqCst);
                sl.hist_len.store(h + 1, SeqCst);
                sl.idx.store(i + 1, SeqCst);
                if let Err(m) = run_case(&**s, i, &mut cx) {
                    let h: Vec<String> = history(sh, slot).iter().map(|(k, i)| format!("{k}:{i}")).collect();
                    let line = format!("{}\t{}\t{}\t{}\n", k, i, h.join(","), m.replace(['\n', '\t'], " "));
                    let _ = out.write_all(line.as_bytes());
                }
                sl.idx.store(0, SeqCst);
                sh.done[k].fetch_add(1, SeqCst);
            }
        }
    }
    unsafe { libc::_exit(0) }
}

/// What a worker ran before its latest case, in order.
fn history(sh: &Shared, slot: usize) -> Vec<(usize, u64)> {
    let sl = &sh.slots[slot];
    let n = sl.hist_len.load(SeqCst);
    (n.saturating_sub(HIST as u64)..n.saturating_sub(1))
        .map(|x| {
            let v = sl.hist[x as usize % HIST].load(SeqCst);
            ((v >> 48) as usize, v & ((1 << 48) - 1))
        })
        .collect()
}

enum Rerun {
    Passed,
    Failed(String),
    TimedOut,
}

/// Runs one case in a fresh process, alone or after others.
#[allow(clippy::too_many_arguments)]
fn rerun(check: &Check, sh: &'static Shared, names: &'static [&'static str], tier: Tier, before: &[(usize, u64)], k: usize, i: u64, limit: Duration, dir: &str) -> Rerun {
    let slot = MAXW - 1;
    let res = format!("{dir}/rerun");
    let err = format!("{dir}/rerun.err");
    let _ = fs::remove_file(&res);
    sh.slots[slot].note_len.store(0, SeqCst);
    unsafe {
        let pid = libc::fork();
        if pid == 0 {
            let f = File::create(&err).unwrap();
            libc::dup2(f.as_raw_fd(), 2);
            libc::dup2(f.as_raw_fd(), 1);
            child_setup(check.mem_mb, false);
            let mut cx = Cx { sh, slot, names, tier, replay: false };
            for &(k, i) in before {
                let _ = run_case(&*check.spaces[k], i, &mut cx);
            }
            let r = run_case(&*check.spaces[k], i, &mut cx);
            let mut f = File::create(&res).unwrap();
            match r {
                Ok(()) => f.write_all(b"P").unwrap(),
                Err(m) => f.write_all(format!("F{m}").as_bytes()).unwrap(),
            }
            libc::_exit(0);
        }
        let t0 = Instant::now();
        loop {
            let mut st = 0;
            let r = libc::waitpid(pid, &mut st, libc::WNOHANG);
            if r == pid {
                let note = note_of(sh, slot);
                if let Ok(s) = fs::read_to_string(&res) {
                    if s.starts_with('P') {
                        return Rerun::Passed;
                    }
                    if let Some(m) = s.strip_prefix('F') {
                        return Rerun::Failed(m.to_string());
                    }
                }
                return Rerun::Failed(format!("{}{}", death(st, &err), if note.is_empty() { String::new() } else { format!(" [at {note}]") }));
            }
            if t0.elapsed() > limit {
                libc::kill(pid, libc::SIGKILL);
                libc::waitpid(pid, &mut st, 0);
                return Rerun::TimedOut;
            }
            std::thread::sleep(Duration::from_millis(2));
        }
    }
}

fn note_of(sh: &Shared, slot: usize) -> String {
    let sl = &sh.slots[slot];
    let n = (sl.note_len.load(SeqCst) as usize).min(NOTE);
    let v: Vec<u8> = (0..n).map(|i| sl.note[i].load(SeqCst)).collect();
    String::from_utf8_lossy(&v).into_owned()
}

fn death(st: i32, errfile: &str) -> String {
    let mut s = String::new();
    if let Ok(mut f) = File::open(errfile) {
        let mut b = vec![];
        let _ = f.read_to_end(&mut b);
        s = String::from_utf8_lossy(&b).into_owned();
    }
    let mut detail = String::new();
    for l in s.lines() {
        if l.contains("ERROR: AddressSanitizer") {
            // without addresses, which differ between runs
            detail = l.split("AddressSanitizer: ").nth(1).unwrap_or(l).split(" on ").next().unwrap_or("").to_string();
        }
        if l.contains("SUMMARY: AddressSanitizer") {
            let t = l.trim_start_matches("SUMMARY: AddressSanitizer: ");
            detail = t.to_string();
            break;
        }
        if l.contains("memory allocation of") || l.contains("panicked at") || l.contains("panic in a function that cannot unwind") {
            detail = l.to_string();
        }
    }
    let what = if libc::WIFSIGNALED(st) {
        format!("process killed by signal {}", libc::WTERMSIG(st))
    } else if libc::WEXITSTATUS(st) == 77 {
        "process stopped".to_string()
    } else {
        format!("process exited with status {}", libc::WEXITSTATUS(st))
    };
    if detail.is_empty() {
        what
    } else {
        format!("{what}: {detail}")
    }
}

/// Space, case, what happened, what the same process had run before.
type Suspect = (usize, u64, String, Vec<(usize, u64)>);

pub fn tier_from_env() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

pub fn verif_dir() -> String {
    std::env::var("MCK_DIR").unwrap_or_else(|_| "/verif".into())
}

/// Entry point of a check: explores, writes evidence and replays, prints the verdict, returns the
/// process's exit code.
pub fn run_check(check: Check, tier: Tier, replay: Option<&str>) -> i32 {
    let t0 = Instant::now();
    let mut names: Vec<&'static str> = vec!["transitions", "traces", "evaluations"];
    names.extend(check.counters.iter());
    assert!(names.len() <= NCOUNT && check.spaces.len() <= MAXS);
    *NAMES.lock().unwrap() = names.clone();
    let names: &'static [&'static str] = Box::leak(names.into_boxed_slice());
    let sh = map_shared();

    if let Some(p) = replay {
        return run_replay(&check, sh, names, tier, p);
    }

    let dir = format!("{}/mck.{}.{}", std::env::temp_dir().display(), check.property, std::process::id());
    let _ = fs::create_dir_all(&dir);
    let log = format!("{dir}/log");
    File::create(&log).unwrap();
    let known = load_known(&format!("{}/known-findings.jsonl", verif_dir()), check.property);

    let nw = std::env::var("MCK_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)).min(MAXW - 2);
    let spawn = |slot: usize| -> i32 {
        sh.slots[slot].idx.store(0, SeqCst);
        unsafe {
            let pid = libc::fork();
            assert!(pid >= 0, "fork failed");
            if pid == 0 {
                worker(&check, sh, slot, names, tier, &log);
            }
            pid
        }
    };
    let mut pids: Vec<i32> = (0..nw).map(spawn).collect();
    let mut found: Vec<Suspect> = vec![]; // suspected by death or hang
    let mut budget_hit = false;
    let mut engine_errors: Vec<String> = vec![];
    let mut offset = 0usize;
    let mut reported: Vec<Suspect> = vec![];
    let mut unknown_seen = 0usize;
    let key_of = |k: usize, i: u64, m: &str| Violation { space: check.spaces[k].name(), index: i, key: check.spaces[k].key(i), msg: m.to_string() };
    loop {
        let mut alive = 0;
        for slot in 0..nw {
            if pids[slot] == 0 {
                continue;
            }
            let mut st = 0;
            let r = unsafe { libc::waitpid(pids[slot], &mut st, libc::WNOHANG) };
            let sl = &sh.slots[slot];
            if r == pids[slot] {
                let idx = sl.idx.load(SeqCst);
                if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 && idx == 0 {
                    pids[slot] = 0;
                    continue;
                }
                if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 {
                    pids[slot] = 0; // stopped by request in the middle of a chunk
                    continue;
                }
                if idx == 0 {
                    engine_errors.push(format!("worker died outside a case: {}", death(st, "")));
                    pids[slot] = 0;
                    continue;
                }
                let k = sl.space.load(SeqCst) as usize;
                let what = if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGKILL { "killed" } else { "died" };
                found.push((k, idx - 1, what.into(), history(sh, slot)));
                sh.done[k].fetch_add(1, SeqCst);
                unknown_seen += 1;
                pids[slot] = if sh.stop.load(SeqCst) == 0 { spawn(slot) } else { 0 };
                alive += 1;
                continue;
            }
            alive += 1;
            let idx = sl.idx.load(SeqCst);
            if idx != 0 {
                let k = sl.space.load(SeqCst) as usize;
                let st_ms = sl.started_ms.load(SeqCst);
                if now_ms().saturating_sub(st_ms) > check.spaces[k].limit().as_millis() as u64 && sl.idx.load(SeqCst) == idx {
                    let mut s = 0;
                    unsafe {
                        libc::kill(pids[slot], libc::SIGKILL);
                        libc::waitpid(pids[slot], &mut s, 0);
                    }
                    found.push((k, idx - 1, "hung".into(), vec![]));
                    sh.done[k].fetch_add(1, SeqCst);
                    unknown_seen += 1;
                    pids[slot] = if sh.stop.load(SeqCst) == 0 { spawn(slot) } else { 0 };
                }
            }
        }
        // violations reported by workers
        if let Ok(s) = fs::read_to_string(&log) {
            let upto = s.rfind('\n').map(|x| x + 1).unwrap_or(0);
            if upto > offset {
                for l in s[offset..upto].lines() {
                    let mut it = l.splitn(4, '\t');
                    if let (Some(a), Some(b), Some(h), Some(c)) = (it.next(), it.next(), it.next(), it.next()) {
                        let h = h.split(',').filter_map(|x| x.split_once(':')).map(|(k, i)| (k.parse().unwrap(), i.parse().unwrap())).collect();
                        let (k, i): (usize, u64) = (a.parse().unwrap(), b.parse().unwrap());
                        let v = key_of(k, i, c);
                        if is_known(&known, &v).is_none() {
                            unknown_seen += 1;
                        }
                        reported.push((k, i, c.to_string(), h));
                    }
                }
                offset = upto;
            }
        }
        let maxv: usize = std::env::var("MCK_MAXV").ok().and_then(|s| s.parse().ok()).unwrap_or(12);
        if unknown_seen >= maxv + known.len() {
            sh.stop.store(1, SeqCst);
        }
        if alive == 0 {
            break;
        }
        if t0.elapsed() > check.budget && sh.stop.load(SeqCst) == 0 {
            budget_hit = true;
            sh.stop.store(1, SeqCst);
        }
        std::thread::sleep(Duration::from_millis(5));
    }

    // confirm
    let mut confirmed: Vec<Violation> = vec![];
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut unconfirmed: Vec<String> = vec![];
    let mut suspects: Vec<Suspect> = vec![];
    suspects.extend(found.iter().cloned());
    suspects.extend(reported.iter().cloned());
    suspects.sort();
    suspects.dedup_by(|a, b| a.0 == b.0 && a.1 == b.1);
    let mut reruns = 0;
    let mut historic = 0;
    let mut after: BTreeMap<usize, Vec<(usize, u64)>> = BTreeMap::new();
    let confirmations = std::env::var("MCK_SHOW").ok().and_then(|s| s.parse().ok()).unwrap_or(40);
    for (k, i, m, hist) in &suspects {
        // already-known ones need no confirmation
        let v0 = key_of(*k, *i, m);
        if let Some(kn) = is_known(&known, &v0) {
            *known_hits.entry(kn.what.clone()).or_default() += 1;
            continue;
        }
        if reruns >= confirmations {
            break;
        }
        reruns += 1;
        let lim = check.spaces[*k].limit() * 3;
        let mut got = None;
        let tries = if m == "hung" { 1 } else { 3 };
        for _ in 0..tries {
            match rerun(&check, sh, names, tier, &[], *k, *i, lim, &dir) {
                Rerun::Failed(m2) => {
                    got = Some(m2);
                    break;
                }
                Rerun::TimedOut => {
                    got = Some(format!("did not terminate within {} s", lim.as_secs()));
                    break;
                }
                Rerun::Passed => {}
            }
        }
        if got.is_none() && (m == "hung" || m == "killed") {
            // a busy machine: it ends, and as it should, when it is given the time and the memory
            continue;
        }
        // damage done by, or left behind from, what the same process ran before
        for n in [7, HIST] {
            if got.is_none() && !hist.is_empty() && historic < 6 {
                historic += 1;
                let before = &hist[hist.len().saturating_sub(n)..];
                if let Rerun::Failed(m2) = rerun(&check, sh, names, tier, before, *k, *i, Duration::from_secs(45), &dir) {
                    got = Some(format!("{m2} (after {} other cases in the same process)", before.len()));
                    after.insert(confirmed.len(), before.to_vec());
                }
            }
        }
        match got {
            Some(m2) => {
                let v = key_of(*k, *i, &m2);
                if let Some(kn) = is_known(&known, &v) {
                    *known_hits.entry(kn.what.clone()).or_default() += 1;
                } else {
                    confirmed.push(v);
                }
            }
            None => unconfirmed.push(format!("{}: {} ({m})", v0.space, v0.key)),
        }
    }

    let total: u64 = check.spaces.iter().map(|s| s.len()).sum();
    let done: u64 = (0..check.spaces.len()).map(|k| sh.done[k].load(SeqCst)).sum();
    let exhaustive = done >= total && !budget_hit && engine_errors.is_empty();
    // replays
    let rdir = format!("{}/replays", verif_dir());
    let _ = fs::create_dir_all(&rdir);
    let mut first = String::new();
    for (n, v) in confirmed.iter().enumerate().take(20) {
        let p = format!("{rdir}/{}-{}.json", check.property, n);
        let body = json::obj(&[
            ("property", json::s(check.property)),
            ("space", json::s(&v.space)),
            ("index", v.index.to_string()),
            ("tier", json::s(if tier == Tier::Quick { "quick" } else { "thorough" })),
            ("case", json::s(&v.key)),
            ("after", json::s(&after.get(&n).map(|h| h.iter().map(|(k, i)| format!("{k}:{i}")).collect::<Vec<_>>().join(",")).unwrap_or_default())),
            ("failure", json::s(&v.msg)),
            ("rerun", json::s(&format!("bash /verif/run.sh {} --replay {p}", check.property))),
        ]);
        let _ = fs::write(&p, body + "\n");
        if n == 0 {
            first = p;
        }
    }
    write_evidence(&check, sh, names, tier, t0.elapsed(), exhaustive, budget_hit, total, done, confirmed.len(), &known_hits);
    let _ = fs::remove_dir_all(&dir);

    for (what, n) in &known_hits {
        println!("KNOWN-FINDING: property={} {} ({} case(s))", check.property, what, n);
    }
    for (k, s) in check.spaces.iter().enumerate() {
        println!("space {}: {}/{} cases", s.name(), sh.done[k].load(SeqCst).min(s.len()), s.len());
    }
    for (k, n) in names.iter().enumerate() {
        println!("  {n} = {}", sh.counters[k].load(SeqCst));
    }
    println!(
        "{}: {} of {} cases, {} states, {} distinct outcomes, {:.1} s{}",
        check.property,
        done,
        total,
        sh.set_used[0].load(SeqCst),
        sh.set_used[1].load(SeqCst),
        t0.elapsed().as_secs_f64(),
        if exhaustive { ", exhaustive" } else { ", NOT exhaustive" }
    );
    if !confirmed.is_empty() {
        for v in confirmed.iter().take(std::env::var("MCK_SHOW").ok().and_then(|s| s.parse().ok()).unwrap_or(20)) {
            println!("  failed: {} #{} {}: {}", v.space, v.index, v.key, v.msg);
        }
        println!("VIOLATION property={} replay={}", check.property, first);
        return 1;
    }
    if !unconfirmed.is_empty() {
        println!("ENGINE: not reproducible: {}", unconfirmed.join("; "));
        return 3;
    }
    if !engine_errors.is_empty() {
        println!("ENGINE: {}", engine_errors.join("; "));
        return 3;
    }
    0
}

fn run_replay(check: &Check, sh: &'static Shared, names: &'static [&'static str], tier: Tier, p: &str) -> i32 {
    let s = fs::read_to_string(p).expect("replay file");
    let m = json::parse_flat(&s).expect("replay file is not a flat JSON object");
    let tier = if m.get("tier").map(|s| s == "thorough").unwrap_or(false) { Tier::Thorough } else { tier };
    let k = check.spaces.iter().position(|x| x.name() == m["space"]).expect("unknown space");
    let i: u64 = m["index"].parse().unwrap();
    println!("replaying {} {} #{i}\n  {}", check.property, m["space"], check.spaces[k].key(i));
    set_mem_limit(check.mem_mb);
    quiet_panics();
    unsafe {
        if !cfg!(asan) {
            libc::mallopt(-6, 0xA7);
        }
    }
    let mut cx = Cx { sh, slot: 0, names, tier, replay: true };
    let before = m.get("after").cloned().unwrap_or_default();
    for (k, i) in before.split(',').filter_map(|x| x.split_once(':')) {
        let _ = run_case(&*check.spaces[k.parse::<usize>().unwrap()], i.parse().unwrap(), &mut cx);
    }
    match run_case(&*check.spaces[k], i, &mut cx) {
        Ok(()) => {
            println!("passed");
            0
        }
        Err(m) => {
            println!("failed: {m}\nVIOLATION property={} replay={p}", check.property);
            1
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(check: &Check, sh: &Shared, names: &[&str], tier: Tier, wall: Duration, exhaustive: bool, budget_hit: bool, total: u64, done: u64, violations: usize, known: &BTreeMap<String, u64>) {
    let ev = |k: usize| sh.counters[k].load(SeqCst);
    let mut samples = vec![];
    let mut spaces = vec![];
    for (k, s) in check.spaces.iter().enumerate() {
        let n = s.len();
        if n > 0 {
            for i in [0, n / 2] {
                if samples.len() < 40 {
                    let key: String = s.key(i).chars().take(600).collect();
                    samples.push(json::s(&format!("{} #{i}: {key}", s.name())));
                }
            }
        }
        spaces.push(json::obj(&[
            ("name", json::s(&s.name())),
            ("enumerates", json::s(&s.rule())),
            ("cases", n.to_string()),
            ("cases_run", sh.done[k].load(SeqCst).min(n).to_string()),
        ]));
    }
    let rule = check.spaces.iter().map(|s| format!("{}: {}", s.name(), s.rule())).collect::<Vec<_>>().join(" | ");
    let states = sh.set_used[0].load(SeqCst);
    let outcomes = sh.set_used[1].load(SeqCst);
    let mut cov: Vec<(&str, String)> = vec![
        ("exhaustive", exhaustive.to_string()),
        ("cases", total.to_string()),
        ("cases_run", done.to_string()),
        ("budget_hit", budget_hit.to_string()),
        ("rule", json::s(&format!("{rule}. Non-trivial: distinct observed outcome (result or decoded content)."))),
        ("samples", format!("[{}]", samples.join(","))),
        ("spaces", format!("[{}]", spaces.join(","))),
        ("evaluations", ev(2).to_string()),
        ("distinct_nontrivial", outcomes.to_string()),
    ];
    if check.level == "model_checking" {
        cov.push(("states", states.to_string()));
        cov.push(("transitions", ev(0).to_string()));
        cov.push(("traces_validated_against_impl", ev(1).to_string()));
    }
    let extra: Vec<(String, String)> = names.iter().enumerate().skip(3).map(|(k, n)| (n.to_string(), ev(k).to_string())).collect();
    for (n, v) in &extra {
        cov.push((n, v.clone()));
    }
    let kf: Vec<String> = known.iter().map(|(w, n)| json::s(&format!("{w} ({n} cases)"))).collect();
    cov.push(("known_findings_seen", format!("[{}]", kf.join(","))));
    let notes: Vec<(String, String)> = check.notes.iter().map(|(a, b)| (a.clone(), json::s(b))).collect();
    for (n, v) in &notes {
        cov.push((n, v.clone()));
    }
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1);
    let body = json::obj(&[
        ("property", json::s(check.property)),
        ("tier", json::s(if tier == Tier::Quick { "quick" } else { "thorough" })),
        ("seed", seed.to_string()),
        ("level", json::s(check.level)),
        ("coverage", json::obj(&cov)),
        ("assumptions", format!("[{}]", check.assumptions.iter().map(|a| json::s(a)).collect::<Vec<_>>().join(","))),
        ("wall_s", format!("{:.3}", wall.as_secs_f64())),
        ("violations", violations.to_string()),
    ]);
    let d = format!("{}/evidence", verif_dir());
    let _ = fs::create_dir_all(&d);
    let _ = fs::write(format!("{d}/{}.json", check.property), body + "\n");
}
