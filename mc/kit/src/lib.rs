//! Exhaustive-exploration kit shared by every checker in /verif/mc.
//!
//! A check is a list of finite, indexable `Space`s.  The supervisor splits all the
//! indices of all the spaces over worker *processes* (so that aborts, stack
//! overflows, runaway memory and endless loops of the code under test are just one
//! more observable outcome of one case), collects the failing cases, subtracts the
//! committed known findings, writes replay files and the evidence record.
use serde::{Deserialize, Serialize};
use std::{
    collections::{BTreeMap, HashSet},
    hash::{Hash, Hasher},
    io::Write,
    path::{Path, PathBuf},
    sync::atomic::{AtomicU64, Ordering::{Relaxed, SeqCst}},
    time::Instant,
};

pub mod sched;
pub mod seq;

// ---------------------------------------------------------------- outcomes

#[derive(Debug, Clone)]
pub struct Fail {
    /// Coarse, stable kind of failure ("panic", "gap", "mismatch", ...).
    pub kind: String,
    pub detail: String,
}
pub type Res = Result<(), Fail>;

pub fn fail<T>(kind: &str, detail: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { kind: kind.to_string(), detail: detail.into() })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $k:expr, $($a:tt)*) => { if !$c { return $crate::fail($k, format!($($a)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $k:expr, $($m:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return $crate::fail($k, format!("{}: code gave {:?}, expected {:?}", format!($($m)*), a, b)); }
    }};
}

/// Per-worker accounting of what was actually covered.
#[derive(Default)]
pub struct Cx {
    pub transitions: u64,
    pub executions: u64,
    pub nontrivial: u64,
    states: HashSet<u64>,
    states_overflow: u64,
    pub notes: BTreeMap<String, u64>,
}
/// Transitions so far, for the watchdog.
static PROGRESS: AtomicU64 = AtomicU64::new(0);
pub const STATE_CAP: usize = 3_000_000;
impl Cx {
    /// One transition (operation, schedule step, scanner call ...) executed on the real code.
    pub fn step(&mut self) {
        self.steps(1)
    }
    pub fn steps(&mut self, n: u64) {
        self.transitions += n;
        PROGRESS.store(self.transitions, Relaxed)
    }
    /// One complete execution of the real code compared with the model/oracle.
    pub fn exec(&mut self) {
        self.executions += 1
    }
    pub fn execs(&mut self, n: u64) {
        self.executions += n
    }
    pub fn nontrivial(&mut self, yes: bool) {
        self.nontrivial += yes as u64
    }
    /// A state/observation reached; returns true when this worker sees it for the first time.
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) -> bool {
        let h = fp(t);
        if self.states.len() < STATE_CAP {
            self.states.insert(h)
        }
        else {
            self.states_overflow += 1;
            false
        }
    }
    pub fn note(&mut self, k: &str, n: u64) {
        *self.notes.entry(k.to_string()).or_default() += n
    }
}

pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut v = [0u8; 8];
            v[..c.len()].copy_from_slice(c);
            self.0 = (self.0.rotate_left(5) ^ u64::from_le_bytes(v)).wrapping_mul(0x517cc1b727220a95);
        }
    }
}
pub fn fp<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fx(0x9e3779b97f4a7c15);
    t.hash(&mut h);
    h.finish()
}

// ---------------------------------------------------------------- spaces

pub trait Space: Send + Sync {
    fn name(&self) -> String;
    fn len(&self) -> u64;
    /// Human-readable, stable identity of a case.
    fn describe(&self, i: u64) -> String;
    fn run(&self, i: u64, cx: &mut Cx) -> Res;
    /// CPU-seconds a single case may take from one step to the next before it counts as endless
    /// (and fifteen times as many as a whole).
    fn cpu_limit(&self) -> u64 {
        20
    }
}

pub struct FnSpace<D, R> {
    pub name: String,
    pub len: u64,
    pub d: D,
    pub r: R,
}
impl<D: Fn(u64) -> String + Send + Sync, R: Fn(u64, &mut Cx) -> Res + Send + Sync> Space for FnSpace<D, R> {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn len(&self) -> u64 {
        self.len
    }
    fn describe(&self, i: u64) -> String {
        (self.d)(i)
    }
    fn run(&self, i: u64, cx: &mut Cx) -> Res {
        (self.r)(i, cx)
    }
}
pub fn space<D, R>(name: impl Into<String>, len: u64, d: D, r: R) -> Box<dyn Space>
where
    D: Fn(u64) -> String + Send + Sync + 'static,
    R: Fn(u64, &mut Cx) -> Res + Send + Sync + 'static,
{
    Box::new(FnSpace { name: name.into(), len, d, r })
}

/// One case per character: every character in thorough, in quick those of the blocks where texts
/// change length, class or meaning.
pub fn each_character(name: impl Into<String>, t: Tier, r: impl Fn(char, &mut Cx) -> Res + Send + Sync + 'static) -> Box<dyn Space> {
    let all = seq::characters(t.pick(false, true));
    let names = all.clone();
    space(name, all.len() as u64, move |i| format!("U+{:04X}", names[i as usize] as u32), move |i, cx| r(all[i as usize], cx))
}
/// A text for the rest of the run.
pub fn keep(s: impl Into<String>) -> &'static str {
    Box::leak(s.into().into_boxed_str())
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        if self == Tier::Quick { q } else { t }
    }
    pub fn name(self) -> &'static str {
        self.pick("quick", "thorough")
    }
}

pub struct Check {
    pub id: &'static str,
    pub bounds: &'static str,
    pub assumptions: &'static [&'static str],
    pub spaces: fn(Tier) -> Vec<Box<dyn Space>>,
    /// worker address-space limit in MiB (0: none)
    pub mem_mb: u64,
}

// ---------------------------------------------------------------- shared progress page

#[repr(C)]
struct Slot {
    cur: AtomicU64,
    end: AtomicU64,
    tick: AtomicU64,
    pad: [u64; 5],
}
#[repr(C)]
struct Page {
    next: AtomicU64,
    pad: [u64; 7],
    slots: [Slot; 32],
}
const IDLE: u64 = u64::MAX;

fn map_page(p: &Path, create: bool) -> &'static Page {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(create).truncate(false).open(p).expect("progress file");
    if create {
        f.set_len(std::mem::size_of::<Page>() as u64).unwrap();
    }
    unsafe {
        let a = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Page>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0);
        assert!(a != libc::MAP_FAILED);
        &*(a as *const Page)
    }
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Viol {
    space: String,
    index: u64,
    case: String,
    kind: String,
    detail: String,
}

#[derive(Serialize, Deserialize, Default)]
struct WStat {
    transitions: u64,
    executions: u64,
    nontrivial: u64,
    cases: u64,
    states_overflow: u64,
    notes: BTreeMap<String, u64>,
}

thread_local! { static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{m} at {l}"));
    }));
}

/// Runs `f`, turning a panic into a `Fail`.
pub fn guarded<T>(f: impl FnOnce() -> Result<T, Fail>) -> Result<T, Fail> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => {
            let m = PANIC.with(|p| p.borrow().clone());
            fail("panic", m)
        }
    }
}
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, Fail> {
    guarded(|| Ok(f()))
}

fn locate(sizes: &[u64], mut g: u64) -> (usize, u64) {
    for (k, s) in sizes.iter().enumerate() {
        if g < *s {
            return (k, g);
        }
        g -= s;
    }
    unreachable!()
}

fn worker(check: &'static Check, tier: Tier, w: usize, dir: &Path, resume: Option<(u64, u64)>, gen_: u32, max_viol: usize) {
    quiet_panics();
    let spaces = (check.spaces)(tier);
    let sizes: Vec<u64> = spaces.iter().map(|s| s.len()).collect();
    let total: u64 = sizes.iter().sum();
    let page = map_page(&dir.join("page"), false);
    let slot = &page.slots[w];
    if check.mem_mb > 0 {
        let l = libc::rlimit { rlim_cur: check.mem_mb << 20, rlim_max: check.mem_mb << 20 };
        unsafe { libc::setrlimit(libc::RLIMIT_AS, &l) };
    }
    unsafe {
        let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &l);
    }
    let chunk = (total / (8 * 48)).clamp(1, 512);
    let limits: Vec<u64> = spaces.iter().map(|s| s.cpu_limit()).collect();
    // The cases run on a thread with a roomy stack; the main thread is the watchdog.
    let dir2 = dir.to_path_buf();
    let sizes2 = sizes.clone();
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let mut cx = Cx::default();
            let mut out = std::fs::File::create(dir2.join(format!("v{w}.{gen_}.jsonl"))).unwrap();
            let mut nviol = 0usize;
            let mut cases = 0u64;
            let run_range = |a: u64, b: u64, cx: &mut Cx, nviol: &mut usize, cases: &mut u64, out: &mut std::fs::File| {
                slot.end.store(b, SeqCst);
                for g in a..b {
                    slot.cur.store(g, SeqCst);
                    slot.tick.fetch_add(1, SeqCst);
                    let (k, i) = locate(&sizes2, g);
                    *cases += 1;
                    if let Err(f) = guarded(|| spaces[k].run(i, cx)) {
                        if *nviol < max_viol {
                            let v = Viol { space: spaces[k].name(), index: i, case: spaces[k].describe(i), kind: f.kind, detail: f.detail.chars().take(2000).collect() };
                            writeln!(out, "{}", serde_json::to_string(&v).unwrap()).unwrap();
                        }
                        *nviol += 1;
                    }
                }
                slot.cur.store(IDLE, SeqCst);
            };
            if let Some((a, b)) = resume {
                run_range(a, b, &mut cx, &mut nviol, &mut cases, &mut out);
            }
            loop {
                let a = page.next.fetch_add(chunk, SeqCst);
                if a >= total {
                    break;
                }
                run_range(a, (a + chunk).min(total), &mut cx, &mut nviol, &mut cases, &mut out);
            }
            let st = WStat { transitions: cx.transitions, executions: cx.executions, nontrivial: cx.nontrivial, cases, states_overflow: cx.states_overflow, notes: cx.notes };
            let mut b = Vec::with_capacity(cx.states.len() * 8);
            for s in &cx.states {
                b.extend_from_slice(&s.to_le_bytes());
            }
            std::fs::write(dir2.join(format!("states{w}.{gen_}")), b).unwrap();
            std::fs::write(dir2.join(format!("stat{w}.{gen_}.json")), serde_json::to_string(&st).unwrap()).unwrap();
        })
        .unwrap();
    // watchdog on CPU time of the whole process
    let cpu = || unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t);
        t.tv_sec as u64
    };
    let mut last = (u64::MAX, cpu(), Instant::now());
    let mut began = cpu();
    let mut seen = 0;
    while !h.is_finished() {
        std::thread::sleep(std::time::Duration::from_millis(20));
        let t = slot.tick.load(SeqCst);
        if t != last.0 {
            last = (t, cpu(), Instant::now());
            began = cpu();
            continue;
        }
        let p = PROGRESS.load(Relaxed);
        if p != seen {
            seen = p;
            last = (t, cpu(), Instant::now());
        }
        let g = slot.cur.load(SeqCst);
        if g == IDLE {
            continue;
        }
        let lim = limits[locate(&sizes, g).0];
        // CPU spent, or wall time without CPU (a real deadlock) far beyond it
        if cpu() - last.1 > lim || cpu() - began > 15 * lim || last.2.elapsed().as_secs() > lim * 12 {
            std::process::exit(97);
        }
    }
    if h.join().is_err() {
        std::process::exit(98);
    }
}

// ---------------------------------------------------------------- known findings

#[derive(Deserialize, Debug)]
struct Finding {
    property: String,
    status: String,
    what: String,
    #[serde(default)]
    space: String,
    #[serde(default)]
    kind: String,
    #[serde(default)]
    cases: Vec<String>,
}

fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn findings(id: &str) -> Vec<Finding> {
    let mut v = Vec::new();
    if let Ok(t) = std::fs::read_to_string(verif_dir().join("known-findings.jsonl")) {
        for l in t.lines().filter(|l| !l.trim().is_empty()) {
            let f: Finding = serde_json::from_str(l).unwrap_or_else(|e| panic!("known-findings.jsonl: {e}: {l}"));
            if f.property == id && f.status == "known" {
                v.push(f);
            }
        }
    }
    v
}

// ---------------------------------------------------------------- supervisor

pub fn main(checks: &'static [Check]) {
    let a: Vec<String> = std::env::args().collect();
    let get = |id: &str| checks.iter().find(|c| c.id == id).unwrap_or_else(|| panic!("no check {id}"));
    let tier = |t: &str| if t == "thorough" { Tier::Thorough } else { Tier::Quick };
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => std::process::exit(supervise(get(&a[2]), tier(&a[3]))),
        Some("worker") => {
            let resume = if a.len() > 8 { Some((a[7].parse().unwrap(), a[8].parse().unwrap())) } else { None };
            worker(get(&a[2]), tier(&a[3]), a[4].parse().unwrap(), Path::new(&a[5]), resume, a[6].parse().unwrap(), 200_000)
        }
        Some("replay") => {
            quiet_panics();
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let c = get(v["property"].as_str().unwrap());
            let t = tier(v["tier"].as_str().unwrap());
            for s in (c.spaces)(t) {
                if s.name() == v["space"].as_str().unwrap() {
                    let i = v["index"].as_u64().unwrap();
                    println!("case: {}", s.describe(i));
                    match guarded(|| s.run(i, &mut Cx::default())) {
                        Ok(()) => println!("holds"),
                        Err(f) => {
                            println!("VIOLATION property={} replay={} kind={} {}", c.id, a[2], f.kind, f.detail);
                            std::process::exit(1)
                        }
                    }
                }
            }
        }
        Some("list") => {
            for c in checks {
                for t in [Tier::Quick, Tier::Thorough] {
                    for s in (c.spaces)(t) {
                        println!("{} {} {} cases={} e.g. {}", c.id, t.name(), s.name(), s.len(), s.describe(s.len() / 2));
                    }
                }
            }
        }
        _ => {
            eprintln!("usage: check ID quick|thorough | replay FILE | list");
            std::process::exit(2)
        }
    }
}

fn supervise(check: &'static Check, tier: Tier) -> i32 {
    let t0 = Instant::now();
    let spaces = (check.spaces)(tier);
    let sizes: Vec<u64> = spaces.iter().map(|s| s.len()).collect();
    let total: u64 = sizes.iter().sum();
    let dir = std::env::temp_dir().join(format!("mc.{}.{}", check.id, std::process::id()));
    std::fs::create_dir_all(dir.join("tmp")).unwrap();
    let page = map_page(&dir.join("page"), true);
    let nw = std::env::var("MC_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(8)).min(32);
    let exe = std::env::current_exe().unwrap();
    let mut viols: Vec<Viol> = Vec::new();
    let mut gens = vec![0u32; nw];
    let mut crashes = 0u64;
    let spawn = |w: usize, g: u32, resume: Option<(u64, u64)>| {
        let mut c = std::process::Command::new(&exe);
        c.arg("worker").arg(check.id).arg(tier.name()).arg(w.to_string()).arg(&dir).arg(g.to_string());
        if let Some((a, b)) = resume {
            c.arg(a.to_string()).arg(b.to_string());
        }
        // scratch files of the cases end with the run
        c.env("TMPDIR", dir.join("tmp"));
        c.stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
        page.slots[w].cur.store(IDLE, SeqCst);
        c.spawn().expect("spawn worker")
    };
    let mut kids: Vec<Option<std::process::Child>> = (0..nw).map(|w| Some(spawn(w, 0, None))).collect();
    let crash_cap = 20_000u64;
    let mut internal_error = None;
    // A change that makes many cases hang or die would otherwise use up the time of the whole check:
    // enough unlisted ones are reported without running the rest; so is what was found when time runs out.
    let listed: std::collections::BTreeSet<(String, String, String)> = findings(check.id).into_iter().flat_map(|f| { let (s, k) = (f.space, f.kind); f.cases.into_iter().map(move |c| (s.clone(), k.clone(), c)) }).collect();
    let mut unlisted = 0u64;
    let budget = std::env::var("MC_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Quick { 720u64 } else { u64::MAX });
    // for mutation runs: the first violation ends the run
    let hurry = std::env::var("MC_STOP").is_ok();
    let found = |dir: &std::path::Path| std::fs::read_dir(dir).unwrap().flatten().any(|e| e.file_name().to_string_lossy().starts_with('v') && e.metadata().is_ok_and(|m| m.len() > 0));
    while kids.iter().any(|k| k.is_some()) {
        if unlisted >= 48 || hurry && (unlisted > 0 || found(&dir)) || t0.elapsed().as_secs() > budget {
            for k in kids.iter_mut().flatten() {
                let _ = k.kill();
                let _ = k.wait();
            }
            internal_error = Some(if unlisted >= 48 { "stopped after 48 hanging or crashing cases".into() } else { format!("stopped after {budget} s") });
            break;
        }
        for w in 0..nw {
            let Some(k) = kids[w].as_mut()
            else {
                continue;
            };
            if let Some(st) = k.try_wait().unwrap() {
                kids[w] = None;
                if st.success() {
                    continue;
                }
                use std::os::unix::process::ExitStatusExt;
                let cur = page.slots[w].cur.load(SeqCst);
                let end = page.slots[w].end.load(SeqCst);
                if cur == IDLE {
                    internal_error = Some(format!("worker {w} died outside a case: {st}"));
                    continue;
                }
                let (k, i) = locate(&sizes, cur);
                let (kind, detail) = match (st.code(), st.signal()) {
                    (Some(97), _) => ("hang".to_string(), "case did not finish within its CPU bound".to_string()),
                    (_, Some(s)) => ("crash".to_string(), format!("process killed by signal {s}")),
                    (c, _) => ("crash".to_string(), format!("process exited with {c:?}")),
                };
                let v = Viol { space: spaces[k].name(), index: i, case: spaces[k].describe(i), kind, detail };
                unlisted += !listed.contains(&(v.space.clone(), v.kind.clone(), v.case.clone())) as u64;
                viols.push(v);
                crashes += 1;
                if crashes > crash_cap {
                    internal_error = Some("too many crashing cases".into());
                    continue;
                }
                gens[w] += 1;
                kids[w] = Some(spawn(w, gens[w], Some((cur + 1, end))));
            }
        }
        std::thread::sleep(std::time::Duration::from_millis(5));
    }
    // merge
    let mut st = WStat::default();
    let mut states: Vec<u64> = Vec::new();
    for e in std::fs::read_dir(&dir).unwrap() {
        let p = e.unwrap().path();
        let n = p.file_name().unwrap().to_string_lossy().to_string();
        if n.starts_with("stat") && n.ends_with(".json") {
            let s: WStat = serde_json::from_str(&std::fs::read_to_string(&p).unwrap()).unwrap();
            st.transitions += s.transitions;
            st.executions += s.executions;
            st.nontrivial += s.nontrivial;
            st.cases += s.cases;
            st.states_overflow += s.states_overflow;
            for (k, v) in s.notes {
                *st.notes.entry(k).or_default() += v;
            }
        }
        else if n.starts_with("states") {
            for c in std::fs::read(&p).unwrap().chunks_exact(8) {
                states.push(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
        else if n.starts_with('v') {
            for l in std::fs::read_to_string(&p).unwrap().lines() {
                viols.extend(serde_json::from_str::<Viol>(l).ok()); // the last line of a killed worker may be cut
            }
        }
    }
    states.sort_unstable();
    states.dedup();
    let _ = std::fs::remove_dir_all(&dir);
    let order: BTreeMap<String, usize> = spaces.iter().enumerate().map(|(i, s)| (s.name(), i)).collect();
    viols.sort_by_key(|v| (order[&v.space], v.index));
    // subtract known findings
    let known = findings(check.id);
    let mut lookup: BTreeMap<(&str, &str, &str), usize> = BTreeMap::new();
    for (i, f) in known.iter().enumerate() {
        for c in &f.cases {
            lookup.insert((f.space.as_str(), f.kind.as_str(), c.as_str()), i);
        }
    }
    let mut hit = vec![0u64; known.len()];
    let mut fresh: Vec<&Viol> = Vec::new();
    for v in &viols {
        if let Some(i) = lookup.get(&(v.space.as_str(), v.kind.as_str(), v.case.as_str())) {
            hit[*i] += 1;
        }
        else {
            fresh.push(v);
        }
    }
    for (f, h) in known.iter().zip(&hit) {
        println!("KNOWN-FINDING: property={} {} [{} listed case(s), {} reproduced in this run]", check.id, f.what, f.cases.len(), h);
    }
    let rep_dir = verif_dir().join("replay");
    let mut vlist = Vec::new();
    if !fresh.is_empty() {
        let _ = std::fs::create_dir_all(&rep_dir);
    }
    if let Ok(p) = std::env::var("MC_DUMP") {
        let mut f = std::fs::File::create(p).unwrap();
        for v in &fresh {
            writeln!(f, "{}", serde_json::to_string(v).unwrap()).unwrap();
        }
    }
    for (n, v) in fresh.iter().take(20).enumerate() {
        let path = rep_dir.join(format!("{}-{}.json", check.id, n));
        let j = serde_json::json!({"property": check.id, "tier": tier.name(), "space": v.space, "index": v.index, "case": v.case, "kind": v.kind, "detail": v.detail,
            "how": format!("/verif/run.sh replay {} {}", check.id, path.display())});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
        println!("VIOLATION property={} replay={} space={} kind={} case={} :: {}", check.id, path.display(), v.space, v.kind, one_line(&v.case, 200), one_line(&v.detail, 400));
        vlist.push(serde_json::json!({"replay": path.display().to_string(), "space": v.space, "kind": v.kind, "case": v.case, "detail": v.detail}));
    }
    if fresh.len() > 20 {
        println!("... and {} further violating cases", fresh.len() - 20);
    }
    // evidence
    let mut samples: Vec<serde_json::Value> = Vec::new();
    for s in &spaces {
        let n = s.len();
        if n > 0 && samples.len() < 40 {
            samples.push(serde_json::json!(format!("{}: {}", s.name(), one_line(&s.describe(n * 2 / 3), 160))));
        }
    }
    let per_space: BTreeMap<String, u64> = spaces.iter().map(|s| (s.name(), s.len())).collect();
    let exhaustive = internal_error.is_none();
    let ev = serde_json::json!({
        "property": check.id, "tier": tier.name(), "level": "model_checking",
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(0),
        "coverage": {
            "states": states.len(), "transitions": st.transitions.max(st.cases),
            "traces_validated_against_impl": st.executions.max(1),
            "cases": st.cases, "cases_in_bounds": total, "nontrivial_cases": st.nontrivial, "states_not_recorded": st.states_overflow,
            "crashed_or_hung_cases": crashes,
            "spaces": per_space, "notes": st.notes, "samples": samples, "bounds": check.bounds,
            "known_findings_listed": known.len(), "known_finding_cases_reproduced": hit.iter().sum::<u64>(),
        },
        "exhaustive": exhaustive,
        "assumptions": check.assumptions,
        "violations": vlist,
        "wall_s": t0.elapsed().as_secs_f64(),
    });
    let evd = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&evd);
    std::fs::write(evd.join(format!("{}.json", check.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!("{} {}: {} cases in {} spaces, {} states, {} transitions, {} executions compared, {} violating ({} known), {:.1}s", check.id, tier.name(), st.cases, spaces.len(), states.len(), st.transitions, st.executions, viols.len(), viols.len() - fresh.len(), t0.elapsed().as_secs_f64());
    if !fresh.is_empty() {
        return 1;
    }
    if let Some(e) = internal_error {
        println!("INTERNAL: {e}");
        return 2;
    }
    if st.cases + crashes < total {
        println!("INTERNAL: only {} of {} cases were run", st.cases, total);
        return 2;
    }
    0
}

pub fn one_line(s: &str, n: usize) -> String {
    let t: String = s.chars().take(n).collect();
    t.replace('\n', "\\n").replace('\r', "\\r")
}
