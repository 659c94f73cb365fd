//! Runs cases on worker threads within a time budget, shortens failing histories,
//! and collects what was observed.

use crate::gen::Dict;
use crate::rng::mix2;
use crate::still;
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet};
use std::panic::{self, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Ctx {
    pub scratch: PathBuf,
    pub dict: Dict,
    pub tracing: bool,
    pub thorough: bool,
    pub stats: RefCell<HashMap<&'static str, u64>>,
    pub trace: RefCell<Vec<String>>,
    pub shared: Arc<dyn std::any::Any + Send + Sync>,
}

impl Ctx {
    pub fn add(&self, k: &'static str, n: u64) {
        *self.stats.borrow_mut().entry(k).or_default() += n;
    }
    pub fn max(&self, k: &'static str, n: u64) {
        let mut s = self.stats.borrow_mut();
        let e = s.entry(k).or_default();
        *e = (*e).max(n);
    }
    pub fn say(&self, f: impl FnOnce() -> String) {
        if self.tracing {
            self.trace.borrow_mut().push(f());
        }
    }
}

/// The outcome of one case.
pub struct Outcome {
    pub verdict: Result<(), String>,
    /// Number of steps of the history, for shortening it.
    pub steps: usize,
    /// Identifies what happened, to count distinct cases.
    pub signature: u64,
    pub nontrivial: bool,
}

pub type CaseFn = fn(&Ctx, u64, Option<&[usize]>) -> Outcome;

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub level: &'static str,
    pub case: CaseFn,
    /// Cases that must have been run for the result to count.
    pub min_cases: u64,
    /// Counters that must not be zero for the result to count.
    pub must_see: &'static [&'static str],
    pub quick_secs: f64,
    pub thorough_secs: f64,
    pub shared: Option<fn(&Path) -> Arc<dyn std::any::Any + Send + Sync>>,
    /// Whether cases need much stack.
    pub deep: bool,
    pub assumptions: &'static [&'static str],
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

/// Set when the harness itself panicked, which is never a verdict.
pub static HARNESS_ERROR: AtomicBool = AtomicBool::new(false);

pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC.try_with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

fn take_panic() -> (String, String) {
    PANIC.with(|p| p.borrow_mut().take()).unwrap_or(("panic".into(), "unknown".into()))
}

/// The clock that the library sees: in some cases time passes between its calls,
/// from a moment to days. The harness itself keeps to the real one.
#[derive(Clone, Copy, Default)]
struct Clock {
    every: u64,
    state: u64,
    offset: u64,
    inside: bool,
}

thread_local! {
    static CLOCK: Cell<Clock> = const { Cell::new(Clock { every: 0, state: 0, offset: 0, inside: false }) };
}

fn wind_clock(seed: u64) {
    let state = mix2(seed, 0xC10C);
    let every = match state % 8 {
        0 => 2,
        1 => 20,
        2 => 300,
        _ => 0,
    };
    CLOCK.with(|c| c.set(Clock { every, state, offset: 0, inside: false }));
}

/// Nanoseconds by which the library's clock is always ahead.
pub static AHEAD: AtomicU64 = AtomicU64::new(0);

/// Nanoseconds by which the library's clock is ahead at the moment.
pub fn clock_ahead() -> u64 {
    CLOCK.try_with(|c| c.get()).map_or(0, |c| if c.inside { c.offset + AHEAD.load(Ordering::Relaxed) } else { 0 })
}

struct Inside;

impl Inside {
    fn enter() -> Inside {
        CLOCK.with(|c| {
            let mut k = c.get();
            k.inside = true;
            if k.every > 0 {
                k.state = mix2(k.state, 1);
                if k.state % k.every == 0 {
                    let ms = [1, 20, 300, 700, 1100, 3000, 11_000, 61_000, 700_000, 4_000_000, 90_000_000];
                    k.offset += ms[(k.state >> 32) as usize % ms.len()] * 1_000_000;
                }
            }
            c.set(k);
        });
        Inside
    }
}

impl Drop for Inside {
    fn drop(&mut self) {
        CLOCK.with(|c| c.set(Clock { inside: false, ..c.get() }));
    }
}

/// Gives the calling thread a current directory of its own, if the system lets it.
pub fn own_cwd() -> bool {
    thread_local! {
        static OWN: bool = unsafe { libc::unshare(libc::CLONE_FS) == 0 };
    }
    OWN.with(|o| *o)
}

/// Whether what goes by this name reads or writes files.
fn on_files(name: &str) -> bool {
    let name = name.to_ascii_lowercase().replace("file_name", "");
    ["file", "save", "load", "open", "workspace", "step", "round", "a call"].iter().any(|w| name.contains(w))
}

/// Runs a call into the library; a panic in there is a violation.
pub fn guard<T>(name: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    let _inside = Inside::enter();
    let watch = (still::wanted() && !on_files(name)).then(still::watch);
    let out = panic::catch_unwind(AssertUnwindSafe(f));
    if let Some(w) = watch {
        let outermost = w.outermost();
        drop(w);
        if outermost && (out.is_ok() || still::started()) {
            still::judge(name);
        }
    }
    match out {
        Ok(v) => Ok(v),
        Err(_) => {
            let (msg, loc) = take_panic();
            Err(format!("{} panicked: {} at {}", name, msg, loc))
        }
    }
}

fn run_case(prop: &Prop, ctx: &Ctx, seed: u64, keep: Option<&[usize]>) -> Result<Outcome, String> {
    wind_clock(seed);
    match panic::catch_unwind(AssertUnwindSafe(|| (prop.case)(ctx, seed, keep))) {
        Ok(o) => {
            let days = CLOCK.with(|c| c.get().offset) / 86_400_000_000_000;
            if days > 0 {
                ctx.add("days passed on the library's clock", days);
            }
            Ok(o)
        }
        Err(_) => {
            let (msg, loc) = take_panic();
            Err(format!("harness panicked in {} case {}: {} at {}", prop.id, seed, msg, loc))
        }
    }
}

pub struct Found {
    pub seed: u64,
    pub keep: Option<Vec<usize>>,
    pub message: String,
    pub trace: Vec<String>,
}

pub struct Report {
    pub cases: u64,
    pub distinct: u64,
    pub stats: HashMap<&'static str, u64>,
    pub samples: Vec<Vec<String>>,
    pub found: Option<Found>,
    pub harness_error: Option<String>,
    pub wall: f64,
}

pub fn case_seed(seed: u64, prop: &str, index: u64) -> u64 {
    mix2(mix2(seed, crate::rng::hash_str(prop)), index)
}

pub fn thread_cpu() -> f64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut ts) };
    ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9
}

/// CPU seconds one case may take before it counts as never ending. Ordinary cases
/// take milliseconds; the slowest ones about a second.
pub const CASE_CPU_LIMIT: f64 = 60.0;

/// How many times as long as usual a case may take: a case that took too long once,
/// but ended when repeated by itself, is merely slow.
pub static PATIENCE: AtomicU64 = AtomicU64::new(1);

fn thread_cpu_of(clock: libc::clockid_t) -> Option<f64> {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    if unsafe { libc::clock_gettime(clock, &mut ts) } == 0 {
        Some(ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9)
    } else {
        None
    }
}

pub struct Slot {
    pub seed: AtomicU64,
    pub started_cpu: AtomicU64, // microseconds, 0: idle
    pub clock: Mutex<Option<libc::clockid_t>>,
    pub tid: AtomicU64,
}

/// Samples (ten per second) of a case found asleep before it counts as waiting for
/// something that never comes. The cases themselves wait for nothing.
const ASLEEP_LIMIT: u32 = 300;

fn asleep(tid: u64) -> Option<bool> {
    let stat = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).ok()?;
    Some(stat.rsplit(')').next()?.trim_start().starts_with('S'))
}

/// `on_hang` is called with the seed of a case that exceeds the CPU limit; it
/// doesn't return. `progress` holds the seeds of the cases being run, for whoever
/// looks at the remains of a crashed process.
pub fn run(
    prop: &'static Prop,
    seed: u64,
    thorough: bool,
    secs: f64,
    threads: usize,
    scratch: &Path,
    dict: &Dict,
    progress: Option<&Path>,
    on_hang: fn(u64) -> !,
) -> Report {
    let t0 = Instant::now();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let results: Mutex<Vec<(u64, HashSet<u64>, HashMap<&'static str, u64>, Vec<Vec<String>>)>> = Mutex::new(Vec::new());
    let found: Mutex<Option<(u64, u64, String)>> = Mutex::new(None);
    let harness: Mutex<Option<String>> = Mutex::new(None);
    let failed = AtomicU64::new(0);
    let shared: Arc<dyn std::any::Any + Send + Sync> = match prop.shared {
        Some(f) => f(scratch),
        None => Arc::new(()),
    };
    let slots: Vec<Slot> = (0..threads)
        .map(|_| Slot { seed: AtomicU64::new(0), started_cpu: AtomicU64::new(0), clock: Mutex::new(None), tid: AtomicU64::new(0) })
        .collect();
    let budget = Duration::from_secs_f64(secs);
    let running = AtomicU64::new(threads as u64);
    std::thread::scope(|scope| {
        for w in 0..threads {
            let (next, stop, results, found, harness, failed, shared, slots, running) =
                (&next, &stop, &results, &found, &harness, &failed, &shared, &slots, &running);
            let dir = scratch.join(format!("w{}", w));
            std::fs::create_dir_all(&dir).expect("scratch");
            let dict = dict.clone();
            let progress = progress.map(|p| p.join(format!("w{}", w)));
            let worker = std::thread::Builder::new().stack_size(stack(prop));
            let started = worker.spawn_scoped(scope, move || {
                slots[w].tid.store(unsafe { libc::syscall(libc::SYS_gettid) } as u64, Ordering::Relaxed);
                let mut clock: libc::clockid_t = 0;
                if unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clock) } == 0 {
                    *slots[w].clock.lock().unwrap() = Some(clock);
                }
                let pfile = progress.and_then(|p| std::fs::File::create(p).ok());
                let ctx = Ctx {
                    scratch: dir,
                    dict,
                    tracing: false,
                    thorough,
                    stats: RefCell::new(HashMap::new()),
                    trace: RefCell::new(vec![]),
                    shared: shared.clone(),
                };
                let mut n = 0;
                let mut seen = HashSet::new();
                let mut samples = Vec::new();
                loop {
                    if stop.load(Ordering::Relaxed) {
                        break;
                    }
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if t0.elapsed() > budget && i >= prop.min_cases {
                        break;
                    }
                    let s = case_seed(seed, prop.id, i);
                    slots[w].seed.store(s, Ordering::Relaxed);
                    slots[w].started_cpu.store((thread_cpu() * 1e6) as u64 + 1, Ordering::Relaxed);
                    if let Some(f) = &pfile {
                        use std::os::unix::fs::FileExt;
                        let _ = f.write_all_at(format!("{:020}", s).as_bytes(), 0);
                    }
                    let t1 = thread_cpu();
                    let res = run_case(prop, &ctx, s, None);
                    ctx.max("longest case in milliseconds of processor time", ((thread_cpu() - t1) * 1e3) as u64);
                    match res {
                        Ok(o) => {
                            n += 1;
                            if o.nontrivial {
                                seen.insert(o.signature);
                                if samples.len() < 1 && w < 3 && o.verdict.is_ok() && n > 3 {
                                    let t = Ctx {
                                        scratch: ctx.scratch.clone(),
                                        dict: ctx.dict.clone(),
                                        tracing: true,
                                        thorough,
                                        stats: RefCell::new(HashMap::new()),
                                        trace: RefCell::new(vec![]),
                                        shared: shared.clone(),
                                    };
                                    if run_case(prop, &t, s, None).is_ok() {
                                        let mut tr = t.trace.into_inner();
                                        if tr.len() > 30 {
                                            let more = tr.len() - 30;
                                            tr.truncate(30);
                                            tr.push(format!("... and {} more lines", more));
                                        }
                                        samples.push(tr);
                                    }
                                }
                            }
                            if let Err(m) = o.verdict {
                                let mut f = found.lock().unwrap();
                                if f.as_ref().map_or(true, |x| i < x.0) {
                                    *f = Some((i, s, m));
                                }
                                stop.store(true, Ordering::Relaxed);
                                break;
                            }
                        }
                        Err(m) => {
                            // No verdict on this case; another may yet show a violation.
                            *harness.lock().unwrap() = Some(m);
                            if failed.fetch_add(1, Ordering::Relaxed) >= 2000 {
                                stop.store(true, Ordering::Relaxed);
                                break;
                            }
                        }
                    }
                }
                slots[w].started_cpu.store(0, Ordering::Relaxed);
                *slots[w].clock.lock().unwrap() = None;
                results.lock().unwrap().push((n, seen, ctx.stats.into_inner(), samples));
                running.fetch_sub(1, Ordering::Relaxed);
            });
            started.expect("a thread");
        }
        let (slots, running) = (&slots, &running);
        scope.spawn(move || {
            // Per slot: the case, how often it was looked at, and how often it slept.
            let mut looks: Vec<(u64, u32, u32)> = vec![(0, 0, 0); slots.len()];
            let mut round = 0u64;
            while running.load(Ordering::Relaxed) > 0 {
                std::thread::sleep(Duration::from_millis(20));
                round += 1;
                for (s, look) in slots.iter().zip(&mut looks) {
                    let at = s.started_cpu.load(Ordering::Relaxed);
                    if at == 0 {
                        continue;
                    }
                    if round % 5 == 0 {
                        let seed = s.seed.load(Ordering::Relaxed);
                        if look.0 != seed {
                            *look = (seed, 0, 0);
                        } else if WAITING.lock().unwrap().contains(&s.tid.load(Ordering::Relaxed)) {
                            // A process started by the case, which has limits of its own.
                        } else if let Some(a) = asleep(s.tid.load(Ordering::Relaxed)) {
                            look.1 += 1;
                            look.2 += a as u32;
                            if look.2 > ASLEEP_LIMIT * PATIENCE.load(Ordering::Relaxed) as u32 && look.2 * 10 > look.1 * 9 {
                                on_hang(seed);
                            }
                        }
                    }
                    let clock = s.clock.lock().unwrap();
                    if let Some(c) = *clock {
                        if let Some(now) = thread_cpu_of(c) {
                            // The slot may have moved on to another case meanwhile.
                            if now - (at as f64 / 1e6) > CASE_CPU_LIMIT * PATIENCE.load(Ordering::Relaxed) as f64 && s.started_cpu.load(Ordering::Relaxed) == at {
                                on_hang(s.seed.load(Ordering::Relaxed));
                            }
                        }
                    }
                }
            }
        });
    });
    let mut cases = 0;
    let mut all = HashSet::new();
    let mut stats: HashMap<&'static str, u64> = HashMap::new();
    let mut samples = Vec::new();
    for (n, seen, st, sm) in results.into_inner().unwrap() {
        cases += n;
        all.extend(seen);
        for (k, v) in st {
            let e = stats.entry(k).or_default();
            if k.starts_with("deepest") || k.starts_with("largest") || k.starts_with("longest") || k.starts_with("most ") || k.starts_with("greatest") {
                *e = (*e).max(v);
            } else {
                *e += v;
            }
        }
        samples.extend(sm);
    }
    let found = found.into_inner().unwrap();
    if let (Some((_, s, m)), Some(p)) = (&found, progress) {
        // In case shortening comes to no end.
        let _ = std::fs::write(p.join("found"), format!("{}\n{}", s, m));
    }
    let found = found.map(|(_, s, m)| shorten(prop, s, m, thorough, scratch, dict, &shared));
    Report {
        cases,
        distinct: all.len() as u64,
        stats,
        samples,
        found,
        harness_error: harness.into_inner().unwrap(),
        wall: t0.elapsed().as_secs_f64(),
    }
}

pub fn single(
    prop: &Prop,
    seed: u64,
    keep: Option<&[usize]>,
    thorough: bool,
    scratch: &Path,
    dict: &Dict,
    shared: &Arc<dyn std::any::Any + Send + Sync>,
) -> (Result<Outcome, String>, Vec<String>) {
    let dir = scratch.join("single");
    let _ = std::fs::create_dir_all(&dir);
    let work = || {
        let ctx = Ctx {
            scratch: dir.clone(),
            dict: dict.clone(),
            tracing: true,
            thorough,
            stats: RefCell::new(HashMap::new()),
            trace: RefCell::new(vec![]),
            shared: shared.clone(),
        };
        let o = run_case(prop, &ctx, seed, keep);
        (o, ctx.trace.into_inner())
    };
    if !prop.deep {
        return work();
    }
    std::thread::scope(|scope| std::thread::Builder::new().stack_size(stack(prop)).spawn_scoped(scope, work).expect("a thread").join().expect("a case"))
}

/// How much stack a case gets.
fn stack(prop: &Prop) -> usize {
    if prop.deep {
        256 << 20
    } else {
        2 << 20
    }
}

static WAITING: Mutex<std::collections::BTreeSet<u64>> = Mutex::new(std::collections::BTreeSet::new());

/// Runs a process to its end. It has some seconds of processor time, and is killed
/// when they are over, or when it does nothing for long.
pub fn output(c: &mut std::process::Command, cpu: u64) -> std::process::Output {
    use std::process::Stdio;
    output_to(c, cpu, [Stdio::null(), Stdio::piped(), Stdio::piped()])
}

pub fn output_to(c: &mut std::process::Command, cpu: u64, ends: [std::process::Stdio; 3]) -> std::process::Output {
    use std::os::unix::process::CommandExt;
    unsafe {
        c.pre_exec(move || {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let l = libc::rlimit { rlim_cur: cpu, rlim_max: cpu + 1 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            libc::alarm(280);
            Ok(())
        });
    }
    let tid = unsafe { libc::syscall(libc::SYS_gettid) } as u64;
    WAITING.lock().unwrap().insert(tid);
    let [i, o, e] = ends;
    let out = c.stdin(i).stdout(o).stderr(e).spawn().and_then(|p| p.wait_with_output());
    WAITING.lock().unwrap().remove(&tid);
    out.expect("process")
}

/// The same case in another folder, without tracing.
pub fn within<T>(ctx: &Ctx, dir: PathBuf, f: impl FnOnce(&Ctx) -> T) -> T {
    f(&Ctx {
        scratch: dir,
        dict: ctx.dict.clone(),
        tracing: false,
        thorough: ctx.thorough,
        stats: RefCell::new(HashMap::new()),
        trace: RefCell::new(vec![]),
        shared: ctx.shared.clone(),
    })
}

/// Shortens a failing history by leaving out steps (delta debugging).
fn shorten(
    prop: &Prop,
    seed: u64,
    message: String,
    thorough: bool,
    scratch: &Path,
    dict: &Dict,
    shared: &Arc<dyn std::any::Any + Send + Sync>,
) -> Found {
    let deadline = Instant::now() + Duration::from_secs(20);
    let fails = |keep: &[usize]| -> bool {
        matches!(single(prop, seed, Some(keep), thorough, scratch, dict, shared).0, Ok(Outcome { verdict: Err(_), .. }))
    };
    let (first, trace) = single(prop, seed, None, thorough, scratch, dict, shared);
    let Ok(first) = first else {
        return Found { seed, keep: None, message, trace };
    };
    if first.verdict.is_ok() {
        return Found { seed, keep: None, message: format!("{} (not seen again when repeated alone)", message), trace };
    }
    let mut keep: Vec<usize> = (0..first.steps).collect();
    if !fails(&keep) {
        return Found { seed, keep: None, message, trace };
    }
    let mut chunk = (keep.len() + 1) / 2;
    while chunk >= 1 && Instant::now() < deadline {
        let mut i = 0;
        let mut cut = false;
        while i < keep.len() && Instant::now() < deadline {
            let mut t = keep.clone();
            t.drain(i..(i + chunk).min(keep.len()));
            if fails(&t) {
                keep = t;
                cut = true;
            } else {
                i += chunk;
            }
        }
        if chunk == 1 && !cut {
            break;
        }
        chunk = if chunk == 1 { 1 } else { (chunk + 1) / 2 };
    }
    let (o, trace) = single(prop, seed, Some(&keep), thorough, scratch, dict, shared);
    let message = match o {
        Ok(Outcome { verdict: Err(m), .. }) => m,
        _ => message,
    };
    Found { seed, keep: Some(keep), message, trace }
}
