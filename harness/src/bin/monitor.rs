//! Runs the cases of one property, or replays one case.
//!
//!   monitor run ID --seed N --tier quick|thorough --out FILE --scratch DIR --progress DIR [--secs S] [--threads N]
//!   monitor replay ID --seed CASESEED --tier T --scratch DIR [--keep 1,2,3]
//!   monitor list
//!
//! Exit status: 0 nothing found, 1 violation, 3 harness error, 4 a case never ended.

use scribe_monitor::fault::{self, Call, Verdict};
use scribe_monitor::track::{self, Ev};
use scribe_monitor::{find, gen, props_proc, props_work, run, PROPS};
use serde_json::json;
use std::alloc::{GlobalAlloc, Layout, System};
use std::ffi::{c_char, c_int, c_void};
use std::path::PathBuf;
use std::sync::OnceLock;

// Every allocation of the process, for the storage growth property.

struct Tracking;

unsafe impl GlobalAlloc for Tracking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        track::note(Ev::Alloc(p as usize, l.size()));
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        track::note(Ev::Alloc(p as usize, l.size()));
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        track::note(Ev::Free(p as usize, l.size()));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, size: usize) -> *mut u8 {
        let q = System.realloc(p, l, size);
        track::note(Ev::Realloc(p as usize, l.size(), q as usize, size));
        q
    }
}

#[global_allocator]
static ALLOCATOR: Tracking = Tracking;

// The C library's file functions, for the fault plans.

unsafe fn fail(errno: c_int) -> isize {
    *libc::__errno_location() = errno;
    -1
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, len: usize) -> isize {
    let mut n = len;
    if fault::armed() {
        match fault::decide(Call::Read, len) {
            Verdict::Pass => {}
            Verdict::Limit(l) => n = l.min(len),
            Verdict::Fail(e) => return fail(e),
        }
    }
    let r = libc::syscall(libc::SYS_read, fd, buf, n) as isize;
    if fault::armed() {
        fault::transferred(Call::Read, r);
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, len: usize) -> isize {
    let mut n = len;
    if fault::armed() {
        match fault::decide(Call::Write, len) {
            Verdict::Pass => {}
            Verdict::Limit(l) => n = l.min(len),
            Verdict::Fail(e) => return fail(e),
        }
    }
    let r = libc::syscall(libc::SYS_write, fd, buf, n) as isize;
    if fault::armed() {
        fault::transferred(Call::Write, r);
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, count: c_int) -> isize {
    if fault::armed() {
        for i in 0..count as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                return write(fd, v.iov_base, v.iov_len);
            }
        }
        return 0;
    }
    libc::syscall(libc::SYS_writev, fd, iov, count) as isize
}

unsafe fn open_(path: *const c_char, flags: c_int, mode: libc::c_uint) -> c_int {
    if fault::armed() {
        if let Verdict::Fail(e) = fault::decide(Call::Open, 0) {
            return fail(e) as c_int;
        }
    }
    libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: libc::c_uint) -> c_int {
    open_(path, flags, mode)
}

unsafe fn other_fails() -> bool {
    if fault::armed() {
        if let Verdict::Fail(e) = fault::decide(Call::Other, 0) {
            fail(e);
            return true;
        }
    }
    false
}

#[no_mangle]
pub unsafe extern "C" fn rename(from: *const c_char, to: *const c_char) -> c_int {
    if other_fails() {
        return -1;
    }
    libc::syscall(libc::SYS_rename, from, to) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    if other_fails() {
        return -1;
    }
    libc::syscall(libc::SYS_ftruncate, fd, len) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if other_fails() {
        return -1;
    }
    libc::syscall(libc::SYS_fsync, fd) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if other_fails() {
        return -1;
    }
    libc::syscall(libc::SYS_fdatasync, fd) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, out: *mut c_char) -> *mut c_char {
    if fault::armed() {
        if let Verdict::Fail(e) = fault::decide(Call::Realpath, 0) {
            fail(e);
            return std::ptr::null_mut();
        }
    }
    type F = unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char;
    static REAL: OnceLock<usize> = OnceLock::new();
    let f = *REAL.get_or_init(|| libc::dlsym(libc::RTLD_NEXT, c"realpath".as_ptr()) as usize);
    let f: F = std::mem::transmute(f);
    f(path, out)
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    let r = libc::syscall(libc::SYS_clock_gettime, clock, ts) as c_int;
    let ahead = run::clock_ahead();
    if r == 0 && ahead > 0 && matches!(clock, libc::CLOCK_REALTIME | libc::CLOCK_MONOTONIC | libc::CLOCK_BOOTTIME | libc::CLOCK_REALTIME_COARSE | libc::CLOCK_MONOTONIC_COARSE) {
        let t = &mut *ts;
        let n = t.tv_nsec as u64 + ahead;
        t.tv_sec += (n / 1_000_000_000) as i64;
        t.tv_nsec = (n % 1_000_000_000) as i64;
    }
    r
}

struct Args {
    rest: Vec<String>,
}

impl Args {
    fn opt(&self, name: &str) -> Option<String> {
        let i = self.rest.iter().position(|a| a == name)?;
        self.rest.get(i + 1).cloned()
    }
    fn need(&self, name: &str) -> String {
        self.opt(name).unwrap_or_else(|| die(&format!("{} missing", name)))
    }
}

fn die(m: &str) -> ! {
    eprintln!("monitor: {}", m);
    std::process::exit(3)
}

static OUT: OnceLock<PathBuf> = OnceLock::new();

fn on_hang(seed: u64) -> ! {
    if let Some(out) = OUT.get() {
        let _ = std::fs::write(out, json!({ "hang": seed.to_string() }).to_string());
    }
    unsafe { libc::_exit(4) }
}

fn main() {
    run::install_panic_hook();
    // One of the processes of D01: nothing around it is to be changed.
    if props_proc::asked_to_tell() {
        return;
    }
    let mut it = std::env::args().skip(1);
    let cmd = it.next().unwrap_or_default();
    match cmd.as_str() {
        "list" => {
            for p in PROPS {
                println!("{}", p.id);
            }
        }
        "run" | "replay" => {
            let id = it.next().unwrap_or_default();
            let args = Args { rest: it.collect() };
            let Some(prop) = find(&id) else { die("unknown property") };
            let seed: u64 = args.need("--seed").parse().unwrap_or_else(|_| die("bad seed"));
            let thorough = args.need("--tier") == "thorough";
            let scratch = PathBuf::from(args.need("--scratch"));
            let root = PathBuf::from(args.opt("--repo").unwrap_or("/repo/src".into()));
            std::fs::create_dir_all(&scratch).unwrap_or_else(|e| die(&format!("scratch: {}", e)));
            let scratch = scratch.canonicalize().unwrap_or_else(|e| die(&format!("scratch: {}", e)));
            // Relative paths stay inside the scratch folder.
            let start = std::env::current_dir().unwrap_or_default();
            std::env::set_current_dir(&scratch).unwrap_or_else(|e| die(&format!("scratch: {}", e)));
            // Nothing is to be left there either.
            for (var, dir) in [("TMPDIR", "tmpdir"), ("HOME", "home")] {
                let dir = scratch.join(dir);
                std::fs::create_dir_all(&dir).unwrap_or_else(|e| die(&format!("scratch: {}", e)));
                std::env::set_var(var, &dir);
            }
            let dict = gen::Dict::mine(&root);
            let _ = props_proc::ROOT.set(root.canonicalize().unwrap_or(root));
            if cmd == "run" {
                let out = start.join(args.need("--out"));
                let _ = OUT.set(out.clone());
                let secs: f64 = args
                    .opt("--secs")
                    .map(|s| s.parse().unwrap_or_else(|_| die("bad --secs")))
                    .unwrap_or(if thorough { prop.thorough_secs } else { prop.quick_secs });
                let threads = args
                    .opt("--threads")
                    .map(|s| s.parse().unwrap_or_else(|_| die("bad --threads")))
                    .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()).min(8));
                if let Some(n) = args.opt("--patience").and_then(|n| n.parse().ok()) {
                    run::PATIENCE.store(n, std::sync::atomic::Ordering::Relaxed);
                } else if prop.id == "P01" {
                    // What takes long is looked at there more closely.
                    run::PATIENCE.store(3, std::sync::atomic::Ordering::Relaxed);
                }
                let progress = args.opt("--progress").map(|p| start.join(p));
                let r = run::run(prop, seed, thorough, secs, threads, &scratch, &dict, progress.as_deref(), on_hang);
                let mut missing: Vec<String> =
                    prop.must_see.iter().filter(|k| r.stats.get(**k).copied().unwrap_or(0) == 0).map(|k| format!("nothing counted as {:?}", k)).collect();
                if r.cases < prop.min_cases {
                    missing.push(format!("{} cases of at least {}", r.cases, prop.min_cases));
                }
                let counters: std::collections::BTreeMap<_, _> = r.stats.iter().collect();
                let report = json!({
                    "property": prop.id,
                    "level": prop.level,
                    "rule": prop.rule,
                    "assumptions": prop.assumptions,
                    "cases": r.cases,
                    "distinct": r.distinct,
                    "counters": counters,
                    "samples": r.samples,
                    "wall": r.wall,
                    "threads": threads,
                    "missing": missing,
                    "harness_error": r.harness_error,
                    "found": r.found.as_ref().map(|f| json!({
                        "seed": f.seed.to_string(),
                        "keep": f.keep,
                        "message": f.message,
                        "trace": f.trace,
                    })),
                });
                if let Err(e) = std::fs::write(&out, serde_json::to_string_pretty(&report).unwrap()) {
                    die(&format!("{}: {}", out.display(), e));
                }
                std::process::exit(if r.found.is_some() {
                    1
                } else if r.harness_error.is_some() {
                    3
                } else {
                    0
                });
            }
            let keep: Option<Vec<usize>> =
                args.opt("--keep").map(|k| k.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap_or_else(|_| die("bad --keep"))).collect());
            let shared: std::sync::Arc<dyn std::any::Any + Send + Sync> = match prop.shared {
                Some(f) => f(&scratch),
                None => std::sync::Arc::new(()),
            };
            let (o, trace) = run::single(prop, seed, keep.as_deref(), thorough, &scratch, &dict, &shared);
            for line in trace {
                println!("  {}", line);
            }
            match o {
                Err(m) => die(&m),
                Ok(o) => match o.verdict {
                    Ok(()) => println!("holds"),
                    Err(m) => {
                        println!("violated: {}", m);
                        std::process::exit(1);
                    }
                },
            }
        }
        // One of the processes of P01, measured from outside.
        "toil" => {
            let args = Args { rest: it.collect() };
            let scratch = PathBuf::from(args.need("--scratch"));
            match args.opt("--on") {
                Some(what) => props_work::run_toil_on(&what, &scratch),
                None => props_work::run_toil(args.need("--seed").parse().unwrap_or_else(|_| die("bad seed")), &scratch),
            }
        }
        _ => die("usage: monitor run|replay|list"),
    }
}
