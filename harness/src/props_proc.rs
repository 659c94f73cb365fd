//! The same calls in several processes: each is told the same histories, in another
//! order and in other circumstances, and has to tell the same story.

use crate::gen::Dict;
use crate::model::show;
use crate::props_space;
use crate::props_twin;
use crate::rng::{hash_str, mix2, Rng};
use crate::run::{self, Ctx, Outcome, Prop};
use std::collections::BTreeMap;
use std::ffi::CString;
use std::fs::{self, File};
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::OnceLock;

/// Where the dictionary was mined, for the processes to do the same.
pub static ROOT: OnceLock<PathBuf> = OnceLock::new();
/// The order in which a process goes through its histories.
pub static TURN: OnceLock<usize> = OnceLock::new();

const HISTORIES: usize = 4;

/// What a process does: its histories, a line for everything that can be told.
pub fn tell(ctx: &Ctx, seed: u64, _: Option<&[usize]>) -> Outcome {
    let turn = TURN.get().copied().unwrap_or(0);
    let mut told = vec![];
    let base = ctx.scratch.clone();
    for k in 0..HISTORIES {
        let k = if turn % 2 == 0 { (k + turn) % HISTORIES } else { (HISTORIES * 2 - k + turn) % HISTORIES };
        let seed = mix2(seed, k as u64);
        let spaces = k == 3 && seed % 3 == 0;
        // A folder of its own for every history.
        let dir = base.join(k.to_string());
        fs::create_dir_all(&dir).expect("scratch");
        let lines = run::within(ctx, dir, |ctx| if spaces { props_space::story(ctx, seed) } else { props_twin::story(ctx, seed) });
        for line in lines {
            told.push(format!("{}\t{}", k, line.replace('\n', "\\n").replace('\r', "\\r")));
        }
    }
    *ctx.trace.borrow_mut() = told;
    Outcome { verdict: Ok(()), steps: 0, signature: seed, nontrivial: true }
}

pub static TELL: Prop = Prop {
    id: "tell",
    rule: "",
    level: "exploration",
    case: tell,
    min_cases: 0,
    must_see: &[],
    quick_secs: 0.0,
    thorough_secs: 0.0,
    deep: false,
    shared: None,
    assumptions: &[],
};

const NAMES: &[&str] = &[
    "LANG", "LC_ALL", "LC_CTYPE", "LC_COLLATE", "LC_MESSAGES", "LANGUAGE", "TZ", "HOME", "TMPDIR", "PATH", "USER", "LOGNAME", "SHELL", "PWD", "OLDPWD", "TERM", "COLORTERM", "COLUMNS",
    "LINES", "EDITOR", "VISUAL", "PAGER", "DEBUG", "VERBOSE", "CI", "NO_COLOR", "CLICOLOR", "POSIXLY_CORRECT", "XDG_CONFIG_HOME", "XDG_CACHE_HOME", "XDG_DATA_HOME", "XDG_RUNTIME_DIR",
    "SCRIBE", "SCRIBE_DEBUG", "SCRIBE_SYNTAXES", "SCRIBE_SYNTAX_PATH", "SCRIBE_LOG", "SCRIBE_PATH", "AMP", "AMP_CONFIG", "SYNTECT", "RUST_LOG", "RUST_BACKTRACE", "TABSTOP", "TABSIZE",
    "IFS", "CDPATH", "HOSTNAME", "DISPLAY", "SSH_TTY", "SOURCE_DATE_EPOCH", "BASH_ENV", "ENV", "TEST", "NODE_ENV", "CARGO", "CARGO_MANIFEST_DIR", "OUT_DIR",
];

const VALUES: &[&str] = &[
    "", "0", "1", "true", "false", "C", "POSIX", "tr_TR.UTF-8", "de_DE.ISO-8859-1", "ja_JP.EUC-JP", "UTC+14", "Asia/Kathmandu", "/nonexistent", ".", "/", "dumb", "xterm-256color", "3",
    "80", "999999999999", "full", "trace", "vi", "a:b", "é", "Rust", "source.rust",
];

/// The circumstances of a process.
struct Around {
    turn: usize,
    env: Option<BTreeMap<String, String>>,
    cwd: Option<PathBuf>,
    umask: Option<u32>,
    files: Option<u64>,
    stack: Option<u64>,
    one_cpu: bool,
    nice: bool,
    ahead: u64,
    name: Option<&'static str>,
    args: Vec<String>,
    /// The thread it's done on, if it isn't the first one. It may have a name.
    thread: Option<&'static str>,
    /// Whether the program was built without the checks it has otherwise.
    bare: bool,
    /// What input, output and errors are: nothing, a terminal, a file, or a pipe.
    ends: [End; 3],
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Null,
    Terminal,
    File,
    Pipe,
}

/// What programs are told by those who start them.
const ARGS: &[&str] = &[
    "", "-", "--", "-h", "--help", "-v", "--version", "-d", "--debug", "-q", "--test", "+12", "a.rs", "doc.txt", ".", "/nonexistent", "--nocapture", "--test-threads=1", "bench", "--bench",
    "-c", "tabstop=3", "é", "--color=always", "--exact", "tests::search", "--readonly", "-R", "-b", "--binary",
];

impl Around {
    fn plain(turn: usize) -> Around {
        Around { turn, env: None, cwd: None, umask: None, files: None, stack: None, one_cpu: false, nice: false, ahead: 0, name: None, args: vec![], thread: None, bare: false, ends: [End::Null, End::Pipe, End::Pipe] }
    }

    fn odd(r: &mut Rng, dict: &Dict, scratch: &Path) -> Around {
        let env = match r.below(4) {
            0 => BTreeMap::new(),
            _ => {
                let mut env = BTreeMap::new();
                let mined = dict.strings.iter().filter(|s| s.len() > 1 && s.chars().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || c == '_')).map(|s| s.as_str());
                for n in NAMES.iter().copied().chain(mined) {
                    if r.chance(80) && !["LD_", "MALLOC_", "GLIBC_", "RUST_MIN_STACK"].iter().any(|x| n.starts_with(x)) {
                        let v = match r.below(6) {
                            0 => scratch.join("elsewhere").display().to_string(),
                            _ => r.pick(VALUES).to_string(),
                        };
                        env.insert(n.to_string(), v);
                    }
                }
                env
            }
        };
        let days = 86_400_000_000_000u64;
        Around {
            turn: r.below(8),
            env: Some(env),
            cwd: match r.below(5) {
                0 => None,
                1 => Some(PathBuf::from("/")),
                _ => Some(scratch.join("elsewhere")),
            },
            umask: if r.chance(50) { Some(*r.pick(&[0, 0o022, 0o077, 0o177])) } else { None },
            files: if r.chance(40) { Some(*r.pick(&[24, 64])) } else { None },
            stack: if r.chance(30) { Some(*r.pick(&[1 << 20, 1 << 27])) } else { None },
            one_cpu: r.chance(30),
            nice: r.chance(20),
            ahead: match r.below(4) {
                0 => 0,
                1 => r.below(24) as u64 * days / 24,
                2 => r.below(400) as u64 * days + r.next() % days,
                _ => 60 * 365 * days + r.next() % days,
            },
            name: if r.chance(30) { Some(*r.pick(&["", "scribe", "/usr/bin/vi"])) } else { None },
            args: (0..*r.pick(&[0, 0, 1, 1, 2, 3, 5, 17])).map(|_| if !dict.strings.is_empty() && r.chance(25) { r.pick(&dict.strings).replace('\0', "") } else { r.pick(ARGS).to_string() }).collect(),
            thread: if r.chance(40) { Some(*r.pick(&["", "", "main", "worker", "tests::search", "tokio-runtime-worker"])) } else { None },
            bare: r.chance(30),
            ends: {
                let all = [End::Null, End::Terminal, End::Terminal, End::File, End::Pipe];
                match r.below(3) {
                    0 => [End::Terminal; 3],
                    _ => [*r.pick(&all), *r.pick(&all), *r.pick(&all)],
                }
            },
        }
    }

    fn show(&self) -> String {
        let mut out = vec![];
        if self.turn > 0 {
            out.push(format!("histories in another order ({})", self.turn));
        }
        if let Some(e) = &self.env {
            out.push(format!("environment {:?}", e));
        }
        if let Some(c) = &self.cwd {
            out.push(format!("current directory {}", c.display()));
        }
        if let Some(u) = self.umask {
            out.push(format!("umask {:o}", u));
        }
        if let Some(n) = self.files {
            out.push(format!("at most {} open files", n));
        }
        if let Some(n) = self.stack {
            out.push(format!("a stack of {} bytes", n));
        }
        if self.one_cpu {
            out.push("a single processor".into());
        }
        if self.ahead > 0 {
            out.push(format!("the clock {} s ahead", self.ahead / 1_000_000_000));
        }
        if let Some(n) = self.name {
            out.push(format!("started as {:?}", n));
        }
        if !self.args.is_empty() {
            out.push(format!("the arguments {:?}", self.args));
        }
        if let Some(n) = self.thread {
            out.push(format!("the calls made on a further thread, named {:?}", n));
        }
        if self.bare {
            out.push("the program built without assertions and overflow checks".into());
        }
        if self.ends != [End::Null, End::Pipe, End::Pipe] {
            out.push(format!("input, output and errors being {:?}", self.ends));
        }
        if out.is_empty() {
            "nothing in particular".into()
        } else {
            out.join(", ")
        }
    }
}

/// The number of the file that says what to tell; the next one takes what is told.
const SPEC_AT: i32 = 40;
const SPEC: &str = "histories to tell\n";

/// A file without a name.
fn memory(text: &str) -> OwnedFd {
    let fd = unsafe { libc::memfd_create(c"tell".as_ptr(), libc::MFD_CLOEXEC) };
    assert!(fd >= 0, "memfd_create: {}", std::io::Error::last_os_error());
    let mut f = unsafe { File::from_raw_fd(fd) };
    f.write_all(text.as_bytes()).and_then(|_| f.seek(SeekFrom::Start(0))).expect("memory file");
    f.into()
}

/// A terminal whose other end is read by a thread.
struct Terminal {
    end: OwnedFd,
    reader: std::thread::JoinHandle<Vec<u8>>,
}

impl Terminal {
    fn open() -> Option<Terminal> {
        unsafe {
            let m = libc::posix_openpt(libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
            if m < 0 {
                return None;
            }
            let mut master = File::from_raw_fd(m);
            let mut name = [0 as libc::c_char; 100];
            if libc::grantpt(m) != 0 || libc::unlockpt(m) != 0 || libc::ptsname_r(m, name.as_mut_ptr(), name.len()) != 0 {
                return None;
            }
            let s = libc::open(name.as_ptr(), libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
            if s < 0 {
                return None;
            }
            let reader = std::thread::spawn(move || {
                let mut all = vec![];
                let mut some = [0; 4096];
                // Fails once nobody has the other end any more.
                while let Ok(n) = master.read(&mut some) {
                    if n == 0 {
                        break;
                    }
                    if all.len() < 100_000 {
                        all.extend_from_slice(&some[..n]);
                    }
                }
                all
            });
            Some(Terminal { end: OwnedFd::from_raw_fd(s), reader })
        }
    }

    fn close(self) -> Vec<u8> {
        drop(self.end);
        self.reader.join().unwrap_or_default()
    }
}

/// Tells, if that is what this process was started for.
pub fn asked_to_tell() -> bool {
    let fd = SPEC_AT;
    if unsafe { libc::fcntl(fd, libc::F_GETFD) < 0 || libc::fcntl(fd + 1, libc::F_GETFD) < 0 } {
        return false;
    }
    let mut st: libc::stat = unsafe { std::mem::zeroed() };
    if unsafe { libc::fstat(fd, &mut st) } != 0 || st.st_mode & libc::S_IFMT != libc::S_IFREG {
        return false;
    }
    let mut spec = vec![0; st.st_size as usize];
    let n = unsafe { libc::pread(fd, spec.as_mut_ptr().cast(), spec.len(), 0) };
    spec.truncate(n.max(0) as usize);
    let Some(spec) = String::from_utf8(spec).ok().and_then(|s| s.strip_prefix(SPEC).map(str::to_string)) else { return false };
    let mut out = unsafe {
        libc::close(fd);
        File::from_raw_fd(fd + 1)
    };
    let l: Vec<&str> = spec.split('\n').collect();
    let _ = TURN.set(l[2].parse().expect("turn"));
    run::AHEAD.store(l[3].parse().expect("ahead"), std::sync::atomic::Ordering::Relaxed);
    let told = match l[5] {
        "-" => run_tell(l[0].parse().expect("seed"), Path::new(l[1]), Path::new(l[4])),
        name => std::thread::scope(|scope| {
            let mut thread = std::thread::Builder::new();
            if name.len() > 1 {
                thread = thread.name(name[1..].to_string());
            }
            thread
                .stack_size(8 << 20)
                .spawn_scoped(scope, || run_tell(l[0].parse().expect("seed"), Path::new(l[1]), Path::new(l[4])))
                .expect("a thread")
                .join()
                .expect("a thread telling")
        }),
    };
    match told {
        Ok(lines) => out.write_all(lines.join("\n").as_bytes()).expect("telling"),
        Err(m) => {
            eprintln!("monitor: {}", m);
            std::process::exit(3)
        }
    }
    true
}

/// The program as others build it: without assertions and checks for overflow.
fn bare() -> Option<PathBuf> {
    let exe = std::env::current_exe().ok()?;
    let other = exe.parent()?.parent()?.join("bare").join(exe.file_name()?);
    other.exists().then_some(other)
}

/// What a process tells: its histories' lines.
fn listen(seed: u64, a: &Around, dir: &Path) -> Result<Vec<Vec<String>>, String> {
    let mut exe = std::env::current_exe().expect("own path");
    if a.bare {
        exe = bare().expect("another build");
    }
    let _ = fs::remove_dir_all(dir);
    fs::create_dir_all(dir).expect("scratch");
    let mut c = Command::new(&exe);
    c.args(&a.args);
    // What to do isn't said in the arguments or the environment.
    let spec = memory(&format!(
        "{}{}\n{}\n{}\n{}\n{}\n{}",
        SPEC,
        seed,
        dir.display(),
        a.turn,
        a.ahead,
        ROOT.get().expect("root").display(),
        a.thread.map_or("-".to_string(), |n| format!("+{}", n))
    ));
    let told = memory("");
    let (spec_fd, told_fd) = (spec.as_raw_fd(), told.as_raw_fd());
    if let Some(env) = &a.env {
        c.env_clear();
        for (k, v) in env {
            c.env(k, v);
        }
    }
    if let Some(cwd) = &a.cwd {
        c.current_dir(cwd);
    }
    if let Some(n) = a.name {
        c.arg0(CString::new(n).unwrap().to_str().unwrap());
    }
    let (umask, files, stack, one_cpu, nice) = (a.umask, a.files, a.stack, a.one_cpu, a.nice);
    unsafe {
        c.pre_exec(move || {
            // Two steps, in case the numbers are taken by one another.
            let (x, y) = (libc::fcntl(spec_fd, libc::F_DUPFD, 50), libc::fcntl(told_fd, libc::F_DUPFD, 50));
            if x < 0 || y < 0 || libc::dup2(x, SPEC_AT) < 0 || libc::dup2(y, SPEC_AT + 1) < 0 {
                return Err(std::io::Error::last_os_error());
            }
            libc::close(x);
            libc::close(y);
            if let Some(u) = umask {
                libc::umask(u);
            }
            for (what, n) in [(libc::RLIMIT_NOFILE, files), (libc::RLIMIT_STACK, stack)] {
                if let Some(n) = n {
                    let mut l: libc::rlimit = std::mem::zeroed();
                    if libc::getrlimit(what, &mut l) == 0 {
                        l.rlim_cur = n.min(l.rlim_max);
                        libc::setrlimit(what, &l);
                    }
                }
            }
            if one_cpu {
                let mut set: libc::cpu_set_t = std::mem::zeroed();
                if libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) == 0 {
                    if let Some(k) = (0..1024).rev().find(|k| libc::CPU_ISSET(*k, &set)) {
                        let mut one: libc::cpu_set_t = std::mem::zeroed();
                        libc::CPU_SET(k, &mut one);
                        libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
                    }
                }
            }
            if nice {
                libc::setpriority(libc::PRIO_PROCESS, 0, 3);
            }
            Ok(())
        });
    }
    let terminal = if a.ends.contains(&End::Terminal) { Terminal::open() } else { None };
    let ends = [0, 1, 2].map(|k| match a.ends[k] {
        End::Null => Stdio::null(),
        End::Pipe => Stdio::piped(),
        End::File => Stdio::from(File::from(memory("something\nto be read\n"))),
        End::Terminal => terminal.as_ref().map_or(Stdio::null(), |t| Stdio::from(t.end.try_clone().expect("terminal"))),
    });
    let out = run::output_to(&mut c, 60, ends);
    // The ends of the terminal go with the command.
    drop(c);
    let shown = terminal.map_or(vec![], |t| t.close());
    let _ = fs::remove_dir_all(dir);
    let mut file = File::from(told);
    let mut told = vec![];
    file.seek(SeekFrom::Start(0)).and_then(|_| file.read_to_end(&mut told)).expect("what was told");
    let told = String::from_utf8_lossy(&told);
    let said = || format!("{} {}", String::from_utf8_lossy(&out.stderr).trim(), String::from_utf8_lossy(&shown).trim());
    match out.status.code() {
        Some(0) => {}
        Some(code) => panic!("the process telling {} with {} ended with {}: {}", seed, a.show(), code, said()),
        // A stack overflow, an abort, a signal.
        None => return Err(format!("a process with {} came to its end: {}; {}", a.show(), out.status, said())),
    }
    let mut lines = vec![vec![]; HISTORIES];
    for l in told.lines() {
        let Some((k, rest)) = l.split_once('\t') else { continue };
        // Lines that the library wrote there are not part of the story.
        if let Ok(k) = k.parse::<usize>() {
            if k < HISTORIES {
                lines[k].push(rest.to_string());
            }
        }
    }
    Ok(lines)
}

pub fn d01(ctx: &Ctx, seed: u64, _: Option<&[usize]>) -> Outcome {
    let mut r = Rng::new(mix2(seed, 0xD01));
    let mut signature = seed;
    let (mut steps, mut told) = (0u64, 0u64);
    let verdict = (|| -> Result<(), String> {
        let dir = ctx.scratch.join("told");
        let elsewhere = ctx.scratch.join("elsewhere");
        // Files of the same names, which nobody asks for.
        fs::create_dir_all(elsewhere.join("sub")).expect("scratch");
        for n in ["a.rs", "doc.txt", "b.py", "c.txt", "sub/a.rs", "Makefile", ".editorconfig", "extra.sublime-syntax", ".gitignore"] {
            fs::write(elsewhere.join(n), "something else entirely\n").expect("scratch");
        }
        let plain = listen(seed, &Around::plain(0), &dir)?;
        if plain.iter().all(|l| l.is_empty()) {
            panic!("nothing was told");
        }
        told += 1;
        for l in plain.iter().flatten() {
            signature = mix2(signature, hash_str(l));
            steps += 1;
        }
        for k in 0..if ctx.tracing { 8 } else { 3 } {
            let mut a = if k == 1 { Around::plain(r.below(8)) } else { Around::odd(&mut r, &ctx.dict, &ctx.scratch) };
            a.bare &= bare().is_some();
            ctx.say(|| format!("a process with {}", a.show()));
            let other = listen(seed, &a, &dir)?;
            told += 1;
            if a.env.is_some() {
                ctx.add("processes in other circumstances", 1);
            }
            ctx.add("processes of a program built without assertions and overflow checks", a.bare as u64);
            ctx.add("processes making the calls on a further thread", a.thread.is_some() as u64);
            if a.turn % HISTORIES != 0 {
                ctx.add("processes with another order of histories", 1);
            }
            for h in 0..HISTORIES {
                for i in 0..plain[h].len().max(other[h].len()) {
                    let (x, y) = (plain[h].get(i), other[h].get(i));
                    if x != y {
                        let before = if i > 0 { plain[h].get(i - 1).map_or("", |s| s.as_str()) } else { "" };
                        let cut = |s: Option<&String>| s.map_or("nothing".into(), |s| show(&s.chars().take(700).collect::<String>()));
                        return Err(format!(
                            "the same calls give other results in another process, with {}:\n  first: {}\n  then:  {}\n  after: {}",
                            a.show(),
                            cut(x),
                            cut(y),
                            show(&before.chars().take(300).collect::<String>())
                        ));
                    }
                }
            }
        }
        Ok(())
    })();
    ctx.add("processes", told);
    ctx.add("steps told and compared", steps * told.saturating_sub(1));
    Outcome { verdict, steps: 0, signature, nontrivial: told > 2 }
}

/// What is on disk afterwards.
pub fn files_below(dir: &Path) -> Vec<String> {
    let mut out = vec![];
    let mut stack = vec![dir.to_path_buf()];
    while let Some(d) = stack.pop() {
        let Ok(entries) = fs::read_dir(&d) else { continue };
        for e in entries.flatten() {
            let q = e.path();
            let name = q.strip_prefix(dir).unwrap_or(&q).display().to_string();
            match fs::symlink_metadata(&q) {
                Ok(m) if m.is_dir() => {
                    out.push(format!("folder {}", name));
                    stack.push(q);
                }
                Ok(m) if m.is_file() => out.push(format!("file {} {:x}", name, fs::read(&q).map_or(0, |b| b.iter().fold(7, |h, x| mix2(h, *x as u64))))),
                _ => out.push(format!("other {}", name)),
            }
        }
    }
    out.sort();
    out
}

pub fn run_tell(seed: u64, scratch: &Path, root: &Path) -> Result<Vec<String>, String> {
    let dict = Dict::mine(root);
    let shared: std::sync::Arc<dyn std::any::Any + Send + Sync> = std::sync::Arc::new(());
    let (o, lines) = run::single(&TELL, seed, None, false, scratch, &dict, &shared);
    o.map(|_| lines)
}
