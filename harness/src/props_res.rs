//! What errors tell, what file operations leave behind in the process, and how much
//! memory is held by what doesn't grow.

use crate::fault::{self, Plan};
use crate::gen;
use crate::model::{show, Doc};
use crate::props_io::{bad_utf8, hard_plan};
use crate::props_tok::{self, with_workspace, Syntaxes};
use crate::rng::{hash_str, mix2, Rng};
use crate::run::{guard, own_cwd, Ctx, Outcome};
use crate::session::{needle, some_range, variant};
use crate::track;
use scribe::buffer::{Position, Token};
use scribe::{Buffer, Error, ErrorKind, Workspace};
use std::any::Any;
use std::collections::BTreeSet;
use std::fs;
use std::io;
use std::os::unix::fs::symlink;
use std::path::{Path, PathBuf};
use std::sync::{Arc, OnceLock};
use std::time::{Duration, Instant};

/// What an error has to tell.
#[derive(Clone, Debug, PartialEq)]
enum Cause {
    /// An error of the system, by its number.
    System(i32),
    /// One that the standard library found before asking the system.
    Kind(io::ErrorKind),
    NoPath,
    NoBuffer,
    NoSyntax,
    Parsing,
    Definitions,
}

fn of_io(e: &io::Error) -> Cause {
    match e.raw_os_error() {
        Some(n) => Cause::System(n),
        None => Cause::Kind(e.kind()),
    }
}

fn of_error(e: &Error) -> Option<Cause> {
    Some(match e.kind() {
        ErrorKind::Io(e) => of_io(e),
        ErrorKind::MissingPath => Cause::NoPath,
        ErrorKind::EmptyWorkspace => Cause::NoBuffer,
        ErrorKind::MissingSyntax => Cause::NoSyntax,
        ErrorKind::ParsingError(_) => Cause::Parsing,
        ErrorKind::SyntaxLoadingError(_) => Cause::Definitions,
        _ => return None,
    })
}

/// Calls that can fail on account of a file.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Call {
    Load,
    Save,
    Reload,
    Open,
}

/// The error that the same steps meet outside of the library, nothing being changed by them.
fn reference(call: Call, path: &Path) -> Option<Cause> {
    let tried = match call {
        Call::Save => fs::OpenOptions::new().write(true).open(path).map(|_| ()).or_else(|e| {
            if e.kind() == io::ErrorKind::NotFound && path.symlink_metadata().is_err() && path.parent().map_or(false, |p| p.is_dir()) && !path.to_string_lossy().ends_with('/') {
                Ok(())
            } else {
                Err(e)
            }
        }),
        _ => fs::read(path).and_then(|b| String::from_utf8(b).map(|_| ()).map_err(|_| io::Error::from(io::ErrorKind::InvalidData))),
    };
    tried.err().map(|e| of_io(&e))
}

pub fn e01(ctx: &Ctx, seed: u64, _keep: Option<&[usize]>) -> Outcome {
    let mut r = Rng::new(mix2(seed, 0xE01));
    let sh = ctx.shared.clone();
    let sh = sh.downcast_ref::<Syntaxes>().expect("syntaxes");
    let style = gen::style(&mut r);
    let text = gen::document(&mut r, style, &ctx.dict, false);
    let dir = ctx.scratch.join("e01");
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(dir.join("sub")).expect("scratch");
    let file = dir.join(*r.pick(&["doc.txt", "a", "main.rs", ".hidden", "é.md"]));
    fs::write(&file, &text).expect("scratch");
    let (mut injected, mut real, mut own, mut bad, mut sig) = (0u64, 0u64, 0u64, 0u64, seed);
    let verdict = (|| -> Result<(), String> {
        let mut b = guard("from_file", || Buffer::from_file(&file))?.map_err(|e| format!("from_file: {}", e))?;
        if r.chance(50) {
            guard("insert", || b.insert("more "))?;
        }
        let good = b.path.clone();
        for _ in 0..r.range(4, 12) {
            // Whether it's saved or loaded, within a group or not, after other failures or not.
            if r.one_in(8) {
                guard("start_operation_group", || b.start_operation_group())?;
            }
            if r.one_in(8) {
                guard("insert", || b.insert("x"))?;
            }
            let call = *r.pick(&[Call::Load, Call::Save, Call::Reload, Call::Open]);
            match r.below(10) {
                0..=4 => {
                    // The system says no.
                    fs::write(&file, &text).expect("scratch");
                    let errno = *r.pick(&[
                        libc::EIO, libc::EACCES, libc::EPERM, libc::ENOSPC, libc::EROFS, libc::ENOMEM, libc::EMFILE, libc::ENFILE, libc::ENXIO, libc::ETXTBSY, libc::EDQUOT, libc::EFBIG,
                        libc::ESTALE, libc::ENODEV, libc::ETIMEDOUT, libc::ENOENT, libc::EISDIR, libc::EBUSY, libc::EPIPE, libc::EAGAIN, libc::ENOTCONN,
                    ]);
                    let mut plan = Plan { errno, once: r.chance(30), ..Plan::default() };
                    if r.chance(50) {
                        plan.piece = *r.pick(&[1, 3, 64, 1000]);
                    }
                    let nth = if r.chance(60) { 1 } else { r.range(1, 5) as u32 };
                    match r.below(3) {
                        0 => plan.fail_open = 1,
                        1 if call == Call::Save => plan.fail_write = nth,
                        1 => plan.fail_read = nth,
                        // Resolving comes first or last.
                        _ => plan.fail_realpath = r.range(1, 2) as u32,
                    }
                    ctx.say(|| format!("{:?} with {:?}", call, plan));
                    let (got, seen) = make(call, &mut b, &file, ctx, sh, plan)?;
                    let Some(got) = got else { continue };
                    if seen.failed == 0 {
                        return Err(format!("{:?} of {:?} failed without a cause: {}", call, file, got.1));
                    }
                    injected += 1;
                    if got.0 != Some(Cause::System(errno)) {
                        return Err(format!("{:?} met {} ({:?}), but its error is: {} ({:?})", call, io::Error::from_raw_os_error(errno), plan, got.1, got.0));
                    }
                }
                5..=7 => {
                    // Things are as they are.
                    let odd = dir.join("odd");
                    let _ = fs::remove_file(&odd);
                    let path = match r.below(13) {
                        0 => dir.join("missing.txt"),
                        1 => dir.join("missing/x.txt"),
                        2 => file.join("x.txt"),
                        3 => dir.clone(),
                        4 => dir.join("sub"),
                        5 => {
                            symlink(&odd, &odd).expect("symlink");
                            odd.clone()
                        }
                        6 => {
                            symlink(dir.join("missing/nowhere"), &odd).expect("symlink");
                            odd.clone()
                        }
                        7 => dir.join("n".repeat(300)),
                        8 => PathBuf::from(format!("{}/{}", dir.display(), "d/".repeat(3000))),
                        9 => dir.join("a\0b"),
                        10 if call == Call::Save => PathBuf::from("/dev/full"),
                        10 => PathBuf::from("/proc/self/mem"),
                        _ => {
                            fs::write(&odd, bad_utf8(&mut r, &text)).expect("scratch");
                            odd.clone()
                        }
                    };
                    let expected = if path == Path::new("/dev/full") {
                        Some(Cause::System(libc::ENOSPC)).filter(|_| !b.data().is_empty())
                    } else {
                        reference(call, &path)
                    };
                    b.path = Some(path.clone());
                    ctx.say(|| format!("{:?} of {:?}, to tell {:?}", call, path, expected));
                    let (got, _) = make(call, &mut b, &path, ctx, sh, Plan::default())?;
                    b.path = good.clone();
                    match (expected, got) {
                        (Some(e), Some(g)) => {
                            real += 1;
                            bad += (e == Cause::Kind(io::ErrorKind::InvalidData)) as u64;
                            if g.0 != Some(e.clone()) {
                                return Err(format!("{:?} of {:?} failed for {:?}, but its error is: {} ({:?})", call, path, e, g.1, g.0));
                            }
                        }
                        (None, Some(g)) => return Err(format!("{:?} of {:?} failed without a cause: {}", call, path, g.1)),
                        (Some(e), None) => return Err(format!("{:?} of {:?} succeeded in spite of {:?}", call, path, e)),
                        (None, None) => {}
                    }
                }
                8 => {
                    // Nothing to work with.
                    fs::write(&file, &text).expect("scratch");
                    let e = match r.below(5) {
                        0 => {
                            b.path = None;
                            let e = guard("reload", || b.reload())?.err();
                            b.path = good.clone();
                            (e, Cause::NoPath)
                        }
                        1 => (with_workspace(ctx, sh, |ws| guard("current_buffer_tokens", || ws.current_buffer_tokens().err()))?, Cause::NoBuffer),
                        2 => (with_workspace(ctx, sh, |ws| guard("update_current_syntax", || ws.update_current_syntax().err()))?, Cause::NoBuffer),
                        3 => {
                            let e = with_workspace(ctx, sh, |ws| {
                                guard("open_buffer", || ws.open_buffer(&file))?.map_err(|e| format!("open_buffer: {}", e))?;
                                ws.current_buffer.as_mut().unwrap().syntax_definition = None;
                                guard("current_buffer_tokens", || ws.current_buffer_tokens().err())
                            })?;
                            (e, Cause::NoSyntax)
                        }
                        _ => {
                            let e = with_workspace(ctx, sh, |ws| {
                                let mut x = Buffer::new();
                                guard("insert", || x.insert("BOOM\n"))?;
                                x.syntax_definition = sh.set.find_syntax_by_name(&sh.failing[0]).cloned();
                                guard("add_buffer", || ws.add_buffer(x))?;
                                guard("tokens", || ws.current_buffer_tokens().and_then(|t| t.iter().map(|_| ())).err())
                            })?;
                            (e, Cause::Parsing)
                        }
                    };
                    ctx.say(|| format!("a call failing for {:?}", e.1));
                    own += 1;
                    match &e.0 {
                        Some(x) if of_error(x) == Some(e.1.clone()) => {}
                        Some(x) => return Err(format!("a call that failed for {:?} gives the error {} ({:?})", e.1, x, of_error(x))),
                        None => return Err(format!("a call succeeded in spite of {:?}", e.1)),
                    }
                }
                _ if r.one_in(8) => {
                    let defs = dir.join("defs");
                    let _ = fs::remove_dir_all(&defs);
                    fs::create_dir_all(defs.join("in")).expect("scratch");
                    let what = r.below(4);
                    // Definitions there are don't matter, if the folder isn't there.
                    let some = if r.chance(50) { Some(defs.clone()) } else { None };
                    let (place, set, e) = match what {
                        0 => (dir.join("missing"), some, Cause::System(libc::ENOENT)),
                        1 => (file.join("x"), some, Cause::System(libc::ENOTDIR)),
                        2 => (dir.clone(), Some(dir.join("missing")), Cause::Definitions),
                        _ => {
                            fs::write(defs.join("in/x.sublime-syntax"), *r.pick(&["%YAML 1.2\n---\nname: [\n", "", "name: x\n", "%YAML 1.2\n---\nname: B\nscope: source.b\ncontexts:\n  main:\n    - match: '('\n      scope: b\n"])).expect("scratch");
                            (dir.clone(), Some(defs.clone()), Cause::Definitions)
                        }
                    };
                    ctx.say(|| format!("a workspace for {:?} with {:?}, to tell {:?}", place, set, e));
                    let got = guard("Workspace::new", || Workspace::new(&place, set.as_deref()).err())?;
                    own += 1;
                    match got {
                        // Patterns are looked at when they're needed.
                        None if what == 3 => {}
                        Some(x) if of_error(&x) == Some(e.clone()) => {}
                        Some(x) => return Err(format!("creating a workspace failed for {:?}, but its error is: {} ({:?})", e, x, of_error(&x))),
                        None => return Err(format!("a workspace was created in spite of {:?}", e)),
                    }
                }
                _ => {
                    // All is well.
                    fs::write(&file, &text).expect("scratch");
                    let (got, _) = make(call, &mut b, &file, ctx, sh, Plan::default())?;
                    if let Some(g) = got {
                        return Err(format!("{:?} of {:?} failed without a cause: {}", call, file, g.1));
                    }
                }
            }
        }
        sig = mix2(hash_str(&text), mix2(injected, mix2(real, own)));
        Ok(())
    })();
    ctx.add("errors injected and compared", injected);
    ctx.add("errors of the system compared", real);
    ctx.add("texts that aren't UTF-8 reported as such", bad);
    ctx.add("errors of the library's own compared", own);
    let _ = fs::remove_dir_all(&dir);
    Outcome { verdict, steps: 0, signature: sig, nontrivial: injected + real + own > 0 }
}

/// Makes a call, and tells its error, if any, and how it reads.
fn make(call: Call, b: &mut Buffer, path: &Path, ctx: &Ctx, sh: &Syntaxes, plan: Plan) -> Result<(Option<(Option<Cause>, String)>, fault::Seen), String> {
    Ok(match call {
        Call::Load => {
            let (e, seen) = fault::with_plan(plan, || guard("from_file", || Buffer::from_file(path).err()));
            (e?.map(|e| (Some(of_io(&e)), e.to_string())), seen)
        }
        Call::Save => {
            let (e, seen) = fault::with_plan(plan, || guard("save", || b.save().err()));
            (e?.map(|e| (Some(of_io(&e)), e.to_string())), seen)
        }
        Call::Reload => {
            let (e, seen) = fault::with_plan(plan, || guard("reload", || b.reload().err()));
            (e?.map(|e| (of_error(&e), e.to_string())), seen)
        }
        Call::Open => with_workspace(ctx, sh, |ws| {
            let (e, seen) = fault::with_plan(plan, || guard("open_buffer", || ws.open_buffer(path).err()));
            Ok((e?.map(|e| (of_error(&e), e.to_string())), seen))
        })?,
    })
}

// What file operations leave behind.

#[derive(Clone, PartialEq, Debug)]
struct Process {
    cwd: Option<PathBuf>,
    mask: String,
    signals: Vec<String>,
    env: Vec<(std::ffi::OsString, std::ffi::OsString)>,
    limits: Vec<(u64, u64)>,
    root: Option<PathBuf>,
}

impl Process {
    fn look() -> Process {
        let status = fs::read_to_string("/proc/thread-self/status").unwrap_or_default();
        let mut env: Vec<_> = std::env::vars_os().collect();
        env.sort();
        Process {
            cwd: std::env::current_dir().ok(),
            mask: status.lines().filter(|l| l.starts_with("Umask")).collect(),
            signals: status.lines().filter(|l| ["SigBlk", "SigIgn", "SigCgt"].iter().any(|s| l.starts_with(s))).map(|l| l.to_string()).collect(),
            env,
            limits: [libc::RLIMIT_NOFILE, libc::RLIMIT_FSIZE, libc::RLIMIT_CORE]
                .into_iter()
                .map(|k| {
                    let mut l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                    unsafe { libc::getrlimit(k, &mut l) };
                    (l.rlim_cur, l.rlim_max)
                })
                .collect(),
            root: fs::read_link("/proc/thread-self/root").ok(),
        }
    }
}

/// What the process has open, by name: its own numbers are of no interest.
fn open_files() -> Vec<(PathBuf, i32)> {
    let mut out = vec![];
    if let Ok(d) = fs::read_dir("/proc/self/fd") {
        for e in d.flatten() {
            if let (Ok(l), Some(n)) = (fs::read_link(e.path()), e.file_name().to_str().and_then(|s| s.parse().ok())) {
                out.push((l, n));
            }
        }
    }
    out
}

/// Descriptors that stand for no file: pipes, sockets, watches and the like.
fn anonymous() -> BTreeSet<(PathBuf, i32)> {
    open_files().into_iter().filter(|(l, _)| !l.is_absolute()).collect()
}

static BEFORE: OnceLock<(BTreeSet<(PathBuf, i32)>, PathBuf)> = OnceLock::new();

pub fn watched(scratch: &Path) -> Arc<dyn Any + Send + Sync> {
    let _ = BEFORE.set((anonymous(), scratch.to_path_buf()));
    props_tok::shared(scratch)
}

/// Names in a folder where nothing is to be left, and where others may be at work.
fn leftovers(dir: &Path) -> Vec<PathBuf> {
    let list = || -> BTreeSet<PathBuf> { fs::read_dir(dir).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default() };
    let mut left = list();
    for _ in 0..20 {
        if left.is_empty() {
            break;
        }
        std::thread::sleep(Duration::from_millis(25));
        left = left.intersection(&list()).cloned().collect();
    }
    left.into_iter().collect()
}

fn judge_files(dir: &Path, what: &str) -> Result<(), String> {
    for (l, n) in open_files() {
        if l.starts_with(dir) {
            return Err(format!("after {}, {:?} is still open (descriptor {})", what, l, n));
        }
    }
    Ok(())
}

pub fn f05(ctx: &Ctx, seed: u64, _keep: Option<&[usize]>) -> Outcome {
    let mut r = Rng::new(mix2(seed, 0xF05));
    let sh = ctx.shared.clone();
    let sh = sh.downcast_ref::<Syntaxes>().expect("syntaxes");
    let style = gen::style(&mut r);
    let dir = ctx.scratch.join("f05");
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(dir.join("sub")).expect("scratch");
    let own = own_cwd();
    let home = crate::props_ws::Home(std::env::current_dir().expect("cwd"));
    if own && r.one_in(3) {
        std::env::set_current_dir(dir.join("sub")).expect("scratch");
    }
    let files: Vec<PathBuf> = ["doc.txt", "sub/main.rs", "a", ".hidden"].iter().map(|f| dir.join(f)).collect();
    let (mut ops, mut failing, mut looks, mut states, mut sig) = (0u64, 0u64, 0u64, 0u64, seed);
    let verdict = (|| -> Result<(), String> {
        for f in &files {
            let text = if r.one_in(12) { gen::sized_text(&mut r, &ctx.dict, 200_000) } else { gen::document(&mut r, style, &ctx.dict, false) };
            fs::write(f, text).expect("scratch");
        }
        let mut kept: Vec<Buffer> = vec![];
        let before = Process::look();
        for k in 0..r.range(4, 16) {
            let f = r.pick(&files).clone();
            let bad = match r.below(6) {
                0 => Some(dir.join("missing.txt")),
                1 => Some(dir.join("sub")),
                2 => Some({
                    let p = dir.join("bad");
                    fs::write(&p, bad_utf8(&mut r, "some text\n")).expect("scratch");
                    p
                }),
                _ => None,
            };
            let path = bad.unwrap_or_else(|| f.clone());
            let plan = if r.chance(40) {
                let errno = *r.pick(&[libc::EIO, libc::ENOSPC, libc::EACCES, libc::EMFILE]);
                let n = r.range(1, 3) as u32;
                let mut p = Plan { errno, once: r.chance(50), piece: *r.pick(&[0, 1, 10, 4000]), ..Plan::default() };
                match r.below(5) {
                    0 => p.fail_open = 1,
                    1 => p.fail_read = n,
                    2 => p.fail_write = n,
                    3 => p.fail_other = 1,
                    _ => p.fail_realpath = n,
                }
                p
            } else {
                hard_plan(&mut r, 1000)
            };
            ops += 1;
            let kind = r.below(9);
            let (failed, what) = match kind {
                0..=2 => {
                    let (b, _) = fault::with_plan(plan, || guard("from_file", || Buffer::from_file(&path)));
                    match b? {
                        Ok(b) => {
                            kept.push(b);
                            (false, "loading")
                        }
                        Err(_) => (true, "failing to load"),
                    }
                }
                3..=5 if !kept.is_empty() => {
                    let i = r.below(kept.len());
                    let b = &mut kept[i];
                    guard("insert", || b.insert("x"))?;
                    let old = b.path.clone();
                    if path != f {
                        b.path = Some(if r.chance(50) { path } else { dir.join("missing/x") });
                    }
                    let save = kind != 5;
                    let (e, _) = fault::with_plan(plan, || guard("save or reload", || if save { b.save().is_err() } else { b.reload().is_err() }));
                    b.path = old;
                    (e?, if save { "saving" } else { "reloading" })
                }
                6 | 7 => with_workspace(ctx, sh, |ws| {
                    let (e, _) = fault::with_plan(plan, || guard("open_buffer", || ws.open_buffer(&path).is_err()));
                    let mut failed = e?;
                    looks += 1;
                    judge_files(&dir, "opening by path")?;
                    if !failed && r.chance(60) {
                        let (e, _) = fault::with_plan(hard_plan(&mut r, 1000), || guard("save", || ws.current_buffer.as_mut().unwrap().save().is_err()));
                        failed = e?;
                    }
                    if !failed && r.one_in(6) {
                        guard("tokens", || ws.current_buffer_tokens().map(|t| t.iter().map(|i| i.count()).unwrap_or(0)).unwrap_or(0))?;
                        guard("update_current_syntax", || ws.update_current_syntax().is_ok())?;
                        looks += 1;
                        judge_files(&dir, "asking for tokens")?;
                    }
                    Ok((failed, "opening or saving in a workspace"))
                })?,
                8 if r.one_in(12) => {
                    let defs = dir.join("defs");
                    fs::create_dir_all(&defs).expect("scratch");
                    fs::write(defs.join("x.sublime-syntax"), if r.chance(50) { "%YAML 1.2\n---\nname: X\nscope: source.x\ncontexts:\n  main: []\n" } else { "name: [" }).expect("scratch");
                    let (e, _) = fault::with_plan(plan, || guard("Workspace::new", || Workspace::new(&dir, Some(&defs)).is_err()));
                    (e?, "creating a workspace")
                }
                _ => {
                    if !kept.is_empty() {
                        kept.swap_remove(r.below(kept.len()));
                    }
                    (false, "dropping a buffer")
                }
            };
            failing += failed as u64;
            ctx.say(|| format!("{} ({}) with {:?}", what, if failed { "failed" } else { "done" }, plan));
            looks += 1;
            judge_files(&dir, what)?;
            if k % 4 == 3 {
                states += 1;
                let now = Process::look();
                if now != before {
                    return Err(format!(
                        "after file operations, the last one being {}, the process is another: {}",
                        what,
                        [
                            (now.cwd != before.cwd, format!("current directory {:?} instead of {:?}", now.cwd, before.cwd)),
                            (now.mask != before.mask, format!("{} instead of {}", now.mask, before.mask)),
                            (now.signals != before.signals, format!("signals {:?} instead of {:?}", now.signals, before.signals)),
                            (now.env != before.env, "the environment differs".to_string()),
                            (now.limits != before.limits, "resource limits differ".to_string()),
                            (now.root != before.root, "the root directory differs".to_string()),
                        ]
                        .into_iter()
                        .filter(|x| x.0)
                        .map(|x| x.1)
                        .collect::<Vec<_>>()
                        .join(", ")
                    ));
                }
                let maps = fs::read_to_string("/proc/self/maps").unwrap_or_default();
                if let Some(l) = maps.lines().find(|l| dir.to_str().map_or(false, |d| l.contains(&format!("{}/", d)))) {
                    return Err(format!("after {}, a file is still mapped: {}", what, l));
                }
                if let Some((base, scratch)) = BEFORE.get() {
                    if let Some(x) = anonymous().difference(base).next() {
                        // Others may be at it, but not for long.
                        let mut still = true;
                        for _ in 0..40 {
                            std::thread::sleep(Duration::from_millis(25));
                            still &= anonymous().contains(x);
                        }
                        if still {
                            return Err(format!("after file operations, the last one being {}, the process holds {:?}", what, x));
                        }
                    }
                    for d in ["tmpdir", "home"] {
                        if let Some(x) = leftovers(&scratch.join(d)).first() {
                            return Err(format!("after file operations, the last one being {}, {:?} has been left behind", what, x));
                        }
                    }
                }
            }
            sig = mix2(sig, failed as u64 * 16 + kind as u64);
        }
        drop(kept);
        judge_files(&dir, "dropping the buffers")?;
        Ok(())
    })();
    drop(home);
    ctx.add("file operations", ops);
    ctx.add("failing file operations", failing);
    ctx.add("looks at the open files", looks);
    ctx.add("looks at directory, mask, signals and environment", states);
    let _ = fs::remove_dir_all(&dir);
    Outcome { verdict, steps: 0, signature: sig, nontrivial: ops > 3 }
}

// How much is held.

/// Steps that leave text and history as they are, once they've all been made.
#[derive(Clone, Debug, PartialEq)]
enum Step {
    Data,
    Search(Vec<String>, bool),
    Read,
    Bounds,
    Count,
    Name,
    Moves,
    Clone,
    UndoRedo(usize),
    /// An insertion that's undone right away, which takes the place of what could be redone.
    InsertUndo(String),
    /// The same with a deletion, or a group of several edits.
    DeleteUndo,
    GroupUndo(usize),
    ReplaceUndo(String),
    EmptyGroup,
    Same,
    Save,
    Reload,
    FailSave,
    FailReload,
    // Of workspaces:
    Tokens,
    HalfTokens,
    Round(bool),
    Again,
    Missing,
    AddClose(String),
    OpenClose,
    Paths,
    Update,
    // Of text stores:
    Store(String),
}

struct Held<'a> {
    ws: Option<&'a mut Workspace>,
    own: Option<Buffer>,
    store: scribe::buffer::GapBuffer,
    ranges: Vec<scribe::buffer::Range>,
    places: Vec<Position>,
    path: PathBuf,
    dir: PathBuf,
    opened: PathBuf,
}

impl Held<'_> {
    fn b(&mut self) -> &mut Buffer {
        match &mut self.ws {
            Some(w) => w.current_buffer.as_mut().expect("current buffer"),
            None => self.own.as_mut().expect("buffer"),
        }
    }

    fn step(&mut self, s: &Step, k: usize) {
        match s {
            Step::Data => {
                let _ = self.b().data();
            }
            Step::Search(n, vary) => {
                let n = &n[k % n.len()];
                if *vary {
                    let n = format!("{}{}", n, k);
                    let _ = self.b().search(&n);
                } else {
                    let _ = self.b().search(n);
                }
            }
            Step::Read => {
                let x = self.ranges[k % self.ranges.len()].clone();
                let _ = self.b().read(&x);
            }
            Step::Bounds => {
                let at = Position { line: self.places[k % self.places.len()].line, offset: k };
                let mut c = self.b().cursor.clone();
                c.move_to(at);
            }
            Step::Count => {
                let _ = (self.b().line_count(), self.b().modified());
            }
            Step::Name => {
                let _ = (self.b().file_name(), self.b().file_extension());
            }
            Step::Moves => {
                let at = self.places[k % self.places.len()];
                let c = &mut self.b().cursor;
                let old = c.position;
                c.move_to(at);
                c.move_down();
                c.move_right();
                c.move_to_end_of_line();
                c.move_up();
                c.move_left();
                c.move_to_start_of_line();
                c.move_to_last_line();
                c.move_to_first_line();
                c.move_to(old);
            }
            Step::Clone => {
                let mut c = self.b().cursor.clone();
                c.move_right();
                let d = scribe::buffer::Cursor::new(c.data.clone(), Position { line: 0, offset: 0 });
                drop((c, d));
            }
            Step::UndoRedo(n) => {
                for _ in 0..*n {
                    self.b().undo();
                }
                for _ in 0..*n {
                    self.b().redo();
                }
            }
            Step::InsertUndo(t) => {
                self.b().insert(t.as_str());
                self.b().undo();
            }
            Step::DeleteUndo => {
                self.b().delete();
                self.b().undo();
            }
            Step::GroupUndo(n) => {
                self.b().start_operation_group();
                for _ in 0..*n {
                    self.b().insert("ab");
                    self.b().delete();
                }
                self.b().end_operation_group();
                self.b().undo();
            }
            Step::ReplaceUndo(t) => {
                self.b().replace(t.as_str());
                self.b().undo();
            }
            Step::EmptyGroup => {
                self.b().start_operation_group();
                self.b().end_operation_group();
            }
            Step::Same => {
                let t = self.b().data();
                self.b().replace(t);
            }
            Step::Save => {
                let _ = self.b().save();
            }
            Step::Reload => {
                // The file has the same text.
                let _ = self.b().save();
                let _ = self.b().reload();
            }
            Step::FailSave => {
                let bad = self.dir.join(format!("missing{}/x", k));
                let old = self.b().path.replace(bad);
                let _ = self.b().save();
                self.b().path = old;
            }
            Step::FailReload => {
                let bad = self.dir.join(format!("missing{}", k));
                let old = self.b().path.replace(bad);
                let _ = self.b().reload();
                self.b().path = old;
            }
            Step::Tokens => {
                let ws = self.ws.as_deref_mut().unwrap();
                if let Ok(t) = ws.current_buffer_tokens() {
                    if let Ok(i) = t.iter() {
                        let _ = i.filter(|t| matches!(t, Token::Lexeme(_))).count();
                    }
                }
            }
            Step::HalfTokens => {
                let ws = self.ws.as_deref_mut().unwrap();
                if let Ok(t) = ws.current_buffer_tokens() {
                    if let Ok(i) = t.iter() {
                        let _ = i.take(2).count();
                    }
                }
            }
            Step::Round(next) => {
                let ws = self.ws.as_deref_mut().unwrap();
                let n = ws.buffer_paths().len();
                for _ in 0..n {
                    if *next {
                        ws.next_buffer()
                    } else {
                        ws.previous_buffer()
                    }
                }
            }
            Step::Again => {
                let path = self.opened.clone();
                let _ = self.ws.as_deref_mut().unwrap().open_buffer(&path);
            }
            Step::Missing => {
                let path = self.dir.join(format!("missing{}.txt", k));
                let _ = self.ws.as_deref_mut().unwrap().open_buffer(&path);
            }
            Step::AddClose(t) => {
                let mut b = Buffer::new();
                b.insert(format!("{}{}", t, k));
                b.path = Some(self.dir.join(format!("unsaved{}.rs", k)));
                let ws = self.ws.as_deref_mut().unwrap();
                ws.add_buffer(b);
                ws.close_current_buffer();
            }
            Step::OpenClose => {
                let path = self.dir.join(format!("other{}.txt", k % 7));
                fs::write(&path, format!("number {}\n", k)).expect("scratch");
                match self.ws.as_deref_mut() {
                    Some(ws) => {
                        if ws.open_buffer(&path).is_ok() {
                            ws.close_current_buffer();
                        }
                    }
                    None => {
                        let mut b = Buffer::from_file(&path).expect("from_file");
                        b.insert("x");
                        let _ = b.save();
                    }
                }
            }
            Step::Paths => {
                let ws = self.ws.as_deref_mut().unwrap();
                let _ = ws.buffer_paths().len();
                let _ = (ws.current_buffer_path().is_some(), ws.current_buffer_index());
            }
            Step::Update => {
                let ws = self.ws.as_deref_mut().unwrap();
                let path = PathBuf::from(format!("x{}.rs", k));
                let b = ws.current_buffer.as_mut().unwrap();
                let (old, def) = (b.path.replace(path), b.syntax_definition.take());
                let _ = ws.update_current_syntax();
                let b = ws.current_buffer.as_mut().unwrap();
                (b.path, b.syntax_definition) = (old, def);
            }
            Step::Store(t) => {
                let at = Position { line: 0, offset: 0 };
                self.store.insert(t, &at);
                let mut c = 0;
                let mut l = 0;
                for x in unicode_segmentation::UnicodeSegmentation::graphemes(t.as_str(), true) {
                    c += 1;
                    if x.ends_with('\n') {
                        l += 1;
                        c = 0;
                    }
                }
                self.store.delete(&scribe::buffer::Range::new(at, Position { line: l, offset: c }));
                let _ = (self.store.to_string(), self.store.in_bounds(&at), self.store.read(&scribe::buffer::Range::new(at, at)));
            }
        }
        let _ = &self.path;
    }
}

pub fn m02(ctx: &Ctx, seed: u64, keep: Option<&[usize]>) -> Outcome {
    let mut r = Rng::new(mix2(seed, 0xA02));
    let sh = ctx.shared.clone();
    let sh = sh.downcast_ref::<Syntaxes>().expect("syntaxes");
    let style = gen::style(&mut r);
    let mut text = gen::document(&mut r, style, &ctx.dict, false);
    if text.len() > 1500 {
        let d = Doc::new(&text);
        let (at, _) = d.position(1500);
        text.truncate(d.offset(&at).unwrap());
    }
    let dir = ctx.scratch.join("m02");
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).expect("scratch");
    let path = dir.join(*r.pick(&["doc.txt", "main.rs", "a", "x.json"]));
    fs::write(&path, &text).expect("scratch");
    let in_workspace = r.chance(45);
    let edits = r.range(0, 5);
    let mut steps: Vec<Step> = vec![];
    let mut files = false;
    let mut walks = false;
    for _ in 0..r.range(1, 4) {
        let d = Doc::new(&text);
        let s = match r.below(if in_workspace { 30 } else { 20 }) {
            0 => Step::Data,
            1 | 2 => Step::Search((0..r.range(1, 4)).map(|_| needle(&mut r, &d, style, &ctx.dict)).collect(), r.chance(60)),
            3 => Step::Read,
            4 => Step::Bounds,
            5 => Step::Count,
            6 => Step::Name,
            7 => Step::Moves,
            8 => Step::Clone,
            9 | 10 => Step::UndoRedo(r.range(1, edits.max(1))),
            11 => Step::InsertUndo(gen::piece(&mut r, style, &ctx.dict)),
            12 => (*r.pick(&[&Step::DeleteUndo, &Step::EmptyGroup, &Step::Same])).clone(),
            13 => Step::GroupUndo(r.range(1, 4)),
            14 => Step::ReplaceUndo(variant(&mut r, &d, style, &ctx.dict)),
            15 => Step::Store(gen::piece(&mut r, style, &ctx.dict)),
            16 => Step::Save,
            17 => Step::Reload,
            18 => (*r.pick(&[&Step::FailSave, &Step::FailReload])).clone(),
            19 => Step::OpenClose,
            20 => Step::Tokens,
            21 => Step::HalfTokens,
            22 => Step::Round(r.chance(50)),
            23 => Step::Again,
            24 => Step::Missing,
            25 | 26 => Step::AddClose(gen::piece(&mut r, style, &ctx.dict)),
            27 => Step::OpenClose,
            28 => Step::Paths,
            _ => Step::Update,
        };
        files |= matches!(s, Step::Save | Step::Reload | Step::OpenClose | Step::FailSave | Step::FailReload | Step::Again | Step::Missing);
        walks |= matches!(s, Step::UndoRedo(_) | Step::InsertUndo(_) | Step::GroupUndo(_) | Step::ReplaceUndo(_) | Step::DeleteUndo);
        steps.push(s);
    }
    if let Some(k) = keep {
        let mut i = 0;
        steps.retain(|_| {
            i += 1;
            k.contains(&(i - 1))
        });
    }
    let total = steps.len();
    let (mut rounds, mut sig) = (0u64, hash_str(&format!("{:?}", steps)));
    let verdict = (|| -> Result<(), String> {
        ctx.say(|| format!("text {}, {} edits, {}, repeating {:?}", show(&text), edits, if in_workspace { "in a workspace" } else { "a buffer by itself" }, steps));
        let mut b = guard("from_file", || Buffer::from_file(&path))?.map_err(|e| format!("from_file: {}", e))?;
        if r.chance(30) {
            b.change_callback = Some(Box::new(|_| {}));
        }
        let mut doc = Doc::new(&text);
        for _ in 0..edits {
            let at = gen::valid_pos(&mut r, &doc);
            guard("move_to", || b.cursor.move_to(at))?;
            let group = r.one_in(3);
            if group {
                guard("start_operation_group", || b.start_operation_group())?;
            }
            match r.below(4) {
                0 => guard("delete", || b.delete())?,
                1 => {
                    let t = variant(&mut r, &doc, style, &ctx.dict);
                    guard("replace", || b.replace(if t.len() > 3000 { String::new() } else { t }))?
                }
                _ => guard("insert", || b.insert("some more"))?,
            }
            if group {
                guard("end_operation_group", || b.end_operation_group())?;
            }
            doc = Doc::new(&guard("data", || b.data())?);
        }
        let ranges = (0..8).map(|_| some_range(&mut r, &doc, 20, Position { line: 0, offset: 0 })).collect();
        let places = (0..8).map(|_| gen::valid_pos(&mut r, &doc)).collect();
        let store = scribe::buffer::GapBuffer::new(&text);
        let held = Held { ws: None, own: None, store, ranges, places, path: path.clone(), dir: dir.clone(), opened: path.clone() };
        if in_workspace {
            with_workspace(ctx, sh, |ws| {
                guard("add_buffer", || ws.add_buffer(b))?;
                for i in 0..r.below(4) {
                    let other = dir.join(format!("more{}.rs", i));
                    fs::write(&other, "fn main() {}\n").expect("scratch");
                    guard("open_buffer", || ws.open_buffer(&other))?.map_err(|e| format!("open_buffer: {}", e))?;
                }
                if r.chance(70) {
                    guard("open_buffer", || ws.open_buffer(&path))?.map_err(|e| format!("open_buffer: {}", e))?;
                }
                let mut held = Held { ws: Some(ws), ..held };
                repeat(ctx, &mut held, &steps, &mut rounds)
            })
        } else {
            let mut held = Held { own: Some(b), ..held };
            repeat(ctx, &mut held, &steps, &mut rounds)
        }
    })();
    track::count_held(false);
    sig = mix2(sig, rounds / 1000);
    ctx.add("repetitions", rounds);
    if in_workspace {
        ctx.add("repetitions of calls on workspaces", rounds);
    }
    if files {
        ctx.add("repetitions with file operations", rounds);
    }
    if walks {
        ctx.add("repetitions with undo and redo", rounds);
    }
    ctx.max("most repetitions", rounds);
    let _ = fs::remove_dir_all(&dir);
    Outcome { verdict, steps: total, signature: sig, nontrivial: rounds >= 300 }
}

/// Repeats the steps, and compares what's held after 16, 64, 256, ... rounds. What grows by
/// every round grows in every such stretch, each time by more; what fills up to some limit
/// stops growing.
fn repeat(ctx: &Ctx, held: &mut Held, steps: &[Step], rounds: &mut u64) -> Result<(), String> {
    let started = Instant::now();
    let budget = Duration::from_millis(if ctx.thorough { 1500 } else { 150 });
    let mut marks: Vec<(usize, isize)> = vec![];
    let mut k = 0;
    let mut next = 16;
    guard("the first round", || steps.iter().for_each(|s| held.step(s, 0)))?;
    marks.reserve(16);
    track::count_held(true);
    loop {
        while k < next {
            k += 1;
            for s in steps {
                guard("a step", || held.step(s, k))?;
            }
        }
        marks.push((k, track::held()));
        let spent = started.elapsed();
        if spent * 4 > budget && marks.len() >= 4 || spent > budget * 8 || k > 70_000 {
            break;
        }
        next = k * 4;
    }
    track::count_held(false);
    *rounds = k as u64;
    ctx.max("most bytes more held after all repetitions", marks.last().map_or(0, |m| m.1.max(0)) as u64);
    ctx.say(|| format!("held after so many rounds: {:?}", marks));
    let n = marks.len();
    if n >= 4 {
        let grown: Vec<(isize, isize)> = marks.windows(2).map(|w| (w[1].1 - w[0].1, (w[1].0 - w[0].0) as isize)).collect();
        let last = &grown[n - 4..];
        // At least a byte in two rounds, in each of the last three stretches.
        if last.iter().all(|g| g.0 * 2 >= g.1) && last[2].0 > last[0].0 {
            return Err(format!("repeating calls that change neither text nor history holds ever more memory: {:?} rounds and bytes, for {:?}", marks, steps));
        }
    }
    Ok(())
}
