//! What calls of the library do outside of the process's memory: nothing, apart from the
//! operations on files, which touch what they were given.

use crate::gen;
use crate::props_disk::beside;
use crate::props_ws::Home;
use crate::rng::{mix2, Rng};
use crate::run::{guard, own_cwd, Ctx, Outcome};
use crate::still::{self, Note};
use crate::{props_hist, props_text, props_tok, props_twin, props_work, props_ws};
use scribe::{Buffer, Workspace};
use std::collections::BTreeSet;
use std::ffi::OsStr;
use std::fs;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::symlink;
use std::path::{Component, Path, PathBuf};

/// All paths that may be looked at on the way to this one.
fn way_to(path: &Path, cwd: &Path) -> BTreeSet<PathBuf> {
    let mut allowed = BTreeSet::new();
    let whole = if path.is_absolute() { path.to_path_buf() } else { cwd.join(path) };
    for p in whole.ancestors().chain(path.ancestors()) {
        allowed.insert(p.to_path_buf());
    }
    let mut rest: Vec<PathBuf> = vec![whole];
    let mut at = PathBuf::from("/");
    let mut links = 0;
    while let Some(next) = rest.pop() {
        let mut parts: Vec<PathBuf> = next.components().map(|c| PathBuf::from(c.as_os_str())).collect();
        parts.reverse();
        while let Some(part) = parts.pop() {
            match part.components().next() {
                Some(Component::RootDir) => at = PathBuf::from("/"),
                Some(Component::ParentDir) => {
                    at.pop();
                }
                Some(Component::Normal(n)) => {
                    at.push(n);
                    allowed.insert(at.clone());
                    if let (Ok(target), true) = (fs::read_link(&at), links < 40) {
                        links += 1;
                        at.pop();
                        parts.extend(target.components().map(|c| PathBuf::from(c.as_os_str())).collect::<Vec<_>>().into_iter().rev());
                    }
                }
                _ => {}
            }
        }
    }
    allowed.insert(at);
    allowed
}

/// Judges the calls made by an operation on files.
fn judge(notes: &[Note], total: usize, allowed: &BTreeSet<PathBuf>, folder: Option<&Path>, cwd: &Path, bytes: usize) -> Result<(), String> {
    let mut opened: BTreeSet<i64> = BTreeSet::new();
    let mut blocks = 0usize;
    for n in notes {
        let path = n.path();
        if !path.is_empty() && path.len() < still::PATHS {
            let given = PathBuf::from(OsStr::from_bytes(path));
            let at = match n.call {
                libc::SYS_openat | libc::SYS_openat2 | libc::SYS_newfstatat | libc::SYS_statx | libc::SYS_readlinkat | libc::SYS_unlinkat | libc::SYS_mkdirat | libc::SYS_faccessat | libc::SYS_faccessat2 => n.args[0] as i32,
                _ => libc::AT_FDCWD,
            };
            let whole = if given.is_absolute() || at == libc::AT_FDCWD { cwd.join(&given) } else { folder.unwrap_or(cwd).join(&given) };
            let within = folder.map_or(false, |f| whole.starts_with(f) || f.canonicalize().map_or(false, |f| whole.starts_with(f)));
            if !(allowed.contains(&whole) || allowed.contains(&given) || within) {
                return Err(format!("{}, which is neither what was given nor on the way to it", still::show(n)));
            }
            if matches!(n.call, libc::SYS_open | libc::SYS_openat | libc::SYS_creat | libc::SYS_openat2) && n.result >= 0 {
                opened.insert(n.result);
            }
            continue;
        }
        match n.call {
            libc::SYS_open | libc::SYS_openat | libc::SYS_creat | libc::SYS_openat2 => {
                if n.result >= 0 {
                    opened.insert(n.result);
                }
            }
            libc::SYS_getcwd => {}
            libc::SYS_read | libc::SYS_write | libc::SYS_pread64 | libc::SYS_pwrite64 | libc::SYS_readv | libc::SYS_writev => {
                blocks += 1;
                if !opened.contains(&(n.args[0] as i64)) {
                    return Err(format!("{}: nothing that it opened", still::show(n)));
                }
            }
            libc::SYS_close
            | libc::SYS_fstat
            | libc::SYS_lseek
            | libc::SYS_ftruncate
            | libc::SYS_fsync
            | libc::SYS_fdatasync
            | libc::SYS_fcntl
            | libc::SYS_ioctl
            | libc::SYS_getdents64
            | libc::SYS_fchmod
            | libc::SYS_fchown
            | libc::SYS_fadvise64
            | libc::SYS_readahead
            | libc::SYS_flock
            | libc::SYS_fallocate
            | libc::SYS_copy_file_range => {
                if !opened.contains(&(n.args[0] as i64)) {
                    return Err(format!("{}: nothing that it opened", still::show(n)));
                }
            }
            libc::SYS_newfstatat | libc::SYS_statx => {
                if !path.is_empty() || opened.contains(&(n.args[0] as i64)) || n.args[1] == 0 {
                    continue;
                }
                return Err(format!("{}: nothing that it opened", still::show(n)));
            }
            libc::SYS_mmap => {
                if !opened.contains(&(n.args[4] as i64)) {
                    return Err("a mapping of a file that it didn't open".into());
                }
            }
            _ if path.len() >= still::PATHS => {}
            _ => return Err(format!("{}, which has nothing to do with files", still::show(n))),
        }
    }
    let most = 64 + bytes / 64;
    if folder.is_none() && (blocks > most || total > 2 * most + 400) {
        return Err(format!("{} reads and writes, {} system calls altogether, for {} bytes", blocks, total, bytes));
    }
    Ok(())
}

struct Wanted;

impl Drop for Wanted {
    fn drop(&mut self) {
        still::want(false);
    }
}

pub fn f06(ctx: &Ctx, seed: u64, keep: Option<&[usize]>) -> Outcome {
    let mut r = Rng::new(mix2(seed, 0xF06));
    if !still::ready() {
        // Reported as too little observed.
        ctx.add("threads whose calls can't be watched", 1);
        return Outcome { verdict: Ok(()), steps: 0, signature: seed, nontrivial: false };
    }
    if r.one_in(3) {
        return files(ctx, seed, &mut r);
    }
    if r.one_in(6) {
        return vast(ctx, seed, &mut r);
    }
    if r.one_in(5) {
        return paths(ctx, seed, &mut r);
    }
    // Histories of the other properties; they are judged there.
    let cases: &[fn(&Ctx, u64, Option<&[usize]>) -> Outcome] = &[
        props_hist::u01,
        props_hist::u02,
        props_hist::u03,
        props_hist::c02,
        props_hist::t04,
        props_hist::f03,
        props_text::t01,
        props_text::t02,
        props_text::t03,
        props_text::s01,
        props_text::r01,
        props_text::l01,
        props_text::g01,
        props_twin::q01,
        props_ws::w01,
        props_ws::w02,
        props_ws::w04,
        props_ws::w05,
        props_tok::k01,
        props_tok::k02,
        props_tok::k03,
    ];
    let k = r.below(cases.len());
    let before = still::watched_so_far();
    let wanted = Wanted;
    still::want(true);
    let mut o = cases[k](ctx, seed, keep);
    drop(wanted);
    let calls = still::watched_so_far() - before;
    ctx.add("calls on text and workspaces watched", calls);
    if matches!(k, 14..=17) {
        ctx.add("calls in histories of workspaces watched", calls);
    }
    o.verdict = match still::take_violation() {
        Some(v) => Err(v),
        None => Ok(()),
    };
    o.nontrivial = calls > 3;
    o
}

/// Calls on something large.
fn vast(ctx: &Ctx, seed: u64, r: &mut Rng) -> Outcome {
    let dir = ctx.scratch.join("f06");
    let mut calls = 0;
    let mut verdict = Ok(());
    for _ in 0..3 {
        let Some((what, n)) = props_work::watched(r.next(), &dir) else { continue };
        ctx.say(|| format!("{}: {} system calls", what, n));
        calls += 1;
        if n > 0 {
            verdict = still::judge_noted(&what);
            break;
        }
    }
    let _ = fs::remove_dir_all(&dir);
    ctx.add("calls on large texts, histories and workspaces watched", calls);
    Outcome { verdict, steps: 0, signature: mix2(seed, calls), nontrivial: calls > 0 }
}

/// Questions about buffers with all sorts of paths, within a workspace and without.
fn paths(ctx: &Ctx, seed: u64, r: &mut Rng) -> Outcome {
    let dir = ctx.scratch.join("f06");
    let _ = fs::remove_dir_all(&dir);
    let root = dir.join("root");
    fs::create_dir_all(root.join("src")).expect("scratch");
    fs::write(root.join("file.rs"), "fn").expect("scratch");
    fs::write(root.join("src/Makefile"), "all:").expect("scratch");
    symlink("file.rs", root.join("link")).expect("scratch");
    symlink("src", root.join("folder")).expect("scratch");
    symlink("nowhere", root.join("dangling")).expect("scratch");
    let one = |r: &mut Rng| -> Option<PathBuf> {
        let long = || "a".repeat(250);
        let p: PathBuf = match r.below(18) {
            0 => return None,
            1 => PathBuf::from("file.rs"),
            2 => root.join("file.rs"),
            3 => root.join("link"),
            4 => root.join("folder/Makefile"),
            5 => root.join("dangling"),
            6 => root.join("src"),
            7 => root.clone(),
            8 => PathBuf::from("/"),
            9 => PathBuf::from(""),
            10 => PathBuf::from("../.."),
            11 => PathBuf::from("~/file.rs"),
            12 => root.join(long()).join(long()).join("x.rs"),
            13 => PathBuf::from(format!("{}/{}.rs", "b/".repeat(r.range(50, 1500)), long())),
            14 => PathBuf::from(OsStr::from_bytes(b"/none/\xff\xfe.r\xff")),
            15 => PathBuf::from("/proc/self/status"),
            16 => root.join(r.pick(&["none.rs", "NONE", ".hidden", "a.b.c", "x.", "COM1", "a:12", "http://x/y.html"])),
            _ => PathBuf::from("/none").join(ctx.dict.strings[r.below(ctx.dict.strings.len())].replace('\0', "")),
        };
        Some(p)
    };
    let mut calls = 0u64;
    let mut signature = seed;
    let verdict = (|| -> Result<(), String> {
        let Ok(Ok(mut ws)) = guard("Workspace::new", || Workspace::new(&root, None)) else { return Ok(()) };
        let mut call = |what: &str, p: &Option<PathBuf>, f: &mut dyn FnMut()| -> Result<(), String> {
            let w = still::watch();
            // Panics are judged by other properties.
            let panicked = guard("a question", f).is_err();
            drop(w);
            if panicked && !still::started() {
                return Ok(());
            }
            calls += 1;
            signature = mix2(signature, what.len() as u64);
            ctx.say(|| format!("{}, the path being {:?}", what, p));
            if still::count() > 0 {
                return still::judge_noted(&format!("{}, the path being {:?},", what, p));
            }
            Ok(())
        };
        for _ in 0..r.range(3, 12) {
            let p = one(r);
            let mut b = Buffer::new();
            b.insert("text");
            b.path = p.clone();
            call("file_name", &p, &mut || drop(b.file_name()))?;
            call("file_extension", &p, &mut || drop(b.file_extension()))?;
            call("modified", &p, &mut || { b.modified(); })?;
            call("replace", &p, &mut || b.replace("other"))?;
            call("undo", &p, &mut || b.undo())?;
            let mut b = Some(b);
            if r.chance(70) {
                call("add_buffer", &p, &mut || {
                    if let Some(b) = b.take() {
                        ws.add_buffer(b)
                    }
                })?;
            }
            call("buffer_paths", &p, &mut || drop(ws.buffer_paths()))?;
            call("current_buffer_path", &p, &mut || { ws.current_buffer_path(); })?;
            if r.chance(50) {
                let p = one(r);
                if let Some(b) = &mut ws.current_buffer {
                    b.path = p.clone();
                }
                call("update_current_syntax", &p, &mut || drop(ws.update_current_syntax()))?;
                call("current_buffer_tokens", &p, &mut || drop(ws.current_buffer_tokens().map(|t| t.iter().map(|i| i.count()))))?;
                call("buffer_paths", &p, &mut || drop(ws.buffer_paths()))?;
            }
            match r.below(4) {
                0 => call("next_buffer", &p, &mut || ws.next_buffer())?,
                1 => call("previous_buffer", &p, &mut || ws.previous_buffer())?,
                2 => call("close_current_buffer", &p, &mut || ws.close_current_buffer())?,
                _ => {}
            }
            call("letting go of a buffer", &p, &mut || drop(b.take()))?;
        }
        let mut ws = Some(ws);
        call("letting go of a workspace", &None, &mut || drop(ws.take()))
    })();
    let _ = fs::remove_dir_all(&dir);
    ctx.add("calls on buffers with odd paths watched", calls);
    Outcome { verdict, steps: 0, signature, nontrivial: calls > 5 }
}

fn files(ctx: &Ctx, seed: u64, r: &mut Rng) -> Outcome {
    let dir = ctx.scratch.join("f06");
    let _ = fs::remove_dir_all(&dir);
    let place = dir.join("place");
    fs::create_dir_all(place.join("sub/deeper")).expect("scratch");
    fs::create_dir_all(dir.join("cwd")).expect("scratch");
    let home = Home(std::env::current_dir().expect("cwd"));
    let own = own_cwd();
    let cwd = if own {
        std::env::set_current_dir(dir.join("cwd")).expect("cwd");
        dir.join("cwd")
    } else {
        home.0.clone()
    };
    let name = *r.pick(&["doc.txt", "a", "main.rs", ".hidden", "x.tar.gz", "é.md", "with space", "Makefile", "x.json"]);
    let mut text = match r.below(8) {
        0 => gen::sized_text(r, &ctx.dict, 300_000),
        1 => gen::round_text(r, 70_000),
        2 => String::new(),
        3 => "a\n".repeat(r.range(1, 60_000)),
        _ => {
            let style = gen::style(r);
            gen::document(r, style, &ctx.dict, false)
        }
    };
    if r.one_in(5) {
        text.insert_str(0, r.pick(&["#!/bin/sh\n", "# vim: set ft=rust:\n", "%!include other\n", "\u{feff}", "// -*- mode: c -*-\n"]));
    }
    let mut folder = place.clone();
    if r.chance(30) {
        folder = place.join("sub/deeper");
    }
    let file = folder.join(name);
    for k in 0..14 {
        for f in [&folder, &place, &cwd] {
            if r.chance(20) && f.starts_with(&dir) && !f.join(beside(name, k)).exists() {
                let _ = fs::write(f.join(beside(name, k)), "beside");
            }
        }
    }
    let exists = r.chance(80);
    if exists {
        if r.one_in(12) {
            fs::create_dir_all(&file).expect("scratch");
        } else if r.one_in(12) {
            fs::write(&file, b"\xff\xfe\x00no text").expect("scratch");
        } else {
            fs::write(&file, &text).expect("scratch");
        }
    }
    // Ways to spell it.
    symlink(&file, dir.join("one")).expect("scratch");
    symlink("../one", place.join("two")).expect("scratch");
    symlink("place", dir.join("folder")).expect("scratch");
    let rel = |p: &Path| -> PathBuf { Path::new("..").join(p.strip_prefix(&dir).unwrap()) };
    let spell = |r: &mut Rng| -> PathBuf {
        let p = match r.below(7) {
            0 => dir.join("one"),
            1 => place.join("two"),
            2 => dir.join("folder").join(file.strip_prefix(&place).unwrap()),
            3 => place.join("sub/../sub").join("..").join(file.strip_prefix(&place).unwrap()),
            _ => file.clone(),
        };
        if own && r.chance(30) {
            rel(&p)
        } else {
            p
        }
    };
    let (mut ops, mut loads, mut saves, mut made, mut sig) = (0u64, 0u64, 0u64, 0u64, seed);
    let verdict = (|| -> Result<(), String> {
        fn made_by<T>(ctx: &Ctx, what: String, allowed: BTreeSet<PathBuf>, within: Option<&Path>, cwd: &Path, bytes: usize, f: impl FnOnce() -> T) -> Result<(T, usize), String> {
            let w = still::watch();
            let out = guard("a file operation", f);
            drop(w);
            let (total, notes) = still::noted();
            ctx.say(|| format!("{}: {}", what, notes.iter().take(40).map(still::show).collect::<Vec<_>>().join(" ")));
            let out = out?;
            judge(&notes, total, &allowed, within, cwd, bytes).map_err(|m| format!("{} made the call {}", what, m))?;
            Ok((out, total))
        }
        let mut held: Vec<Buffer> = vec![];
        let mut ws: Option<Workspace> = None;
        for _ in 0..r.range(2, 7) {
            let p = spell(r);
            let bytes = text.len() + fs::metadata(&file).map_or(0, |m| m.len() as usize);
            match r.below(6) {
                0 => {
                    let (b, n) = made_by(ctx, format!("from_file({})", p.display()), way_to(&p, &cwd), None, &cwd, bytes, || Buffer::from_file(&p))?;
                    sig = mix2(sig, n as u64);
                    loads += 1;
                    if let Ok(b) = b {
                        held.push(b);
                    }
                }
                1 | 2 => {
                    let mut b = held.pop().unwrap_or_default();
                    let before = b.data();
                    match r.below(4) {
                        0 => b.insert("more\n"),
                        1 => b.replace(text.clone()),
                        2 => b.insert(text.as_str()),
                        _ => {}
                    }
                    if r.one_in(3) || b.path.is_none() {
                        b.path = Some(if r.one_in(4) { folder.join("new") } else { p.clone() });
                    }
                    let q = b.path.clone().unwrap();
                    let bytes = bytes + before.len() + text.len() + 10;
                    let (_, n) = made_by(ctx, format!("save to {}", q.display()), way_to(&q, &cwd), None, &cwd, bytes, || b.save().is_ok())?;
                    sig = mix2(sig, n as u64);
                    saves += 1;
                    held.push(b);
                }
                3 => {
                    let Some(b) = held.last_mut() else { continue };
                    let Some(q) = b.path.clone() else { continue };
                    let bytes = bytes + fs::metadata(&q).map_or(0, |m| m.len() as usize);
                    made_by(ctx, format!("reload of {}", q.display()), way_to(&q, &cwd), None, &cwd, bytes, || b.reload().is_ok())?;
                    loads += 1;
                }
                4 => {
                    let root = match r.below(4) {
                        0 => dir.join("folder"),
                        1 if own => PathBuf::from("../folder/sub"),
                        2 => dir.join("none"),
                        _ => place.clone(),
                    };
                    let definitions = r.one_in(3).then(|| dir.join("definitions"));
                    if let (Some(d), true) = (&definitions, r.chance(80)) {
                        let _ = fs::create_dir_all(d.join("more"));
                        for k in ["own", "more/other"] {
                            fs::write(d.join(format!("{}.sublime-syntax", k)), format!("name: {}\nfile_extensions: [own]\nscope: source.own\ncontexts:\n  main:\n    - match: a\n      scope: keyword.own\n", &k[k.len() - 3..])).expect("scratch");
                        }
                        fs::write(d.join("README.md"), "nothing").expect("scratch");
                    }
                    let mut allowed = way_to(&root, &cwd);
                    if let Some(d) = &definitions {
                        allowed.extend(way_to(d, &cwd));
                    }
                    let (w, _) = made_by(ctx, format!("Workspace::new({}, {:?})", root.display(), definitions), allowed, definitions.as_deref(), &cwd, 10_000, || Workspace::new(&root, definitions.as_deref()))?;
                    made += 1;
                    ws = w.ok().or(ws);
                }
                _ => {
                    if ws.is_none() && r.chance(70) {
                        ws = guard("Workspace::new", || Workspace::new(&place, None))?.ok();
                        if let (Some(ws), Some(b)) = (&mut ws, held.pop()) {
                            ws.add_buffer(b);
                        }
                    }
                    let Some(ws) = &mut ws else { continue };
                    made_by(ctx, format!("open_buffer({})", p.display()), way_to(&p, &cwd), None, &cwd, bytes, || ws.open_buffer(&p).is_ok())?;
                    loads += 1;
                }
            }
            ops += 1;
        }
        Ok(())
    })();
    drop(home);
    let _ = fs::remove_dir_all(&dir);
    ctx.add("file operations watched", ops);
    ctx.add("loads and reloads watched", loads);
    ctx.add("saves watched", saves);
    ctx.add("creations of workspaces watched", made);
    Outcome { verdict, steps: 0, signature: sig, nontrivial: ops >= 2 }
}
