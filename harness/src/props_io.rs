//! Loading and saving: exactness under difficult but working I/O, and behaviour
//! under failing I/O with the failing call enumerated.

use crate::fault::{self, Plan, Seen};
use crate::gen;
use crate::model::{diff, show, Doc};
use crate::props_hist;
use crate::rng::{hash_str, mix2, Rng};
use crate::run::{guard, Ctx, Outcome};
use crate::session::{p, variant};
use scribe::buffer::Position;
use scribe::Buffer;
use std::fs;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};

fn content(r: &mut Rng, ctx: &Ctx) -> String {
    let style = gen::style(r);
    let mut s = match r.below(14) {
        0 => gen::sized_text(r, &ctx.dict, 140_000),
        1 | 2 => gen::sized_text(r, &ctx.dict, 20_000),
        3 => String::new(),
        _ => gen::document(r, style, &ctx.dict, true),
    };
    match r.below(16) {
        0 => s.insert(0, '\u{feff}'),
        1 => s.push('\n'),
        2 => s.push_str("\r\n"),
        3 => s.push('\0'),
        4 => s.push(' '),
        5 => s.push_str("\n\n\n"),
        6 => s.insert_str(0, "\r\n"),
        7 => s.push('\u{1a}'),
        8 => s.push_str(" \t"),
        9 => s = s.trim_end_matches('\n').to_string(),
        10 => s.insert(0, '\0'),
        _ => {}
    }
    s
}

/// Megabytes.
fn enormous(r: &mut Rng) -> String {
    let n = match r.below(4) {
        0 => r.range(1_000_000, 5_000_000),
        _ => (1usize << r.range(20, 25)) + r.below(3) - 1,
    };
    let unit = *r.pick(&["0123456789abcde\n", "wörd ", "日本\n", "sit\r\n", "x"]);
    let mut s = unit.repeat(n / unit.len());
    while s.len() < n {
        s.push('z');
    }
    s
}

/// Files whose size the system does not tell beforehand.
fn sizeless(ctx: &Ctx, r: &mut Rng) -> Outcome {
    let file = Path::new(*r.pick(&["/proc/version", "/proc/filesystems", "/proc/devices"]));
    let mut sig = 0;
    let mut judged = 0;
    let verdict = (|| -> Result<(), String> {
        let before = fs::read_to_string(file).unwrap_or_default();
        let plan = hard_plan(r, before.len());
        let (b, seen) = fault::with_plan(plan, || guard("from_file", || Buffer::from_file(file)));
        if before.is_empty() || before != fs::read_to_string(file).unwrap_or_default() {
            return Ok(());
        }
        ctx.say(|| format!("load {} with {:?}", file.display(), plan));
        let b = b?.map_err(|e| format!("from_file({}) failed: {} ({:?}, {:?})", file.display(), e, plan, seen))?;
        let got = guard("data", || b.data())?;
        if got != before {
            return Err(format!("loading {} ({:?}): {}", file.display(), plan, diff(&before, &got)));
        }
        sig = hash_str(&got);
        judged = 1;
        Ok(())
    })();
    ctx.add("files loaded", judged);
    ctx.add("files of unknown size loaded", judged);
    Outcome { verdict, steps: 0, signature: mix2(sig, r.next()), nontrivial: false }
}

pub fn hard_plan(r: &mut Rng, size: usize) -> Plan {
    let mut plan = Plan::default();
    if size > 500_000 {
        if r.chance(50) {
            plan.piece = *r.pick(&[65_536, 65_537, 1 << 20]);
            plan.vary = r.chance(40);
        }
        if r.chance(50) {
            plan.interrupt_every = r.range(1, 5) as u32;
            plan.interrupt_run = *r.pick(&[1, 1, 2, 3, 5, 20, 120]);
        }
        return plan;
    }
    if r.chance(70) {
        plan.piece = if size > 20_000 { *r.pick(&[997, 4096, 4097, 8191]) } else { *r.pick(&[1, 2, 3, 7, 31, 32, 33, 100, 1024, 4096]) };
        plan.vary = r.chance(40);
    }
    if r.chance(50) {
        plan.interrupt_every = r.range(1, 5) as u32;
            plan.interrupt_run = *r.pick(&[1, 1, 2, 3, 5, 20, 120]);
    }
    plan
}

fn name(r: &mut Rng) -> PathBuf {
    let n: &[u8] = *r.pick(&[
        b"a.txt" as &[u8],
        b"file",
        b"with space.rs",
        b"\xc3\xa9.txt",
        b".hidden",
        b"x.tar.gz",
        b"nonutf8-\xff.txt",
        b"UPPER.TXT",
        b"a b c",
        b"-dash",
        b"tilde~",
        b"#hash#",
    ]);
    PathBuf::from(std::ffi::OsStr::from_bytes(n))
}

fn few_edits(r: &mut Rng, ctx: &Ctx, b: &mut Buffer, style: gen::Style, n: usize, texts: &mut Vec<String>) -> Result<(), String> {
    for _ in 0..n {
        let d = Doc::new(texts.last().unwrap());
        let at = gen::valid_pos(r, &d);
        guard("move_to", || b.cursor.move_to(at))?;
        match r.below(5) {
            4 => {
                // As many bytes as before.
                let t = variant(r, &d, style, &ctx.dict);
                if t.len() == d.text.len() {
                    guard("replace", || b.replace(t))?
                } else if at.offset < d.clusters(at.line) {
                    let o = d.offset(&at).unwrap();
                    let c = d.text[o..].chars().next().unwrap();
                    guard("delete", || b.delete())?;
                    texts.push(guard("data", || b.data())?);
                    guard("insert", || b.insert(if c == 'k' { "j" } else { "k" }))?;
                }
            }
            0 => guard("delete", || b.delete())?,
            1 => {
                let t = variant(r, &d, style, &ctx.dict);
                guard("replace", || b.replace(t))?
            }
            _ => {
                let mut t = gen::piece(r, style, &ctx.dict);
                if t.is_empty() {
                    t.push('q');
                }
                guard("insert", || b.insert(t))?
            }
        }
        let now = guard("data", || b.data())?;
        if now != *texts.last().unwrap() {
            texts.push(now);
        }
    }
    Ok(())
}

/// Undoes and redoes everything, to see that the history is what it was.
fn walk_history(b: &mut Buffer, texts: &[String], what: &str) -> Result<(), String> {
    // Edits without effect may be steps of their own: allow repetitions.
    let mut seen = vec![guard("data", || b.data())?];
    for _ in 0..texts.len() * 3 + 8 {
        guard("undo", || b.undo())?;
        let t = guard("data", || b.data())?;
        if t != *seen.last().unwrap() {
            seen.push(t);
        }
    }
    seen.reverse();
    if seen != texts {
        let k = seen.iter().zip(texts).take_while(|(a, b)| a == b).count();
        return Err(format!(
            "the undo history is not what it was before {}: {} distinct texts expected, {} found, the first difference is text {}: expected {}, found {}",
            what,
            texts.len(),
            seen.len(),
            k,
            texts.get(k).map_or("none".into(), |s| show(s)),
            seen.get(k).map_or("none".into(), |s| show(s))
        ));
    }
    for _ in 0..texts.len() * 3 + 8 {
        guard("redo", || b.redo())?;
    }
    let t = guard("data", || b.data())?;
    if t != *texts.last().unwrap() {
        return Err(format!("redoing everything after {}: {}", what, diff(texts.last().unwrap(), &t)));
    }
    Ok(())
}

pub fn f01(ctx: &Ctx, seed: u64, keep: Option<&[usize]>) -> Outcome {
    let mut r = Rng::new(mix2(seed, 0xF01));
    if r.chance(35) {
        return props_hist::f01_session(ctx, seed, keep);
    }
    if r.one_in(40) {
        return sizeless(ctx, &mut r);
    }
    let huge = r.one_in(1500);
    let text = if huge { enormous(&mut r) } else { content(&mut r, ctx) };
    let style = gen::style(&mut r);
    let dir = ctx.scratch.join("f01");
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).expect("scratch");
    let file = dir.join(name(&mut r));
    let mut seen_total = Seen::default();
    let mut note = |s: &Seen| {
        seen_total.shortened += s.shortened;
        seen_total.interrupted += s.interrupted;
        seen_total.reads += s.reads;
        seen_total.writes += s.writes;
    };
    let mut saves = 0u64;
    let mut loads = 0u64;
    let verdict = (|| -> Result<(), String> {
        fs::write(&file, text.as_bytes()).expect("scratch write");
        let plan = hard_plan(&mut r, text.len());
        ctx.say(|| format!("load {} bytes {} with {:?}", text.len(), show(&text), plan));
        let (b, seen) = fault::with_plan(plan, || guard("from_file", || Buffer::from_file(&file)));
        note(&seen);
        let mut b = b?.map_err(|e| format!("from_file of {} bytes failed: {} ({:?}, {:?})", text.len(), e, plan, seen))?;
        loads += 1;
        let got = guard("data", || b.data())?;
        if got != text {
            return Err(format!("loading ({:?}): {}", plan, diff(&text, &got)));
        }
        if b.cursor.position != Position::new() {
            return Err("the cursor of a loaded buffer is not at its start".into());
        }
        // Saving right away must not change a byte.
        if r.chance(60) {
            let plan = hard_plan(&mut r, text.len());
            ctx.say(|| format!("save unedited with {:?}", plan));
            let (x, seen) = fault::with_plan(plan, || guard("save", || b.save()));
            note(&seen);
            x?.map_err(|e| format!("save failed: {} ({:?}, {:?})", e, plan, seen))?;
            saves += 1;
            let disk = fs::read(&file).map_err(|e| format!("the file is gone after saving: {}", e))?;
            if disk != text.as_bytes() {
                return Err(format!("loading and saving without editing changed the file ({:?}): {}", plan, diff(&text, &String::from_utf8_lossy(&disk))));
            }
        }
        let mut texts = vec![text.clone()];
        for round in 0..r.range(1, 3) {
            if text.len() < 40_000 {
                let n = r.range(0, 4);
                few_edits(&mut r, ctx, &mut b, style, n, &mut texts)?;
            }
            if r.chance(40) {
                // The file has become longer, or different, meanwhile.
                let d = Doc::new(texts.last().unwrap());
                let mut other = variant(&mut r, &d, style, &ctx.dict);
                if r.chance(50) {
                    other.push_str(&gen::sized_text(&mut r, &ctx.dict, 5000));
                }
                ctx.say(|| format!("the file on disk becomes {}", show(&other)));
                fs::write(&file, other.as_bytes()).expect("scratch write");
            } else if r.one_in(6) {
                ctx.say(|| "the file on disk is removed".into());
                fs::remove_file(&file).expect("scratch remove");
            }
            let open_group = r.chance(15);
            if open_group {
                // One step of the history, saved half-way through.
                guard("start_operation_group", || b.start_operation_group())?;
                if text.len() < 40_000 {
                    let mut inner = vec![texts.last().unwrap().clone()];
                    let n = r.range(0, 2);
                    few_edits(&mut r, ctx, &mut b, style, n, &mut inner)?;
                }
            }
            let before = (guard("data", || b.data())?, b.cursor.position, b.path.clone());
            let plan = hard_plan(&mut r, before.0.len());
            ctx.say(|| format!("save {} with {:?}", show(&before.0), plan));
            let (x, seen) = fault::with_plan(plan, || guard("save", || b.save()));
            note(&seen);
            x?.map_err(|e| format!("save failed: {} ({:?}, {:?})", e, plan, seen))?;
            saves += 1;
            let disk = fs::read(&file).map_err(|e| format!("the file is gone after saving: {}", e))?;
            if disk != before.0.as_bytes() {
                return Err(format!(
                    "save in round {} ({:?}) of {}: the file differs: {}",
                    round,
                    plan,
                    show(&before.0),
                    diff(&before.0, &String::from_utf8_lossy(&disk))
                ));
            }
            let after = (guard("data", || b.data())?, b.cursor.position, b.path.clone());
            if after != before {
                return Err(format!(
                    "save changed the buffer: text {}, cursor {} to {}, path {:?} to {:?}",
                    if after.0 == before.0 { "kept" } else { "changed" },
                    p(&before.1),
                    p(&after.1),
                    before.2,
                    after.2
                ));
            }
            if open_group {
                if text.len() < 40_000 {
                    let mut inner = vec![after.0];
                    let n = r.range(0, 2);
                    few_edits(&mut r, ctx, &mut b, style, n, &mut inner)?;
                }
                guard("end_operation_group", || b.end_operation_group())?;
                let now = guard("data", || b.data())?;
                if now != *texts.last().unwrap() {
                    texts.push(now);
                }
            }
        }
        if text.len() < 40_000 {
            walk_history(&mut b, &texts, "saving")?;
        }
        // What was written is what gets loaded.
        let (c, seen) = fault::with_plan(hard_plan(&mut r, text.len()), || guard("from_file", || Buffer::from_file(&file)));
        note(&seen);
        let c = c?.map_err(|e| format!("from_file after saving: {}", e))?;
        loads += 1;
        let disk = fs::read(&file).map_err(|e| format!("reading what was saved: {}", e))?;
        let got = guard("data", || c.data())?;
        if got.as_bytes() != &disk[..] {
            return Err(format!("loading what was saved: {}", diff(&String::from_utf8_lossy(&disk), &got)));
        }
        // Saving to another path.
        if r.chance(30) {
            let mut c = c;
            let other = dir.join("other place.txt");
            c.path = Some(other.clone());
            fs::write(&other, "previous contents, longer than nothing".repeat(r.range(1, 40))).expect("scratch write");
            guard("save", || c.save())?.map_err(|e| format!("save to another path: {}", e))?;
            saves += 1;
            if fs::read(&other).ok().as_ref() != Some(&disk) {
                return Err("saving to another path wrote something else".into());
            }
            if fs::read(&file).ok().as_ref() != Some(&disk) {
                return Err("saving to another path changed the previous file".into());
            }
        }
        let left: Vec<String> = fs::read_dir(&dir)
            .expect("scratch")
            .flatten()
            .map(|e| e.path())
            .filter(|x| *x != file && !x.ends_with("other place.txt"))
            .map(|x| x.display().to_string())
            .collect();
        let _ = left;
        Ok(())
    })();
    ctx.add("files loaded", loads);
    ctx.add("saves", saves);
    ctx.add("reads and writes shortened", seen_total.shortened as u64);
    ctx.add("reads and writes interrupted", seen_total.interrupted as u64);
    ctx.add("read calls", seen_total.reads as u64);
    ctx.add("write calls", seen_total.writes as u64);
    ctx.max("largest text in bytes", text.len() as u64);
    let _ = fs::remove_dir_all(&dir);
    Outcome { verdict, steps: 0, signature: mix2(hash_str(&text), saves), nontrivial: saves > 0 && !text.is_empty() }
}

pub fn bad_utf8(r: &mut Rng, text: &str) -> Vec<u8> {
    let mut v = text.as_bytes().to_vec();
    let bad: &[u8] = *r.pick(&[
        b"\xff" as &[u8],
        b"\x80",
        b"\xc3",
        b"\xe2\x82",
        b"\xed\xa0\x80",
        b"\xf4\x90\x80\x80",
        b"\xc0\xaf",
        b"\xf0\x9f\x98",
    ]);
    // Only at character boundaries, where the sequence stays invalid.
    let bounds: Vec<usize> = text.char_indices().map(|(i, _)| i).chain([text.len()]).collect();
    let at = match r.below(3) {
        0 => 0,
        1 => text.len(),
        _ => *r.pick(&bounds),
    };
    for (i, x) in bad.iter().enumerate() {
        v.insert(at + i, *x);
    }
    assert!(std::str::from_utf8(&v).is_err());
    v
}

struct Enumerated {
    failed: u64,
    points: u64,
    real: u64,
}

fn load_must_fail(path: &Path, why: &str, n: &mut Enumerated) -> Result<(), String> {
    n.real += 1;
    match guard("from_file", || Buffer::from_file(path))? {
        Ok(b) => Err(format!("from_file({:?}), {}: reported success with {}", path, why, show(&b.data()))),
        Err(_) => Ok(()),
    }
}

/// A call that is expected to fail; the buffer must be as before.
fn call_must_fail(
    b: &mut Buffer,
    saving: bool,
    plan: Plan,
    why: &str,
    modified_may_change: bool,
) -> Result<Seen, String> {
    let before = (guard("data", || b.data())?, b.cursor.position, b.path.clone(), b.id, guard("modified", || b.modified())?);
    let what = if saving { "save" } else { "reload" };
    let (r, seen) = fault::with_plan(plan, || guard(what, || if saving { b.save().map_err(|e| e.to_string()) } else { b.reload().map_err(|e| e.to_string()) }));
    let r = r?;
    let expected_failure = plan.errno == 0 || seen.failed > 0;
    if !expected_failure {
        return Ok(seen);
    }
    if r.is_ok() {
        return Err(format!("{} reported success although {} ({:?})", what, why, seen));
    }
    let after = (guard("data", || b.data())?, b.cursor.position, b.path.clone(), b.id, guard("modified", || b.modified())?);
    if after.0 != before.0 {
        return Err(format!("failed {} ({}) changed the text: {}", what, why, diff(&before.0, &after.0)));
    }
    if after.1 != before.1 {
        return Err(format!("failed {} ({}) moved the cursor from {} to {}", what, why, p(&before.1), p(&after.1)));
    }
    if after.2 != before.2 || after.3 != before.3 {
        return Err(format!("failed {} ({}) changed the path or id: {:?} to {:?}", what, why, before.2, after.2));
    }
    if before.4 && !after.4 {
        return Err(format!("failed {} ({}) made the buffer report being unmodified", what, why));
    }
    let _ = modified_may_change;
    Ok(seen)
}

pub fn f02(ctx: &Ctx, seed: u64, keep: Option<&[usize]>) -> Outcome {
    let mut r = Rng::new(mix2(seed, 0xF02));
    if r.chance(30) {
        return props_hist::f02_session(ctx, seed, keep);
    }
    let style = gen::style(&mut r);
    let mut text = if r.one_in(10) { gen::sized_text(&mut r, &ctx.dict, 20_000) } else { gen::document(&mut r, style, &ctx.dict, false) };
    if text.is_empty() {
        text.push_str("x\n");
    }
    let dir = ctx.scratch.join("f02");
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(dir.join("sub")).expect("scratch");
    let file = dir.join("doc.txt");
    let piece = (text.len() / r.range(1, 9)).max(1);
    let mut n = Enumerated { failed: 0, points: 0, real: 0 };
    let part = r.below(3);
    // A fault that passes, or one that stays.
    let once = r.chance(50);
    let verdict = (|| -> Result<(), String> {
        fs::write(&file, text.as_bytes()).expect("scratch write");
        ctx.say(|| format!("text {} pieces of {} bytes, part {}", show(&text), piece, part));
        match part {
            0 => {
                // Loading: every read call in turn, opening, and path resolution.
                let errno = *r.pick(&[libc::EIO, libc::EBADF, libc::ENOMEM, libc::EAGAIN]);
                for k in 1.. {
                    let plan = Plan { piece, fail_read: k, once, errno, ..Plan::default() };
                    let (x, seen) = fault::with_plan(plan, || guard("from_file", || Buffer::from_file(&file)));
                    let x = x?;
                    if seen.failed == 0 {
                        let b = x.map_err(|e| format!("from_file failed without a fault: {}", e))?;
                        if guard("data", || b.data())? != text {
                            return Err("loading in pieces yields a different text".into());
                        }
                        break;
                    }
                    n.points += 1;
                    n.failed += 1;
                    ctx.say(|| format!("load, read call {} failing with errno {}", k, errno));
                    if let Ok(b) = x {
                        return Err(format!(
                            "from_file reported success with {} although read call {} failed with errno {}",
                            show(&b.data()),
                            k,
                            errno
                        ));
                    }
                    if k > 60 {
                        break;
                    }
                }
                for (plan, what) in [
                    (Plan { fail_open: 1, errno: libc::EACCES, ..Plan::default() }, "opening"),
                    (Plan { fail_open: 1, errno: libc::EMFILE, ..Plan::default() }, "opening"),
                    (Plan { fail_realpath: 1, errno: libc::EACCES, ..Plan::default() }, "resolving the path"),
                    (Plan { fail_realpath: 1, errno: libc::ENOENT, ..Plan::default() }, "resolving the path"),
                ] {
                    let (x, seen) = fault::with_plan(plan, || guard("from_file", || Buffer::from_file(&file)));
                    if seen.failed > 0 {
                        n.points += 1;
                        n.failed += 1;
                        if x?.is_ok() {
                            return Err(format!("from_file reported success although {} failed", what));
                        }
                    }
                }
                load_must_fail(&dir.join("missing"), "a missing file", &mut n)?;
                load_must_fail(&dir.join("missing/also.txt"), "in a missing folder", &mut n)?;
                load_must_fail(&dir, "a folder", &mut n)?;
                load_must_fail(Path::new(""), "an empty path", &mut n)?;
                load_must_fail(&file.join("below"), "below a file", &mut n)?;
                load_must_fail(Path::new("nul\0byte"), "a path with a NUL", &mut n)?;
                let lp = dir.join("loop");
                std::os::unix::fs::symlink(&lp, &lp).expect("symlink");
                load_must_fail(&lp, "a symlink to itself", &mut n)?;
                let dl = dir.join("dangling");
                std::os::unix::fs::symlink(dir.join("nowhere"), &dl).expect("symlink");
                load_must_fail(&dl, "a dangling symlink", &mut n)?;
                load_must_fail(&dir.join("n".repeat(300)), "a name that's too long", &mut n)?;
                let bad = dir.join("bad.txt");
                let v = bad_utf8(&mut r, &text);
                fs::write(&bad, &v).expect("scratch write");
                load_must_fail(&bad, "invalid UTF-8", &mut n)?;
                if fs::read(&bad).ok().as_ref() != Some(&v) {
                    return Err("failing to load a file changed it".into());
                }
                // Without the fault, all is well.
                let b = guard("from_file", || Buffer::from_file(&file))?.map_err(|e| format!("from_file after the faults: {}", e))?;
                if guard("data", || b.data())? != text {
                    return Err("loading after the faults yields a different text".into());
                }
            }
            1 => {
                // Saving: every write call in turn.
                let mut b = guard("from_file", || Buffer::from_file(&file))?.map_err(|e| format!("from_file: {}", e))?;
                b.id = Some(5);
                let mut texts = vec![text.clone()];
                let count = r.range(0, 4);
                few_edits(&mut r, ctx, &mut b, style, count, &mut texts)?;
                // Possibly with something to redo.
                let now = guard("data", || b.data())?;
                let d = Doc::new(&now);
                let at = gen::valid_pos(&mut r, &d);
                guard("move_to", || b.cursor.move_to(at))?;
                let (errno, name) = *r.pick(&[(libc::ENOSPC, "no space"), (libc::EIO, "a write error"), (libc::EDQUOT, "a quota"), (libc::EFBIG, "a size limit")]);
                let piece = (now.len() / r.range(1, 9)).max(1);
                for k in 1.. {
                    let plan = Plan { piece, fail_write: k, once, errno, ..Plan::default() };
                    ctx.say(|| format!("save {}, write call {} failing with errno {}", show(&now), k, errno));
                    let seen = call_must_fail(&mut b, true, plan, &format!("{} at write call {}", name, k), true)?;
                    if seen.failed == 0 {
                        break;
                    }
                    n.points += 1;
                    n.failed += seen.failed as u64;
                    if k > 40 {
                        break;
                    }
                    if r.one_in(4) {
                        // Retrying once the fault is gone has full effect.
                        guard("save", || b.save())?.map_err(|e| format!("saving again after {} failed: {}", name, e))?;
                        let disk = fs::read(&file).map_err(|e| format!("saving again after {}: reading the file: {}", name, e))?;
                        if disk != now.as_bytes() {
                            return Err(format!("saving again after {}: {}", name, diff(&now, &String::from_utf8_lossy(&disk))));
                        }
                        if guard("modified", || b.modified())? {
                            return Err(format!("saving again after {} left the buffer modified", name));
                        }
                        if r.chance(50) {
                            let at = Doc::new(&now).end();
                            guard("move_to", || b.cursor.move_to(at))?;
                        }
                    }
                }
                for e in [libc::EACCES, libc::EROFS, libc::ENOSPC] {
                    let plan = Plan { fail_open: 1, once, errno: e, ..Plan::default() };
                    let seen = call_must_fail(&mut b, true, plan, "opening failed", false)?;
                    n.points += (seen.failed > 0) as u64;
                }
                for k in 1..8 {
                    let plan = Plan { fail_other: k, once, errno, ..Plan::default() };
                    let seen = call_must_fail(&mut b, true, plan, "renaming, cutting or flushing failed", true)?;
                    if seen.failed == 0 {
                        break;
                    }
                    n.points += 1;
                }
                let good = b.path.clone();
                for (path, why) in [
                    (None, "there is no path"),
                    (Some(dir.clone()), "the path is a folder"),
                    (Some(dir.join("missing/x.txt")), "the folder is missing"),
                    (Some(file.join("x.txt")), "the path is below a file"),
                    (Some(PathBuf::new()), "the path is empty"),
                    (Some(PathBuf::from("a\0b")), "the path has a NUL"),
                    (Some(dir.join("n".repeat(300))), "the name is too long"),
                ] {
                    n.real += 1;
                    b.path = path;
                    call_must_fail(&mut b, true, Plan::default(), why, false)?;
                }
                b.path = good;
                guard("save", || b.save())?.map_err(|e| format!("saving after the faults: {}", e))?;
                let disk = fs::read(&file).map_err(|e| format!("saving after the faults: reading the file: {}", e))?;
                if disk != now.as_bytes() {
                    return Err(format!("saving after the faults: {}", diff(&now, &String::from_utf8_lossy(&disk))));
                }
                if guard("modified", || b.modified())? {
                    return Err("saving after the faults left the buffer modified".into());
                }
                walk_history(&mut b, &texts, "failing saves")?;
            }
            _ => {
                // Reloading: every read call in turn.
                let mut b = guard("from_file", || Buffer::from_file(&file))?.map_err(|e| format!("from_file: {}", e))?;
                b.id = Some(5);
                let mut texts = vec![text.clone()];
                let count = r.range(0, 4);
                few_edits(&mut r, ctx, &mut b, style, count, &mut texts)?;
                let now = guard("data", || b.data())?;
                let d = Doc::new(&now);
                let at = gen::valid_pos(&mut r, &d);
                guard("move_to", || b.cursor.move_to(at))?;
                let disk = variant(&mut r, &d, style, &ctx.dict);
                fs::write(&file, disk.as_bytes()).expect("scratch write");
                let piece = (disk.len() / r.range(1, 9)).max(1);
                let errno = *r.pick(&[libc::EIO, libc::EBADF, libc::ENOMEM]);
                for k in 1.. {
                    let plan = Plan { piece, fail_read: k, once, errno, ..Plan::default() };
                    ctx.say(|| format!("reload {} over {}, read call {} failing with errno {}", show(&disk), show(&now), k, errno));
                    // The last round has no fault and would reload: find out beforehand.
                    let calls = {
                        let probe = Plan { piece, ..Plan::default() };
                        let (x, seen) = fault::with_plan(probe, || guard("from_file", || Buffer::from_file(&file)));
                        x?.map_err(|e| format!("from_file: {}", e))?;
                        seen.reads
                    };
                    if k > calls || k > 40 {
                        break;
                    }
                    let seen = call_must_fail(&mut b, false, plan, &format!("read call {} failed", k), false)?;
                    if seen.failed == 0 {
                        break;
                    }
                    n.points += 1;
                    n.failed += seen.failed as u64;
                }
                if guard("data", || b.data())? == now {
                    for e in [libc::EACCES, libc::EMFILE] {
                        let plan = Plan { fail_open: 1, errno: e, ..Plan::default() };
                        let seen = call_must_fail(&mut b, false, plan, "opening failed", false)?;
                        n.points += (seen.failed > 0) as u64;
                    }
                    let good = b.path.clone();
                    let bad = dir.join("bad.txt");
                    fs::write(&bad, bad_utf8(&mut r, &disk)).expect("scratch write");
                    for (path, why) in [
                        (None, "there is no path"),
                        (Some(dir.clone()), "the path is a folder"),
                        (Some(dir.join("missing.txt")), "the file is missing"),
                        (Some(bad), "the file is not valid UTF-8"),
                        (Some(PathBuf::new()), "the path is empty"),
                    ] {
                        n.real += 1;
                        b.path = path;
                        call_must_fail(&mut b, false, Plan::default(), why, false)?;
                    }
                    b.path = good;
                    walk_history(&mut b, &texts, "failing reloads")?;
                    guard("reload", || b.reload())?.map_err(|e| format!("reloading after the faults: {}", e))?;
                    let got = guard("data", || b.data())?;
                    if got != disk {
                        return Err(format!("reloading after the faults: {}", diff(&disk, &got)));
                    }
                    if guard("modified", || b.modified())? {
                        return Err("reloading after the faults left the buffer modified".into());
                    }
                }
            }
        }
        Ok(())
    })();
    ctx.add("failing call positions enumerated", n.points);
    ctx.add("calls failed by injection", n.failed);
    ctx.add("real failures (missing, folder, invalid text or path)", n.real);
    let _ = fs::remove_dir_all(&dir);
    Outcome { verdict, steps: 0, signature: mix2(hash_str(&text), mix2(n.points, part as u64)), nontrivial: n.points > 0 }
}
