//! Long histories on tiny texts: thousands of modifications, groups of thousands,
//! and undoing and redoing all of them. A step is a burst of calls, whose outcome is
//! predicted; what is seen in between is judged.

use crate::gen::Dict;
use crate::model::show;
use crate::rng::{hash_str, mix2, Rng};
use crate::run::{guard, Ctx, Outcome};
use scribe::buffer::{Position, Range};
use scribe::Buffer;
use std::fs;

/// A number of repetitions: near powers of two, round numbers, or numbers occurring in the sources.
pub fn count(r: &mut Rng, dict: &Dict, max: usize) -> usize {
    let n = match r.below(10) {
        0..=3 => r.range(1, 40),
        4 | 5 => r.range(40, 400),
        6 => 1usize << r.range(3, 14),
        7 => *r.pick(&[100, 128, 200, 255, 256, 300, 500, 512, 1000, 1024, 2000, 2500, 5000, 10_000]) + r.below(3),
        8 => r.range(400, 3000),
        _ => dict.int(r, 20_000).map_or(1000, |n| n + r.below(3)),
    };
    n.clamp(1, max)
}

struct Item {
    before: String,
    after: String,
}

pub struct DeepSeen {
    pub edits: u64,
    pub undone: u64,
    pub redone: u64,
    pub groups: u64,
    pub largest_group: u64,
    pub longest: u64,
    pub marks: u64,
    pub modified: u64,
}

/// `text`: the texts are judged; `flag`: what `modified` says is judged.
pub fn deep_case(ctx: &Ctx, seed: u64, keep: Option<&[usize]>, text: bool, flag: bool, groups: bool) -> Outcome {
    let mut r0 = Rng::new(mix2(seed, 0xDEE9));
    let steps = r0.range(3, 14);
    let max = if ctx.thorough { 20_000 } else { 11_000 };
    // One long burst, the others mostly short ones.
    let long_at = r0.below(3.min(steps));
    // Rather few, but weighty ones: many megabytes in total.
    let heavy = if r0.one_in(25) { *r0.pick(&[5_000usize, 70_000, 300_000, 1_100_000]) } else { 0 };
    let volume = if ctx.thorough { 96_000_000 } else { 28_000_000 };
    let most = if heavy > 0 { (volume / heavy / 3).clamp(6, 2000) } else { usize::MAX };
    // And now and then more modifications than 16 bits can count.
    let vast = heavy == 0 && Rng::new(mix2(seed, 0x7A57)).one_in(if ctx.thorough { 120 } else { 250 });
    let observe = if vast { 1 } else { *r0.pick(&[1usize, 1, 7, 50, 1_000_000]) };
    let from_file = flag || r0.chance(30);
    let mut all = vec![];
    let keep = match keep {
        Some(k) => k,
        None => {
            all.extend(0..steps);
            &all
        }
    };
    let mut seen = DeepSeen { edits: 0, undone: 0, redone: 0, groups: 0, largest_group: 0, longest: 0, marks: 0, modified: 0 };
    let mut sig = seed;
    let mut bytes = 0u64;
    let verdict = (|| -> Result<(), String> {
        let file = ctx.scratch.join("deep.txt");
        let mut now = r0.pick(&["", "a", "a\n", "x\r\ny", "é日"]).to_string();
        let mut b = if from_file {
            fs::write(&file, &now).expect("scratch");
            guard("from_file", || Buffer::from_file(&file))?.map_err(|e| format!("from_file: {}", e))?
        } else {
            now.clear();
            Buffer::new()
        };
        ctx.say(|| format!("start with {}{}", show(&now), if from_file { " from a file" } else { "" }));
        let mut prev: Vec<Item> = vec![];
        let mut next: Vec<Item> = vec![];
        // The synchronised text, and how far up the history it is, if it still is.
        let mut synced: Option<(String, Option<usize>)> = from_file.then(|| (now.clone(), Some(0)));
        let mut total = 0usize;

        macro_rules! judge {
            ($what:expr) => {{
                if text {
                    let got = guard("data", || b.data())?;
                    if got != now {
                        return Err(format!("after {} ({} modifications so far, {} of them done): got {}, expected {}", $what, total, prev.len(), show(&got), show(&now)));
                    }
                }
                if flag {
                    let got = guard("modified", || b.modified())?;
                    let actual = guard("data", || b.data())?;
                    match &synced {
                        Some((t, at)) => {
                            if *at == Some(prev.len()) && actual == now && now == *t {
                                seen.marks += 1;
                                if got {
                                    return Err(format!("after {} the buffer is back at the synchronised point ({} modifications from the start), but reports being modified", $what, prev.len()));
                                }
                            } else if actual != *t {
                                seen.modified += 1;
                                if !got {
                                    return Err(format!("after {} the text {} differs from {}, which was last synchronised, but the buffer reports being unmodified", $what, show(&actual), show(t)));
                                }
                            }
                        }
                        None => {
                            if !got {
                                return Err(format!("after {} a buffer that never was in a file reports being unmodified", $what));
                            }
                        }
                    }
                }
            }};
        }

        // One edit; returns the text after it, which always differs.
        fn edit(r: &mut Rng, b: &mut Buffer, now: &str, heavy: usize) -> Result<String, String> {
            if heavy > 0 && r.chance(60) {
                let c = *r.pick(&["x", "yz", "line\n", "0123456789abcdef\n", "é"]);
                let len = heavy / 2 + r.below(heavy);
                let big = format!("{}{}", r.below(100_000), c.repeat(len / c.len() + 1));
                if now.len() > 4 * heavy || r.chance(60) {
                    // Never the same text, at that.
                    let big = if big == now { "other".to_string() } else { big };
                    guard("replace", || b.replace(big.clone()))?;
                    return Ok(big);
                }
                guard("insert", || b.insert(big.as_str()))?;
                return Ok(format!("{}{}", big, now));
            }
            let lead = now.chars().next();
            // A character of the ASCII kind at the very start is a cluster of its own.
            if now.len() > 40 && r.chance(50) {
                let c = lead.unwrap();
                let start = Position { line: 0, offset: 0 };
                if c != '\r' && c != '\n' && now.chars().nth(1).is_some_and(|d| d.is_ascii() && d != '\n') && c.is_ascii() {
                    if r.chance(50) {
                        guard("delete", || b.delete())?;
                    } else {
                        guard("delete_range", || b.delete_range(Range::new(start, Position { line: 0, offset: 1 })))?;
                    }
                    return Ok(now[1..].to_string());
                }
                guard("delete_range", || b.delete_range(Range::new(start, Position { line: usize::MAX - 1, offset: 0 })))?;
                return Ok(String::new());
            }
            if r.one_in(400) {
                let t = format!("{}r", now);
                guard("replace", || b.replace(t.clone()))?;
                return Ok(t);
            }
            let s = *r.pick(&["a", "b", "cd", "e", "f"]);
            guard("insert", || b.insert(s))?;
            Ok(format!("{}{}", s, now))
        }

        for (n, i) in keep.iter().enumerate() {
            let mut r = Rng::new(mix2(mix2(seed, 0xD1), *i as u64));
            let times = if *i == long_at { count(&mut r, &ctx.dict, max).max(r.range(2, 1500)) } else { count(&mut r, &ctx.dict, 600) };
            let times = if vast && *i == long_at { 65_537 + r.below(300) } else { times.min(most) };
            let k = if n == 0 || *i == long_at { r.weighted(&[70, if groups { 60 } else { 6 }, 0, 0, 0, 0]) } else { r.weighted(&[22, if groups { 30 } else { 4 }, 34, 22, if from_file { 12 } else { 0 }, 4]) };
            match k {
                0 => {
                    ctx.say(|| format!("{} edits", times));
                    for j in 0..times {
                        let after = edit(&mut r, &mut b, &now, heavy)?;
                        bytes += if heavy > 0 { after.len() as u64 } else { 0 };
                        prev.push(Item { before: std::mem::replace(&mut now, after.clone()), after });
                        next.clear();
                        total += 1;
                        seen.edits += 1;
                        if let Some((_, at)) = synced.as_mut() {
                            if at.is_some_and(|a| a >= prev.len()) {
                                *at = None;
                            }
                        }
                        if j % observe == 0 {
                            judge!(format!("edit {} of a burst of {}", j + 1, times));
                        }
                    }
                }
                1 => {
                    ctx.say(|| format!("a group of {} edits", times));
                    guard("start_operation_group", || b.start_operation_group())?;
                    let before = now.clone();
                    let nested = r.below(times + 1);
                    for j in 0..times {
                        if j == nested {
                            guard("start_operation_group", || b.start_operation_group())?;
                        }
                        now = edit(&mut r, &mut b, &now, heavy)?;
                        total += 1;
                        seen.edits += 1;
                    }
                    next.clear();
                    prev.push(Item { before, after: now.clone() });
                    if let Some((_, at)) = synced.as_mut() {
                        if at.is_some_and(|a| a >= prev.len()) {
                            *at = None;
                        }
                    }
                    seen.groups += 1;
                    seen.largest_group = seen.largest_group.max(times as u64);
                    guard("end_operation_group", || b.end_operation_group())?;
                    judge!(format!("a group of {} edits", times));
                }
                2 => {
                    let times = if r.chance(60) { prev.len() + r.below(3) } else { times };
                    ctx.say(|| format!("undo {} times", times));
                    for j in 0..times {
                        guard("undo", || b.undo())?;
                        if let Some(x) = prev.pop() {
                            now.clone_from(&x.before);
                            next.push(x);
                            seen.undone += 1;
                        }
                        if j % observe == 0 {
                            judge!(format!("undo {} of {}", j + 1, times));
                        }
                    }
                    judge!(format!("{} undos", times));
                }
                3 => {
                    let times = if r.chance(60) { next.len() + r.below(3) } else { times };
                    ctx.say(|| format!("redo {} times", times));
                    for j in 0..times {
                        guard("redo", || b.redo())?;
                        if let Some(x) = next.pop() {
                            now.clone_from(&x.after);
                            prev.push(x);
                            seen.redone += 1;
                        }
                        if j % observe == 0 {
                            judge!(format!("redo {} of {}", j + 1, times));
                        }
                    }
                    judge!(format!("{} redos", times));
                }
                4 => {
                    ctx.say(|| "save".into());
                    let ok = guard("save", || b.save().is_ok())?;
                    if ok && guard("data", || b.data())? == now {
                        synced = Some((now.clone(), Some(prev.len())));
                    } else {
                        // Which is for others to judge.
                        return Ok(());
                    }
                    judge!("save".to_string());
                }
                _ => {
                    // Groups without modifications.
                    ctx.say(|| format!("{} empty groups", times));
                    for _ in 0..times {
                        guard("start_operation_group", || b.start_operation_group())?;
                        guard("end_operation_group", || b.end_operation_group())?;
                    }
                }
            }
            seen.longest = seen.longest.max(prev.len() as u64);
            sig = mix2(sig, hash_str(&now));
        }
        // All the way back, forth, and back.
        ctx.say(|| format!("undo everything ({}), redo, undo", prev.len()));
        while let Some(x) = prev.pop() {
            guard("undo", || b.undo())?;
            now.clone_from(&x.before);
            next.push(x);
            seen.undone += 1;
            if prev.len() % observe == 0 {
                judge!("undoing everything");
            }
        }
        judge!("undoing everything");
        while let Some(x) = next.pop() {
            guard("redo", || b.redo())?;
            now.clone_from(&x.after);
            prev.push(x);
            seen.redone += 1;
            if next.len() % observe == 0 {
                judge!("redoing everything");
            }
        }
        judge!("redoing everything");
        Ok(())
    })();
    ctx.add("long histories", 1);
    ctx.add("weighty histories", (heavy > 0) as u64);
    ctx.add("vast histories", vast as u64);
    ctx.max("most text in a history's modifications", bytes);
    ctx.add("modifications in long histories", seen.edits);
    ctx.add("undo and redo calls in long histories", seen.undone + seen.redone);
    ctx.add("groups in long histories", seen.groups);
    ctx.max("largest group", seen.largest_group);
    ctx.max("most modifications that could be undone", seen.longest);
    if flag {
        ctx.add("returns to the synchronised point in long histories", seen.marks);
        ctx.add("modified states in long histories", seen.modified);
    }
    Outcome { verdict, steps, signature: sig, nontrivial: seen.undone > 0 }
}
