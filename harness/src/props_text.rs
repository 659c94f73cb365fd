//! Properties of the text store, of line iteration, and of positions and ranges.

use crate::gen;
use crate::model::{diff, show, Doc};
use crate::monitors::{judge_bounds, judge_read, judge_search};
use crate::props_hist;
use crate::rng::{hash_str, mix2, Rng};
use crate::run::{guard, Ctx, Outcome};
use crate::session::{needle, p, plan_case, some_range, Profile, Session};
use crate::track;
use scribe::buffer::{Distance, GapBuffer, LineRange, Position, Range};
use scribe::util::LineIterator;
use scribe::Buffer;

fn steps_of<'a>(keep: Option<&'a [usize]>, n: usize, all: &'a mut Vec<usize>) -> &'a [usize] {
    match keep {
        Some(k) => k,
        None => {
            *all = (0..n).collect();
            all
        }
    }
}

#[derive(Debug)]
enum Edit {
    Insert(Position, String),
    Delete(Range),
}

impl Edit {
    fn show(&self) -> String {
        match self {
            Edit::Insert(q, s) => format!("insert({} at {})", show(s), p(q)),
            Edit::Delete(r) => format!("delete({}..{})", p(&r.start()), p(&r.end())),
        }
    }
}

struct GapPlan {
    text: String,
    style: gen::Style,
    ops: usize,
    mood: usize,
    invalid: usize,
    watch: usize,
    /// Texts are kept below this size.
    cap: usize,
    /// Texts inserted may be of a large and round size.
    round: bool,
}

fn gap_plan(ctx: &Ctx, seed: u64) -> GapPlan {
    let mut r = Rng::new(mix2(seed, 0x6A9));
    let style = gen::style(&mut r);
    let text = gen::document(&mut r, style, &ctx.dict, true);
    if r.one_in(250) {
        // Very many edits of a tiny text.
        let ops = crate::props_deep::count(&mut r, &ctx.dict, if ctx.thorough { 70_000 } else { 20_000 }).max(500);
        let text = text.chars().take(30).collect();
        return GapPlan { text, style, ops, mood: r.below(7), invalid: *r.pick(&[0, 8]), watch: *r.pick(&[1, 30, 300]), cap: r.range(20, 120), round: false };
    }
    if r.one_in(150) {
        let ops = r.range(2, 9);
        let invalid = *r.pick(&[0, 8]);
        return GapPlan { text, style, ops, mood: r.below(7), invalid, watch: 1, cap: 2_000_000, round: true };
    }
    let ops = if text.len() > 50_000 {
        r.range(3, 9)
    } else if text.len() > 4000 {
        r.range(6, 30)
    } else {
        match r.weighted(&[45, 45, 8, 2]) {
            0 => r.range(2, 16),
            1 => r.range(16, 70),
            2 => r.range(70, 400),
            _ => r.range(400, 1500),
        }
    };
    GapPlan { text, style, ops, mood: r.below(7), invalid: *r.pick(&[0, 8, 25]), watch: *r.pick(&[1, 1, 1, 4, 30]), cap: 40_000, round: false }
}

fn gap_edit(ctx: &Ctx, plan: &GapPlan, r: &mut Rng, d: &Doc, near: Position) -> Edit {
    let near = if d.exists(&near) { near } else { d.end() };
    let mut insert = match plan.mood {
        0 => 90,
        1 => 30,
        2 => 60,
        _ => 50,
    };
    if d.text.len() > plan.cap {
        insert = 20;
    }
    let tiny = plan.cap < 200;
    if r.chance(insert) {
        let at = match plan.mood {
            3 => near,
            4 => d.end(),
            5 => Position { line: 0, offset: 0 },
            _ => gen::any_pos(r, d, plan.invalid, near),
        };
        let s = if tiny {
            let mut s = String::new();
            gen::atom(r, plan.style, &ctx.dict, &mut s);
            s
        } else if plan.round && r.chance(60) {
            gen::round_text(r, 1 << 20)
        } else if r.one_in(25) {
            // About as much as is there already: the sizes at which storage grows.
            let n = (d.text.len() + r.below(9)).saturating_sub(r.below(9)).min(if plan.round { 1 << 20 } else { 20_000 });
            "y".repeat(n)
        } else if r.one_in(60) {
            gen::sized_text(r, &ctx.dict, 5000)
        } else {
            gen::piece(r, plan.style, &ctx.dict)
        };
        Edit::Insert(at, s)
    } else {
        Edit::Delete(some_range(r, d, plan.invalid, near))
    }
}

fn apply(d: &Doc, e: &Edit) -> (String, bool) {
    match e {
        Edit::Insert(q, s) => match d.after_insert(q, s) {
            Some(t) => (t, true),
            None => (d.text.to_string(), false),
        },
        Edit::Delete(r) => match d.after_delete(r) {
            Some(t) => (t, true),
            None => (d.text.to_string(), false),
        },
    }
}

fn gap_apply(g: &mut GapBuffer, e: &Edit) -> Result<(), String> {
    guard(&e.show(), || match e {
        Edit::Insert(q, s) => g.insert(s, q),
        Edit::Delete(r) => g.delete(r),
    })
}

pub fn t01(ctx: &Ctx, seed: u64, keep: Option<&[usize]>) -> Outcome {
    let plan = gap_plan(ctx, seed);
    let mut all = vec![];
    let keep = steps_of(keep, plan.ops, &mut all);
    let mut sig = hash_str(&plan.text);
    let (mut ins, mut del, mut refused, mut clamped, mut looks) = (0, 0, 0, 0, 0);
    let mut largest = 0;
    let verdict = (|| -> Result<(), String> {
        ctx.say(|| format!("GapBuffer::new({})", show(&plan.text)));
        let mut g = guard("new", || GapBuffer::new(plan.text.as_str()))?;
        let mut d = Doc::new(&plan.text);
        let mut near = Position { line: 0, offset: 0 };
        let t = guard("to_string", || g.to_string())?;
        if t != plan.text {
            return Err(format!("new({}): {}", show(&plan.text), diff(&plan.text, &t)));
        }
        let mut last = String::new();
        for (n, i) in keep.iter().enumerate() {
            let mut r = Rng::new(mix2(mix2(seed, 7), *i as u64));
            let e = gap_edit(ctx, &plan, &mut r, &d, near);
            let (t, done) = apply(&d, &e);
            last = e.show();
            ctx.say(|| last.clone());
            gap_apply(&mut g, &e)?;
            match &e {
                Edit::Insert(q, _) => {
                    ins += done as u64;
                    near = *q;
                }
                Edit::Delete(x) => {
                    del += done as u64;
                    clamped += (done && !d.exists(&x.end())) as u64;
                    near = x.start();
                }
            }
            refused += !done as u64;
            if t != *d.text {
                d = Doc::new(&t);
            }
            largest = largest.max(d.text.len());
            sig = mix2(sig, hash_str(&d.text));
            if r.one_in(plan.watch) || n + 1 == keep.len() {
                looks += 1;
                let got = guard("to_string", || g.to_string())?;
                if got != *d.text {
                    return Err(format!("after {}: {}", last, diff(&d.text, &got)));
                }
            }
        }
        let _ = last;
        Ok(())
    })();
    ctx.add("insertions applied", ins);
    ctx.add("deletions applied", del);
    ctx.add("deletions ending past the text or line", clamped);
    ctx.add("edits at positions that don't exist", refused);
    ctx.add("contents compared", looks);
    ctx.max("largest text in bytes", largest as u64);
    ctx.max("longest history", keep.len() as u64);
    Outcome { verdict, steps: plan.ops, signature: sig, nontrivial: ins + del >= 2 }
}

pub fn t02(ctx: &Ctx, seed: u64, keep: Option<&[usize]>) -> Outcome {
    let mut plan = gap_plan(ctx, seed);
    plan.round = false;
    plan.cap = plan.cap.min(40_000);
    plan.ops = plan.ops.min(if plan.text.len() > 1500 { 12 } else { 60 });
    let mut r0 = Rng::new(mix2(seed, 0x1A46E));
    if r0.one_in(250) {
        // More than anybody reads at once.
        plan.text = if r0.chance(60) { gen::round_text(&mut r0, 1 << 20) } else { "0123456789\n"[..r0.range(10, 11)].repeat(r0.range(1000, 60_000)) };
        plan.ops = 2;
    }
    let mut all = vec![];
    let keep = steps_of(keep, plan.ops, &mut all);
    let mut sig = hash_str(&plan.text);
    let (mut reads, mut nothing, mut inb, mut outb, mut edits, mut complete) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let verdict = (|| -> Result<(), String> {
        ctx.say(|| format!("GapBuffer::new({})", show(&plan.text)));
        let mut g = guard("new", || GapBuffer::new(plan.text.as_str()))?;
        let mut near = Position { line: 0, offset: 0 };
        for i in keep {
            let mut r = Rng::new(mix2(mix2(seed, 7), *i as u64));
            let d = Doc::new(&guard("to_string", || g.to_string())?);
            let e = gap_edit(ctx, &plan, &mut r, &d, near);
            near = match &e {
                Edit::Insert(q, _) => *q,
                Edit::Delete(x) => x.start(),
            };
            ctx.say(|| e.show());
            gap_apply(&mut g, &e)?;
            edits += 1;
            // Judged against the content itself, however it came about.
            let d = Doc::new(&guard("to_string", || g.to_string())?);
            sig = mix2(sig, hash_str(&d.text));
            let mut spots = Vec::new();
            if d.text.len() <= 48 && (r.one_in(5) || Some(i) == keep.last()) {
                for line in 0..d.line_count() {
                    for offset in 0..=d.clusters(line) + 1 {
                        spots.push(Position { line, offset });
                    }
                }
                spots.push(Position { line: d.line_count(), offset: 0 });
                complete += 1;
            } else if d.text.len() > 70_000 {
                spots.extend([Position { line: 0, offset: 0 }, d.end(), gen::valid_pos(&mut r, &d)]);
            } else {
                for _ in 0..4 {
                    spots.push(gen::any_pos(&mut r, &d, 0, near));
                }
            }
            for _ in 0..if d.text.len() > 70_000 { 1 } else { 3 } {
                spots.push(gen::invalid_pos(&mut r, &d));
            }
            for q in &spots {
                let ok = guard(&format!("in_bounds({})", p(q)), || g.in_bounds(q))?;
                if ok {
                    inb += 1
                } else {
                    outb += 1
                }
                judge_bounds(&d, q, ok)?;
            }
            let mut ranges: Vec<Range> = Vec::new();
            if d.text.len() > 70_000 {
                ranges.push(Range::new(spots[0], spots[1]));
                ranges.push(Range::new(spots[0], spots[2]));
                ranges.push(Range::new(spots[2], spots[1]));
            } else if spots.len() <= 12 {
                for a in &spots {
                    for b in &spots {
                        ranges.push(Range::new(*a, *b));
                    }
                }
            } else {
                // Long texts take their time.
                for _ in 0..if d.text.len() > 1500 { 1 } else if d.text.len() > 300 { 2 } else { 5 } {
                    ranges.push(Range::new(*r.pick(&spots), *r.pick(&spots)));
                    ranges.push(some_range(&mut r, &d, 10, near));
                }
            }
            for q in &ranges {
                let t = guard(&format!("read({}..{})", p(&q.start()), p(&q.end())), || g.read(q))?;
                if t.is_some() {
                    reads += 1
                } else {
                    nothing += 1
                }
                judge_read(&d, q, &t)?;
            }
            let again = guard("to_string", || g.to_string())?;
            if again != *d.text {
                return Err(format!("reading changed the content: {}", diff(&d.text, &again)));
            }
        }
        Ok(())
    })();
    ctx.add("edits before reading", edits);
    ctx.add("ranges read", reads);
    ctx.add("reads of ranges that don't exist", nothing);
    ctx.add("positions in bounds", inb);
    ctx.add("positions out of bounds", outb);
    ctx.add("contents with every position checked", complete);
    if verdict.is_ok() && Rng::new(mix2(seed, 2)).chance(15) {
        let prof = Profile { invalid: 20, ..Profile::default() };
        return crate::common::predictive_case(
            ctx,
            seed,
            None,
            &prof,
            crate::common::Observe { read: true, ..Default::default() },
        );
    }
    Outcome { verdict, steps: plan.ops, signature: sig, nontrivial: edits >= 2 && reads > 0 }
}

/// Builds a buffer holding `t` in one of several ways.
fn build(ctx: &Ctx, r: &mut Rng, t: &str) -> Result<(Buffer, &'static str), String> {
    let mut b = Buffer::new();
    Ok(match r.below(5) {
        0 => {
            guard("insert", || b.insert(t))?;
            (b, "inserted at once")
        }
        1 => {
            guard("replace", || b.replace(t))?;
            (b, "replaced at once")
        }
        2 => {
            let f = ctx.scratch.join("t03.txt");
            std::fs::write(&f, t).expect("scratch write");
            (guard("from_file", || Buffer::from_file(&f))?.map_err(|e| format!("from_file: {}", e))?, "loaded from a file")
        }
        3 => {
            // Typed from the back: every piece at the start, split at random characters.
            let mut cuts: Vec<usize> = t.char_indices().map(|(i, _)| i).filter(|_| r.one_in(1 + t.len() / 12)).collect();
            cuts.push(t.len());
            let mut end = t.len();
            for c in cuts.iter().rev() {
                guard("insert", || b.insert(&t[*c..end]))?;
                end = *c;
            }
            guard("insert", || b.insert(&t[..end]))?;
            (b, "typed from the back in pieces")
        }
        _ => {
            // Typed from the front: every piece at the end, wherever that is by then.
            let mut start = 0;
            let cuts: Vec<usize> = t.char_indices().map(|(i, _)| i).filter(|i| *i > 0).filter(|_| r.one_in(1 + t.len() / 12)).collect();
            for c in cuts.into_iter().chain([t.len()]) {
                guard("insert", || b.insert(&t[start..c]))?;
                start = c;
                let end = Doc::new(&t[..c]).end();
                guard("move_to", || b.cursor.move_to(end))?;
            }
            (b, "typed from the front in pieces")
        }
    })
}

/// Asks both buffers the same; any difference is a violation.
fn compare(ctx: &Ctx, r: &mut Rng, a: &mut Buffer, b: &mut Buffer, how: &str, near: Position, style: gen::Style, n: usize) -> Result<u64, String> {
    let ta = guard("data", || a.data())?;
    let d = Doc::new(&ta);
    let mut asked = 0;
    let tb = guard("data", || b.data())?;
    if ta != tb {
        return Err(format!("text {} differs from the one of a buffer {}: {}", show(&ta), how, diff(&ta, &tb)));
    }
    let differ = |what: String, x: String, y: String| -> Result<(), String> {
        if x != y {
            return Err(format!("{} on {}: {} after the history, {} in a buffer {} with the same text", what, show(&ta), x, y, how));
        }
        Ok(())
    };
    differ("line_count()".into(), guard("line_count", || a.line_count())?.to_string(), guard("line_count", || b.line_count())?.to_string())?;
    for _ in 0..n {
        asked += 3;
        let q = gen::any_pos(r, &d, 20, near);
        let x = guard("in_bounds", || a.cursor.data.borrow().in_bounds(&q))?;
        let y = guard("in_bounds", || b.cursor.data.borrow().in_bounds(&q))?;
        differ(format!("in_bounds({})", p(&q)), x.to_string(), y.to_string())?;
        let q = some_range(r, &d, 15, near);
        let x = guard("read", || a.read(&q))?;
        let y = guard("read", || b.read(&q))?;
        if x != y {
            differ(format!("read({}..{})", p(&q.start()), p(&q.end())), format!("{:?}", x), format!("{:?}", y))?;
        }
        let s = needle(r, &d, style, &ctx.dict);
        let x = guard("search", || a.search(&s))?;
        let y = guard("search", || b.search(&s))?;
        if x != y {
            differ(format!("search({:?})", s), format!("{:?}", x), format!("{:?}", y))?;
        }
        // Movements from the same place, with the same desired column.
        let start = gen::any_pos(r, &d, 0, near);
        let mut moves = vec![];
        for c in [&mut *a, &mut *b] {
            let mut cur = c.cursor.clone();
            let mut trail = String::new();
            let mut rr = Rng::new(mix2(start.line as u64, start.offset as u64));
            guard("moving a cursor", || {
                trail.push_str(&cur.move_to(start).to_string());
                for _ in 0..6 {
                    match rr.below(8) {
                        0 => cur.move_up(),
                        1 => cur.move_down(),
                        2 => cur.move_left(),
                        3 => cur.move_right(),
                        4 => cur.move_to_start_of_line(),
                        5 => cur.move_to_end_of_line(),
                        6 => cur.move_to_first_line(),
                        _ => cur.move_to_last_line(),
                    }
                    trail.push_str(&format!(" {}", p(&cur.position)));
                }
            })?;
            moves.push(trail);
        }
        differ(format!("cursor movements from {}", p(&start)), moves[0].clone(), moves[1].clone())?;
    }
    Ok(asked)
}

pub fn t03(ctx: &Ctx, seed: u64, keep: Option<&[usize]>) -> Outcome {
    let prof = Profile { undo: 16, redo: 12, group: 6, replace: 2, invalid: 12, from_file: 30, ..Profile::default() };
    let mut plan = plan_case(seed, &prof, &ctx.dict);
    plan.ops = plan.ops.min(160);
    let mut all = vec![];
    let keep = steps_of(keep, plan.ops, &mut all);
    let mut r0 = Rng::new(mix2(seed, 0x703));
    let gap = r0.range(4, 30);
    let mut sig = hash_str(&plan.text);
    let (mut asked, mut pairs, mut joint) = (0, 0, 0);
    let mut changes = 0u64;
    let verdict = (|| -> Result<(), String> {
        let mut s = Session::start(ctx, &plan)?;
        let r = (|| -> Result<(), String> {
            for (n, i) in keep.iter().enumerate() {
                let op = s.choose(ctx, &plan, &prof, *i)?;
                let e = s.step(op)?;
                changes += (e.before.doc.text != e.after.doc.text) as u64;
                sig = mix2(sig, hash_str(&e.after.doc.text));
                let mut r = Rng::new(mix2(mix2(seed, 0xC0), *i as u64));
                if n + 1 == keep.len() || r.one_in(gap) {
                    let (mut other, how) = build(ctx, &mut r, &e.after.doc.text)?;
                    pairs += 1;
                    asked += compare(ctx, &mut r, &mut s.buf, &mut other, how, s.near, plan.style, 4)?;
                    if n + 1 == keep.len() {
                        // The same calls on both from here on; undo and redo are left
                        // out, since what they do depends on the history.
                        let at = gen::valid_pos(&mut r, &e.after.doc);
                        s.buf.cursor.move_to(at);
                        other.cursor.move_to(at);
                        s.last = None;
                        let tail = Profile { undo: 0, redo: 0, group: 0, ..prof.clone() };
                        for k in 0..10 {
                            let op = s.choose(ctx, &plan, &tail, 1_000_000 + k)?;
                            let name = op.show();
                            match &op {
                                crate::session::Op::Insert(t) => guard(&name, || other.insert(t.clone()))?,
                                crate::session::Op::Delete => guard(&name, || other.delete())?,
                                crate::session::Op::DeleteRange(x) => guard(&name, || other.delete_range(x.clone()))?,
                                crate::session::Op::Replace(t) => guard(&name, || other.replace(t.clone()))?,
                                crate::session::Op::MoveTo(q) => guard(&name, || other.cursor.move_to(*q)).map(|_| ())?,
                                crate::session::Op::Up => guard(&name, || other.cursor.move_up())?,
                                crate::session::Op::Down => guard(&name, || other.cursor.move_down())?,
                                crate::session::Op::Left => guard(&name, || other.cursor.move_left())?,
                                crate::session::Op::Right => guard(&name, || other.cursor.move_right())?,
                                crate::session::Op::StartOfLine => guard(&name, || other.cursor.move_to_start_of_line())?,
                                crate::session::Op::EndOfLine => guard(&name, || other.cursor.move_to_end_of_line())?,
                                crate::session::Op::FirstLine => guard(&name, || other.cursor.move_to_first_line())?,
                                crate::session::Op::LastLine => guard(&name, || other.cursor.move_to_last_line())?,
                                _ => continue,
                            }
                            let e = s.step(op)?;
                            joint += 1;
                            let t = guard("data", || other.data())?;
                            if t != *e.after.doc.text || other.cursor.position != e.after.pos {
                                return Err(format!(
                                    "{} on {} with the cursor at {}: {} with the cursor at {} after the history, but {} with the cursor at {} in a buffer {}",
                                    name,
                                    show(&e.before.doc.text),
                                    p(&e.before.pos),
                                    show(&e.after.doc.text),
                                    p(&e.after.pos),
                                    show(&t),
                                    p(&other.cursor.position),
                                    how
                                ));
                            }
                        }
                        asked += compare(ctx, &mut r, &mut s.buf, &mut other, how, s.near, plan.style, 2)?;
                    }
                }
            }
            Ok(())
        })();
        if let Some(t) = s.trace.take() {
            ctx.trace.borrow_mut().extend(t);
        }
        r
    })();
    ctx.add("pairs of buffers compared", pairs);
    ctx.add("questions asked of both", asked);
    ctx.add("further calls made on both", joint);
    ctx.add("changes before comparing", changes);
    Outcome { verdict, steps: plan.ops, signature: sig, nontrivial: changes >= 2 && pairs > 0 }
}

pub fn s01(ctx: &Ctx, seed: u64, keep: Option<&[usize]>) -> Outcome {
    let mut r = Rng::new(mix2(seed, 0x5EA));
    if r.chance(45) {
        return props_hist::s01_session(ctx, seed, keep);
    }
    // One text, many searches.
    let style = gen::style(&mut r);
    let text = if r.one_in(12) {
        gen::sized_text(&mut r, &ctx.dict, 30_000)
    } else if r.one_in(6) {
        // Many results.
        let n = r.range(1, 1500);
        let unit = gen::piece(&mut r, style, &ctx.dict);
        if unit.len() > 30 { "ab".repeat(n) } else { unit.repeat(n) }
    } else {
        gen::document(&mut r, style, &ctx.dict, true)
    };
    let n = if text.len() > 3000 { 3 } else { 14 };
    let mut results = 0u64;
    let mut most = 0u64;
    let verdict = (|| -> Result<(), String> {
        let mut b = Buffer::new();
        let t = text.clone();
        guard("insert", || b.insert(t))?;
        let d = Doc::new(&text);
        ctx.say(|| format!("text {}", show(&text)));
        for _ in 0..n {
            let s = needle(&mut r, &d, style, &ctx.dict);
            let got = guard(&format!("search({:?})", s), || b.search(&s))?;
            ctx.say(|| format!("search({:?}) -> {} results", s, got.len()));
            results += got.len() as u64;
            most = most.max(got.len() as u64);
            judge_search(&d, &s, &got)?;
            for q in got.iter().take(20) {
                let o = d.offset(q).unwrap();
                let line_end = Position { line: q.line, offset: d.clusters(q.line) };
                let rest = guard("read", || b.read(&Range::new(*q, line_end)))?;
                match rest {
                    None => return Err(format!("search({:?}) returned {}, which can't be read", s, p(q))),
                    Some(rest) => {
                        if d.text[o..].starts_with(s.as_str()) && !rest.starts_with(s.as_str()) {
                            return Err(format!("reading from the result {} of search({:?}) yields {}", p(q), s, show(&rest)));
                        }
                    }
                }
            }
        }
        Ok(())
    })();
    ctx.add("searches", n as u64);
    ctx.add("results", results);
    ctx.max("most results of a search", most);
    Outcome { verdict, steps: 0, signature: hash_str(&text), nontrivial: results > 0 }
}

/// Cursors put where nothing is, by their public fields or from the start.
fn r01_stray(ctx: &Ctx, seed: u64, keep: Option<&[usize]>) -> Outcome {
    let mut r0 = Rng::new(mix2(seed, 0x57A1));
    let style = gen::style(&mut r0);
    let text = gen::document(&mut r0, style, &ctx.dict, false);
    let ops = r0.range(2, 30);
    let mut all = vec![];
    let keep = steps_of(keep, ops, &mut all);
    let mut strays = 0u64;
    let mut sig = hash_str(&text);
    let verdict = (|| -> Result<(), String> {
        let mut b = Buffer::new();
        guard("insert", || b.insert(text.clone()))?;
        ctx.say(|| format!("a buffer with {}", show(&text)));
        let mut now = text.clone();
        for i in keep {
            let mut r = Rng::new(mix2(mix2(seed, 0x57A2), *i as u64));
            let d = Doc::new(&now);
            let at = match r.below(4) {
                0 => Position { line: usize::MAX - r.below(2), offset: *r.pick(&[0, 1, usize::MAX - 1, usize::MAX]) },
                1 => Position { line: r.below(d.line_count() + 1), offset: usize::MAX - r.below(2) },
                2 => gen::invalid_pos(&mut r, &d),
                _ => gen::valid_pos(&mut r, &d),
            };
            let exists = d.exists(&at);
            strays += !exists as u64;
            let far = Rng::new(mix2(seed, 0x57A3)).below(3);
            let k = r.below(11);
            let name = ["up", "down", "left", "right", "start", "end", "first", "last", "insert", "delete", "move_to"][k];
            ctx.say(|| format!("cursor set to {}, {}", p(&at), name));
            if far == 0 && k < 8 {
                // A cursor of its own.
                let data = std::rc::Rc::new(std::cell::RefCell::new(GapBuffer::new(now.as_str())));
                let mut c = guard("Cursor::new", || scribe::buffer::Cursor::new(data.clone(), at))?;
                guard(name, || walk(&mut c, k))?;
                if c.position != at && !d.exists(&c.position) {
                    return Err(format!("{} took a cursor from {} to {}, which doesn't exist either in {}", name, p(&at), p(&c.position), show(&now)));
                }
                continue;
            }
            *b.cursor = at;
            let piece = if r.chance(80) { "new" } else { "new\nline" };
            match k {
                8 => guard("insert", || b.insert(piece))?,
                9 => guard("delete", || b.delete())?,
                10 => {
                    if guard("move_to", || b.cursor.move_to(at))? != exists {
                        return Err(format!("move_to({}) from there on {}: {}", p(&at), show(&now), !exists));
                    }
                }
                _ => guard(name, || walk(&mut b.cursor, k))?,
            }
            let after = guard("data", || b.data())?;
            if !exists && after != now {
                return Err(format!("{} with the cursor at {}, which doesn't exist, on {}: {}", name, p(&at), show(&now), diff(&now, &after)));
            }
            if k < 8 && b.cursor.position != at && !d.exists(&b.cursor.position) {
                return Err(format!("{} took the cursor from {} to {}, which doesn't exist either in {}", name, p(&at), p(&b.cursor.position), show(&now)));
            }
            now = after;
            sig = mix2(sig, hash_str(&now));
        }
        // All is as usual afterwards.
        let d = Doc::new(&now);
        let at = gen::valid_pos(&mut r0, &d);
        if !guard("move_to", || b.cursor.move_to(at))? || b.cursor.position != at {
            return Err(format!("afterwards the cursor can't be moved to {} in {}", p(&at), show(&now)));
        }
        guard("insert", || b.insert("fine"))?;
        let want = d.after_insert(&at, "fine").unwrap();
        let got = guard("data", || b.data())?;
        if got != want {
            return Err(format!("inserting afterwards: {}", diff(&want, &got)));
        }
        Ok(())
    })();
    ctx.add("cursors set to positions that don't exist", strays);
    Outcome { verdict, steps: ops, signature: sig, nontrivial: strays > 0 }
}

fn walk(c: &mut scribe::buffer::Cursor, k: usize) {
    match k {
        0 => c.move_up(),
        1 => c.move_down(),
        2 => c.move_left(),
        3 => c.move_right(),
        4 => c.move_to_start_of_line(),
        5 => c.move_to_end_of_line(),
        6 => c.move_to_first_line(),
        _ => c.move_to_last_line(),
    }
}

pub fn r01(ctx: &Ctx, seed: u64, keep: Option<&[usize]>) -> Outcome {
    let mut r = Rng::new(mix2(seed, 0x801));
    if r.chance(70) {
        return props_hist::r01_session(ctx, seed, keep);
    }
    if r.chance(25) {
        return r01_stray(ctx, seed, keep);
    }
    // Hostile arguments straight to a gap buffer.
    let mut plan = gap_plan(ctx, seed);
    plan.ops = plan.ops.min(80);
    let mut all = vec![];
    let keep = steps_of(keep, plan.ops, &mut all);
    let mut hostile = 0u64;
    let mut sig = hash_str(&plan.text);
    let verdict = (|| -> Result<(), String> {
        let mut g = guard("new", || GapBuffer::new(plan.text.as_str()))?;
        ctx.say(|| format!("GapBuffer::new({})", show(&plan.text)));
        let mut near = Position { line: 0, offset: 0 };
        for i in keep {
            let mut r = Rng::new(mix2(mix2(seed, 9), *i as u64));
            let d = Doc::new(&guard("to_string", || g.to_string())?);
            let a = if r.chance(70) { gen::invalid_pos(&mut r, &d) } else { gen::valid_pos(&mut r, &d) };
            let b = if r.chance(70) { gen::invalid_pos(&mut r, &d) } else { gen::valid_pos(&mut r, &d) };
            hostile += (!d.exists(&a)) as u64 + (!d.exists(&b)) as u64;
            let range = Range::new(a, b);
            let t = guard(&format!("read({}..{})", p(&range.start()), p(&range.end())), || g.read(&range))?;
            judge_read(&d, &range, &t)?;
            let ok = guard(&format!("in_bounds({})", p(&a)), || g.in_bounds(&a))?;
            judge_bounds(&d, &a, ok)?;
            let e = match r.below(4) {
                0 => Edit::Delete(range),
                1 => Edit::Insert(a, gen::piece(&mut r, plan.style, &ctx.dict)),
                _ => gap_edit(ctx, &plan, &mut r, &d, near),
            };
            near = match &e {
                Edit::Insert(q, _) => *q,
                Edit::Delete(x) => x.start(),
            };
            ctx.say(|| e.show());
            let (want, _) = apply(&d, &e);
            gap_apply(&mut g, &e)?;
            let got = guard("to_string", || g.to_string())?;
            if got != want {
                return Err(format!("{} on {}: {}", e.show(), show(&d.text), diff(&want, &got)));
            }
            sig = mix2(sig, hash_str(&got));
        }
        Ok(())
    })();
    ctx.add("out of range arguments to the text store", hostile);
    Outcome { verdict, steps: plan.ops, signature: sig, nontrivial: hostile > 0 }
}

pub fn l01(ctx: &Ctx, seed: u64, _keep: Option<&[usize]>) -> Outcome {
    let mut r = Rng::new(mix2(seed, 0x101));
    let style = gen::style(&mut r);
    let text = match r.below(12) {
        0 => gen::sized_text(&mut r, &ctx.dict, 100_000),
        1 => "\n".repeat(r.below(50)),
        2 => {
            let n = r.below(3000);
            let mut s = gen::text_of(&mut r, gen::Style::Lines, &ctx.dict, n);
            if r.chance(50) {
                s.push('\n');
            }
            s
        }
        _ => {
            let mut s = gen::document(&mut r, style, &ctx.dict, false);
            match r.below(5) {
                0 => s.push('\n'),
                1 => s.push_str("\n\n"),
                2 => s.push_str("\r\n"),
                3 => s.insert(0, '\n'),
                _ => {}
            }
            s
        }
    };
    ctx.say(|| show(&text));
    let (mut lines, mut ways) = (0u64, 0u64);
    let verdict = (|| -> Result<(), String> {
        let mut it = guard("LineIterator::new", || LineIterator::new(&text))?;
        // Lines the way they are defined: split after every line feed.
        let mut want: Vec<&str> = Vec::new();
        let mut start = 0;
        for (i, c) in text.char_indices() {
            if c == '\n' {
                want.push(&text[start..i + 1]);
                start = i + 1;
            }
        }
        want.push(&text[start..]);
        for (i, w) in want.iter().enumerate() {
            match guard("next", || it.next())? {
                Some((n, l)) => {
                    lines += 1;
                    if n != i || l != *w {
                        return Err(format!("line {} of {}: expected ({}, {}), got ({}, {})", i, show(&text), i, show(w), n, show(l)));
                    }
                }
                None => return Err(format!("{} has {} lines, but iteration ended after {}", show(&text), want.len(), i)),
            }
        }
        for k in 0..3 + r.below(4) {
            if let Some((n, l)) = guard("next", || it.next())? {
                return Err(format!("iteration of {} went on after its end (call {}): ({}, {})", show(&text), k, n, show(l)));
            }
        }
        // The other ways of iterating agree with going line by line.
        for _ in 0..6 {
            let mut it = guard("LineIterator::new", || LineIterator::new(&text))?;
            let taken = if r.one_in(3) { r.below(want.len() + 2) } else { r.below(want.len().min(4) + 1) };
            for _ in 0..taken {
                let (least, most) = guard("size_hint", || it.size_hint())?;
                let got = guard("next", || it.next())?;
                if got.is_some() && most == Some(0) || got.is_none() && least > 0 {
                    return Err(format!("size_hint in {} says {}..{:?}, but next yields {:?}", show(&text), least, most, got));
                }
            }
            let rest = &want[taken.min(want.len())..];
            let base = want.len() - rest.len();
            let (least, most) = guard("size_hint", || it.size_hint())?;
            if least > rest.len() || most.is_some_and(|m| m < rest.len()) {
                return Err(format!("size_hint after {} lines of {}: {}..{:?}, but there are {} more", taken, show(&text), least, most, rest.len()));
            }
            let line = |k: usize| rest.get(k).map(|l| (base + k, *l));
            let skipped = match r.below(3) {
                0 => r.below(3),
                1 => r.below(rest.len() + 3),
                _ => rest.len().saturating_sub(r.below(3)),
            };
            let (how, got, want): (&str, _, _) = match r.below(8) {
                0 => ("nth", guard("nth", || vec![it.nth(skipped), it.next(), it.nth(1)])?, vec![line(skipped), if skipped < rest.len() { line(skipped + 1) } else { None }, if skipped < rest.len() { line(skipped + 3) } else { None }]),
                1 => ("count", guard("count", || vec![Some((it.count(), ""))])?, vec![Some((rest.len(), ""))]),
                2 => ("last", guard("last", || vec![it.last()])?, vec![rest.len().checked_sub(1).and_then(line)]),
                3 => ("skip", guard("skip", || it.skip(skipped).map(Some).collect())?, (skipped..rest.len()).map(line).collect()),
                4 => ("step_by", guard("step_by", || it.step_by(skipped + 1).map(Some).collect())?, (0..rest.len()).step_by(skipped + 1).map(line).collect()),
                5 => ("fold", guard("fold", || it.fold(vec![], |mut v, l| { v.push(Some(l)); v }))?, (0..rest.len()).map(line).collect()),
                6 => ("find", guard("find", || vec![it.find(|l| l.0 >= base + skipped), it.next()])?, vec![line(skipped), if skipped < rest.len() { line(skipped + 1) } else { None }]),
                _ => ("take", guard("take", || { let mut v: Vec<_> = it.by_ref().take(skipped).map(Some).collect(); v.push(it.next()); v })?, { let mut v: Vec<_> = (0..skipped.min(rest.len())).map(line).collect(); v.push(line(skipped)); v }),
            };
            ways += 1;
            if got != want {
                return Err(format!("{}({}) after {} lines of {}: {}, expected {}", how, skipped, taken, show(&text), show(&format!("{:?}", got)), show(&format!("{:?}", want))));
            }
        }
        let mut b = Buffer::new();
        let t = text.clone();
        guard("insert", || b.insert(t))?;
        let n = guard("line_count", || b.line_count())?;
        if n != want.len() {
            return Err(format!("line_count of {}: {}, but iteration yields {} lines", show(&text), n, want.len()));
        }
        Ok(())
    })();
    ctx.add("lines compared", lines);
    ctx.add("other ways of iterating compared", ways);
    ctx.add("texts ending in a line feed", text.ends_with('\n') as u64);
    ctx.add("empty texts", text.is_empty() as u64);
    ctx.max("largest text in bytes", text.len() as u64);
    Outcome { verdict, steps: 0, signature: hash_str(&text), nontrivial: lines > 1 }
}

fn coord(r: &mut Rng) -> usize {
    match r.below(12) {
        0 => 0,
        1 => usize::MAX,
        2 => usize::MAX - 1,
        3 => usize::MAX / 2,
        4 => r.next() as usize,
        5 => 255 + r.below(3),
        6 => 65535 + r.below(3),
        7 => u32::MAX as usize - 1 + r.below(3),
        _ => r.below(6),
    }
}

pub fn g01(ctx: &Ctx, seed: u64, _keep: Option<&[usize]>) -> Outcome {
    let mut r = Rng::new(mix2(seed, 0x601));
    let (mut compared, mut measured, mut merged, mut sums) = (0u64, 0u64, 0u64, 0u64);
    let verdict = (|| -> Result<(), String> {
        // Order of positions, against the order of pairs.
        for _ in 0..12 {
            let mut q = [(0, 0); 3];
            for x in q.iter_mut() {
                *x = (coord(&mut r), coord(&mut r));
            }
            if r.chance(40) {
                q[1].0 = q[0].0;
            }
            if r.chance(20) {
                q[1] = q[0];
            }
            let pos = |x: (usize, usize)| Position { line: x.0, offset: x.1 };
            let (a, b, c) = (pos(q[0]), pos(q[1]), pos(q[2]));
            compared += 1;
            let want = q[0].cmp(&q[1]);
            let name = format!("{} vs {}", p(&a), p(&b));
            let got = guard(&name, || (a.partial_cmp(&b), a < b, a <= b, a > b, a >= b, a == b, a != b))?;
            let w = (Some(want), want.is_lt(), want.is_le(), want.is_gt(), want.is_ge(), want.is_eq(), want.is_ne());
            if got != w {
                return Err(format!("comparing {}: {:?}, expected {:?}", name, got, w));
            }
            // Ranges.
            let (x, y) = guard("Range::new", || (Range::new(a, b), Range::new(b, a)))?;
            if x != y || x.start() != y.start() || x.end() != y.end() {
                return Err(format!("ranges of {} differ by the order of their ends: {:?}, {:?}", name, x, y));
            }
            let (lo, hi) = if q[0] <= q[1] { (q[0], q[1]) } else { (q[1], q[0]) };
            if x.start() != pos(lo) || x.end() != pos(hi) {
                return Err(format!("range of {}: {:?}", name, x));
            }
            let mut probes = vec![a, b, c];
            for e in [lo, hi] {
                for dl in [-1i32, 0, 1] {
                    for dof in [-1i32, 0, 1] {
                        let l = e.0.checked_add_signed(dl as isize);
                        let o = e.1.checked_add_signed(dof as isize);
                        if let (Some(l), Some(o)) = (l, o) {
                            probes.push(Position { line: l, offset: o });
                        }
                    }
                }
            }
            for t in probes {
                let k = (t.line, t.offset);
                let want = k >= lo && k < hi;
                if guard("includes", || x.includes(&t))? != want {
                    return Err(format!("range {}..{} {} {}", p(&x.start()), p(&x.end()), if want { "does not include" } else { "includes" }, p(&t)));
                }
            }
            // Line ranges.
            let (l1, l2) = (q[0].0, q[1].0);
            let (u, v) = guard("LineRange::new", || (LineRange::new(l1, l2), LineRange::new(l2, l1)))?;
            let (lo, hi) = (l1.min(l2), l1.max(l2));
            if u != v || u.start() != lo || u.end() != hi || v.start() != lo || v.end() != hi {
                return Err(format!("line ranges of {} and {}: {:?}, {:?}", l1, l2, u, v));
            }
            // What's equal has the same ends, and nothing else is.
            {
                let (c0, w) = (q[2], Range::new(a, c));
                let same = (q[0].min(c0), q[0].max(c0)) == (q[0].min(q[1]), q[0].max(q[1]));
                let z = x.clone();
                let (e, n) = guard("==", || (x == w && w == x, x != w || w != x))?;
                if e != same || n == same || z != x || z.start() != x.start() || z.end() != x.end() {
                    return Err(format!("ranges {:?} and {:?}: equal {}, different {}; a copy is {:?}", x, w, e, n, z));
                }
                let empties = (Range::new(a, a), Range::new(b, b));
                if (empties.0 == empties.1) != (q[0] == q[1]) {
                    return Err(format!("empty ranges at {} and {}: equal is {}", p(&a), p(&b), empties.0 == empties.1));
                }
                let w = LineRange::new(l1, c0.0);
                let same = (l1.min(c0.0), l1.max(c0.0)) == (lo, hi);
                let (e, n) = guard("==", || (u == w && w == u, u != w || w != u))?;
                if e != same || n == same || (LineRange::new(l1, l1) == LineRange::new(l2, l2)) != (l1 == l2) {
                    return Err(format!("line ranges {:?} and {:?}: equal {}, different {}", u, w, e, n));
                }
            }
            for t in [lo, hi, q[2].0, lo.saturating_sub(1), lo.saturating_add(1), hi.saturating_sub(1), hi.saturating_add(1)] {
                let want = t >= lo && t < hi;
                if guard("includes", || u.includes(t))? != want {
                    return Err(format!("line range {}..{}: includes({}) is {}", lo, hi, t, !want));
                }
            }
            let full = guard("to_range", || u.to_range())?;
            if full.start() != (Position { line: lo, offset: 0 }) || full.end() != (Position { line: hi, offset: 0 }) {
                return Err(format!("line range {}..{} as a range: {:?}", lo, hi, full));
            }
            if hi < usize::MAX {
                let full = guard("to_inclusive_range", || u.to_inclusive_range())?;
                if full.start() != (Position { line: lo, offset: 0 }) || full.end() != (Position { line: hi + 1, offset: 0 }) {
                    return Err(format!("line range {}..{} as an inclusive range: {:?}", lo, hi, full));
                }
            }
            if Position::new() != (Position { line: 0, offset: 0 }) || Position::default() != Position::new() {
                return Err("the initial position is not 0:0".into());
            }
        }
        // Distances.
        for _ in 0..8 {
            let style = gen::style(&mut r);
            let base = if r.one_in(6000) { gen::huge(&mut r, &ctx.dict) } else { gen::document(&mut r, style, &ctx.dict, false) };
            let d = Doc::new(&base);
            let s = if r.one_in(6000) {
                gen::huge(&mut r, &ctx.dict)
            } else if r.one_in(40) {
                gen::sized_text(&mut r, &ctx.dict, 9000)
            } else {
                gen::piece(&mut r, style, &ctx.dict)
            };
            let at = gen::valid_pos(&mut r, &d);
            let o = d.offset(&at).unwrap();
            let name = format!("distance of {}", show(&s));
            let dist = guard(&name, || Distance::of_str(&s))?;
            let (sum, mut inc) = guard("adding a distance", || (at + dist, at))?;
            guard("adding a distance in place", || inc += dist)?;
            if sum != inc {
                return Err(format!("{} + {}: {}, but {} in place", p(&at), name, p(&sum), p(&inc)));
            }
            let after = Doc::new(&d.after_insert(&at, &s).unwrap());
            let (begin, b1) = after.position(o);
            let (end, b2) = after.position(o + s.len());
            if b1 && b2 && begin == at {
                measured += 1;
                if sum != end {
                    return Err(format!("{} + {} is {}, but inserting it there in {} puts what follows at {}", p(&at), name, p(&sum), show(&base), p(&end)));
                }
                // The same through the library itself.
                let mut b = Buffer::new();
                guard("insert", || b.insert(base.as_str()))?;
                if guard("move_to", || b.cursor.move_to(at))? {
                    guard("insert", || b.insert(s.as_str()))?;
                    let got = guard("read", || b.read(&Range::new(at, sum)))?;
                    if got.as_deref() != Some(s.as_str()) {
                        return Err(format!("after inserting {} at {} of {}, reading up to {} yields {:?}", show(&s), p(&at), show(&base), p(&sum), got));
                    }
                }
            } else {
                merged += 1;
            }
            // Sums of distances.
            let t = gen::piece(&mut r, style, &ctx.dict);
            let both = format!("{}{}", s, t);
            let (_, clean) = Doc::new(&both).position(s.len());
            if clean {
                sums += 1;
                let d2 = guard("of_str", || Distance::of_str(&t))?;
                let d12 = guard("of_str", || Distance::of_str(&both))?;
                let x = (at + dist) + d2;
                let y = at + d12;
                if x != y {
                    return Err(format!("{} + ({} then {}): {} in two steps, {} in one", p(&at), show(&s), show(&t), p(&x), p(&y)));
                }
            }
        }
        Ok(())
    })();
    ctx.add("position pairs compared", compared);
    ctx.add("distances checked against an insertion", measured);
    ctx.add("insertions merging with their neighbours (not judged)", merged);
    ctx.add("sums of distances", sums);
    Outcome { verdict, steps: 0, signature: seed, nontrivial: compared > 0 && measured > 0 }
}

fn log2(n: usize) -> u64 {
    (usize::BITS - n.leading_zeros()) as u64
}

pub fn a01(ctx: &Ctx, seed: u64, _keep: Option<&[usize]>) -> Outcome {
    let mut r = Rng::new(mix2(seed, 0xA01));
    // Plain text, so that the places inserted at are known without measuring.
    let initial = match r.below(5) {
        0 => String::new(),
        1 => "lorem ipsum\n".repeat(r.range(1, 200)),
        2 => "dólor sit ".repeat(r.range(1, 60)),
        3 => "x".repeat(ctx.dict.int(&mut r, 5000).unwrap_or(1)),
        _ => "日本\r\nfn main() {}\n"[..].repeat(r.range(1, 6)),
    };
    let via_buffer = r.chance(30);
    let target = match r.weighted(&[70, 27, 3]) {
        0 => r.range(300, 4_000),
        1 => r.range(4_000, 30_000),
        _ => r.range(100_000, 600_000),
    };
    let chunk = if target > 50_000 { r.range(1500, 6000) } else { *r.pick(&[1, 1, 2, 3, 7, 20, 64, 100]) };
    let inserts = (target / chunk).min(2000);
    let place = r.below(5);
    let mut growths = 0u64;
    let mut done = 0u64;
    let mut reused = 0u64;
    let mut largest = 0u64;
    if r.one_in(150) {
        return a01_huge(ctx, &mut r);
    }
    ctx.say(|| format!("initial text of {} bytes, {} insertions of {} bytes, place {}, through {}", initial.len(), inserts, chunk, place, if via_buffer { "Buffer" } else { "GapBuffer" }));
    let verdict = (|| -> Result<(), String> {
        if via_buffer {
            return a01_buffer(ctx, &mut r, &initial, inserts, chunk, place, &mut growths, &mut done, &mut largest);
        }
        let mut g = guard("new", || GapBuffer::new(initial.as_str()))?;
        let piece = {
            let mut s = "abcdefghij".repeat(chunk / 10 + 1)[..chunk].to_string();
            if chunk > 40 {
                s.replace_range(20..21, "\n");
            }
            s
        };
        let mut d = Doc::new(&initial);
        let mut at = d.end();
        let mut size = initial.len();
        let start_size = size.max(1);
        for k in 0..inserts {
            let q = match place {
                0 => Position { line: 0, offset: 0 },
                1 | 2 => at,
                3 => {
                    if k % 7 == 0 {
                        Position { line: 0, offset: 0 }
                    } else {
                        at
                    }
                }
                _ => Position { line: at.line / 2, offset: 0 },
            };
            // Only blocks that could hold the text count: anything smaller isn't its storage.
            let (res, eff) = track::observe(size + piece.len(), || guard("insert", || g.insert(&piece, &q)));
            res?;
            done += 1;
            growths += (eff.kept > 0) as u64;
            size += piece.len();
            let lines = piece.matches('\n').count();
            let tail = piece.rsplit('\n').next().unwrap().len();
            if q == at {
                at = Position { line: at.line + lines, offset: if lines > 0 { tail } else { at.offset + tail } };
            } else if q.line == 0 && at.line == 0 {
                at = Position { line: lines, offset: at.offset + tail };
            } else {
                at.line += lines;
            }
        }
        largest = size as u64;
        let allowed = 4 * log2(size / start_size + 1) + 3 * log2(size) + 16;
        if growths > allowed {
            return Err(format!(
                "{} insertions of {} bytes into {} bytes replaced the storage {} times (allowed: {})",
                inserts, chunk, initial.len(), growths, allowed
            ));
        }
        // Deleting makes room for as much text.
        let text = guard("to_string", || g.to_string())?;
        if text.len() != size {
            return Err(format!("{} bytes expected after the insertions, got {}", size, text.len()));
        }
        d = Doc::new(&text);
        for _ in 0..6 {
            let a = gen::valid_pos(&mut r, &d);
            let o = d.offset(&a).unwrap();
            let len = r.range(1, 400);
            let (b, _) = d.position((o + len).min(d.text.len()));
            let range = Range::new(a, b);
            let Some((s, e)) = d.deletion(&range) else { continue };
            let freed = e - s;
            guard("delete", || g.delete(&range))?;
            d = Doc::new(&d.after_delete(&range).unwrap());
            let mut left = freed;
            while left > 0 {
                let n = match r.below(3) {
                    0 => left,
                    1 => 1,
                    _ => r.range(1, left),
                };
                let t = "z".repeat(n);
                let q = gen::valid_pos(&mut r, &d);
                let (res, eff) = track::observe(d.text.len() + n, || guard("insert", || g.insert(&t, &q)));
                res?;
                done += 1;
                reused += 1;
                if eff.kept > 0 {
                    return Err(format!(
                        "after deleting {} bytes, of which {} were left to use, inserting {} bytes at {} replaced the storage of a text of {} bytes",
                        freed, left, n, p(&q), d.text.len()
                    ));
                }
                d = Doc::new(&d.after_insert(&q, &t).unwrap());
                left -= n;
                if n == 1 && r.one_in(6) {
                    break;
                }
            }
        }
        Ok(())
    })();
    ctx.add("insertions watched", done);
    ctx.add("storage replacements seen", growths);
    ctx.add("insertions into freed space", reused);
    ctx.max("largest text in bytes", largest);
    Outcome {
        verdict,
        steps: 0,
        signature: mix2(mix2(inserts as u64, chunk as u64), mix2(initial.len() as u64, place as u64 * 2 + via_buffer as u64)),
        nontrivial: growths > 0,
    }
}

/// Deleting a lot of a large text, and inserting as much.
fn a01_huge(ctx: &Ctx, r: &mut Rng) -> Outcome {
    let line = "0123456789abcdef\n";
    let lines = r.range(2_000, 200_000);
    let size = lines * line.len();
    let mut done = 0u64;
    let mut sig = size as u64;
    let rounds = r.range(1, 4);
    ctx.say(|| format!("a text of {} bytes, {} rounds of deleting and inserting", size, rounds));
    let verdict = (|| -> Result<(), String> {
        let mut g = guard("new", || GapBuffer::new(line.repeat(lines)))?;
        let mut now = lines;
        for _ in 0..rounds {
            let n = match r.below(3) {
                0 => r.range(1, now),
                1 => now,
                _ => r.range(now - now / 8, now),
            };
            let at = r.range(0, now - n);
            let at = *r.pick(&[0, now - n, at]);
            let range = Range::new(Position { line: at, offset: 0 }, Position { line: at + n, offset: 0 });
            guard("delete", || g.delete(&range))?;
            now -= n;
            sig = mix2(sig, mix2(n as u64, at as u64));
            let mut left = n;
            while left > 0 {
                let k = if r.chance(50) { left } else { r.range(1, left) };
                let line_at = r.range(0, now);
                let q = Position { line: *r.pick(&[0, now, line_at]), offset: 0 };
                let t = line.repeat(k);
                let (res, eff) = track::observe((now + k) * line.len(), || guard("insert", || g.insert(&t, &q)));
                res?;
                done += 1;
                if eff.kept > 0 {
                    return Err(format!(
                        "after deleting {} bytes, of which {} were left to use, inserting {} bytes at {} replaced the storage of a text of {} bytes",
                        n * line.len(), left * line.len(), t.len(), p(&q), now * line.len()
                    ));
                }
                now += k;
                left -= k;
            }
            if guard("to_string", || g.to_string())? != line.repeat(now) {
                return Err("the text differs after deleting lines and inserting them again".into());
            }
        }
        Ok(())
    })();
    ctx.add("insertions watched", done);
    ctx.add("insertions into freed space", done);
    ctx.max("largest text in bytes", size as u64);
    Outcome { verdict, steps: 0, signature: sig, nontrivial: done > 0 }
}

/// The same through a buffer, whose history keeps small blocks of its own: only
/// blocks as large as the text count.
fn a01_buffer(
    ctx: &Ctx,
    r: &mut Rng,
    initial: &str,
    inserts: usize,
    chunk: usize,
    place: usize,
    growths: &mut u64,
    done: &mut u64,
    largest: &mut u64,
) -> Result<(), String> {
    let mut b = Buffer::new();
    guard("insert", || b.insert(initial))?;
    let piece = "k".repeat(chunk.min(50));
    let n = inserts.min(1500);
    let mut size = initial.len();
    // What else happens all the time.
    let manner = r.below(14);
    let file = ctx.scratch.join("a01.txt");
    if manner == 9 {
        b.path = Some(file.clone());
    }
    ctx.say(|| format!("manner {}", manner));
    let mut counted_from = 0usize;
    let mut end = Doc::new(initial).end();
    for _ in 0..n {
        let q = if place == 0 { Position { line: 0, offset: 0 } } else { end };
        guard("between insertions", || {
            b.cursor.move_to(q);
            match manner {
                1 => b.start_operation_group(),
                2 => {
                    b.end_operation_group();
                    b.start_operation_group();
                }
                3 if size > initial.len() => {
                    b.undo();
                    b.redo();
                    b.cursor.move_to(q);
                }
                4 => drop(b.data()),
                5 => drop((b.search("kk"), b.line_count(), b.modified())),
                6 => drop(b.read(&Range::new(Position { line: 0, offset: 0 }, q))),
                7 => {
                    b.cursor.move_to_first_line();
                    b.cursor.move_to_last_line();
                    b.cursor.move_to(q);
                }
                8 if size > initial.len() => {
                    // Wrong key, and again.
                    b.insert("x");
                    b.delete();
                    b.cursor.move_to(q);
                }
                9 => drop(b.save()),
                10 => {
                    let mut c = b.cursor.clone();
                    c.move_to_start_of_line();
                }
                11 => drop(b.cursor.data.borrow().to_string()),
                _ => {}
            }
        })?;
        let t = piece.clone();
        // The history's own growth doubles too, and its entries are small.
        let min = size.max(200);
        let (res, eff) = track::observe(min, || guard("insert", || b.insert(t)));
        res?;
        if manner == 1 {
            guard("end_operation_group", || b.end_operation_group())?;
        }
        *done += 1;
        if size >= 200 {
            if counted_from == 0 {
                counted_from = size;
            }
            *growths += (eff.kept > 0) as u64;
        }
        size += piece.len();
        if place != 0 || end.line == 0 {
            end.offset += piece.len();
        }
        let _ = r;
    }
    *largest = size as u64;
    let allowed = 4 * log2(size) + 3 * log2(n) + 16;
    if *growths > allowed {
        return Err(format!("{} insertions of {} bytes into a buffer replaced its storage {} times (allowed: {})", n, piece.len(), growths, allowed));
    }
    // Deleted text makes room.
    for _ in 0..4 {
        let q = if place == 0 { Position { line: 0, offset: 0 } } else { end };
        let len = r.range(1, 30).min(q.offset.max(1));
        let from = Position { line: q.line, offset: q.offset - len.min(q.offset) };
        let before = guard("data", || b.data())?.len();
        guard("delete_range", || b.delete_range(Range::new(from, Position { line: from.line, offset: from.offset + len })))?;
        let freed = before - guard("data", || b.data())?.len();
        if freed == 0 {
            continue;
        }
        let t = "w".repeat(freed);
        guard("move_to", || b.cursor.move_to(from))?;
        let min = (before - freed).max(200);
        if before - freed < 200 {
            continue;
        }
        let (res, eff) = track::observe(min, || guard("insert", || b.insert(t)));
        res?;
        if eff.kept > 0 {
            // The history growing at this very moment may explain a single block.
            *growths += 1;
            if *growths > allowed {
                return Err(format!("deleting {} bytes and inserting as many replaced the storage", freed));
            }
        }
    }
    Ok(())
}

