//! Cases made of one session with online monitors, and cases in which a predictive
//! model runs alongside a buffer that is observed only now and then.

use crate::model::{diff, show, Doc};
use crate::monitors::*;
use crate::rng::{hash_str, mix2, Rng};
use crate::run::{guard, Ctx, Outcome};
use crate::session::{needle, p, plan_case, some_range, Op, Plan0, Profile, Session};
use crate::gen;
use scribe::buffer::Position;
use std::collections::HashMap;
use std::path::PathBuf;
use std::rc::Rc;

pub fn session_case(
    ctx: &Ctx,
    seed: u64,
    keep: Option<&[usize]>,
    prof: &Profile,
    make: &dyn Fn(&Plan0) -> Vec<Box<dyn Monitor>>,
    needs: &[&'static str],
) -> Outcome {
    let plan = plan_case(seed, prof, &ctx.dict);
    session_case_with(ctx, plan, keep, prof, make, needs)
}

pub fn session_case_with(
    ctx: &Ctx,
    plan: Plan0,
    keep: Option<&[usize]>,
    prof: &Profile,
    make: &dyn Fn(&Plan0) -> Vec<Box<dyn Monitor>>,
    needs: &[&'static str],
) -> Outcome {
    let all: Vec<usize>;
    let keep = match keep {
        Some(k) => k,
        None => {
            all = (0..plan.ops).collect();
            &all
        }
    };
    let mut monitors = make(&plan);
    let mut sig = hash_str(&plan.text);
    let mut changed = 0u64;
    let mut verdict = Ok(());
    let mut events = 0;
    match Session::start(ctx, &plan) {
        Err(e) => verdict = Err(e),
        Ok(mut s) => {
            if prof.watch {
                s.watch(plan.base);
            }
            for i in keep {
                let r = s
                    .choose(ctx, &plan, prof, *i)
                    .and_then(|op| s.step(op))
                    .and_then(|e| {
                        events += 1;
                        if e.before.doc.text != e.after.doc.text {
                            changed += 1;
                        }
                        sig = mix2(sig, hash_str(e.op.kind()) ^ hash_str(&e.after.doc.text) ^ ((e.after.pos.line as u64) << 20) ^ e.after.pos.offset as u64);
                        for m in monitors.iter_mut() {
                            m.on(&e)?;
                        }
                        Ok(e)
                    });
                if let Err(m) = r {
                    verdict = Err(m);
                    break;
                }
            }
            if let Some(t) = s.trace.take() {
                ctx.trace.borrow_mut().extend(t);
            }
        }
    }
    let mut counters: HashMap<&'static str, u64> = HashMap::new();
    for m in &monitors {
        m.counters(&mut counters);
    }
    ctx.add("calls", events);
    ctx.add("calls that changed the text", changed);
    ctx.max("longest history", events);
    let nontrivial = needs.is_empty() && changed > 0 || needs.iter().any(|n| counters.get(n).copied().unwrap_or(0) > 0);
    for (k, v) in counters {
        if k.starts_with("deepest") || k.starts_with("largest") {
            ctx.max(k, v);
        } else {
            ctx.add(k, v);
        }
    }
    Outcome { verdict, steps: plan.ops, signature: sig, nontrivial }
}

/// What a predictive case compares.
#[derive(Clone, Copy, Default)]
pub struct Observe {
    pub text: bool,
    pub cursor: bool,
    pub read: bool,
    pub search: bool,
    pub modified: bool,
}

struct Step {
    before: Rc<Doc>,
    after: Rc<Doc>,
    replace: bool,
}

/// A history in which the buffer is only looked at occasionally, so that nothing
/// depends on being observed in between. Edits without effect, and movements whose
/// outcome is not fully specified, are left out.
pub fn predictive_case(ctx: &Ctx, seed: u64, keep: Option<&[usize]>, prof: &Profile, what: Observe) -> Outcome {
    let mut plan = plan_case(seed, prof, &ctx.dict);
    plan.from_file = false;
    if plan.ops > 400 {
        plan.ops = 400;
    }
    let all: Vec<usize>;
    let keep = match keep {
        Some(k) => k,
        None => {
            all = (0..plan.ops).collect();
            &all
        }
    };
    let mut r0 = Rng::new(mix2(seed, 0xB11D));
    let gap = *r0.pick(&[1usize, 3, 8, 25, 1000]);
    let mut sig = hash_str(&plan.text);
    let mut looks = 0u64;
    let mut edits = 0u64;
    let mut reversals = 0u64;
    let verdict = (|| -> Result<(), String> {
        let mut s = Session::start(ctx, &plan)?;
        let b = &mut s.buf;
        let empty = Rc::new(Doc::new(""));
        let mut doc = Rc::new(Doc::new(&plan.text));
        let mut pos = Some(Position { line: 0, offset: 0 });
        let mut sticky = Some(0usize);
        let mut prev: Vec<Step> = vec![];
        let mut next: Vec<Step> = vec![];
        let mut open: Option<Option<Step>> = None;
        if !plan.text.is_empty() {
            prev.push(Step { before: empty, after: doc.clone(), replace: !plan.typed_in });
        }
        let mut near = Position { line: 0, offset: 0 };
        let mut f = prof.clone();
        f.read = 0;
        f.search = 0;
        f.in_bounds = 0;
        f.line_count = 0;
        let record = |prev: &mut Vec<Step>, next: &mut Vec<Step>, open: &mut Option<Option<Step>>, before: &Rc<Doc>, after: &Rc<Doc>, replace: bool| {
            match open.as_mut() {
                Some(slot) => match slot {
                    Some(s) => {
                        s.after = after.clone();
                        s.replace |= replace;
                    }
                    None => *slot = Some(Step { before: before.clone(), after: after.clone(), replace }),
                },
                None => prev.push(Step { before: before.clone(), after: after.clone(), replace }),
            }
            next.clear();
        };
        for (n, i) in keep.iter().enumerate() {
            let mut r = Rng::new(mix2(plan.base ^ 0x5EED, *i as u64));
            let here = pos.filter(|q| doc.exists(q));
            let must_place = here.is_none();
            if r.one_in(16) {
                // What leaves everything here as it is.
                let kind = r.below(if what.modified { 4 } else { 6 });
                ctx.say(|| format!("bystander {}", kind));
                let q = some_range(&mut r, &doc, prof.invalid, near);
                let at = gen::any_pos(&mut r, &doc, prof.invalid, near);
                let t = needle(&mut r, &doc, plan.style, &ctx.dict);
                guard("a call that changes nothing", || match kind {
                    0 => drop(b.read(&q)),
                    1 => drop(b.search(&t)),
                    2 => assert!(b.line_count() > 0 && (b.cursor.data.borrow().in_bounds(&at) || true)),
                    3 => {
                        let path = b.path.replace(PathBuf::from("no such folder/at all"));
                        let failed = b.save().is_err() && b.reload().is_err();
                        b.path = path;
                        assert!(failed, "saving to nowhere succeeded");
                    }
                    _ => b.save().expect("saving"),
                })?;
                if r.chance(50) {
                    continue;
                }
            }
            let w = [
                f.insert, f.delete, f.delete_range, f.move_to, f.vertical, f.horizontal, f.line_ends, f.first_last, f.undo, f.redo, f.group, f.replace,
            ];
            let k = if must_place && r.chance(80) { 3 } else { r.weighted(&w) };
            let done;
            match k {
                0 => {
                    let Some(at) = here else { continue };
                    let mut t = gen::piece(&mut r, plan.style, &ctx.dict);
                    if t.is_empty() {
                        t.push('q');
                    }
                    let after = Rc::new(Doc::new(&doc.after_insert(&at, &t).unwrap()));
                    done = Op::Insert(t.clone()).show();
                    guard(&done, || b.insert(t))?;
                    record(&mut prev, &mut next, &mut open, &doc, &after, false);
                    doc = after;
                    near = at;
                    edits += 1;
                }
                1 => {
                    let Some(at) = here else { continue };
                    let after = doc.after_delete_at(&at).unwrap();
                    if *after == *doc.text {
                        continue;
                    }
                    let after = Rc::new(Doc::new(&after));
                    done = "delete()".into();
                    guard(&done, || b.delete())?;
                    record(&mut prev, &mut next, &mut open, &doc, &after, false);
                    doc = after;
                    near = at;
                    edits += 1;
                }
                2 => {
                    let range = some_range(&mut r, &doc, prof.invalid, near);
                    let Some(after) = doc.after_delete(&range) else { continue };
                    if *after == *doc.text {
                        continue;
                    }
                    let after = Rc::new(Doc::new(&after));
                    done = Op::DeleteRange(range.clone()).show();
                    near = range.start();
                    guard(&done, || b.delete_range(range))?;
                    record(&mut prev, &mut next, &mut open, &doc, &after, false);
                    doc = after;
                    edits += 1;
                }
                3 => {
                    let q = if must_place { gen::valid_pos(&mut r, &doc) } else { gen::any_pos(&mut r, &doc, prof.invalid, near) };
                    done = Op::MoveTo(q).show();
                    let ok = guard(&done, || b.cursor.move_to(q))?;
                    if ok != doc.exists(&q) {
                        if what.cursor {
                            return Err(format!("{} on {} returned {}", done, show(&doc.text), ok));
                        }
                    }
                    if doc.exists(&q) {
                        pos = Some(q);
                        sticky = Some(q.offset);
                    }
                }
                4 => {
                    let (Some(at), Some(c)) = (here, sticky) else { continue };
                    let up = r.chance(50);
                    done = if up { "move_up()".into() } else { "move_down()".into() };
                    guard(&done, || if up { b.cursor.move_up() } else { b.cursor.move_down() })?;
                    let line = if up {
                        if at.line == 0 {
                            None
                        } else {
                            Some(at.line - 1)
                        }
                    } else if at.line + 1 < doc.line_count() {
                        Some(at.line + 1)
                    } else {
                        None
                    };
                    if let Some(line) = line {
                        pos = Some(Position { line, offset: c.min(doc.clusters(line)) });
                    }
                }
                5 => {
                    let Some(at) = here else { continue };
                    let left = r.chance(50);
                    done = if left { "move_left()".into() } else { "move_right()".into() };
                    guard(&done, || if left { b.cursor.move_left() } else { b.cursor.move_right() })?;
                    let o = if left { at.offset.saturating_sub(1) } else { (at.offset + 1).min(doc.clusters(at.line)) };
                    if o != at.offset {
                        pos = Some(Position { line: at.line, offset: o });
                        sticky = Some(o);
                    }
                }
                6 => {
                    let Some(at) = here else { continue };
                    let start = r.chance(50);
                    done = if start { "move_to_start_of_line()".into() } else { "move_to_end_of_line()".into() };
                    guard(&done, || if start { b.cursor.move_to_start_of_line() } else { b.cursor.move_to_end_of_line() })?;
                    let o = if start { 0 } else { doc.clusters(at.line) };
                    pos = Some(Position { line: at.line, offset: o });
                    sticky = Some(o);
                }
                7 => {
                    let (Some(_), Some(c)) = (here, sticky) else { continue };
                    let first = r.chance(50);
                    done = if first { "move_to_first_line()".into() } else { "move_to_last_line()".into() };
                    guard(&done, || if first { b.cursor.move_to_first_line() } else { b.cursor.move_to_last_line() })?;
                    let line = if first { 0 } else { doc.line_count() - 1 };
                    let n = doc.clusters(line);
                    if c > n {
                        sticky = None;
                    }
                    pos = Some(Position { line, offset: c.min(n) });
                }
                8 => {
                    done = "undo()".into();
                    guard(&done, || b.undo())?;
                    if let Some(Some(s)) = open.take() {
                        prev.push(s);
                    }
                    if let Some(s) = prev.pop() {
                        doc = s.before.clone();
                        if s.replace {
                            pos = None;
                            sticky = None;
                        }
                        next.push(s);
                        reversals += 1;
                    }
                }
                9 => {
                    if matches!(open, Some(None)) {
                        continue;
                    }
                    done = "redo()".into();
                    guard(&done, || b.redo())?;
                    if !matches!(open, Some(Some(_))) {
                        if let Some(s) = next.pop() {
                            doc = s.after.clone();
                            if s.replace {
                                pos = None;
                                sticky = None;
                            }
                            prev.push(s);
                            reversals += 1;
                        }
                    }
                }
                10 => {
                    if r.chance(50) {
                        done = "start_operation_group()".into();
                        guard(&done, || b.start_operation_group())?;
                        if open.is_none() {
                            open = Some(None);
                        }
                    } else {
                        done = "end_operation_group()".into();
                        guard(&done, || b.end_operation_group())?;
                        if let Some(Some(s)) = open.take() {
                            prev.push(s);
                        }
                    }
                }
                _ => {
                    let t = crate::session::variant(&mut r, &doc, plan.style, &ctx.dict);
                    done = Op::Replace(t.clone()).show();
                    let after = Rc::new(Doc::new(&t));
                    let same = t == *doc.text;
                    guard(&done, || b.replace(t))?;
                    if !same {
                        record(&mut prev, &mut next, &mut open, &doc, &after, true);
                        doc = after;
                        pos = None;
                        sticky = None;
                        edits += 1;
                    }
                }
            }
            sig = mix2(sig, hash_str(&doc.text) ^ k as u64);
            ctx.say(|| format!("{}   -> model: {}", done, show(&doc.text)));
            if n + 1 == keep.len() || r.one_in(gap) {
                looks += 1;
                look(ctx, b, &doc, pos, &mut r, what, &plan, near).map_err(|e| format!("some calls after the last look, the last one being {}: {}", done, e))?;
            }
        }
        Ok(())
    })();
    ctx.add("calls in occasionally observed histories", keep.len() as u64);
    ctx.add("observations in occasionally observed histories", looks);
    ctx.add("edits in occasionally observed histories", edits);
    ctx.add("effective undo/redo calls in occasionally observed histories", reversals);
    Outcome { verdict, steps: plan.ops, signature: sig, nontrivial: edits > 0 && looks > 0 }
}

fn look(
    ctx: &Ctx,
    b: &mut scribe::Buffer,
    doc: &Doc,
    pos: Option<Position>,
    r: &mut Rng,
    what: Observe,
    plan: &Plan0,
    near: Position,
) -> Result<(), String> {
    if what.read {
        // Before asking for the text, so that reading has to work on its own.
        for _ in 0..3 {
            let q = some_range(r, doc, 20, near);
            let t = guard("read", || b.read(&q))?;
            judge_read(doc, &q, &t)?;
            let q = gen::any_pos(r, doc, 30, near);
            let ok = guard("in_bounds", || b.cursor.data.borrow().in_bounds(&q))?;
            judge_bounds(doc, &q, ok)?;
        }
        let n = guard("line_count", || b.line_count())?;
        if n != doc.line_count() {
            return Err(format!("line_count of {}: {}", show(&doc.text), n));
        }
    }
    if what.search {
        let s = needle(r, doc, plan.style, &ctx.dict);
        let got = guard("search", || b.search(&s))?;
        judge_search(doc, &s, &got)?;
    }
    if what.cursor {
        if let Some(q) = pos {
            if b.cursor.position != q {
                return Err(format!("the cursor is at {}, expected {} in {}", p(&b.cursor.position), p(&q), show(&doc.text)));
            }
        }
    }
    if what.modified && !guard("modified", || b.modified())? {
        return Err("a buffer never loaded or saved reports being unmodified".into());
    }
    if what.text {
        let t = guard("data", || b.data())?;
        if t != *doc.text {
            return Err(format!("wrong text: {}", diff(&doc.text, &t)));
        }
    }
    Ok(())
}
