//! Twins: the same history of calls under different circumstances has to give the
//! same results - with and without questions asked in between, and whatever happens
//! to other buffers, on this thread or others.

use crate::fault;
use crate::gen;
use crate::model::{diff, show, Doc};
use crate::props_tok::{fingerprint, Syntaxes};
use crate::rng::{hash_str, mix2, Rng};
use crate::run::{guard, Ctx, Outcome};
use crate::session::{needle, p, plan_case, some_range, Op, Plan0, Profile, Ret, Session};
use scribe::buffer::{Cursor, Distance, Position};
use scribe::util::LineIterator;
use scribe::{Buffer, Workspace};
use std::cell::RefCell;
use std::fs;
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::{Arc, Barrier};

/// What a call did, as recorded.
#[derive(Clone, PartialEq)]
struct Seen {
    ret: String,
    calls: Vec<Position>,
    pos: Position,
}

struct Step {
    op: Op,
    seen: Seen,
    text: Arc<str>,
    modified: bool,
    tokens: Option<u64>,
}

struct Script {
    plan: Plan0,
    steps: Vec<Step>,
    seed: u64,
}

/// A buffer of its own, going through a script.
struct Actor {
    buf: Buffer,
    log: Rc<RefCell<Vec<Position>>>,
    file: PathBuf,
}

impl Actor {
    fn start(plan: &Plan0, dir: &Path) -> Result<Actor, String> {
        fs::create_dir_all(dir).expect("scratch");
        let file = dir.join("doc.txt");
        let mut buf;
        if plan.from_file {
            fs::write(&file, plan.text.as_bytes()).expect("scratch write");
            buf = guard("from_file", || Buffer::from_file(&file))?.map_err(|e| format!("from_file failed without any fault: {}", e))?;
        } else {
            buf = Buffer::new();
            let _ = fs::remove_file(&file);
            let t = plan.text.clone();
            if !t.is_empty() {
                if plan.typed_in {
                    guard("insert (initial text)", || buf.insert(t))?;
                } else {
                    guard("replace (initial text)", || buf.replace(t))?;
                }
            }
            buf.path = Some(file.clone());
        }
        let log: Rc<RefCell<Vec<Position>>> = Rc::new(RefCell::new(Vec::new()));
        let l = log.clone();
        buf.change_callback = Some(Box::new(move |q| l.borrow_mut().push(q)));
        buf.id = Some(77);
        Ok(Actor { buf, log, file })
    }

    fn exec(&mut self, op: &Op) -> Result<Seen, String> {
        self.log.borrow_mut().clear();
        let name = op.show();
        let b = &mut self.buf;
        let ret = match op {
            Op::Insert(s) => guard(&name, || b.insert(s.clone())).map(|_| Ret::None),
            Op::Delete => guard(&name, || b.delete()).map(|_| Ret::None),
            Op::DeleteRange(r) => guard(&name, || b.delete_range(r.clone())).map(|_| Ret::None),
            Op::MoveTo(q) => guard(&name, || b.cursor.move_to(*q)).map(Ret::Bool),
            Op::Up => guard(&name, || b.cursor.move_up()).map(|_| Ret::None),
            Op::Down => guard(&name, || b.cursor.move_down()).map(|_| Ret::None),
            Op::Left => guard(&name, || b.cursor.move_left()).map(|_| Ret::None),
            Op::Right => guard(&name, || b.cursor.move_right()).map(|_| Ret::None),
            Op::StartOfLine => guard(&name, || b.cursor.move_to_start_of_line()).map(|_| Ret::None),
            Op::EndOfLine => guard(&name, || b.cursor.move_to_end_of_line()).map(|_| Ret::None),
            Op::FirstLine => guard(&name, || b.cursor.move_to_first_line()).map(|_| Ret::None),
            Op::LastLine => guard(&name, || b.cursor.move_to_last_line()).map(|_| Ret::None),
            Op::Undo => guard(&name, || b.undo()).map(|_| Ret::None),
            Op::Redo => guard(&name, || b.redo()).map(|_| Ret::None),
            Op::StartGroup => guard(&name, || b.start_operation_group()).map(|_| Ret::None),
            Op::EndGroup => guard(&name, || b.end_operation_group()).map(|_| Ret::None),
            Op::Replace(s) => guard(&name, || b.replace(s.clone())).map(|_| Ret::None),
            Op::External(s) => {
                fs::write(&self.file, s.as_bytes()).expect("scratch write");
                Ok(Ret::None)
            }
            Op::Save(plan) => fault::with_plan(*plan, || guard(&name, || b.save().map_err(|e| e.to_string()))).0.map(Ret::Io),
            Op::Reload(plan) => fault::with_plan(*plan, || guard(&name, || b.reload().map_err(|e| e.to_string()))).0.map(Ret::Io),
            Op::Read(r) => guard(&name, || b.read(r)).map(Ret::Text),
            Op::InBounds(q) => guard(&name, || b.cursor.data.borrow().in_bounds(q)).map(Ret::Bool),
            Op::Search(s) => guard(&name, || b.search(s)).map(Ret::Positions),
            Op::LineCount => guard(&name, || b.line_count()).map(Ret::Count),
            Op::SaveFail(_) | Op::ReloadFail(_) => unreachable!("not part of scripts"),
        }?;
        Ok(Seen { ret: format!("{:?}", ret), calls: self.log.borrow().clone(), pos: self.buf.cursor.position })
    }

    /// Takes back and repeats everything; the texts passed through.
    fn unwind(&mut self, most: usize) -> Result<Vec<String>, String> {
        let b = &mut self.buf;
        let mut out = vec![];
        for k in 0..2 {
            for _ in 0..most {
                guard("undo or redo", || if k == 0 { b.undo() } else { b.redo() })?;
                let t = guard("data", || b.data())?;
                out.push(format!("{}{}", if guard("modified", || b.modified())? { "*" } else { " " }, t));
            }
        }
        Ok(out)
    }
}

fn clip(s: &str) -> String {
    show(&s.chars().take(300).collect::<String>())
}

fn differ(what: &str, op: &Op, expected: &Seen, got: &Seen) -> Result<(), String> {
    if expected == got {
        return Ok(());
    }
    Err(if expected.pos != got.pos {
        format!("{} leaves the cursor at {}, but at {} {}", op.show(), p(&expected.pos), p(&got.pos), what)
    } else if expected.ret != got.ret {
        format!("{} returns {}, but {} {}", op.show(), clip(&expected.ret), clip(&got.ret), what)
    } else {
        format!("{} announces changes at {:?}, but at {:?} {}", op.show(), expected.calls, got.calls, what)
    })
}

fn profile() -> Profile {
    Profile {
        read: 5,
        in_bounds: 3,
        search: 5,
        line_count: 2,
        save: 4,
        reload: 3,
        external: 2,
        group: 5,
        replace: 3,
        from_file: 50,
        invalid: 12,
        long: false,
        save_fail: 0,
        reload_fail: 0,
        ..Profile::default()
    }
}

/// Runs a history under observation, writing down what happened.
fn record(ctx: &Ctx, seed: u64, keep: Option<&[usize]>, most: usize, syntaxes: Option<&Syntaxes>) -> Result<Script, String> {
    let prof = profile();
    let mut plan = plan_case(seed, &prof, &ctx.dict);
    plan.ops = plan.ops.min(most);
    let mut s = Session::start(ctx, &plan)?;
    let all: Vec<usize> = (0..plan.ops).collect();
    let mut steps = vec![];
    for i in keep.unwrap_or(&all) {
        if *i >= plan.ops {
            continue;
        }
        let op = s.choose(ctx, &plan, &prof, *i)?;
        let e = s.step(op)?;
        let text: Arc<str> = Arc::from(&*e.after.doc.text);
        let tokens = match syntaxes {
            Some(sy) if text.len() < 600 && mix2(seed, *i as u64) % 12 == 0 => Some(fingerprint(sy, &text, seed)),
            _ => None,
        };
        steps.push(Step {
            op: e.op,
            seen: Seen { ret: format!("{:?}", e.ret), calls: e.callbacks, pos: e.after.pos },
            text,
            modified: e.after.modified,
            tokens,
        });
    }
    Ok(Script { plan, steps, seed })
}

/// Questions, whose answers must not depend on how often they are asked.
fn ask(ctx: &Ctx, r: &mut Rng, a: &Actor, d: &Doc, style: gen::Style, syntaxes: &Syntaxes, n: usize) -> Result<u64, String> {
    let b = &a.buf;
    let mut asked = 0;
    if d.text.len() < 3000 && r.one_in(150) {
        // The same one over and over, as a program does that draws a screen.
        let most = *r.pick(&[40, 130, 260, 301, 514, 600, 1030, 1030, 4200]);
        let most = if d.text.len() < 200 && r.one_in(12) { 66_000 } else { most };
        let q = some_range(r, d, 20, b.cursor.position);
        let at = gen::any_pos(r, d, 30, b.cursor.position);
        let s = needle(r, d, style, &ctx.dict);
        let which = r.below(8);
        let (name, f): (&str, Box<dyn Fn() -> String>) = match which {
            0 => ("data()", Box::new(|| b.data())),
            1 => ("read()", Box::new(|| format!("{:?}", b.read(&q)))),
            2 => ("in_bounds()", Box::new(|| b.cursor.data.borrow().in_bounds(&at).to_string())),
            3 => ("search()", Box::new(|| format!("{:?}", b.search(&s)))),
            4 => ("line_count()", Box::new(|| b.line_count().to_string())),
            5 => ("file_name()", Box::new(|| format!("{:?} {:?}", b.file_name(), b.file_extension()))),
            6 => ("cursor.clone()", Box::new(|| format!("{}", p(&b.cursor.clone().position)))),
            _ => ("modified()", Box::new(|| b.modified().to_string())),
        };
        let first = guard(name, &f)?;
        for k in 1..most {
            let x = guard(name, &f)?;
            if x != first {
                return Err(format!("{} on {}: {}, and asked {} times more {}", name, show(&d.text), clip(&first), k, clip(&x)));
            }
        }
        asked += most as u64;
    }
    for _ in 0..n {
        let near = b.cursor.position;
        let twice = |what: String, f: &dyn Fn() -> String| -> Result<(), String> {
            let x = guard(&what, f)?;
            let y = guard(&what, f)?;
            if x != y {
                return Err(format!("{} on {}: {}, and asked again {}", what, show(&d.text), clip(&x), clip(&y)));
            }
            Ok(())
        };
        asked += 1;
        match r.below(13) {
            0 => twice("data()".into(), &|| b.data())?,
            1 => {
                let q = some_range(r, d, 20, near);
                twice(format!("read({}..{})", p(&q.start()), p(&q.end())), &|| format!("{:?}", b.read(&q)))?
            }
            2 => {
                let q = gen::any_pos(r, d, 30, near);
                twice(format!("in_bounds({})", p(&q)), &|| b.cursor.data.borrow().in_bounds(&q).to_string())?
            }
            3 | 4 => {
                let s = needle(r, d, style, &ctx.dict);
                twice(format!("search({})", show(&s)), &|| format!("{:?}", b.search(&s)))?
            }
            5 => twice("line_count()".into(), &|| b.line_count().to_string())?,
            6 => twice("modified()".into(), &|| b.modified().to_string())?,
            7 => twice("file_name()".into(), &|| format!("{:?} {:?}", b.file_name(), b.file_extension()))?,
            8 => twice("data of the text store".into(), &|| b.cursor.data.borrow().to_string())?,
            9 if d.text.len() < 600 => {
                let k = r.next();
                twice("tokens".into(), &|| fingerprint(syntaxes, &b.data(), k).to_string())?
            }
            10 => {
                let s = b.data();
                twice("lines and distance".into(), &|| format!("{} {:?}", LineIterator::new(&s).count(), Distance::of_str(&s)))?
            }
            _ => {
                // A copy of the cursor, or another one on the same text.
                let seed = r.next();
                let copy = r.chance(50);
                let to = gen::any_pos(r, d, 30, near);
                twice("moving another cursor".into(), &|| {
                    let mut c = if copy { b.cursor.clone() } else { Cursor::new(b.cursor.data.clone(), b.cursor.position) };
                    let mut rr = Rng::new(seed);
                    let mut out = String::new();
                    for _ in 0..rr.range(1, 6) {
                        match rr.below(10) {
                            0 => c.move_up(),
                            1 => c.move_down(),
                            2 => c.move_left(),
                            3 => c.move_right(),
                            4 => c.move_to_start_of_line(),
                            5 => c.move_to_end_of_line(),
                            6 => c.move_to_first_line(),
                            7 => c.move_to_last_line(),
                            _ => {
                                c.move_to(to);
                            }
                        }
                        out.push_str(&p(&c.position));
                    }
                    out
                })?
            }
        }
        if !a.log.borrow().is_empty() {
            return Err(format!("a question announced a change of {}", show(&d.text)));
        }
    }
    Ok(asked)
}

pub fn q01(ctx: &Ctx, seed: u64, keep: Option<&[usize]>) -> Outcome {
    let syntaxes = ctx.shared.downcast_ref::<Syntaxes>().expect("syntaxes");
    let mut r = Rng::new(mix2(seed, 0x901));
    if r.one_in(25) {
        let told = crate::props_space::questions(ctx, seed);
        let signature = told.as_ref().map_or(seed, |t| t.signature);
        let verdict = told.map(|t| {
            ctx.add("calls on workspaces repeated with and without questions", t.calls);
            ctx.add("questions asked of workspaces", t.asked);
        });
        return Outcome { verdict, steps: 0, signature, nontrivial: true };
    }
    let (mut asked, mut calls, mut changes, mut sig, mut ops) = (0u64, 0u64, 0u64, seed, 0);
    let verdict = (|| -> Result<(), String> {
        let script = record(ctx, seed, keep, 120, Some(syntaxes))?;
        ops = script.plan.ops;
        let most = r.range(2, 14);
        // Without any question.
        let mut bare = Actor::start(&script.plan, &ctx.scratch.join("bare"))?;
        for s in &script.steps {
            let got = bare.exec(&s.op)?;
            differ("without any questions asked in between", &s.op, &s.seen, &got)?;
            calls += 1;
        }
        if let Some(s) = script.steps.last() {
            let t = guard("data", || bare.buf.data())?;
            if t != *s.text {
                return Err(format!("without any questions asked in between, the last of them after {}, {}", s.op.show(), diff(&s.text, &t)));
            }
            if guard("modified", || bare.buf.modified())? != s.modified {
                return Err(format!("modified() is {} with questions asked in between, but not without, after {}", s.modified, s.op.show()));
            }
        }
        let bare_end = bare.unwind(most)?;
        drop(bare);
        // With many.
        let mut busy = Actor::start(&script.plan, &ctx.scratch.join("busy"))?;
        let mut d = Doc::new(&script.plan.text);
        for s in &script.steps {
            let n = *r.pick(&[0, 1, 1, 2, 4, 9]);
            ctx.say(|| format!("{} questions, then {}", n, s.op.show()));
            let n = if d.text.len() > 20_000 { n.min(1) } else { n };
            busy.log.borrow_mut().clear();
            asked += ask(ctx, &mut r, &busy, &d, script.plan.style, syntaxes, n)?;
            let got = busy.exec(&s.op)?;
            differ("with many questions asked in between", &s.op, &s.seen, &got)?;
            calls += 1;
            let t = guard("data", || busy.buf.data())?;
            if t != *s.text {
                return Err(format!("with many questions asked in between, the text after {} is another: {}", s.op.show(), diff(&s.text, &t)));
            }
            if guard("modified", || busy.buf.modified())? != s.modified {
                return Err(format!("modified() is {} with few questions asked in between, but not with many, after {}", s.modified, s.op.show()));
            }
            if *d.text != *s.text {
                changes += 1;
                d = Doc::new(&s.text);
            }
            sig = mix2(sig, hash_str(&s.text));
        }
        busy.log.borrow_mut().clear();
        asked += ask(ctx, &mut r, &busy, &d, script.plan.style, syntaxes, 3)?;
        let busy_end = busy.unwind(most)?;
        for (k, (x, y)) in bare_end.iter().zip(&busy_end).enumerate() {
            if x != y {
                return Err(format!(
                    "at the end, {} call(s) to undo and {} to redo give another text with questions asked in between: {}",
                    (k + 1).min(most),
                    (k + 1).saturating_sub(most),
                    diff(x, y)
                ));
            }
        }
        Ok(())
    })();
    ctx.add("questions asked", asked);
    ctx.add("calls repeated with and without questions", calls);
    ctx.add("changes of the text", changes);
    Outcome { verdict, steps: ops, signature: sig, nontrivial: asked > 0 && changes > 0 }
}

/// Goes through a script, comparing.
fn perform(s: &Script, a: &mut Actor, k: usize, syntaxes: &Syntaxes, what: &str, look: bool) -> Result<(), String> {
    let step = &s.steps[k];
    let got = a.exec(&step.op)?;
    differ(what, &step.op, &step.seen, &got)?;
    if look || k + 1 == s.steps.len() {
        let t = guard("data", || a.buf.data())?;
        if t != *step.text {
            return Err(format!("{}, the text after {} is another: {}", what, step.op.show(), diff(&step.text, &t)));
        }
        if guard("modified", || a.buf.modified())? != step.modified {
            return Err(format!("{}, modified() is not {} after {}", what, step.modified, step.op.show()));
        }
        if let Some(f) = step.tokens {
            if fingerprint(syntaxes, &t, s.seed) != f {
                return Err(format!("{}, the tokens of {} are others", what, show(&t)));
            }
        }
    }
    Ok(())
}

/// A history that goes on whenever another buffer announces a change.
struct Inner {
    script: Script,
    actor: Actor,
    at: usize,
    nested: u64,
    err: Option<String>,
}

impl Inner {
    fn go_on(&mut self, nested: bool) {
        if self.err.is_some() || self.at >= self.script.steps.len() {
            return;
        }
        let step = &self.script.steps[self.at];
        self.at += 1;
        let what = if nested { "within another buffer's change callback" } else { "after calls within another buffer's change callback" };
        let done = self.actor.exec(&step.op).and_then(|got| differ(what, &step.op, &step.seen, &got)).and_then(|_| {
            let t = guard("data", || self.actor.buf.data())?;
            if t != *step.text {
                return Err(format!("{}, the text after {} is another: {}", what, step.op.show(), diff(&step.text, &t)));
            }
            Ok(())
        });
        self.nested += nested as u64;
        self.err = done.err();
    }
}

fn nest(ctx: &Ctx, outer: &Script, inner: Script, syntaxes: &Syntaxes, r: &mut Rng) -> Result<u64, String> {
    let mut a = Actor::start(&outer.plan, &ctx.scratch.join("i0"))?;
    let actor = Actor::start(&inner.plan, &ctx.scratch.join("i1"))?;
    let inner = Rc::new(RefCell::new(Inner { script: inner, actor, at: 0, nested: 0, err: None }));
    let times = r.range(1, 3);
    let (log, other) = (a.log.clone(), inner.clone());
    a.buf.change_callback = Some(Box::new(move |q| {
        log.borrow_mut().push(q);
        if !fault::armed() {
            for _ in 0..times {
                other.borrow_mut().go_on(true);
            }
        }
    }));
    for k in 0..outer.steps.len() {
        ctx.say(|| format!("outer buffer: {}", outer.steps[k].op.show()));
        let from = inner.borrow().at;
        perform(outer, &mut a, k, syntaxes, "with another buffer used within the change callback", k % 3 == 0)?;
        if r.one_in(4) {
            inner.borrow_mut().go_on(false);
        }
        let mut i = inner.borrow_mut();
        for j in from..i.at {
            ctx.say(|| format!("  inner buffer: {}", i.script.steps[j].op.show()));
        }
        if let Some(e) = i.err.take() {
            return Err(e);
        }
    }
    let i = inner.borrow();
    Ok(i.nested)
}

/// Buffers much like one another, made, asked and dropped in turn, so that
/// they are likely to have each other's addresses.
fn parade(ctx: &Ctx, seed: u64) -> Result<u64, String> {
    let mut r = Rng::new(mix2(seed, 0x9a8));
    let style = gen::style(&mut r);
    // Texts of one length, which differ in the order of what they hold.
    let first = match r.below(3) {
        0 => gen::text_of(&mut r, style, &ctx.dict, 12),
        1 => "a\nb\nab\n\nc d".to_string(),
        _ => gen::document(&mut r, style, &ctx.dict, false).chars().take(300).collect(),
    };
    let mut texts: Vec<String> = vec![first.clone()];
    for _ in 0..r.range(2, 5) {
        let mut c: Vec<char> = first.chars().collect();
        for k in (1..c.len()).rev() {
            c.swap(k, r.below(k + 1));
        }
        // Now and then with other line breaks.
        if r.chance(60) {
            for x in c.iter_mut().filter(|x| x.is_ascii()) {
                if r.one_in(4) {
                    *x = *r.pick(&['\n', 'x', ' ']);
                }
            }
        }
        texts.push(c.into_iter().collect());
    }
    let docs: Vec<Doc> = texts.iter().map(|t| Doc::new(t)).collect();
    let dir = ctx.scratch.join("parade");
    fs::create_dir_all(&dir).expect("scratch");
    let mut asked = 0;
    let mut kept: Vec<Buffer> = vec![];
    for turn in 0..r.range(6, 30) {
        let k = r.below(docs.len());
        let d = &docs[k];
        let file = dir.join(*r.pick(&["one", "two", "one"]));
        let mut b = if r.chance(60) {
            fs::write(&file, &texts[k]).expect("scratch write");
            guard("from_file", || Buffer::from_file(&file))?.map_err(|e| format!("from_file: {}", e))?
        } else {
            let mut b = guard("new", Buffer::new)?;
            guard("insert", || b.insert(texts[k].as_str()))?;
            b
        };
        let of = || format!("buffer {} in turn, of text {}", turn, show(&d.text));
        ctx.say(&of);
        let order = mix2(seed, turn as u64);
        for q in 0..5 {
            asked += 1;
            match (order >> (q * 8)) % 6 {
                0 => {
                    let n = guard("line_count", || b.line_count())?;
                    if n != d.line_count() {
                        return Err(format!("{}, has line_count() {}, not {}", of(), n, d.line_count()));
                    }
                }
                1 => {
                    let t = guard("data", || b.data())?;
                    if t != *d.text {
                        return Err(format!("{}, has another text: {}", of(), diff(&d.text, &t)));
                    }
                }
                2 => {
                    let s = needle(&mut r, d, style, &ctx.dict);
                    let (x, y) = (guard("search", || b.search(&s))?, d.search(&s));
                    if !s.is_empty() && x != y {
                        return Err(format!("{}: search({}) is {:?}, not {:?}", of(), show(&s), x, y));
                    }
                }
                3 => {
                    let at = gen::any_pos(&mut r, d, 30, Position::default());
                    let x = guard("in_bounds", || b.cursor.data.borrow().in_bounds(&at))?;
                    if x != d.exists(&at) {
                        return Err(format!("{}: in_bounds({}) is {}", of(), p(&at), x));
                    }
                    let x = guard("move_to", || b.cursor.move_to(at))?;
                    if x != d.exists(&at) {
                        return Err(format!("{}: move_to({}) is {}", of(), p(&at), x));
                    }
                }
                4 => {
                    let q = some_range(&mut r, d, 10, Position::default());
                    let x = guard("read", || b.read(&q))?;
                    if x.as_deref() != d.read(&q) {
                        return Err(format!("{}: read({:?}) is {:?}, not {:?}", of(), q, x, d.read(&q)));
                    }
                }
                _ => {
                    let x = guard("move_to_last_line", || {
                        b.cursor.move_to_last_line();
                        b.cursor.move_to_end_of_line();
                        b.cursor.position
                    })?;
                    if x != d.end() {
                        return Err(format!("{}: the end is at {}, not {}", of(), p(&x), p(&d.end())));
                    }
                }
            }
        }
        // Some stay for a while.
        if r.one_in(4) {
            kept.push(b);
        } else if !kept.is_empty() && r.one_in(3) {
            kept.swap_remove(r.below(kept.len()));
        }
    }
    Ok(asked)
}

pub fn i01(ctx: &Ctx, seed: u64, keep: Option<&[usize]>) -> Outcome {
    let syntaxes = ctx.shared.downcast_ref::<Syntaxes>().expect("syntaxes");
    let mut r = Rng::new(mix2(seed, 0x101));
    if r.one_in(40) {
        let told = crate::props_space::several(ctx, seed);
        let signature = told.as_ref().map_or(seed, |t| t.signature);
        let verdict = told.map(|t| ctx.add("calls on workspaces repeated with other workspaces in use", t.calls));
        return Outcome { verdict, steps: 0, signature, nontrivial: true };
    }
    if r.one_in(12) {
        let told = parade(ctx, seed);
        let verdict = told.map(|n| ctx.add("questions to buffers made and dropped in turn", n));
        return Outcome { verdict, steps: 0, signature: seed, nontrivial: true };
    }
    let n = r.range(2, 4);
    let alike = r.chance(30);
    let threads = r.chance(25);
    let nested = !threads && r.chance(15);
    let mut within = 0u64;
    let (mut calls, mut others, mut joint, mut sig, mut ops, mut spaces) = (0u64, 0u64, 0u64, seed, 0, 0u64);
    let verdict = (|| -> Result<(), String> {
        // Each history by itself.
        let mut scripts: Vec<Script> = vec![];
        for k in 0..n {
            let s = if alike && k > 0 { seed } else { mix2(seed, k as u64) };
            let s = if k == 0 { seed } else { s };
            scripts.push(record(ctx, s, keep, 60, Some(syntaxes))?);
            ops = ops.max(scripts[k].plan.ops);
            for st in &scripts[k].steps {
                sig = mix2(sig, hash_str(&st.text));
            }
        }
        ctx.say(|| format!("{} buffers, {}", n, if threads { "on threads of their own" } else { "taking turns" }));
        let dirs: Vec<PathBuf> = (0..n).map(|k| ctx.scratch.join(format!("i{}", k))).collect();
        if nested {
            let inner = scripts.swap_remove(1);
            let made = nest(ctx, &scripts[0], inner, syntaxes, &mut r)?;
            within += made;
            return Ok(());
        }
        if threads {
            let start = Barrier::new(n);
            let results: Vec<Result<(), String>> = std::thread::scope(|scope| {
                let handles: Vec<_> = scripts
                    .iter()
                    .zip(&dirs)
                    .map(|(s, dir)| {
                        let start = &start;
                        scope.spawn(move || -> Result<(), String> {
                            start.wait();
                            let mut a = Actor::start(&s.plan, dir)?;
                            for k in 0..s.steps.len() {
                                perform(s, &mut a, k, syntaxes, "with other buffers in use on other threads", k % 3 == 0)?;
                            }
                            Ok(())
                        })
                    })
                    .collect();
                handles.into_iter().map(|h| h.join().expect("thread")).collect()
            });
            joint += scripts.iter().map(|s| s.steps.len() as u64).sum::<u64>();
            return results.into_iter().collect();
        }
        let mut actors: Vec<Actor> = vec![];
        for (s, dir) in scripts.iter().zip(&dirs) {
            actors.push(Actor::start(&s.plan, dir)?);
        }
        let mut at = vec![0usize; n];
        // Bystanders do anything, and nobody looks at them.
        let mut by: Vec<Actor> = vec![];
        loop {
            let left: Vec<usize> = (0..n).filter(|k| at[*k] < scripts[*k].steps.len()).collect();
            if left.is_empty() {
                break;
            }
            let k = *r.pick(&left);
            for _ in 0..*r.pick(&[1, 1, 1, 2, 5]) {
                if at[k] < scripts[k].steps.len() {
                    ctx.say(|| format!("buffer {}: {}", k, scripts[k].steps[at[k]].op.show()));
                    let look = r.chance(40);
                    perform(&scripts[k], &mut actors[k], at[k], syntaxes, "with other buffers in use", look)?;
                    at[k] += 1;
                    calls += 1;
                }
            }
            if r.one_in(3) {
                if by.is_empty() || by.len() < 3 && r.one_in(6) {
                    let j = r.below(n);
                    if r.chance(40) && actors[j].file.exists() {
                        // The very same file.
                        let b = guard("from_file", || Buffer::from_file(&actors[j].file))?;
                        if let Ok(buf) = b {
                            let mut a = Actor { buf, log: Rc::default(), file: ctx.scratch.join("elsewhere.txt") };
                            let l = a.log.clone();
                            a.buf.change_callback = Some(Box::new(move |q| l.borrow_mut().push(q)));
                            by.push(a);
                        }
                    } else {
                        by.push(Actor::start(&scripts[j].plan, &ctx.scratch.join("by"))?);
                    }
                } else if r.one_in(10) {
                    let j = r.below(by.len());
                    by.swap_remove(j);
                } else {
                    let j = r.below(by.len());
                    let s = &scripts[r.below(n)];
                    if !s.steps.is_empty() {
                        let here = r.chance(50);
                        // The call that is about to be made elsewhere, or any.
                        let i = if here && at[k] < scripts[k].steps.len() { at[k] } else { r.below(s.steps.len()) };
                        let s = if here { &scripts[k] } else { s };
                        let op = &s.steps[i.min(s.steps.len() - 1)].op;
                        if !matches!(op, Op::Save(_) | Op::External(_)) {
                            ctx.say(|| format!("bystander: {}", op.show()));
                            by[j].exec(op)?;
                            others += 1;
                        }
                    }
                }
            }
            if r.one_in(2500) {
                // A workspace with the same files.
                let mut ws = guard("Workspace::new", || Workspace::new(&ctx.scratch, None))?.map_err(|e| format!("Workspace::new: {}", e))?;
                for a in &actors {
                    if a.file.exists() && guard("open_buffer", || ws.open_buffer(&a.file))?.is_ok() {
                        let b = ws.current_buffer.as_mut().unwrap();
                        guard("insert", || b.insert("workspace"))?;
                        let _ = guard("undo", || b.undo());
                        spaces += 1;
                    }
                }
            }
        }
        // Whatever is left has its history.
        for (a, s) in actors.iter_mut().zip(&scripts) {
            let most = s.steps.len().min(8);
            let together = a.unwind(most)?;
            let mut alone = Actor::start(&s.plan, &ctx.scratch.join("alone"))?;
            for st in &s.steps {
                alone.exec(&st.op)?;
            }
            for (x, y) in alone.unwind(most)?.iter().zip(&together) {
                if x != y {
                    return Err(format!("undoing and redoing at the end gives another text than it does with no other buffers in use: {}", diff(x, y)));
                }
            }
        }
        Ok(())
    })();
    ctx.add("calls repeated taking turns with other buffers", calls);
    ctx.add("calls on bystanders", others);
    ctx.add("calls within the change callback of another buffer", within);
    ctx.add("calls repeated on several threads", joint);
    ctx.add("files opened in a workspace besides", spaces);
    Outcome { verdict, steps: ops, signature: sig, nontrivial: calls + joint + within > 3 }
}

/// For D01: everything that a history shows, a line for each call.
/// A text of everything that somebody might treat in a way of their own, and all that can
/// be asked and done with it.
fn oddities(r: &mut Rng, style: gen::Style, ctx: &Ctx) -> Result<Vec<String>, String> {
    const ODD: &[&str] = &[
        "\u{b}", "\u{c}", "\r", "\r\n", "\n", "\t", " ", "\u{85}", "\u{2028}", "\u{2029}", "\u{a0}", "\u{feff}", "\u{200b}", "\u{200d}", "\u{ad}", "\u{0}", "\u{1b}[31m", "\u{7f}", "\u{8}",
        "\u{1a}", "\u{4}", "\u{301}", "\u{1F1E9}\u{1F1EA}", "ß", "İ", "ı", "I", "i", "ﬁ", "ǆ", "日", "\u{202e}", "\u{10ffff}", "\u{fffd}", "~", "$HOME", "%s", "\\", "\"", "'", "a", "B", "1", ",", ".", "#",
    ];
    let mut text = String::new();
    for _ in 0..r.range(5, 40) {
        if r.one_in(6) {
            text.push_str(&gen::piece(r, style, &ctx.dict));
        } else {
            text.push_str(r.pick(ODD));
        }
    }
    let mut out = vec![];
    let mut b = Buffer::new();
    guard("insert", || b.insert(text.as_str()))?;
    let d = Doc::new(&text);
    out.push(guard("asking about oddities", || {
        let found: Vec<_> = ODD.iter().map(|o| b.search(o)).collect();
        format!("{} lines {} {:?} {:?} {:?}", show(&text), b.line_count(), LineIterator::new(&text).collect::<Vec<_>>(), Distance::of_str(&text), found)
    })?);
    for _ in 0..12 {
        let (x, y) = (gen::valid_pos(r, &d), gen::valid_pos(r, &d));
        let (kind, odd) = (r.below(12), *r.pick(ODD));
        out.push(guard("using oddities", || {
            let mut told = String::new();
            told.push_str(&format!("{:?} {}", b.read(&scribe::buffer::Range::new(x, y)), b.cursor.move_to(x)));
            match kind {
                0 => b.cursor.move_left(),
                1 => b.cursor.move_right(),
                2 => b.cursor.move_up(),
                3 => b.cursor.move_down(),
                4 => b.cursor.move_to_end_of_line(),
                5 => b.cursor.move_to_first_line(),
                6 => b.cursor.move_to_last_line(),
                7 => b.insert(odd),
                8 => b.delete(),
                9 => b.delete_range(scribe::buffer::Range::new(x, y)),
                10 => b.undo(),
                _ => b.redo(),
            }
            format!("{} {} {} {} {:?} {:?} {}", told, p(&b.cursor.position), b.modified(), b.line_count(), b.search(odd), b.file_name(), show(&b.data()))
        })?);
    }
    Ok(out)
}

pub fn story(ctx: &Ctx, seed: u64) -> Vec<String> {
    let mut out = vec![];
    let verdict = (|| -> Result<(), String> {
        let prof = profile();
        let mut plan = plan_case(seed, &prof, &ctx.dict);
        plan.ops = plan.ops.min(70);
        let mut r = Rng::new(mix2(seed, 0x570));
        let mut s = Session::start(ctx, &plan)?;
        for i in 0..plan.ops {
            let op = s.choose(ctx, &plan, &prof, i)?;
            let e = s.step(op)?;
            let text = &e.after.doc.text;
            let lines = guard("line_count", || s.buf.line_count())?;
            out.push(format!("{} returns {:?}, announces {:?}, cursor {}, modified {}, {} lines, text {}", e.op.show(), e.ret, e.callbacks, p(&e.after.pos), e.after.modified, lines, clip(text)));
            if text.chars().count() > 300 {
                out.push(format!("of {} bytes, {:x}", text.len(), hash_str(text)));
            }
        }
        let b = &mut s.buf;
        let text = guard("data", || b.data())?;
        let d = Doc::new(&text);
        let fixed = ["", " ", "\n", "a", "\t", "\r\n"].map(String::from);
        for k in 0..10 {
            let n = if k < 6 { fixed[k].clone() } else { needle(&mut r, &d, plan.style, &ctx.dict) };
            out.push(format!("search {} {:?}", show(&n), guard("search", || b.search(&n))?));
        }
        out.push(guard("distance, lines, name", || {
            format!("{:?} {:?} {:?} {:?}", Distance::of_str(&text), LineIterator::new(&text).collect::<Vec<_>>(), b.file_name(), b.file_extension())
        })?);
        out.extend(oddities(&mut r, plan.style, ctx)?);
        let b = &mut s.buf;
        for k in 0..2 {
            for _ in 0..8 {
                guard("undo or redo", || if k == 0 { b.undo() } else { b.redo() })?;
                out.push(guard("data", || format!("{} {} {}", b.modified(), p(&b.cursor.position), clip(&b.data())))?);
            }
        }
        Ok(())
    })();
    if let Err(e) = verdict {
        out.push(e);
    }
    out.extend(crate::props_proc::files_below(&ctx.scratch));
    out
}
