//! Twins of workspaces: the same history of calls on a workspace, with and without
//! questions in between, alone and with other workspaces and buffers in use.

use crate::gen::{self, Style};
use crate::model::{diff, show};
use crate::props_ws::{other_sets, FIRST_LINES};
use crate::rng::{hash_str, mix2, Rng};
use crate::run::{guard, Ctx};
use crate::session::p;
use scribe::buffer::{Position, Range, Token};
use scribe::{Buffer, Workspace};
use std::cell::Cell;
use std::fs;
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::Barrier;

#[derive(Clone, Debug)]
enum Act {
    /// A new buffer, with a text, a path, and a syntax of its own.
    Add(String, Option<String>, bool),
    Load(String),
    Open(String),
    Close,
    Next,
    Previous,
    Update,
    Base(&'static str),
    Set(usize),
    Insert(String),
    Delete,
    Undo,
    Redo,
    To(Position),
    Down,
    End,
    Group(bool),
    Replace(String),
    /// Replaces the text by one of the same length.
    Turn(usize),
    Save,
    Reload,
    Path(Option<String>),
}

#[derive(Clone, PartialEq)]
struct View {
    ret: String,
    index: Option<usize>,
    current: Option<Current>,
}

#[derive(Clone, PartialEq)]
struct Current {
    id: Option<usize>,
    text: String,
    pos: Position,
    modified: bool,
    path: Option<PathBuf>,
    syntax: Option<String>,
}

struct Script {
    files: Vec<(String, String)>,
    acts: Vec<Act>,
    style: Style,
    set: Option<usize>,
}

const NAMES: &[&str] = &["a.rs", "b.py", "c.txt", "sub/a.rs", "sub/noext", "Makefile", "out/a.rs", "d.json", "out/x.unknownext", "e.md"];

fn script(r: &mut Rng, ctx: &Ctx) -> Script {
    let style = gen::style(r);
    let files: Vec<(String, String)> = NAMES
        .iter()
        .map(|n| {
            let atoms = r.below(14);
            let mut t = gen::text_of(r, style, &ctx.dict, atoms);
            if r.one_in(6) {
                t.insert_str(0, r.pick(FIRST_LINES));
            }
            (n.to_string(), t)
        })
        .collect();
    let some = |r: &mut Rng| match r.below(12) {
        0 => "missing.rs".to_string(),
        1 => format!("sub/../{}", r.pick(NAMES)),
        2 => "link.rs".into(),
        _ => r.pick(NAMES).to_string(),
    };
    let n = r.range(6, 45);
    let sets = r.one_in(3);
    let acts = (0..n)
        .map(|_| match r.weighted(&[12, 5, 14, 7, 7, 6, 5, 2, 3, 14, 4, 5, 4, 5, 3, 2, 5, 2, 3, 3, 2, 5]) {
            0 => {
                let t = gen::piece(r, style, &ctx.dict);
                let path = if r.chance(60) { Some(some(r)) } else { None };
                Act::Add(t, path, r.one_in(4))
            }
            1 => Act::Load(some(r)),
            2 => Act::Open(some(r)),
            3 => Act::Close,
            4 => Act::Next,
            5 => Act::Previous,
            6 => Act::Update,
            7 => Act::Base(r.pick::<&'static str>(&["root", "root/sub", "root/out", "."])),
            8 if sets => Act::Set(r.below(other_sets().len() - 1)),
            8 | 9 => Act::Insert(gen::piece(r, style, &ctx.dict)),
            10 => Act::Delete,
            11 => Act::Undo,
            12 => Act::Redo,
            13 => Act::To(Position { line: r.below(4), offset: r.below(6) }),
            14 => Act::Down,
            15 => Act::End,
            16 => Act::Group(r.chance(55)),
            17 => Act::Replace(gen::piece(r, style, &ctx.dict)),
            18 => Act::Save,
            19 => Act::Reload,
            21 => Act::Turn(r.range(1, 40)),
            _ => Act::Path(if r.one_in(4) { None } else { Some(some(r)) }),
        })
        .collect();
    Script { files, acts, style, set: if r.chance(60) { Some(r.below(other_sets().len() - 1)) } else { None } }
}

/// A workspace of its own, on files of its own.
struct Space {
    ws: Workspace,
    dir: PathBuf,
    calls: Rc<Cell<u64>>,
    /// The set of syntaxes is no longer the first one.
    swapped: bool,
}

impl Space {
    fn start(s: &Script, dir: &Path) -> Result<Space, String> {
        let _ = fs::remove_dir_all(dir);
        let root = dir.join("root");
        fs::create_dir_all(root.join("sub")).expect("scratch");
        fs::create_dir_all(root.join("out")).expect("scratch");
        for (n, t) in &s.files {
            fs::write(root.join(n), t).expect("scratch write");
        }
        std::os::unix::fs::symlink("a.rs", root.join("link.rs")).expect("scratch");
        let dir = dir.canonicalize().expect("scratch");
        let mut ws = guard("Workspace::new", || Workspace::new(&root, None))?.map_err(|e| format!("Workspace::new({:?}): {}", root, e))?;
        if let Some(k) = s.set {
            ws.syntax_set = other_sets()[k].clone();
        }
        Ok(Space { ws, dir, calls: Rc::default(), swapped: false })
    }

    fn strip(&self, q: &Path) -> PathBuf {
        q.strip_prefix(&self.dir).map(|x| Path::new("DIR").join(x)).unwrap_or(q.to_path_buf())
    }

    fn act(&mut self, a: &Act) -> Result<String, String> {
        let root = self.dir.join("root");
        self.swapped |= matches!(a, Act::Set(_));
        let before = self.calls.get();
        let name = format!("{:?}", a);
        let ws = &mut self.ws;
        let calls = self.calls.clone();
        let ret = guard(&name, || match a {
            Act::Add(text, path, own) => {
                let mut b = Buffer::new();
                b.insert(text.as_str());
                b.path = path.as_ref().map(|q| root.join(q));
                if *own {
                    b.syntax_definition = ws.syntax_set.syntaxes().last().cloned();
                }
                b.change_callback = Some(Box::new(move |q| calls.set(mix2(calls.get(), q.line as u64 ^ (q.offset as u64) << 32))));
                ws.add_buffer(b);
                String::new()
            }
            Act::Load(path) => match Buffer::from_file(&root.join(path)) {
                Ok(b) => {
                    ws.add_buffer(b);
                    "added".to_string()
                }
                Err(e) => e.to_string(),
            },
            Act::Open(path) => format!("{:?}", ws.open_buffer(&root.join(path)).map_err(|e| e.to_string())),
            Act::Close => {
                ws.close_current_buffer();
                String::new()
            }
            Act::Next => {
                ws.next_buffer();
                String::new()
            }
            Act::Previous => {
                ws.previous_buffer();
                String::new()
            }
            Act::Update => format!("{:?}", ws.update_current_syntax().map_err(|e| e.to_string())),
            Act::Base(b) => {
                ws.path = root.parent().unwrap().join(b);
                String::new()
            }
            Act::Set(k) => {
                ws.syntax_set = other_sets()[*k].clone();
                String::new()
            }
            other => {
                let Some(b) = ws.current_buffer.as_mut() else { return "nothing open".to_string() };
                match other {
                    Act::Insert(t) => b.insert(t.as_str()),
                    Act::Delete => b.delete(),
                    Act::Undo => b.undo(),
                    Act::Redo => b.redo(),
                    Act::To(q) => return b.cursor.move_to(*q).to_string(),
                    Act::Down => b.cursor.move_down(),
                    Act::End => b.cursor.move_to_end_of_line(),
                    Act::Group(true) => b.start_operation_group(),
                    Act::Group(false) => b.end_operation_group(),
                    Act::Replace(t) => b.replace(t.as_str()),
                    Act::Turn(k) => {
                        let t = b.data();
                        let n = t.chars().count().max(1);
                        b.replace(t.chars().cycle().skip(k % n).take(if t.is_empty() { 0 } else { n }).collect::<String>());
                    }
                    Act::Save => return format!("{:?}", b.save().map_err(|e| e.to_string())),
                    Act::Reload => return format!("{:?}", b.reload().map_err(|e| e.to_string())),
                    Act::Path(q) => b.path = q.as_ref().map(|q| root.join(q)),
                    _ => unreachable!(),
                }
                String::new()
            }
        })?;
        Ok(format!("{} {}", ret, self.calls.get().wrapping_sub(before)))
    }

    fn view(&self, ret: String) -> Result<View, String> {
        guard("looking at the current buffer", || View {
            ret,
            index: self.ws.current_buffer_index(),
            current: self.ws.current_buffer.as_ref().map(|b| Current {
                id: b.id,
                text: b.data(),
                pos: b.cursor.position,
                modified: b.modified(),
                path: b.path.as_ref().map(|q| self.strip(q)),
                syntax: b.syntax_definition.as_ref().map(|s| s.name.clone()),
            }),
        })
    }

    fn paths(&mut self) -> Result<String, String> {
        let list: Vec<Option<PathBuf>> = guard("buffer_paths", || self.ws.buffer_paths().iter().map(|q| q.map(|q| q.to_path_buf())).collect())?;
        let list: Vec<Option<PathBuf>> = list.iter().map(|q| q.as_ref().map(|q| self.strip(q))).collect();
        let cur = guard("current_buffer_path", || self.ws.current_buffer_path().map(|q| q.to_path_buf()))?.map(|q| self.strip(&q));
        Ok(format!("{:?}, current {:?}", list, cur))
    }

    /// Tokens of the current buffer, up to a number of them.
    fn tokens(&self, most: usize) -> Result<String, String> {
        // A definition from a set that has been replaced is of no use.
        if self.swapped {
            return Ok("not asked".into());
        }
        guard("tokens", || match self.ws.current_buffer_tokens() {
            Err(e) => e.to_string(),
            Ok(set) => match set.iter() {
                Err(e) => e.to_string(),
                Ok(i) => {
                    let mut h = 0;
                    for t in i.take(most) {
                        h = match t {
                            Token::Newline => mix2(h, 1),
                            Token::Lexeme(l) => {
                                mix2(mix2(h, hash_str(l.value)), mix2(hash_str(&l.scope.to_string()), mix2(l.position.line as u64, l.position.offset as u64)))
                            }
                        };
                    }
                    format!("{:x}", h)
                }
            },
        })
    }

    /// All buffers one after another, and what can be undone in them.
    fn tour(&mut self, unwind: bool) -> Result<Vec<String>, String> {
        let mut out = vec![self.paths()?];
        let n = guard("buffer_paths", || self.ws.buffer_paths().len())?;
        for _ in 0..n {
            out.push(describe(&self.view(String::new())?));
            out.push(self.tokens(500)?);
            if unwind {
                if let Some(b) = self.ws.current_buffer.as_mut() {
                    for k in 0..12 {
                        guard("undo or redo", || if k < 6 { b.undo() } else { b.redo() })?;
                        out.push(guard("data", || format!("{} {}", b.modified(), b.data()))?);
                    }
                }
            }
            guard("next_buffer", || self.ws.next_buffer())?;
        }
        Ok(out)
    }

    /// Asks a number of questions.
    fn ask(&mut self, r: &mut Rng, n: usize) -> Result<u64, String> {
        let before = self.calls.get();
        for _ in 0..n {
            match r.below(8) {
                0 | 1 => {
                    let (a, b) = (self.paths()?, self.paths()?);
                    if a != b {
                        return Err(format!("the paths are {}, and asked again {}", a, b));
                    }
                }
                2 => {
                    let most = *r.pick(&[0, 1, 2, 5, 1000]);
                    let (a, b) = (self.tokens(most)?, self.tokens(most)?);
                    if a != b {
                        return Err("tokens are others when asked again".into());
                    }
                }
                3 => {
                    guard("current_buffer_index", || self.ws.current_buffer_index())?;
                }
                _ => {
                    let (x, y) = (Position { line: r.below(4), offset: r.below(5) }, Position { line: r.below(4), offset: r.below(5) });
                    let kind = r.below(6);
                    if let Some(b) = self.ws.current_buffer.as_ref() {
                        guard("asking the current buffer", || match kind {
                            0 => drop(b.read(&Range::new(x, y))),
                            1 => drop(b.search("a")),
                            2 => drop((b.modified(), b.line_count(), b.data())),
                            3 => drop((b.file_name(), b.file_extension())),
                            4 => drop(b.cursor.data.borrow().in_bounds(&x)),
                            _ => {
                                let mut c = b.cursor.clone();
                                c.move_to(x);
                                c.move_to_last_line();
                            }
                        })?;
                    }
                }
            }
        }
        if self.calls.get() != before {
            return Err("a question announced a change".into());
        }
        Ok(n as u64)
    }
}

fn describe(v: &View) -> String {
    match &v.current {
        None => format!("{}, index {:?}, no current buffer", v.ret, v.index),
        Some(c) => format!(
            "{}, index {:?}, id {:?}, {}, cursor {}, modified {}, path {:?}, syntax {:?}",
            v.ret,
            v.index,
            c.id,
            show(&c.text),
            p(&c.pos),
            c.modified,
            c.path,
            c.syntax
        ),
    }
}

fn same(what: &str, a: &Act, expected: &View, got: &View) -> Result<(), String> {
    if expected == got {
        return Ok(());
    }
    Err(format!("{}, after {:?} there is: {}\n  otherwise: {}", what, a, describe(got), describe(expected)))
}

fn same_tours(what: &str, expected: &[String], got: &[String]) -> Result<(), String> {
    for (x, y) in expected.iter().zip(got) {
        if x != y {
            return Err(format!("{}, all buffers in turn, undone and redone: {}", what, diff(x, y)));
        }
    }
    if expected.len() != got.len() {
        return Err(format!("{}, another number of buffers is open", what));
    }
    Ok(())
}

/// What happens when looking at everything after every call, and at the end.
fn record(s: &Script, dir: &Path, lex: bool, lexed: &mut Vec<String>) -> Result<(Vec<View>, Vec<String>), String> {
    let mut space = Space::start(s, dir)?;
    let mut views = vec![];
    for a in &s.acts {
        let ret = space.act(a)?;
        views.push(space.view(ret)?);
        lexed.push(if lex { space.tokens(500)? } else { String::new() });
    }
    let tour = space.tour(true)?;
    Ok((views, tour))
}

pub struct Told {
    pub calls: u64,
    pub asked: u64,
    pub signature: u64,
}

/// For Q01: without any questions, and with many.
pub fn questions(ctx: &Ctx, seed: u64) -> Result<Told, String> {
    let mut r = Rng::new(mix2(seed, 0x5BACE));
    let s = script(&mut r, ctx);
    ctx.say(|| format!("a workspace, {:?}: {:?}", s.style, s.acts));
    let base = ctx.scratch.join("space");
    let out = (|| {
        let mut lexed = vec![];
        let lex = r.chance(60);
        let (views, tour) = record(&s, &base.join("recorded"), lex, &mut lexed)?;
        let mut told = Told { calls: 0, asked: 0, signature: seed };
        let mut bare = Space::start(&s, &base.join("bare"))?;
        for (a, v) in s.acts.iter().zip(&views) {
            let ret = bare.act(a)?;
            if ret != v.ret {
                return Err(format!("without any questions asked in between, {:?} returns {}, otherwise {}", a, ret, v.ret));
            }
            told.calls += 1;
            told.signature = mix2(told.signature, hash_str(&describe(v)));
        }
        if let (Some(a), Some(v)) = (s.acts.last(), views.last()) {
            same("without any questions asked in between", a, v, &bare.view(v.ret.clone())?)?;
        }
        same_tours("without any questions asked in between", &tour, &bare.tour(true)?)?;
        drop(bare);
        let mut busy = Space::start(&s, &base.join("busy"))?;
        for (k, (a, v)) in s.acts.iter().zip(&views).enumerate() {
            let n = r.below(7);
            told.asked += busy.ask(&mut r, n)?;
            let ret = busy.act(a)?;
            same("with many questions asked in between", a, v, &busy.view(ret)?)?;
            told.calls += 1;
            if lex && r.one_in(3) && busy.tokens(500)? != lexed[k] {
                return Err(format!("with many questions asked in between, the tokens after {:?} are others", a));
            }
        }
        told.asked += busy.ask(&mut r, 5)?;
        same_tours("with many questions asked in between", &tour, &busy.tour(true)?)?;
        Ok(told)
    })();
    let _ = fs::remove_dir_all(&base);
    out
}

/// For I01: several workspaces taking turns, or on threads of their own.
pub fn several(ctx: &Ctx, seed: u64) -> Result<Told, String> {
    let mut r = Rng::new(mix2(seed, 0x5BACF));
    let n = r.range(2, 3);
    let base = ctx.scratch.join("spaces");
    let out = (|| {
        let mut scripts = vec![];
        let mut recorded = vec![];
        let mut told = Told { calls: 0, asked: 0, signature: seed };
        for k in 0..n {
            let mut s = script(&mut r, ctx);
            if k > 0 && r.one_in(3) {
                // The same again, in a workspace that has other syntaxes.
                let first: &Script = &scripts[0];
                s.acts = first.acts.clone();
                s.files = first.files.clone();
            }
            ctx.say(|| format!("workspace {}, {:?}: {:?}", k, s.style, s.acts));
            recorded.push(record(&s, &base.join(format!("{}", k)), false, &mut vec![])?);
            for v in &recorded[k].0 {
                told.signature = mix2(told.signature, hash_str(&describe(v)));
            }
            scripts.push(s);
        }
        if r.chance(25) {
            let start = Barrier::new(n);
            let results: Vec<Result<(), String>> = std::thread::scope(|scope| {
                let handles: Vec<_> = (0..n)
                    .map(|k| {
                        let (start, s, rec, dir) = (&start, &scripts[k], &recorded[k], base.join(format!("{}", k)));
                        scope.spawn(move || -> Result<(), String> {
                            start.wait();
                            let mut space = Space::start(s, &dir)?;
                            for (a, v) in s.acts.iter().zip(&rec.0) {
                                let ret = space.act(a)?;
                                same("with other workspaces in use on other threads", a, v, &space.view(ret)?)?;
                            }
                            same_tours("with other workspaces in use on other threads", &rec.1, &space.tour(true)?)
                        })
                    })
                    .collect();
                handles.into_iter().map(|h| h.join().expect("thread")).collect()
            });
            told.calls += scripts.iter().map(|s| s.acts.len() as u64).sum::<u64>();
            results.into_iter().collect::<Result<(), String>>()?;
            return Ok(told);
        }
        let mut spaces = vec![];
        for (k, s) in scripts.iter().enumerate() {
            spaces.push(Space::start(s, &base.join(format!("{}", k)))?);
        }
        let mut at = vec![0; n];
        loop {
            let left: Vec<usize> = (0..n).filter(|k| at[*k] < scripts[*k].acts.len()).collect();
            if left.is_empty() {
                break;
            }
            let k = *r.pick(&left);
            for _ in 0..*r.pick(&[1, 1, 2, 6]) {
                if let Some(a) = scripts[k].acts.get(at[k]) {
                    let ret = spaces[k].act(a)?;
                    same(&format!("with {} other workspaces in use", n - 1), a, &recorded[k].0[at[k]], &spaces[k].view(ret)?)?;
                    if r.one_in(3) {
                        spaces[k].tokens(300)?;
                    }
                    at[k] += 1;
                    told.calls += 1;
                }
            }
        }
        for k in 0..n {
            same_tours("with other workspaces in use", &recorded[k].1, &spaces[k].tour(true)?)?;
        }
        Ok(told)
    })();
    let _ = fs::remove_dir_all(&base);
    out
}

/// For D01: everything that a workspace shows, a line for each call.
pub fn story(ctx: &Ctx, seed: u64) -> Vec<String> {
    let mut r = Rng::new(mix2(seed, 0x5BAD0));
    let s = script(&mut r, ctx);
    let dir = ctx.scratch.join("space");
    let mut out = vec![];
    let verdict = (|| -> Result<(), String> {
        let mut space = Space::start(&s, &dir)?;
        out.push(guard("syntaxes", || format!("{:?}", space.ws.syntax_set.syntaxes().iter().map(|s| s.name.as_str()).collect::<Vec<_>>()))?);
        for a in &s.acts {
            let ret = space.act(a)?;
            out.push(format!("{:?}: {}; {}", a, describe(&space.view(ret)?), space.paths()?));
            if r.one_in(5) {
                out.push(space.tokens(300)?);
            }
        }
        out.extend(space.tour(true)?);
        // And a workspace with definitions of its own, good ones or not.
        let user = ctx.scratch.join("user");
        fs::create_dir_all(user.join("more")).expect("scratch");
        for (name, ext) in [("Alpha", "rs"), ("Beta", "unknownext"), ("more/Gamma", "noext")] {
            if r.chance(70) {
                let bad = r.one_in(6);
                let text = if bad {
                    "%YAML 1.2\n---\nname: [".to_string()
                } else {
                    format!("%YAML 1.2\n---\nname: {name}\nfile_extensions: [{ext}]\nscope: source.{ext}\ncontexts:\n  main:\n    - match: a\n      scope: a.{ext}\n")
                };
                fs::write(user.join(format!("{name}.sublime-syntax")), text).expect("scratch");
            }
        }
        let root = space.dir.join("root");
        out.push(match guard("Workspace::new", || Workspace::new(&root, Some(&user)))? {
            Err(e) => format!("refused: {}", e),
            Ok(mut ws) => {
                let mut names: Vec<String> = ws.syntax_set.syntaxes().iter().map(|s| format!("{} {}", s.name, s.scope)).collect();
                names.sort();
                let mut told = format!("{:?}", names);
                for n in ["a.rs", "out/x.unknownext", "sub/noext", "Makefile", "missing"] {
                    let e = guard("open_buffer", || ws.open_buffer(&root.join(n)))?;
                    let got = ws.current_buffer.as_ref().and_then(|b| b.syntax_definition.as_ref()).map(|s| s.name.clone());
                    told.push_str(&format!(" {} {:?} {:?}", n, e.map_err(|e| e.to_string()), got));
                }
                told
            }
        });
        Ok(())
    })();
    if let Err(e) = verdict {
        out.push(e);
    }
    out.extend(crate::props_proc::files_below(&ctx.scratch));
    out
}
