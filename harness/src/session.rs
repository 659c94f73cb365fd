//! A session: one buffer driven through a generated history of calls. Every call
//! becomes an event holding what was observed before, during and after it.

use crate::fault::{self, Plan, Seen};
use crate::gen::{self, Dict, Style};
use crate::model::{show, Doc};
use crate::rng::{mix2, Rng};
use crate::run::{guard, Ctx};
use scribe::buffer::{Cursor, GapBuffer, Position, Range};
use scribe::Buffer;
use std::cell::RefCell;
use std::fs;
use std::path::{Path, PathBuf};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Fail {
    NoPath,
    MissingFolder,
    Folder,
    Missing,
    InvalidUtf8,
    Open(i32),
    Read(u32, i32),
    Write(u32, i32, usize), // nth write, error, piece size
}

#[derive(Clone, Debug)]
pub enum Op {
    Insert(String),
    Delete,
    DeleteRange(Range),
    MoveTo(Position),
    Up,
    Down,
    Left,
    Right,
    StartOfLine,
    EndOfLine,
    FirstLine,
    LastLine,
    Undo,
    Redo,
    StartGroup,
    EndGroup,
    Replace(String),
    Save(Plan),
    SaveFail(Fail),
    Reload(Plan),
    ReloadFail(Fail),
    External(String),
    Read(Range),
    InBounds(Position),
    Search(String),
    LineCount,
}

impl Op {
    pub fn kind(&self) -> &'static str {
        match self {
            Op::Insert(_) => "insert",
            Op::Delete => "delete",
            Op::DeleteRange(_) => "delete_range",
            Op::MoveTo(_) => "move_to",
            Op::Up => "move_up",
            Op::Down => "move_down",
            Op::Left => "move_left",
            Op::Right => "move_right",
            Op::StartOfLine => "move_to_start_of_line",
            Op::EndOfLine => "move_to_end_of_line",
            Op::FirstLine => "move_to_first_line",
            Op::LastLine => "move_to_last_line",
            Op::Undo => "undo",
            Op::Redo => "redo",
            Op::StartGroup => "start_operation_group",
            Op::EndGroup => "end_operation_group",
            Op::Replace(_) => "replace",
            Op::Save(_) => "save",
            Op::SaveFail(_) => "failing save",
            Op::Reload(_) => "reload",
            Op::ReloadFail(_) => "failing reload",
            Op::External(_) => "external write",
            Op::Read(_) => "read",
            Op::InBounds(_) => "in_bounds",
            Op::Search(_) => "search",
            Op::LineCount => "line_count",
        }
    }
    pub fn is_move(&self) -> bool {
        matches!(
            self,
            Op::MoveTo(_)
                | Op::Up
                | Op::Down
                | Op::Left
                | Op::Right
                | Op::StartOfLine
                | Op::EndOfLine
                | Op::FirstLine
                | Op::LastLine
        )
    }
    pub fn show(&self) -> String {
        match self {
            Op::Insert(s) => format!("insert({})", show(s)),
            Op::DeleteRange(r) => format!("delete_range({}..{})", p(&r.start()), p(&r.end())),
            Op::MoveTo(q) => format!("move_to({})", p(q)),
            Op::Replace(s) => format!("replace({})", show(s)),
            Op::External(s) => format!("file on disk becomes {}", show(s)),
            Op::Read(r) => format!("read({}..{})", p(&r.start()), p(&r.end())),
            Op::InBounds(q) => format!("in_bounds({})", p(q)),
            Op::Search(s) => format!("search({})", show(s)),
            Op::SaveFail(f) => format!("save, failing: {:?}", f),
            Op::ReloadFail(f) => format!("reload, failing: {:?}", f),
            o => format!("{}()", o.kind()),
        }
    }
}

pub fn p(q: &Position) -> String {
    let n = |v: usize| {
        if v == usize::MAX {
            "MAX".to_string()
        } else if v == usize::MAX - 1 {
            "MAX-1".to_string()
        } else {
            v.to_string()
        }
    };
    format!("{}:{}", n(q.line), n(q.offset))
}

#[derive(Clone)]
pub struct Snap {
    pub doc: Rc<Doc>,
    pub pos: Position,
    pub modified: bool,
    /// What was said when the path was taken away for a moment.
    pub pathless: Option<bool>,
}

#[derive(Clone, Debug)]
pub enum Ret {
    None,
    Bool(bool),
    Text(Option<String>),
    Positions(Vec<Position>),
    Count(usize),
    Io(Result<(), String>),
}

pub struct Event {
    pub op: Op,
    pub before: Snap,
    pub after: Snap,
    pub callbacks: Vec<Position>,
    /// What the callback saw of the text whenever it ran, if it looked.
    pub peeks: Vec<String>,
    pub same_store: bool,
    pub ret: Ret,
    pub seen: Seen,
    /// Contents of the file after a save, or before a reload.
    pub disk: Option<Vec<u8>>,
    pub path_kept: bool,
    pub meta_kept: bool,
}

/// How often each kind of call is made, and with which arguments.
#[derive(Clone)]
pub struct Profile {
    pub insert: u32,
    pub delete: u32,
    pub delete_range: u32,
    pub move_to: u32,
    pub vertical: u32,
    pub horizontal: u32,
    pub line_ends: u32,
    pub first_last: u32,
    pub undo: u32,
    pub redo: u32,
    pub group: u32,
    pub replace: u32,
    pub save: u32,
    pub save_fail: u32,
    pub reload: u32,
    pub reload_fail: u32,
    pub external: u32,
    pub read: u32,
    pub in_bounds: u32,
    pub search: u32,
    pub line_count: u32,
    pub invalid: usize,
    /// Start from a file on disk in this share of cases.
    pub from_file: usize,
    pub big: bool,
    pub long: bool,
    /// The callback looks at the text.
    pub watch: bool,
}

impl Default for Profile {
    fn default() -> Profile {
        Profile {
            insert: 24,
            delete: 10,
            delete_range: 10,
            move_to: 18,
            vertical: 4,
            horizontal: 4,
            line_ends: 3,
            first_last: 2,
            undo: 12,
            redo: 8,
            group: 4,
            replace: 2,
            save: 1,
            save_fail: 1,
            reload: 1,
            reload_fail: 1,
            external: 1,
            read: 1,
            in_bounds: 1,
            search: 1,
            line_count: 1,
            invalid: 8,
            from_file: 0,
            big: true,
            long: true,
            watch: false,
        }
    }
}

/// A callback that looks at the text.
pub struct Watch {
    store: Rc<RefCell<Store>>,
    peeks: Rc<RefCell<Vec<String>>>,
}

type Store = Option<Rc<RefCell<GapBuffer>>>;

pub struct Session {
    pub buf: Buffer,
    pub watch: Option<Watch>,
    pub log: Rc<RefCell<Vec<Position>>>,
    pub file: PathBuf,
    pub near: Position,
    pub last: Option<Snap>,
    pub trace: Option<Vec<String>>,
    pub synced_at_start: bool,
}

pub struct Plan0 {
    pub style: Style,
    pub ops: usize,
    pub text: String,
    pub from_file: bool,
    pub calm: bool,
    pub typed_in: bool,
    pub base: u64,
    pub phase: usize,
}

/// Choices made once per case.
pub fn plan_case(seed: u64, prof: &Profile, dict: &Dict) -> Plan0 {
    let mut r = Rng::new(mix2(seed, 0xA11CE));
    let style = gen::style(&mut r);
    let text = gen::document(&mut r, style, dict, prof.big);
    let ops = if text.len() > 50_000 {
        r.range(3, 9)
    } else if text.len() > 4000 {
        r.range(8, 30)
    } else {
        match r.weighted(&[35, 45, 17, if prof.long { 3 } else { 0 }]) {
            0 => r.range(4, 20),
            1 => r.range(20, 70),
            2 => r.range(70, 220),
            _ => {
                if r.chance(50) {
                    dict.int(&mut r, 2500).unwrap_or(1100) * 2 + 20
                } else {
                    *r.pick(&[320, 620, 1100, 1500, 2300])
                }
            }
        }
    };
    Plan0 {
        style,
        ops,
        text,
        from_file: r.chance(prof.from_file),
        calm: r.chance(35),
        typed_in: r.chance(50),
        base: mix2(seed, 0x0B5),
        phase: r.range(3, 24),
    }
}

impl Session {
    pub fn start(ctx: &Ctx, plan: &Plan0) -> Result<Session, String> {
        let file = ctx.scratch.join("doc.txt");
        let log: Rc<RefCell<Vec<Position>>> = Rc::new(RefCell::new(Vec::new()));
        let (mut buf, synced) = if plan.from_file {
            fs::write(&file, plan.text.as_bytes()).expect("scratch write");
            let b = guard("from_file", || Buffer::from_file(&file))?
                .map_err(|e| format!("from_file failed without any fault: {}", e))?;
            (b, true)
        } else {
            let mut b = if plan.text.len() % 3 == 1 { Buffer::default() } else { Buffer::new() };
            let t = plan.text.clone();
            let _ = fs::remove_file(&file);
            if !t.is_empty() {
                if plan.typed_in {
                    guard("insert (initial text)", || b.insert(t))?;
                } else {
                    guard("replace (initial text)", || b.replace(t))?;
                }
            }
            b.path = Some(file.clone());
            (b, false)
        };
        let l = log.clone();
        buf.change_callback = Some(Box::new(move |q| l.borrow_mut().push(q)));
        buf.id = Some(77);
        Ok(Session {
            buf,
            watch: None,
            log,
            file,
            near: Position { line: 0, offset: 0 },
            last: None,
            trace: if ctx.tracing { Some(vec![format!("start with {}{}", show(&plan.text), if synced { " (from file)" } else { "" })]) } else { None },
            synced_at_start: synced,
        })
    }

    /// From now on, the callback looks at the text while it runs.
    pub fn watch(&mut self, seed: u64) {
        let store: Rc<RefCell<Store>> = Rc::default();
        let peeks: Rc<RefCell<Vec<String>>> = Rc::default();
        let (l, s, k) = (self.log.clone(), store.clone(), peeks.clone());
        let r = RefCell::new(Rng::new(seed));
        self.buf.change_callback = Some(Box::new(move |q| {
            l.borrow_mut().push(q);
            let Some(data) = s.borrow().clone() else { return };
            let mut r = r.borrow_mut();
            // The text itself, by one way or another.
            let text = data.borrow().to_string();
            if text.len() < 20_000 && r.chance(30) {
                data.borrow().in_bounds(&q);
                data.borrow().read(&Range::new(Position { line: 0, offset: 0 }, q));
                let mut c = Cursor::new(data.clone(), q);
                c.move_to(Position { line: q.line, offset: 0 });
                for _ in 0..3 {
                    match r.below(6) {
                        0 => c.move_up(),
                        1 => c.move_down(),
                        2 => c.move_left(),
                        3 => c.move_right(),
                        4 => c.move_to_end_of_line(),
                        _ => c.move_to_last_line(),
                    }
                }
            }
            k.borrow_mut().push(text);
        }));
        self.watch = Some(Watch { store, peeks });
    }

    pub fn snap(&mut self) -> Result<Snap, String> {
        let last = self.last.take();
        let buf = &mut self.buf;
        let s = guard("observing data/cursor/modified", || {
            let text = buf.data();
            let pos = buf.cursor.position;
            let mut pathless = None;
            if pos.offset % 3 == 1 {
                let path = buf.path.take();
                pathless = Some(buf.modified());
                buf.path = path;
            }
            let modified = buf.modified();
            (text, pos, modified, pathless)
        })?;
        let doc = match last {
            Some(ref l) if *l.doc.text == *s.0 => l.doc.clone(),
            _ => Rc::new(Doc::new(&s.0)),
        };
        let snap = Snap { doc, pos: s.1, modified: s.2, pathless: s.3 };
        self.last = Some(snap.clone());
        Ok(snap)
    }

    pub fn step(&mut self, op: Op) -> Result<Event, String> {
        let before = match self.last.clone() {
            Some(s) => s,
            None => self.snap()?,
        };
        if let Some(t) = self.trace.as_mut() {
            t.push(format!("[cursor {}] {}", p(&before.pos), op.show()));
        }
        self.log.borrow_mut().clear();
        let store = self.buf.cursor.data.clone();
        if let Some(w) = &self.watch {
            *w.store.borrow_mut() = Some(store.clone());
            w.peeks.borrow_mut().clear();
        }
        let mut seen = Seen::default();
        let mut disk = None;
        let file = self.file.clone();
        let path_before = self.buf.path.clone();
        let mut path_kept = true;
        let b = &mut self.buf;
        let name = op.show();
        if op.is_move() {
            // A copy of a cursor is as good as the cursor.
            match (before.pos.line * 5 + before.pos.offset * 3 + before.doc.text.len()) % 7 {
                0 => {
                    guard("cloning the cursor", || b.cursor = b.cursor.clone())?;
                }
                1 => {
                    guard("moving a copy of the cursor", || {
                        let mut copy = b.cursor.clone();
                        copy.move_down();
                        copy.move_right();
                    })?;
                }
                _ => {}
            }
        }
        // The cursor may be put where it is by its public field, too.
        let mut kept = None;
        if matches!(op, Op::Insert(_) | Op::Delete) && (before.pos.line + before.doc.text.len()) % 9 == 4 {
            guard("putting the cursor elsewhere and back", || {
                kept = Some(b.cursor.clone());
                if before.pos.offset > 0 {
                    b.cursor.move_to_start_of_line();
                } else {
                    b.cursor.move_to_end_of_line();
                }
                *b.cursor = before.pos;
            })?;
        }
        let ret = match &op {
            Op::Insert(s) => {
                let s = s.clone();
                guard(&name, || b.insert(s)).map(|_| Ret::None)
            }
            Op::Delete => guard(&name, || b.delete()).map(|_| Ret::None),
            Op::DeleteRange(r) => {
                let r = r.clone();
                guard(&name, || b.delete_range(r)).map(|_| Ret::None)
            }
            Op::MoveTo(q) => guard(&name, || b.cursor.move_to(*q)).map(Ret::Bool),
            Op::Up => guard(&name, || b.cursor.move_up()).map(|_| Ret::None),
            Op::Down => guard(&name, || b.cursor.move_down()).map(|_| Ret::None),
            Op::Left => guard(&name, || b.cursor.move_left()).map(|_| Ret::None),
            Op::Right => guard(&name, || b.cursor.move_right()).map(|_| Ret::None),
            Op::StartOfLine => guard(&name, || b.cursor.move_to_start_of_line()).map(|_| Ret::None),
            Op::EndOfLine => guard(&name, || b.cursor.move_to_end_of_line()).map(|_| Ret::None),
            Op::FirstLine => guard(&name, || b.cursor.move_to_first_line()).map(|_| Ret::None),
            Op::LastLine => guard(&name, || b.cursor.move_to_last_line()).map(|_| Ret::None),
            Op::Undo => guard(&name, || b.undo()).map(|_| Ret::None),
            Op::Redo => guard(&name, || b.redo()).map(|_| Ret::None),
            Op::StartGroup => guard(&name, || b.start_operation_group()).map(|_| Ret::None),
            Op::EndGroup => guard(&name, || b.end_operation_group()).map(|_| Ret::None),
            Op::Replace(s) => {
                let s = s.clone();
                guard(&name, || b.replace(s)).map(|_| Ret::None)
            }
            Op::External(s) => {
                fs::write(&file, s.as_bytes()).expect("scratch write");
                Ok(Ret::None)
            }
            Op::Save(plan) => {
                let (r, s) = fault::with_plan(*plan, || guard(&name, || b.save().map_err(|e| e.to_string())));
                seen = s;
                disk = fs::read(&file).ok();
                r.map(Ret::Io)
            }
            Op::Reload(plan) => {
                disk = fs::read(&file).ok();
                let (r, s) = fault::with_plan(*plan, || guard(&name, || b.reload().map_err(|e| e.to_string())));
                seen = s;
                r.map(Ret::Io)
            }
            Op::SaveFail(f) | Op::ReloadFail(f) => {
                let saving = matches!(op, Op::SaveFail(_));
                let mut plan = Plan::default();
                let scratch = file.parent().unwrap().to_path_buf();
                let used: Option<PathBuf> = match f {
                    Fail::NoPath => None,
                    Fail::MissingFolder => Some(scratch.join("no such folder/doc.txt")),
                    Fail::Missing => Some(scratch.join("no such file")),
                    Fail::Folder => Some(scratch.clone()),
                    Fail::InvalidUtf8 => {
                        let bad = scratch.join("bad.txt");
                        let mut v = before.doc.text.as_bytes().to_vec();
                        let at = v.len() / 2;
                        v.insert(at, 0xff);
                        fs::write(&bad, v).expect("scratch write");
                        Some(bad)
                    }
                    Fail::Open(e) => {
                        plan.fail_open = 1;
                        plan.errno = *e;
                        path_before.clone()
                    }
                    Fail::Read(n, e) => {
                        plan.fail_read = *n;
                        plan.errno = *e;
                        path_before.clone()
                    }
                    Fail::Write(n, e, piece) => {
                        plan.fail_write = *n;
                        plan.errno = *e;
                        plan.piece = *piece;
                        path_before.clone()
                    }
                };
                // A passing fault, or one that stays.
                plan.once = before.doc.text.len() % 2 == 0;
                b.path = used.clone();
                let (r, s) = fault::with_plan(plan, || {
                    guard(&name, || {
                        if saving {
                            b.save().map_err(|e| e.to_string())
                        } else {
                            b.reload().map_err(|e| e.to_string())
                        }
                    })
                });
                seen = s;
                path_kept = b.path == used;
                b.path = path_before.clone();
                r.map(Ret::Io)
            }
            Op::Read(r) => guard(&name, || b.read(r)).map(Ret::Text),
            Op::InBounds(q) => guard(&name, || b.cursor.data.borrow().in_bounds(q)).map(Ret::Bool),
            Op::Search(s) => guard(&name, || b.search(s)).map(Ret::Positions),
            Op::LineCount => guard(&name, || b.line_count()).map(Ret::Count),
        }?;
        if let Some(kept) = kept {
            // With the column it wants, as if it had never been elsewhere.
            if self.buf.cursor.position == kept.position {
                self.buf.cursor = kept;
            }
        }
        let callbacks = self.log.borrow().clone();
        let mut peeks = vec![];
        let mut same_store = true;
        if let Some(w) = &self.watch {
            *w.store.borrow_mut() = None;
            peeks = w.peeks.take();
            same_store = Rc::ptr_eq(&store, &self.buf.cursor.data);
        }
        if path_kept {
            path_kept = self.buf.path == path_before;
        }
        let after = self.snap()?;
        if let Some(t) = self.trace.as_mut() {
            t.push(format!(
                "    -> {} cursor {}{}{}",
                if after.doc.text == before.doc.text { "same text".to_string() } else { show(&after.doc.text) },
                p(&after.pos),
                if after.modified { " modified" } else { "" },
                match &ret {
                    Ret::None => String::new(),
                    r => format!(" returned {}", clip(format!("{:?}", r))),
                }
            ));
        }
        match &op {
            Op::Insert(_) | Op::Delete => self.near = before.pos,
            Op::DeleteRange(r) => self.near = r.start(),
            _ => {}
        }
        Ok(Event {
            op,
            before,
            after,
            callbacks,
            peeks,
            same_store,
            ret,
            seen,
            disk,
            path_kept,
            meta_kept: self.buf.id == Some(77) && self.buf.change_callback.is_some(),
        })
    }

    /// The call made at an index of the history. Depends on the case, the index,
    /// and the state reached, so that histories stay meaningful when shortened.
    pub fn choose(&mut self, ctx: &Ctx, plan: &Plan0, prof: &Profile, index: usize) -> Result<Op, String> {
        let snap = match self.last.clone() {
            Some(s) => s,
            None => self.snap()?,
        };
        let d = &snap.doc;
        let mut r = Rng::new(mix2(plan.base, index as u64));
        let mut pr = Rng::new(mix2(plan.base ^ 0xFACE, (index / plan.phase) as u64));
        let mut f = prof.clone();
        if !plan.calm {
            // Phases of similar calls reach states that a uniform mix does not.
            match pr.below(11) {
                0 => f.undo *= 14,
                1 => f.redo *= 24,
                2 => {
                    f.undo *= 8;
                    f.redo *= 10;
                }
                3 => {
                    f.insert *= 4;
                    f.horizontal *= 3;
                }
                4 => {
                    f.delete *= 8;
                    f.delete_range *= 3;
                }
                5 => {
                    f.vertical *= 8;
                    f.line_ends *= 3;
                    f.first_last *= 2;
                }
                6 => {
                    f.group *= 5;
                    f.insert *= 2;
                }
                7 => {
                    f.insert *= 3;
                    f.move_to *= 3;
                }
                _ => {}
            }
        }
        // Keep texts from outgrowing the time a case may take.
        if d.text.len() > 60_000 {
            f.delete_range *= 3;
            f.insert /= 3;
        }
        let w = [
            f.insert, f.delete, f.delete_range, f.move_to, f.vertical, f.horizontal, f.line_ends, f.first_last, f.undo,
            f.redo, f.group, f.replace, f.save, f.save_fail, f.reload, f.reload_fail, f.external, f.read, f.in_bounds,
            f.search, f.line_count,
        ];
        let inv = prof.invalid;
        Ok(match r.weighted(&w) {
            0 => {
                let s = if plan.text.len() > 2000 && r.one_in(6) || r.one_in(120) {
                    gen::sized_text(&mut r, &ctx.dict, if prof.big { 6000 } else { 300 })
                } else {
                    gen::piece(&mut r, plan.style, &ctx.dict)
                };
                Op::Insert(s)
            }
            1 => Op::Delete,
            2 => Op::DeleteRange(some_range(&mut r, d, inv, self.near)),
            3 => Op::MoveTo(gen::any_pos(&mut r, d, inv, self.near)),
            4 => {
                if r.chance(50) {
                    Op::Up
                } else {
                    Op::Down
                }
            }
            5 => {
                if r.chance(40) {
                    Op::Left
                } else {
                    Op::Right
                }
            }
            6 => {
                if r.chance(40) {
                    Op::StartOfLine
                } else {
                    Op::EndOfLine
                }
            }
            7 => {
                if r.chance(50) {
                    Op::FirstLine
                } else {
                    Op::LastLine
                }
            }
            8 => Op::Undo,
            9 => Op::Redo,
            10 => {
                if r.chance(50) {
                    Op::StartGroup
                } else {
                    Op::EndGroup
                }
            }
            11 => {
                if r.chance(20) {
                    Op::Replace(d.text.to_string())
                } else {
                    Op::Replace(variant(&mut r, d, plan.style, &ctx.dict))
                }
            }
            12 => Op::Save(small_plan(&mut r)),
            13 => Op::SaveFail(match r.below(6) {
                0 => Fail::NoPath,
                1 => Fail::MissingFolder,
                2 => Fail::Folder,
                3 => Fail::Open(*r.pick(&[libc::EACCES, libc::EROFS, libc::EMFILE, libc::ENOSPC])),
                _ => {
                    if d.text.is_empty() {
                        Fail::Folder
                    } else {
                        let piece = *r.pick(&[0, 1, 3, 16, 100]);
                        let calls = if piece == 0 { 1 } else { (d.text.len() + piece - 1) / piece };
                        Fail::Write(
                            1 + r.below(calls) as u32,
                            *r.pick(&[libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EFBIG, libc::EPIPE]),
                            piece,
                        )
                    }
                }
            }),
            14 => Op::Reload(small_plan(&mut r)),
            15 => Op::ReloadFail(match r.below(6) {
                0 => Fail::NoPath,
                1 => Fail::Missing,
                2 => Fail::Folder,
                3 => Fail::InvalidUtf8,
                4 => Fail::Open(*r.pick(&[libc::EACCES, libc::EMFILE, libc::EIO])),
                _ => Fail::Read(1, *r.pick(&[libc::EIO, libc::EISDIR, libc::EBADF])),
            }),
            16 => Op::External(variant(&mut r, d, plan.style, &ctx.dict)),
            17 => Op::Read(some_range(&mut r, d, inv, self.near)),
            18 => Op::InBounds(gen::any_pos(&mut r, d, inv.max(30), self.near)),
            19 if prof.invalid >= 50 && r.chance(60) => Op::Search(wild_needle(&mut r, d, plan.style, &ctx.dict)),
            19 => Op::Search(needle(&mut r, d, plan.style, &ctx.dict)),
            _ => Op::LineCount,
        })
    }
}

fn clip(s: String) -> String {
    if s.len() > 200 {
        let mut e = 200;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}...", &s[..e])
    } else {
        s
    }
}

fn small_plan(r: &mut Rng) -> Plan {
    let mut p = Plan::default();
    if r.chance(40) {
        p.piece = *r.pick(&[1, 2, 5, 13, 64, 1000]);
        p.vary = r.chance(50);
    }
    if r.chance(25) {
        p.interrupt_every = r.range(1, 4) as u32;
        p.interrupt_run = *r.pick(&[1, 1, 2, 4, 12]);
    }
    p
}

pub fn some_range(r: &mut Rng, d: &Doc, inv: usize, near: Position) -> Range {
    let a = gen::any_pos(r, d, inv / 2, near);
    let b = match r.below(10) {
        0..=4 if d.exists(&a) => {
            // Close by: a few clusters or a line further.
            let n = r.below(6);
            if r.chance(25) {
                Position { line: a.line + 1, offset: r.below(3) }
            } else {
                Position { line: a.line, offset: a.offset.saturating_add(n) }
            }
        }
        5 => a,
        _ => gen::any_pos(r, d, inv, near),
    };
    let b = if d.exists(&b) || r.chance(inv.max(3) * 3) { b } else { gen::valid_pos(r, d) };
    if r.chance(20) {
        Range::new(b, a)
    } else {
        Range::new(a, b)
    }
}

/// A text related to the current one, as an external tool or another program leaves it.
pub fn variant(r: &mut Rng, d: &Doc, style: Style, dict: &Dict) -> String {
    let t = &d.text;
    match r.below(11) {
        9 | 10 if !t.is_empty() => {
            // The same number of bytes, characters and lines: one character differs.
            let chars: Vec<(usize, char)> = t.char_indices().collect();
            let (at, c) = *r.pick(&chars);
            let other: &[&str] = match c.len_utf8() {
                1 => &["a", "Z", "7", " ", "x"],
                2 => &["é", "ß", "ж"],
                3 => &["日", "本", "€"],
                _ => &["👩", "𝒳"],
            };
            format!("{}{}{}", &t[..at], r.pick(other), &t[at + c.len_utf8()..])
        }
        0 => String::new(),
        1 => gen::document(r, style, dict, false),
        2 => {
            // Cut somewhere.
            let (s, _) = d.position(r.below(t.len() + 1));
            t[..d.offset(&s).unwrap()].to_string()
        }
        3 => format!("{}{}", t, gen::piece(r, style, dict)),
        4 => format!("{}{}", gen::piece(r, style, dict), t),
        5 => t.replace('\n', "\r\n"),
        6 => t.split_inclusive('\n').rev().collect(),
        7 => {
            let (s, _) = d.position(r.below(t.len() + 1));
            let o = d.offset(&s).unwrap();
            format!("{}{}{}", &t[..o], gen::piece(r, style, dict), &t[o..])
        }
        _ => {
            let n = r.range(1, 60);
            gen::text_of(r, style, dict, n)
        }
    }
}

/// A non-empty search text without line breaks.
pub fn needle(r: &mut Rng, d: &Doc, style: Style, dict: &Dict) -> String {
    let t = &d.text;
    let crlf_free = !t.contains("\r\n");
    let mut s = String::new();
    if !t.is_empty() && r.one_in(14) {
        // Long: most of a line, or hardly different from it.
        let mut at = r.below(t.len());
        while !t.is_char_boundary(at) {
            at -= 1;
        }
        if r.chance(60) {
            at = t[..at].rfind('\n').map_or(0, |i| i + 1);
        }
        let line = t[at..].split('\n').next().unwrap_or("");
        let n = if r.chance(30) { dict.int(r, 5000) } else { None }.unwrap_or_else(|| *r.pick(&[20, 33, 70, 130, 257, 258, 300, 700, 5000, 70_000]));
        s = line.chars().take(n).collect();
        if r.chance(45) {
            let last = s.pop();
            s.push(if last == Some('q') { 'p' } else { 'q' });
        } else if r.one_in(8) && !s.is_empty() {
            s.push_str(if r.chance(50) { "q" } else { "a" });
        }
    }
    if s.is_empty() && !t.is_empty() && r.chance(75) {
        let bounds: Vec<usize> = {
            let at = r.below(t.len());
            t.char_indices().map(|(i, _)| i).skip_while(|i| *i < at).take(8).collect()
        };
        if !bounds.is_empty() {
            let n = r.range(1, bounds.len());
            let e = if n < bounds.len() { bounds[n] } else { (bounds[0] + 1..=t.len()).find(|i| t.is_char_boundary(*i)).unwrap() };
            s = t[bounds[0]..e].to_string();
        }
    }
    if s.is_empty() {
        let n = r.range(1, 3);
        s = gen::text_of(r, style, dict, n);
    }
    // Line breaks are outside of what can be searched for; so is a carriage
    // return in a text where it may be part of one.
    s.retain(|c| c != '\n' && (c != '\r' || crlf_free));
    if s.is_empty() {
        s.push_str(r.pick(&["a", "é", "\u{301}", "ab", "\0", "aa"]));
    }
    s
}

/// Search texts that nobody should search for.
pub fn wild_needle(r: &mut Rng, d: &Doc, style: Style, dict: &Dict) -> String {
    match r.below(9) {
        0 | 1 => String::new(),
        2 => (*r.pick(&["\n", "\r", "\r\n", "\n\n", "\r\r", "\n\r", "\0", "\u{301}", "\u{200d}", "\u{10ffff}"])).to_string(),
        3 => d.text.to_string(),
        4 => format!("{}{}", d.text, r.pick(&["a", "\n", "\u{301}"])),
        5 => {
            // Spans lines.
            let a = gen::valid_pos(r, d);
            let b = gen::valid_pos(r, d);
            let (x, y) = (d.offset(&a).unwrap(), d.offset(&b).unwrap());
            d.text[x.min(y)..x.max(y)].to_string()
        }
        6 => "a".repeat(r.below(70_000)),
        7 => {
            let n = r.range(1, 5);
            let mut s = gen::text_of(r, style, dict, n);
            s.push('\n');
            s
        }
        _ => {
            // Begins or ends inside of a character cluster, if there is one.
            let c: Vec<char> = d.text.chars().collect();
            if c.is_empty() {
                return String::new();
            }
            let i = r.below(c.len());
            c[i..(i + r.range(1, 3)).min(c.len())].iter().collect()
        }
    }
}

pub fn scratch_file(dir: &Path) -> PathBuf {
    dir.join("doc.txt")
}
