//! The workload for the memory checks, run under Miri, the address sanitizer and
//! memcheck: histories on text stores, buffers and cursors, with the strings they
//! hand out checked. What they contain exactly is not judged here.

use crate::gen::{self, Dict, Style};
use crate::model::Doc;
use crate::rng::{hash_str, mix2, Rng};
use crate::run::guard;
use crate::session::{needle, some_range, variant};
use scribe::buffer::{Distance, GapBuffer, LineRange, Position};
use scribe::util::LineIterator;
use scribe::Buffer;
use std::cell::RefCell;
use std::collections::HashSet;
use std::rc::Rc;

#[derive(Default, Debug)]
pub struct Seen {
    pub histories: u64,
    pub calls: u64,
    pub strings: u64,
    pub bytes: u64,
    pub inserted: u64,
    pub deleted: u64,
    pub undone: u64,
    pub longest: u64,
    pub threaded: u64,
    pub panics: u64,
    pub signatures: HashSet<u64>,
}

struct Case<'a> {
    r: Rng,
    dict: &'a Dict,
    style: Style,
    /// Every character put in, sorted.
    known: Vec<char>,
    seen: &'a mut Seen,
    max: usize,
    sig: u64,
}

impl Case<'_> {
    /// Judges a string that the library handed out.
    fn string(&mut self, s: &str, what: &str) -> Result<(), String> {
        self.seen.strings += 1;
        self.seen.bytes += s.len() as u64;
        if let Err(e) = std::str::from_utf8(s.as_bytes()) {
            return Err(format!("{} returned invalid UTF-8: {}", what, e));
        }
        // Looks at every byte, too: none may be uninitialised.
        for c in s.chars() {
            if self.known.binary_search(&c).is_err() {
                return Err(format!("{} returned {:?}, which was never put in (in {})", what, c, crate::model::show(s)));
            }
        }
        self.sig = mix2(self.sig, hash_str(s));
        Ok(())
    }

    fn text(&mut self, n: usize) -> String {
        let mut t = gen::text_of(&mut self.r, self.style, self.dict, n);
        if self.r.one_in(9) {
            let c = *self.r.pick(&['a', 'é', '日', '😀']);
            let n = self.r.below(self.max);
            t = std::iter::repeat(c).take(n).collect();
        }
        self.learn(&t);
        t
    }

    fn learn(&mut self, t: &str) {
        for c in t.chars() {
            if let Err(i) = self.known.binary_search(&c) {
                self.known.insert(i, c);
            }
        }
        self.seen.inserted += t.len() as u64;
    }

    fn place(&mut self, d: &Doc) -> Position {
        let near = d.end();
        gen::any_pos(&mut self.r, d, 15, near)
    }

    fn store(&mut self, ops: usize) -> Result<(), String> {
        let n = self.r.below(self.max);
        let t = self.text(n);
        // Strings with room to spare, and without.
        let t = if self.r.chance(50) {
            let mut s = String::with_capacity(t.len() + self.r.below(40));
            s.push_str(&t);
            s
        } else {
            t
        };
        let mut g = guard("new", || GapBuffer::new(t))?;
        for _ in 0..ops {
            let t = guard("to_string", || g.to_string())?;
            self.string(&t, "to_string")?;
            self.seen.longest = self.seen.longest.max(t.len() as u64);
            let d = Doc::new(&t);
            let q = self.place(&d);
            self.seen.calls += 2;
            match self.r.below(8) {
                0..=3 => {
                    let n = if self.r.one_in(4) { self.r.below(self.max) } else { self.r.below(6) };
                    let s = self.text(n);
                    guard("insert", || g.insert(&s, &q))?;
                }
                4 | 5 => {
                    let range = some_range(&mut self.r, &d, 15, q);
                    self.seen.deleted += 1;
                    guard("delete", || g.delete(&range))?;
                }
                6 => {
                    let range = some_range(&mut self.r, &d, 15, q);
                    if let Some(s) = guard("read", || g.read(&range))? {
                        self.string(&s, "read")?;
                    }
                }
                _ => {
                    guard("in_bounds", || g.in_bounds(&q))?;
                }
            }
        }
        let t = guard("to_string", || g.to_string())?;
        self.string(&t, "to_string")
    }

    fn buffer(&mut self, ops: usize) -> Result<(), String> {
        let mut b = Buffer::new();
        // A callback looking at the text while it's being changed elsewhere would be
        // beyond its contract; one counting positions is not.
        let told: Rc<RefCell<Vec<Position>>> = Rc::default();
        if self.r.chance(50) {
            let log = told.clone();
            b.change_callback = Some(Box::new(move |q| log.borrow_mut().push(q)));
        }
        let n = self.r.below(self.max);
        let t = self.text(n);
        guard("insert", || b.insert(t))?;
        let mut spare = None;
        for _ in 0..ops {
            let t = guard("data", || b.data())?;
            self.string(&t, "data")?;
            self.seen.longest = self.seen.longest.max(t.len() as u64);
            let d = Doc::new(&t);
            let q = self.place(&d);
            self.seen.calls += 2;
            match self.r.below(22) {
                0..=3 => {
                    let n = if self.r.one_in(5) { self.r.below(self.max) } else { self.r.below(6) };
                    let s = self.text(n);
                    guard("insert", || b.insert(s))?;
                }
                4 | 5 => guard("delete", || b.delete())?,
                6 => {
                    let range = some_range(&mut self.r, &d, 15, q);
                    self.seen.deleted += 1;
                    guard("delete_range", || b.delete_range(range))?;
                }
                7..=9 => {
                    guard("move_to", || b.cursor.move_to(q))?;
                }
                10 => {
                    let k = self.r.below(8);
                    guard("moving", || match k {
                        0 => b.cursor.move_up(),
                        1 => b.cursor.move_down(),
                        2 => b.cursor.move_left(),
                        3 => b.cursor.move_right(),
                        4 => b.cursor.move_to_start_of_line(),
                        5 => b.cursor.move_to_end_of_line(),
                        6 => b.cursor.move_to_first_line(),
                        _ => b.cursor.move_to_last_line(),
                    })?;
                }
                11..=13 => {
                    self.seen.undone += 1;
                    guard("undo", || b.undo())?;
                }
                14 | 15 => {
                    self.seen.undone += 1;
                    guard("redo", || b.redo())?;
                }
                16 => guard("start_operation_group", || b.start_operation_group())?,
                17 => guard("end_operation_group", || b.end_operation_group())?,
                18 => {
                    let t = variant(&mut self.r, &d, self.style, self.dict);
                    self.learn(&t);
                    guard("replace", || b.replace(t))?;
                }
                19 => {
                    let s = needle(&mut self.r, &d, self.style, self.dict);
                    let found = guard("search", || b.search(&s))?;
                    self.sig = mix2(self.sig, found.len() as u64);
                }
                20 => {
                    let range = some_range(&mut self.r, &d, 15, q);
                    if let Some(s) = guard("read", || b.read(&range))? {
                        self.string(&s, "read")?;
                    }
                }
                _ => {
                    // Cursors and texts may outlive their buffer.
                    if self.r.chance(50) {
                        spare = Some((b.cursor.clone(), b.cursor.data.clone()));
                    } else if let Some((mut c, data)) = spare.take() {
                        guard("moving a spare cursor", || {
                            c.move_to(q);
                            c.move_down();
                            c.move_to_last_line();
                        })?;
                        let t = guard("to_string", || data.borrow().to_string())?;
                        self.string(&t, "to_string of spare data")?;
                    }
                    guard("line_count, modified", || (b.line_count(), b.modified()))?;
                }
            }
        }
        let t = guard("data", || b.data())?;
        drop(b);
        self.string(&t, "data")?;
        if let Some((c, data)) = spare {
            drop(c);
            let t = guard("to_string", || data.borrow().to_string())?;
            self.string(&t, "to_string after the buffer is gone")?;
        }
        Ok(())
    }

    fn lines(&mut self) -> Result<(), String> {
        let n = self.r.below(self.max * 2);
        let t = self.text(n);
        let all: Vec<(usize, &str)> = guard("iterating over lines", || LineIterator::new(&t).collect())?;
        for (_, l) in all {
            self.string(l, "a line")?;
        }
        let d = guard("Distance::of_str", || Distance::of_str(&t))?;
        let range = LineRange::new(d.lines, 3);
        let (a, b) = guard("ranges", || (range.to_range(), range.to_inclusive_range()))?;
        self.sig = mix2(self.sig, (a.end().line + b.end().line) as u64);
        self.seen.calls += 4;
        Ok(())
    }
}

/// Histories at the same time: each thread has buffers of its own.
fn threads(r: &mut Rng, dict: &Dict, style: Style, small: bool, seen: &mut Seen) -> Result<(), String> {
    let seeds: Vec<u64> = (0..r.range(2, 3)).map(|_| r.next()).collect();
    let (max, ops) = if small { (8, r.range(3, 8)) } else { (200, r.range(10, 60)) };
    let all: Vec<(Seen, Result<(), String>)> = std::thread::scope(|s| {
        let running: Vec<_> = seeds
            .iter()
            .map(|seed| {
                s.spawn(move || {
                    let mut own = Seen::default();
                    let mut c = Case { r: Rng::new(*seed), dict, style, known: vec![], seen: &mut own, max, sig: 3 };
                    let out = match seed % 8 {
                        0..=3 => c.store(ops),
                        4..=6 => c.buffer(ops),
                        _ => c.lines(),
                    };
                    let sig = c.sig;
                    own.signatures.insert(sig);
                    (own, out)
                })
            })
            .collect();
        running.into_iter().map(|t| t.join().expect("a thread")).collect()
    });
    seen.histories += 1;
    seen.threaded += 1;
    for (own, out) in all {
        seen.calls += own.calls;
        seen.strings += own.strings;
        seen.bytes += own.bytes;
        seen.inserted += own.inserted;
        seen.deleted += own.deleted;
        seen.undone += own.undone;
        seen.longest = seen.longest.max(own.longest);
        seen.signatures.extend(own.signatures);
        tolerate(out, seen)?;
    }
    Ok(())
}

/// Only what concerns memory counts here: other panics are another property's.
fn tolerate(out: Result<(), String>, seen: &mut Seen) -> Result<(), String> {
    match out {
        Err(m) if m.contains(" panicked: ") && !m.contains("overflow") && !m.contains("unsafe precondition") && !m.contains("capacity") => {
            seen.panics += 1;
            Ok(())
        }
        o => o,
    }
}

/// One history; an error is a violation.
pub fn history(seed: u64, dict: &Dict, small: bool, seen: &mut Seen) -> Result<(), String> {
    let mut r = Rng::new(mix2(seed, 0x3E3));
    let style = gen::style(&mut r);
    let max = if small { *r.pick(&[3, 8, 16]) } else { *r.pick(&[4, 30, 200, 2000]) };
    let ops = if small { r.range(4, 14) } else { r.range(5, 60) };
    let kind = r.weighted(&[45, 50, 5, 5]);
    if kind == 3 {
        return threads(&mut r, dict, style, small, seen);
    }
    let mut c = Case { r, dict, style, known: vec![], seen, max, sig: kind as u64 };
    let out = match kind {
        0 => c.store(ops),
        1 => c.buffer(ops),
        _ => c.lines(),
    };
    let sig = c.sig;
    seen.histories += 1;
    seen.signatures.insert(sig);
    tolerate(out, seen)
}
