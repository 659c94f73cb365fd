//! Online monitors over session events. Each judges what a call did relative to
//! what was observed right before it, so that one wrong call is reported where it
//! happens and properties are decided independently of each other.

use crate::model::{common_prefix, diff, show, Doc};
use crate::rng::hash_str;
use crate::session::{p, Event, Op, Plan0, Ret};
use scribe::buffer::{Position, Range};
use std::collections::{BTreeSet, HashMap};
use std::rc::Rc;

pub type Verdict = Result<(), String>;

pub trait Monitor {
    fn on(&mut self, e: &Event) -> Verdict;
    /// Called when the history is over.
    fn counters(&self, _out: &mut HashMap<&'static str, u64>) {}
}

fn same_text(e: &Event) -> bool {
    Rc::ptr_eq(&e.before.doc, &e.after.doc) || e.before.doc.text == e.after.doc.text
}

fn expect_text(e: &Event, expected: &str) -> Verdict {
    if &*e.after.doc.text == expected {
        Ok(())
    } else {
        Err(format!(
            "{} with the cursor at {} on {}: wrong text: {}",
            e.op.show(),
            p(&e.before.pos),
            show(&e.before.doc.text),
            diff(expected, &e.after.doc.text)
        ))
    }
}

/// T04: edits change exactly the addressed text, and the cursor stays.
#[derive(Default)]
pub struct EditMon {
    pub replaced: bool,
    pub counts: [u64; 8],
}

impl Monitor for EditMon {
    fn on(&mut self, e: &Event) -> Verdict {
        let d = &e.before.doc;
        let at = &e.before.pos;
        let mut still = false;
        match &e.op {
            Op::Insert(s) => {
                still = true;
                match d.after_insert(at, s) {
                    Some(t) => {
                        self.counts[0] += 1;
                        expect_text(e, &t)?
                    }
                    None => {
                        self.counts[1] += 1;
                        expect_text(e, &d.text)?
                    }
                }
            }
            Op::Delete => {
                still = true;
                match d.after_delete_at(at) {
                    Some(t) => {
                        self.counts[2] += 1;
                        expect_text(e, &t)?
                    }
                    None => {
                        self.counts[3] += 1;
                        expect_text(e, &d.text)?
                    }
                }
            }
            Op::DeleteRange(r) => {
                still = true;
                match d.after_delete(r) {
                    Some(t) => {
                        self.counts[4] += 1;
                        expect_text(e, &t)?
                    }
                    None => {
                        self.counts[5] += 1;
                        expect_text(e, &d.text)?
                    }
                }
            }
            Op::Undo | Op::Redo => {
                // Reversing a replacement may move the cursor.
                still = !self.replaced;
                self.counts[6] += 1;
            }
            Op::Replace(_) | Op::Reload(_) => {
                if !same_text(e) {
                    self.replaced = true;
                }
            }
            o if o.is_move() => {
                if !same_text(e) {
                    return Err(format!("{} changed the text: {}", e.op.show(), diff(&d.text, &e.after.doc.text)));
                }
            }
            Op::StartGroup | Op::EndGroup | Op::Read(_) | Op::InBounds(_) | Op::Search(_) | Op::LineCount => {
                still = true;
                if !same_text(e) {
                    return Err(format!("{} changed the text: {}", e.op.show(), diff(&d.text, &e.after.doc.text)));
                }
            }
            _ => {}
        }
        if still && e.after.pos != e.before.pos {
            return Err(format!("{} moved the cursor from {} to {}", e.op.show(), p(&e.before.pos), p(&e.after.pos)));
        }
        Ok(())
    }
    fn counters(&self, out: &mut HashMap<&'static str, u64>) {
        for (n, c) in [
            "insertions judged",
            "insertions at a cursor that no longer exists",
            "deletions at the cursor judged",
            "deletions at a cursor that no longer exists",
            "range deletions judged",
            "range deletions at positions that don't exist",
            "undo/redo calls judged for cursor",
        ]
        .iter()
        .zip(self.counts)
        {
            *out.entry(n).or_default() += c;
        }
    }
}

/// C01 and C02: cursor placement and relative movement.
pub struct CursorMon {
    /// Desired columns that are acceptable; nothing: unknown.
    sticky: Option<BTreeSet<usize>>,
    judge_placement: bool,
    judge_relative: bool,
    pub counts: [u64; 8],
}

impl CursorMon {
    pub fn new(placement: bool, relative: bool) -> CursorMon {
        CursorMon {
            sticky: Some([0].into()),
            judge_placement: placement,
            judge_relative: relative,
            counts: [0; 8],
        }
    }
}

impl Monitor for CursorMon {
    fn on(&mut self, e: &Event) -> Verdict {
        let d = &e.before.doc;
        let from = e.before.pos;
        let to = e.after.pos;
        if let Op::Replace(_) | Op::Reload(_) | Op::Undo | Op::Redo = e.op {
            // The cursor may have been placed anew; either column may be kept. Reversing
            // a group can do that even if the text comes out the same.
            if !same_text(e) || matches!(e.op, Op::Undo | Op::Redo) {
                if let Some(s) = self.sticky.as_mut() {
                    s.insert(to.offset);
                    if to == (Position { line: 0, offset: 0 }) {
                        s.insert(0);
                    }
                }
            }
            return Ok(());
        }
        if !e.op.is_move() {
            return Ok(());
        }
        let existed = d.exists(&from);
        if self.judge_placement && existed && !d.exists(&to) {
            return Err(format!(
                "{} took the cursor from {} to {}, which does not exist in {}",
                e.op.show(),
                p(&from),
                p(&to),
                show(&d.text)
            ));
        }
        if let Op::MoveTo(q) = &e.op {
            let ok = d.exists(q);
            let want = if ok { *q } else { from };
            let returned = matches!(e.ret, Ret::Bool(true));
            self.counts[if ok { 0 } else { 1 }] += 1;
            if self.judge_placement && (returned != ok || to != want) {
                return Err(format!(
                    "{} from {} on {}: the position {}, but the call returned {} and the cursor is at {}",
                    e.op.show(),
                    p(&from),
                    show(&d.text),
                    if ok { "exists" } else { "does not exist" },
                    returned,
                    p(&to)
                ));
            }
            if ok {
                self.sticky = Some([q.offset].into());
            }
            return Ok(());
        }
        if !existed {
            self.counts[2] += 1;
            self.sticky = None;
            return Ok(());
        }
        self.counts[3] += 1;
        let len = d.clusters(from.line);
        let last = d.line_count() - 1;
        let exact = |line: usize, offset: usize| -> Verdict {
            if self.judge_relative && to != (Position { line, offset }) {
                return Err(format!(
                    "{} from {} on {}: expected {}:{}, got {}",
                    e.op.show(),
                    p(&from),
                    show(&d.text),
                    line,
                    offset,
                    p(&to)
                ));
            }
            Ok(())
        };
        match e.op {
            Op::Left => {
                exact(from.line, from.offset.saturating_sub(1))?;
                if from.offset > 0 {
                    self.sticky = Some([from.offset - 1].into());
                }
            }
            Op::Right => {
                exact(from.line, (from.offset + 1).min(len))?;
                if from.offset < len {
                    self.sticky = Some([from.offset + 1].into());
                }
            }
            Op::StartOfLine => {
                exact(from.line, 0)?;
                self.sticky = Some([0].into());
            }
            Op::EndOfLine => {
                exact(from.line, len)?;
                self.sticky = Some([len].into());
            }
            Op::Up if from.line == 0 => exact(from.line, from.offset)?,
            Op::Down if from.line == last => exact(from.line, from.offset)?,
            Op::Up | Op::Down | Op::FirstLine | Op::LastLine => {
                let line = match e.op {
                    Op::Up => from.line - 1,
                    Op::Down => from.line + 1,
                    Op::FirstLine => 0,
                    _ => last,
                };
                let n = d.clusters(line);
                match &self.sticky {
                    Some(s) => {
                        // Only columns that explain what was observed remain possible.
                        let fits: BTreeSet<usize> = s.iter().copied().filter(|c| (*c).min(n) == to.offset).collect();
                        if to.line != line || fits.is_empty() {
                            if self.judge_relative {
                                return Err(format!(
                                    "{} from {} on {}: expected line {} at the desired column {:?} or its end ({}), got {}",
                                    e.op.show(),
                                    p(&from),
                                    show(&d.text),
                                    line,
                                    s,
                                    n,
                                    p(&to)
                                ));
                            }
                            self.sticky = None;
                        } else {
                            if fits.iter().any(|c| *c > n) {
                                self.counts[4] += 1;
                            }
                            let mut fits = fits;
                            if matches!(e.op, Op::FirstLine | Op::LastLine) {
                                // Jumping to a shorter line may settle on its end.
                                fits.insert(to.offset);
                            }
                            self.sticky = Some(fits);
                        }
                    }
                    None => {
                        self.counts[5] += 1;
                        if self.judge_relative && to.line != line {
                            return Err(format!("{} from {}: expected line {}, got {}", e.op.show(), p(&from), line, p(&to)));
                        }
                    }
                }
            }
            _ => {}
        }
        Ok(())
    }
    fn counters(&self, out: &mut HashMap<&'static str, u64>) {
        for (n, c) in [
            "placements at existing positions",
            "placements at positions that don't exist",
            "relative movements from a cursor that no longer exists",
            "relative movements judged",
            "vertical movements clamped to a shorter line",
            "vertical movements with an unknown desired column",
        ]
        .iter()
        .zip(self.counts)
        {
            *out.entry(n).or_default() += c;
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
struct Step {
    before: u64,
    after: u64,
    nb: u32,
    na: u32,
    group: bool,
}

#[derive(Clone, Debug, PartialEq)]
struct Hist {
    prev: Vec<Step>,
    next: Vec<Step>,
    /// An open group: nothing, or everything recorded since it was opened.
    open: Option<Option<Step>>,
    node: u32,
    sync: Option<u32>,
    /// For each kind of edit without effect: not seen yet, ignored, recorded as a
    /// step, or ignored but discarding what could be redone.
    policy: [u8; 8],
}

/// U01, U02 and U03: the history of modifications. Edits without any effect on the
/// text may or may not count as modifications; the monitor follows every
/// possibility until observations rule it out.
pub struct HistMon {
    states: Vec<Hist>,
    texts: HashMap<u64, Rc<str>>,
    nodes: u32,
    sync_text: Option<u64>,
    judge_text: bool,
    judge_modified: bool,
    pathless: u64,
    pub undone: u64,
    pub redone: u64,
    pub undone_groups: u64,
    pub redone_groups: u64,
    empty_undo: u64,
    empty_redo: u64,
    discarded: u64,
    must_true: u64,
    must_false: u64,
    returned_to_sync: u64,
    max_depth: usize,
    gave_up: bool,
}

impl HistMon {
    pub fn new(text: &str, from_file: bool, judge_text: bool, judge_modified: bool) -> HistMon {
        let mut m = HistMon {
            states: Vec::new(),
            texts: HashMap::new(),
            nodes: 1,
            sync_text: None,
            judge_text,
            judge_modified,
            pathless: 0,
            undone: 0,
            redone: 0,
            undone_groups: 0,
            redone_groups: 0,
            empty_undo: 0,
            empty_redo: 0,
            discarded: 0,
            must_true: 0,
            must_false: 0,
            returned_to_sync: 0,
            max_depth: 0,
            gave_up: false,
        };
        let mut h = Hist { prev: vec![], next: vec![], open: None, node: 0, sync: None, policy: [0; 8] };
        let id = m.id(text);
        if from_file {
            h.sync = Some(0);
            m.sync_text = Some(id);
        } else if !text.is_empty() {
            let empty = m.id("");
            h.prev.push(Step { before: empty, after: id, nb: 0, na: 1, group: false });
            h.node = 1;
            m.nodes = 2;
        }
        m.states.push(h);
        m
    }
    fn id(&mut self, t: &str) -> u64 {
        let h = hash_str(t);
        self.texts.entry(h).or_insert_with(|| Rc::from(t));
        h
    }
    fn id_rc(&mut self, t: &Rc<str>) -> u64 {
        let h = hash_str(t);
        self.texts.entry(h).or_insert_with(|| t.clone());
        h
    }
    fn record(h: &mut Hist, before: u64, after: u64, node: u32, discard: bool) {
        let nb = h.node;
        match h.open.as_mut() {
            Some(slot) => match slot {
                Some(s) => {
                    s.after = after;
                    s.na = node;
                }
                None => *slot = Some(Step { before, after, nb, na: node, group: true }),
            },
            None => h.prev.push(Step { before, after, nb, na: node, group: false }),
        }
        h.node = node;
        if discard {
            h.next.clear();
        }
    }
    fn dedup(&mut self) {
        let mut out: Vec<Hist> = Vec::with_capacity(self.states.len());
        for s in self.states.drain(..) {
            if !out.contains(&s) {
                out.push(s);
            }
        }
        self.states = out;
        if self.states.len() > 300 {
            self.gave_up = true;
        }
    }
    fn noop_kind(e: &Event) -> usize {
        let d = &e.before.doc;
        match &e.op {
            Op::Insert(s) => {
                if d.exists(&e.before.pos) {
                    0
                } else if s.is_empty() {
                    1
                } else {
                    2
                }
            }
            Op::Delete => {
                if d.exists(&e.before.pos) {
                    3
                } else {
                    4
                }
            }
            Op::DeleteRange(r) => {
                if !d.exists(&r.start()) {
                    5
                } else if d.exists(&r.end()) {
                    6
                } else {
                    7
                }
            }
            _ => 0,
        }
    }
}

impl Monitor for HistMon {
    fn on(&mut self, e: &Event) -> Verdict {
        if self.gave_up {
            return Ok(());
        }
        let before = self.id_rc(&e.before.doc.text);
        let after = self.id_rc(&e.after.doc.text);
        let changed = before != after;
        let node = self.nodes;
        let mut failed_io = false;
        let mut expected: Vec<u64> = Vec::new();
        match &e.op {
            Op::Insert(_) | Op::Delete | Op::DeleteRange(_) | Op::Replace(_) | Op::Reload(_) => {
                self.nodes += 1;
                let reload = matches!(e.op, Op::Reload(_));
                if reload && !matches!(e.ret, Ret::Io(Ok(()))) {
                    failed_io = true;
                } else if changed {
                    if self.states.iter().any(|s| !s.next.is_empty()) {
                        self.discarded += 1;
                    }
                    for h in &mut self.states {
                        Self::record(h, before, after, node, true);
                    }
                } else if !matches!(e.op, Op::Replace(_) | Op::Reload(_)) {
                    let k = Self::noop_kind(e);
                    let mut out = Vec::new();
                    for h in self.states.drain(..) {
                        let options: &[u8] = if h.policy[k] == 0 { &[1, 2, 3] } else { &[h.policy[k]] };
                        for o in options {
                            let mut h = h.clone();
                            h.policy[k] = *o;
                            match *o {
                                2 => Self::record(&mut h, before, after, node, true),
                                3 => h.next.clear(),
                                _ => {}
                            }
                            out.push(h);
                        }
                    }
                    self.states = out;
                    self.dedup();
                }
                if reload && !failed_io {
                    for h in &mut self.states {
                        h.sync = Some(h.node);
                    }
                    self.sync_text = Some(after);
                }
            }
            Op::StartGroup => {
                for h in &mut self.states {
                    if h.open.is_none() {
                        h.open = Some(None);
                    }
                }
            }
            Op::EndGroup => {
                for h in &mut self.states {
                    if let Some(Some(s)) = h.open.take() {
                        h.prev.push(s);
                    }
                }
            }
            Op::Undo => {
                let mut out = Vec::new();
                let mut did = (0, 0);
                for mut h in self.states.drain(..) {
                    if let Some(Some(s)) = h.open.take() {
                        h.prev.push(s);
                    }
                    let want = match h.prev.pop() {
                        Some(s) => {
                            h.node = s.nb;
                            let t = s.before;
                            if s.before != s.after {
                                did.0 = 1;
                                if s.group {
                                    did.1 = 1;
                                }
                            }
                            h.next.push(s);
                            t
                        }
                        None => before,
                    };
                    expected.push(want);
                    if want == after {
                        out.push(h);
                    }
                }
                self.states = out;
                if did.0 == 1 {
                    self.undone += 1;
                    self.undone_groups += did.1;
                } else {
                    self.empty_undo += 1;
                }
            }
            Op::Redo => {
                let mut out = Vec::new();
                let mut did = (0, 0);
                for h in self.states.drain(..) {
                    let blocked = matches!(h.open, Some(Some(_)));
                    let optional = matches!(h.open, Some(None));
                    if blocked || optional || h.next.is_empty() {
                        expected.push(before);
                        if before == after {
                            out.push(h.clone());
                        }
                    }
                    if !blocked && !h.next.is_empty() {
                        let mut h = h;
                        let s = h.next.pop().unwrap();
                        h.node = s.na;
                        expected.push(s.after);
                        let ok = s.after == after;
                        if s.before != s.after {
                            did.0 = 1;
                            if s.group {
                                did.1 = 1;
                            }
                        }
                        h.prev.push(s);
                        if ok {
                            out.push(h);
                        }
                    }
                }
                self.states = out;
                self.dedup();
                if did.0 == 1 {
                    self.redone += 1;
                    self.redone_groups += did.1;
                } else {
                    self.empty_redo += 1;
                }
            }
            Op::Save(_) | Op::SaveFail(_) => {
                if matches!(e.ret, Ret::Io(Ok(()))) {
                    for h in &mut self.states {
                        h.sync = Some(h.node);
                    }
                    self.sync_text = Some(after);
                } else {
                    failed_io = true;
                }
            }
            Op::ReloadFail(_) => {
                if matches!(e.ret, Ret::Io(Ok(()))) {
                    // The fault did not get in the way after all; judged elsewhere.
                    self.gave_up = true;
                    return Ok(());
                }
                failed_io = true;
            }
            _ => {}
        }
        for h in &self.states {
            self.max_depth = self.max_depth.max(h.prev.len());
        }
        if self.states.is_empty() {
            if !self.judge_text {
                // Undo or redo went wrong, which is another property's matter.
                self.gave_up = true;
                return Ok(());
            }
            expected.sort();
            expected.dedup();
            let wants: Vec<String> = expected.iter().map(|x| show(&self.texts[x])).collect();
            return Err(format!(
                "{} on {}: got {}, expected {}",
                e.op.show(),
                show(&e.before.doc.text),
                show(&e.after.doc.text),
                wants.join(" or ")
            ));
        }
        if self.judge_modified {
            let m = e.after.modified;
            if let Some(said) = e.after.pathless {
                self.pathless += 1;
                if !said {
                    return Err(format!("after {} the buffer, left without a path, reports being unmodified", e.op.show()));
                }
            }
            let must_be_true = self.sync_text.map_or(true, |s| s != after);
            let at_sync = self.states.iter().all(|h| h.sync == Some(h.node));
            if failed_io {
                if e.before.modified && !m {
                    return Err(format!("{} made the buffer report being unmodified", e.op.show()));
                }
            } else if must_be_true {
                self.must_true += 1;
                if !m {
                    return Err(format!(
                        "after {} the text is {} but the buffer reports being unmodified since {}",
                        e.op.show(),
                        show(&e.after.doc.text),
                        self.sync_text.map_or("nothing was ever loaded or saved".to_string(), |s| format!("it was {}", show(&self.texts[&s])))
                    ));
                }
            } else if at_sync {
                self.must_false += 1;
                if matches!(e.op, Op::Undo | Op::Redo) && changed {
                    self.returned_to_sync += 1;
                }
                if m {
                    return Err(format!(
                        "after {} the buffer is at the point last loaded, saved or reloaded ({}), but reports being modified",
                        e.op.show(),
                        show(&e.after.doc.text)
                    ));
                }
            }
        }
        if failed_io && matches!(e.op, Op::SaveFail(_) | Op::Save(_)) {
            // What's on disk is unknown now; a buffer may stop vouching for it.
            for h in &mut self.states {
                h.sync = None;
            }
        }
        Ok(())
    }
    fn counters(&self, out: &mut HashMap<&'static str, u64>) {
        for (n, c) in [
            ("undo calls with something to undo", self.undone),
            ("redo calls with something to redo", self.redone),
            ("groups undone", self.undone_groups),
            ("groups redone", self.redone_groups),
            ("undo calls with nothing to undo", self.empty_undo),
            ("redo calls with nothing to redo", self.empty_redo),
            ("edits discarding redoable modifications", self.discarded),
            ("states without a path judged", self.pathless),
            ("states required to report modified", self.must_true),
            ("states required to report unmodified", self.must_false),
            ("returns to the synchronised point by undo/redo", self.returned_to_sync),
            ("histories given up as ambiguous", self.gave_up as u64),
        ] {
            *out.entry(n).or_default() += c;
        }
        let m = out.entry("deepest history").or_default();
        *m = (*m).max(self.max_depth as u64);
    }
}

/// U04: changes are announced, no later than where they start.
#[derive(Default)]
pub struct CallbackMon {
    pub counts: [u64; 3],
}

impl Monitor for CallbackMon {
    fn on(&mut self, e: &Event) -> Verdict {
        if same_text(e) {
            return Ok(());
        }
        self.counts[0] += 1;
        if e.callbacks.is_empty() {
            return Err(format!(
                "{} changed {} to {} without running the change callback",
                e.op.show(),
                show(&e.before.doc.text),
                show(&e.after.doc.text)
            ));
        }
        self.counts[1] += (e.callbacks.len() > 1) as u64;
        let same = common_prefix(&e.before.doc.text, &e.after.doc.text);
        let mut earliest: Option<usize> = None;
        for c in &e.callbacks {
            // A cluster may have grown or shrunk right at the position.
            for o in [e.before.doc.offset(c), e.after.doc.offset(c)].into_iter().flatten() {
                earliest = Some(earliest.map_or(o, |x: usize| x.min(o)));
            }
        }
        match earliest {
            Some(o) if o <= same => Ok(()),
            o => Err(format!(
                "{} changed {} to {} from byte {} on, but the callback was told {} (byte {:?})",
                e.op.show(),
                show(&e.before.doc.text),
                show(&e.after.doc.text),
                same,
                e.callbacks.iter().map(p).collect::<Vec<_>>().join(", "),
                o
            )),
        }
    }
    fn counters(&self, out: &mut HashMap<&'static str, u64>) {
        *out.entry("changes that had to be announced").or_default() += self.counts[0];
        *out.entry("changes announced by several callbacks").or_default() += self.counts[1];
    }
}

/// U05: when a change is announced, the text can be read, and is the new one.
#[derive(Default)]
pub struct PeekMon {
    pub counts: [u64; 4],
}

impl Monitor for PeekMon {
    fn on(&mut self, e: &Event) -> Verdict {
        self.counts[0] += e.peeks.len() as u64;
        // What leaves the text alone by its nature announces nothing.
        let still = e.op.is_move()
            || matches!(e.op, Op::Save(_) | Op::SaveFail(_) | Op::ReloadFail(_) | Op::StartGroup | Op::EndGroup | Op::External(_) | Op::Read(_) | Op::InBounds(_) | Op::Search(_) | Op::LineCount);
        if still {
            self.counts[3] += 1;
            if !e.callbacks.is_empty() && !matches!(&e.ret, Ret::Io(Ok(())) if matches!(e.op, Op::ReloadFail(_))) {
                return Err(format!("{} announces a change at {}, though it changes nothing", e.op.show(), p(&e.callbacks[0])));
            }
        }
        if !e.same_store {
            return Ok(());
        }
        if let Some(last) = e.peeks.last() {
            self.counts[1] += (!same_text(e)) as u64;
            self.counts[2] += (e.peeks.len() > 1) as u64;
            if *last != *e.after.doc.text {
                return Err(format!(
                    "{} leaves {}, but when it announced its change for the last time, the text was {}",
                    e.op.show(),
                    show(&e.after.doc.text),
                    show(last)
                ));
            }
        }
        Ok(())
    }
    fn counters(&self, out: &mut HashMap<&'static str, u64>) {
        *out.entry("looks at the text from the callback").or_default() += self.counts[0];
        *out.entry("changes compared with what the callback saw").or_default() += self.counts[1];
        *out.entry("calls announcing several changes").or_default() += self.counts[2];
        *out.entry("calls that had to announce nothing").or_default() += self.counts[3];
    }
}

/// F03: replacing and reloading.
#[derive(Default)]
pub struct ReplaceMon {
    pub counts: [u64; 6],
}

impl Monitor for ReplaceMon {
    fn on(&mut self, e: &Event) -> Verdict {
        let target: Option<String> = match &e.op {
            Op::Replace(s) => Some(s.clone()),
            Op::Reload(_) => match (&e.disk, &e.ret) {
                (Some(b), Ret::Io(Ok(()))) => std::str::from_utf8(b).ok().map(|s| s.to_string()),
                _ => None,
            },
            _ => None,
        };
        if !e.meta_kept || !e.path_kept {
            return Err(format!("{} lost the buffer's id, path or callback", e.op.show()));
        }
        let Some(target) = target else { return Ok(()) };
        expect_text(e, &target)?;
        if *e.before.doc.text == *target {
            self.counts[0] += 1;
            if e.before.doc.exists(&e.before.pos) && e.after.pos != e.before.pos {
                return Err(format!("{} with identical text moved the cursor from {} to {}", e.op.show(), p(&e.before.pos), p(&e.after.pos)));
            }
            if matches!(e.op, Op::Replace(_)) && e.before.modified != e.after.modified {
                return Err(format!(
                    "{} with identical text changed the modified state from {} to {}",
                    e.op.show(),
                    e.before.modified,
                    e.after.modified
                ));
            }
            return Ok(());
        }
        let want = e.after.doc.replaced_cursor(e.before.pos);
        let slot = if want == e.before.pos { 1 } else if want.line == e.before.pos.line { 2 } else { 3 };
        self.counts[slot] += 1;
        if e.after.pos != want {
            return Err(format!(
                "{} with the cursor at {}: expected it at {}, got {} (new text {})",
                e.op.show(),
                p(&e.before.pos),
                p(&want),
                p(&e.after.pos),
                show(&target)
            ));
        }
        Ok(())
    }
    fn counters(&self, out: &mut HashMap<&'static str, u64>) {
        for (n, c) in [
            "replacements with identical text",
            "replacements keeping the cursor",
            "replacements keeping only the cursor's line",
            "replacements resetting the cursor",
        ]
        .iter()
        .zip(self.counts)
        {
            *out.entry(n).or_default() += c;
        }
    }
}

/// T02 and R01: reads and bounds checks.
pub struct ReadMon {
    pub counts: [u64; 4],
}

impl ReadMon {
    pub fn new() -> ReadMon {
        ReadMon { counts: [0; 4] }
    }
}

pub fn judge_read(d: &Doc, r: &Range, got: &Option<String>) -> Verdict {
    let want = d.read(r);
    if want != got.as_deref() {
        return Err(format!(
            "read({}..{}) of {}: expected {}, got {}",
            p(&r.start()),
            p(&r.end()),
            show(&d.text),
            want.map_or("nothing".into(), show),
            got.as_deref().map_or("nothing".into(), show)
        ));
    }
    Ok(())
}

pub fn judge_bounds(d: &Doc, q: &Position, got: bool) -> Verdict {
    if d.exists(q) != got {
        return Err(format!("in_bounds({}) of {} returned {}", p(q), show(&d.text), got));
    }
    Ok(())
}

impl Monitor for ReadMon {
    fn on(&mut self, e: &Event) -> Verdict {
        let d = &e.before.doc;
        match (&e.op, &e.ret) {
            (Op::Read(r), Ret::Text(t)) => {
                self.counts[if t.is_some() { 0 } else { 1 }] += 1;
                judge_read(d, r, t)?;
            }
            (Op::InBounds(q), Ret::Bool(b)) => {
                self.counts[if *b { 2 } else { 3 }] += 1;
                judge_bounds(d, q, *b)?;
            }
            _ => return Ok(()),
        }
        if !same_text(e) {
            return Err(format!("{} changed the text: {}", e.op.show(), diff(&d.text, &e.after.doc.text)));
        }
        Ok(())
    }
    fn counters(&self, out: &mut HashMap<&'static str, u64>) {
        for (n, c) in ["reads of existing ranges", "reads of ranges that don't exist", "positions in bounds", "positions out of bounds"]
            .iter()
            .zip(self.counts)
        {
            *out.entry(n).or_default() += c;
        }
    }
}

/// S01.
#[derive(Default)]
pub struct SearchMon {
    pub counts: [u64; 4],
}

pub fn judge_search(d: &Doc, needle: &str, got: &[Position]) -> Verdict {
    let want = d.search(needle);
    if want != got {
        let first = want.iter().zip(got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
        return Err(format!(
            "search({}) in {}: expected {} results, got {}; at index {} expected {}, got {}",
            show(needle),
            show(&d.text),
            want.len(),
            got.len(),
            first,
            want.get(first).map_or("none".into(), p),
            got.get(first).map_or("none".into(), p)
        ));
    }
    Ok(())
}

impl Monitor for SearchMon {
    fn on(&mut self, e: &Event) -> Verdict {
        if let (Op::Search(s), Ret::Positions(v)) = (&e.op, &e.ret) {
            self.counts[0] += 1;
            self.counts[1] += v.len() as u64;
            self.counts[2] += (v.len() > 1) as u64;
            self.counts[3] += v.is_empty() as u64;
            judge_search(&e.before.doc, s, v)?;
            if !same_text(e) {
                return Err(format!("{} changed the text", e.op.show()));
            }
        }
        Ok(())
    }
    fn counters(&self, out: &mut HashMap<&'static str, u64>) {
        for (n, c) in ["searches", "results", "searches with several results", "searches without results"].iter().zip(self.counts) {
            *out.entry(n).or_default() += c;
        }
    }
}

/// F01 and F02 within histories: saves, reloads, and their failures.
#[derive(Default)]
pub struct FileMon {
    pub judge_success: bool,
    pub judge_failure: bool,
    pub counts: [u64; 8],
}

impl Monitor for FileMon {
    fn on(&mut self, e: &Event) -> Verdict {
        let intact = |what: &str| -> Verdict {
            if !same_text(e) {
                return Err(format!("{} changed the text: {}", what, diff(&e.before.doc.text, &e.after.doc.text)));
            }
            if e.after.pos != e.before.pos {
                return Err(format!("{} moved the cursor from {} to {}", what, p(&e.before.pos), p(&e.after.pos)));
            }
            if !e.path_kept {
                return Err(format!("{} changed the buffer's path", what));
            }
            Ok(())
        };
        let name = e.op.show();
        match (&e.op, &e.ret) {
            (Op::Save(_), Ret::Io(r)) => {
                self.counts[0] += 1;
                self.counts[1] += (e.seen.shortened + e.seen.interrupted > 0) as u64;
                if self.judge_success {
                    if let Err(x) = r {
                        return Err(format!("{} failed without a fault that justifies it: {} ({:?})", name, x, e.seen));
                    }
                    let disk = e.disk.clone().unwrap_or_default();
                    if disk != e.before.doc.text.as_bytes() {
                        return Err(format!(
                            "{} of {} left {} bytes in the file: {}",
                            name,
                            show(&e.before.doc.text),
                            disk.len(),
                            diff(&e.before.doc.text, &String::from_utf8_lossy(&disk))
                        ));
                    }
                    intact(&name)?;
                }
            }
            (Op::Reload(_), Ret::Io(r)) => {
                let content = e.disk.as_ref().and_then(|d| std::str::from_utf8(d).ok());
                match content {
                    Some(t) => {
                        self.counts[2] += 1;
                        if self.judge_success {
                            if let Err(x) = r {
                                return Err(format!("{} failed without a fault that justifies it: {} ({:?})", name, x, e.seen));
                            }
                            if *e.after.doc.text != *t {
                                return Err(format!("{} of a file holding {}: {}", name, show(t), diff(t, &e.after.doc.text)));
                            }
                        }
                    }
                    None => {
                        self.counts[3] += 1;
                        if self.judge_failure {
                            if r.is_ok() {
                                return Err(format!("{} of a missing or invalid file reported success", name));
                            }
                            intact(&name)?;
                        }
                    }
                }
            }
            (Op::SaveFail(f), Ret::Io(r)) | (Op::ReloadFail(f), Ret::Io(r)) => {
                let injected = !matches!(
                    f,
                    crate::session::Fail::NoPath
                        | crate::session::Fail::MissingFolder
                        | crate::session::Fail::Missing
                        | crate::session::Fail::Folder
                        | crate::session::Fail::InvalidUtf8
                );
                if injected && e.seen.failed == 0 {
                    self.counts[6] += 1;
                    return Ok(());
                }
                self.counts[if matches!(e.op, Op::SaveFail(_)) { 4 } else { 5 }] += 1;
                if self.judge_failure {
                    if r.is_ok() {
                        return Err(format!("{} reported success ({:?})", name, e.seen));
                    }
                    intact(&name)?;
                    if e.before.modified && !e.after.modified {
                        return Err(format!("{} made the buffer report being unmodified", name));
                    }
                }
            }
            _ => {}
        }
        Ok(())
    }
    fn counters(&self, out: &mut HashMap<&'static str, u64>) {
        for (n, c) in [
            "saves",
            "saves with short or interrupted writes",
            "reloads",
            "reloads of missing or invalid files",
            "failing saves",
            "failing reloads",
            "planned faults that were not reached",
        ]
        .iter()
        .zip(self.counts)
        {
            *out.entry(n).or_default() += c;
        }
    }
}

pub fn history_for(plan: &Plan0, judge_text: bool, judge_modified: bool) -> HistMon {
    HistMon::new(&plan.text, plan.from_file, judge_text, judge_modified)
}
