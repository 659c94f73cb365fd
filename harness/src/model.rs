//! The reference: plain strings, split into lines and grapheme clusters.

use scribe::buffer::{Position, Range};
use std::cell::RefCell;
use std::rc::Rc;
use unicode_segmentation::UnicodeSegmentation;

#[derive(Clone, Debug)]
struct Line {
    start: usize,
    end: usize,  // end of the contents, before the line break
    next: usize, // after the line break
    clusters: RefCell<Option<usize>>,
}

/// A text and its lines. Lines end in "\n" or "\r\n"; the line break is not part
/// of the line. There is always a last line, which may be empty.
#[derive(Clone, Debug)]
pub struct Doc {
    pub text: Rc<str>,
    lines: Vec<Line>,
}

impl Doc {
    pub fn new(text: &str) -> Doc {
        Doc::from_rc(Rc::from(text))
    }
    pub fn from_rc(text: Rc<str>) -> Doc {
        let mut lines = Vec::new();
        let mut start = 0;
        let bytes = text.as_bytes();
        for (i, b) in bytes.iter().enumerate() {
            if *b == b'\n' {
                let end = if i > start && bytes[i - 1] == b'\r' { i - 1 } else { i };
                lines.push(Line { start, end, next: i + 1, clusters: RefCell::new(None) });
                start = i + 1;
            }
        }
        lines.push(Line { start, end: text.len(), next: text.len(), clusters: RefCell::new(None) });
        Doc { text, lines }
    }
    pub fn line_count(&self) -> usize {
        self.lines.len()
    }
    pub fn line(&self, line: usize) -> &str {
        let l = &self.lines[line];
        &self.text[l.start..l.end]
    }
    pub fn line_start(&self, line: usize) -> usize {
        self.lines[line].start
    }
    /// Number of grapheme clusters on the line.
    pub fn clusters(&self, line: usize) -> usize {
        let l = &self.lines[line];
        if let Some(n) = *l.clusters.borrow() {
            return n;
        }
        let n = self.line(line).graphemes(true).count();
        *l.clusters.borrow_mut() = Some(n);
        n
    }
    pub fn end(&self) -> Position {
        let line = self.line_count() - 1;
        Position { line, offset: self.clusters(line) }
    }
    pub fn exists(&self, p: &Position) -> bool {
        p.line < self.line_count() && p.offset <= self.clusters(p.line)
    }
    /// Byte offset of a position, if it exists.
    pub fn offset(&self, p: &Position) -> Option<usize> {
        if p.line >= self.line_count() {
            return None;
        }
        let l = &self.lines[p.line];
        let mut n = 0;
        for (i, _) in self.text[l.start..l.end].grapheme_indices(true) {
            if n == p.offset {
                return Some(l.start + i);
            }
            n += 1;
        }
        if n == p.offset {
            Some(l.end)
        } else {
            None
        }
    }
    /// The position of a byte offset, and whether it's exactly there (on a cluster
    /// boundary outside of a line break). Otherwise it's the one of the cluster around it.
    pub fn position(&self, offset: usize) -> (Position, bool) {
        let line = match self.lines.binary_search_by(|l| l.start.cmp(&offset)) {
            Ok(i) => i,
            Err(i) => i - 1,
        };
        let l = &self.lines[line];
        if offset >= l.end {
            return (Position { line, offset: self.clusters(line) }, offset == l.end);
        }
        let mut n = 0;
        for (i, g) in self.text[l.start..l.end].grapheme_indices(true) {
            let s = l.start + i;
            if offset == s {
                return (Position { line, offset: n }, true);
            }
            if offset < s + g.len() {
                return (Position { line, offset: n }, false);
            }
            n += 1;
        }
        (Position { line, offset: n }, false)
    }
    pub fn read(&self, r: &Range) -> Option<&str> {
        let s = self.offset(&r.start())?;
        let e = self.offset(&r.end())?;
        Some(&self.text[s..e])
    }
    /// Bytes that deleting the range removes.
    pub fn deletion(&self, r: &Range) -> Option<(usize, usize)> {
        let s = self.offset(&r.start())?;
        let end = r.end();
        let e = match self.offset(&end) {
            Some(e) => e,
            // Past the end of its line: the rest of that line with its line break.
            None if end.line < self.line_count() => self.lines[end.line].next,
            None => self.text.len(),
        };
        Some((s, e))
    }
    pub fn after_insert(&self, p: &Position, s: &str) -> Option<String> {
        let o = self.offset(p)?;
        let mut t = String::with_capacity(self.text.len() + s.len());
        t.push_str(&self.text[..o]);
        t.push_str(s);
        t.push_str(&self.text[o..]);
        Some(t)
    }
    pub fn after_delete(&self, r: &Range) -> Option<String> {
        let (s, e) = self.deletion(r)?;
        let mut t = String::with_capacity(self.text.len());
        t.push_str(&self.text[..s]);
        t.push_str(&self.text[e..]);
        Some(t)
    }
    /// What deleting at a cursor position removes: the cluster to the right, or
    /// the line break, or nothing at the end of the document.
    pub fn after_delete_at(&self, p: &Position) -> Option<String> {
        let o = self.offset(p)?;
        let l = &self.lines[p.line];
        let e = if o == l.end {
            l.next
        } else {
            o + self.text[o..l.end].graphemes(true).next().unwrap().len()
        };
        let mut t = String::with_capacity(self.text.len());
        t.push_str(&self.text[..o]);
        t.push_str(&self.text[e..]);
        Some(t)
    }
    /// Where a cursor goes when the content becomes this text.
    pub fn replaced_cursor(&self, p: Position) -> Position {
        if self.exists(&p) {
            p
        } else if p.line < self.line_count() {
            Position { line: p.line, offset: 0 }
        } else {
            Position { line: 0, offset: 0 }
        }
    }
    pub fn search(&self, needle: &str) -> Vec<Position> {
        let mut found = Vec::new();
        for line in 0..self.line_count() {
            let l = self.line(line);
            // All occurrences first, then the clusters they begin in.
            let n = needle.as_bytes();
            let b = l.as_bytes();
            let starts: Vec<usize> = if n.len() > b.len() {
                vec![]
            } else {
                (0..=b.len() - n.len()).filter(|i| &b[*i..*i + n.len()] == n && l.is_char_boundary(*i)).collect()
            };
            if starts.is_empty() {
                continue;
            }
            let mut k = 0;
            for (i, (s, g)) in l.grapheme_indices(true).enumerate() {
                let mut hit = false;
                while k < starts.len() && starts[k] < s + g.len() {
                    hit = true;
                    k += 1;
                }
                if hit {
                    found.push(Position { line, offset: i });
                }
            }
        }
        found
    }
}

pub fn common_prefix(a: &str, b: &str) -> usize {
    a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count()
}

pub fn show(s: &str) -> String {
    if s.len() <= 160 {
        format!("{:?}", s)
    } else {
        let head: String = s.chars().take(60).collect();
        let tail: String = s.chars().rev().take(40).collect::<Vec<_>>().into_iter().rev().collect();
        format!("{:?}..({} bytes)..{:?}", head, s.len(), tail)
    }
}

pub fn diff(expected: &str, got: &str) -> String {
    let mut p = common_prefix(expected, got);
    while !expected.is_char_boundary(p) || !got.is_char_boundary(p) {
        p -= 1;
    }
    let e: String = expected[p..].chars().take(40).collect();
    let g: String = got[p..].chars().take(40).collect();
    format!(
        "expected {} bytes, got {} bytes; first difference at byte {}: expected {:?}, got {:?}",
        expected.len(),
        got.len(),
        p,
        e,
        g
    )
}
