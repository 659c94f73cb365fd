//! Input generation: texts, positions, and values mined from the sources under test.

use crate::model::Doc;
use crate::rng::Rng;
use scribe::buffer::Position;
use std::collections::BTreeSet;
use std::fs;
use std::path::Path;

/// Literals found in the library's own (non-test) sources. They only bias the
/// generated inputs (sizes, counts and characters the code treats specially);
/// no verdict depends on them.
#[derive(Default, Clone)]
pub struct Dict {
    pub ints: Vec<usize>,
    pub strings: Vec<String>,
}

impl Dict {
    pub fn mine(root: &Path) -> Dict {
        let mut ints = BTreeSet::new();
        let mut strings = BTreeSet::new();
        let mut stack = vec![root.to_path_buf()];
        while let Some(dir) = stack.pop() {
            let Ok(entries) = fs::read_dir(&dir) else { continue };
            for e in entries.flatten() {
                let p = e.path();
                if p.is_dir() {
                    stack.push(p);
                } else if p.extension().map_or(false, |x| x == "rs") {
                    if let Ok(src) = fs::read_to_string(&p) {
                        mine_source(&src, &mut ints, &mut strings);
                    }
                }
            }
        }
        Dict {
            ints: ints.into_iter().collect(),
            strings: strings.into_iter().collect(),
        }
    }
    pub fn int(&self, r: &mut Rng, max: usize) -> Option<usize> {
        let c: Vec<usize> = self.ints.iter().copied().filter(|i| *i >= 2 && *i <= max).collect();
        if c.is_empty() {
            return None;
        }
        let n = *r.pick(&c);
        Some(match r.below(5) {
            0 => n.saturating_sub(1),
            1 => n + 1,
            _ => n,
        })
    }
}

fn mine_source(src: &str, ints: &mut BTreeSet<usize>, strings: &mut BTreeSet<String>) {
    let mut code = String::new();
    for line in src.lines() {
        let t = line.trim_start();
        if t.starts_with("#[cfg(test)]") {
            break;
        }
        if t.starts_with("//") {
            continue;
        }
        code.push_str(line);
        code.push('\n');
    }
    let b: Vec<char> = code.chars().collect();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c == '/' && i + 1 < b.len() && b[i + 1] == '/' {
            while i < b.len() && b[i] != '\n' {
                i += 1;
            }
        } else if c == '"' {
            let mut s = String::new();
            i += 1;
            while i < b.len() && b[i] != '"' {
                if b[i] == '\\' && i + 1 < b.len() {
                    i = unescape(&b, i, &mut s);
                } else {
                    s.push(b[i]);
                    i += 1;
                }
            }
            i += 1;
            if !s.is_empty() && s.len() <= 64 {
                strings.insert(s);
            }
        } else if c == '\'' {
            // A character literal, as opposed to a lifetime.
            let mut s = String::new();
            let mut j = i + 1;
            if j < b.len() && b[j] == '\\' {
                j = unescape(&b, j, &mut s);
            } else if j < b.len() {
                s.push(b[j]);
                j += 1;
            }
            if j < b.len() && b[j] == '\'' {
                strings.insert(s);
                i = j + 1;
            } else {
                i += 1;
            }
        } else if c.is_ascii_digit() && (i == 0 || !(b[i - 1].is_alphanumeric() || b[i - 1] == '_')) {
            let mut t = String::new();
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '_') {
                if b[i] != '_' {
                    t.push(b[i]);
                }
                i += 1;
            }
            for suffix in ["usize", "u64", "u32", "u16", "u8", "i64", "i32", "isize"] {
                if let Some(x) = t.strip_suffix(suffix) {
                    t = x.to_string();
                    break;
                }
            }
            let v = if let Some(h) = t.strip_prefix("0x") {
                usize::from_str_radix(h, 16).ok()
            } else if let Some(h) = t.strip_prefix("0b") {
                usize::from_str_radix(h, 2).ok()
            } else {
                t.parse::<usize>().ok()
            };
            if let Some(v) = v {
                ints.insert(v);
                if v < 32 {
                    // Possibly the right-hand side of a shift, or a factor of 1024.
                    let rest: String = b[i.saturating_sub(12)..i].iter().collect();
                    if rest.contains("<<") {
                        ints.insert(1usize << v);
                    }
                }
                let before: String = b[i.saturating_sub(14)..i].iter().collect();
                let after: String = b[i..(i + 10).min(b.len())].iter().collect();
                if v <= 4096 && (before.contains('*') || after.trim_start().starts_with('*')) {
                    ints.insert(v.saturating_mul(1024));
                    ints.insert(v.saturating_mul(v));
                }
            }
        } else if c.is_ascii_alphabetic() && (i == 0 || !(b[i - 1].is_alphanumeric() || b[i - 1] == '_')) {
            // Narrow integers wrap or clamp where nobody writes a number.
            let mut t = String::new();
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                t.push(b[i]);
                i += 1;
            }
            match t.as_str() {
                "u8" => ints.extend([255, 256]),
                "i8" => ints.extend([127, 128, 256]),
                "u16" => ints.extend([65_535, 65_536]),
                "i16" => ints.extend([32_767, 32_768, 65_536]),
                _ => {}
            }
        } else {
            i += 1;
        }
    }
}

fn unescape(b: &[char], at: usize, out: &mut String) -> usize {
    let mut i = at + 1;
    match b[i] {
        'n' => out.push('\n'),
        'r' => out.push('\r'),
        't' => out.push('\t'),
        '0' => out.push('\0'),
        'u' => {
            let mut h = String::new();
            i += 2;
            while i < b.len() && b[i] != '}' {
                h.push(b[i]);
                i += 1;
            }
            if let Some(c) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                out.push(c);
            }
        }
        'x' => {
            let h: String = b[(i + 1).min(b.len())..(i + 3).min(b.len())].iter().collect();
            if let Some(c) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                out.push(c);
            }
            i += 2;
        }
        c => out.push(c),
    }
    i + 1
}

const ASCII: &[&str] = &["a", "b", "c", "e", "x", "A", "Z", "0", "9", "_", ".", "-", "fn", "scribe", "ab"];
const BLANK: &[&str] = &[" ", "\t", "  "];
const WIDE: &[&str] = &["é", "ß", "ñ", "日", "本", "語", "ж", "𝒳", "İ", "\u{10ffff}", "…", "א", "ا", "€"];
const MARKS: &[&str] = &["\u{301}", "\u{308}", "\u{20dd}", "\u{fe0f}", "\u{200d}", "\u{1f3fd}", "\u{93f}"];
const CLUSTERS: &[&str] = &[
    "e\u{301}", "👩", "👩\u{200d}👩\u{200d}👧", "👍🏽", "❤\u{fe0f}", "🇨🇦", "🇨", "🇦", "ᄀ", "ᅡ", "ᆨ", "각", "क", "\u{94d}",
    "ष", "क\u{94d}षि", "\u{600}", "\u{110bd}", "o\u{308}\u{323}", "नि", "ที่", "👨\u{200d}",
];
const ODD: &[&str] = &[
    "\0", "\u{feff}", "\u{fffd}", "\u{2028}", "\u{2029}", "\u{85}", "\u{b}", "\u{c}", "\u{200b}", "\u{7f}", "\u{1b}", "\u{202e}", "\u{e0001}",
];

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Style {
    Ascii,
    Tiny,
    Lines,
    Crlf,
    Wide,
    Clusters,
    Everything,
}

pub const STYLES: &[Style] = &[
    Style::Ascii,
    Style::Tiny,
    Style::Lines,
    Style::Crlf,
    Style::Wide,
    Style::Clusters,
    Style::Everything,
    Style::Everything,
];

pub fn style(r: &mut Rng) -> Style {
    *r.pick(STYLES)
}

pub fn atom(r: &mut Rng, style: Style, dict: &Dict, out: &mut String) {
    if !dict.strings.is_empty() && r.one_in(90) {
        out.push_str(r.pick(&dict.strings));
        return;
    }
    if matches!(style, Style::Clusters | Style::Everything) && r.one_in(500) {
        // A cluster of more code points than anybody expects.
        let n = if r.chance(40) { dict.int(r, 1000) } else { None };
        let n = n.unwrap_or_else(|| *r.pick(&[9, 17, 31, 32, 33, 40, 64, 65, 129, 257, 300]));
        let (base, mark) = *r.pick(&[("e", "\u{301}"), ("日", "\u{fe0f}"), ("", "\u{308}"), ("", "👩\u{200d}"), ("ᄀ", "ᅡ"), ("a", "\u{20dd}")]);
        out.push_str(base);
        (0..n).for_each(|_| out.push_str(mark));
        return;
    }
    if style == Style::Everything && r.one_in(40) {
        // Any character at all, of few bits or many.
        let bits = r.range(1, 22);
        if let Some(c) = char::from_u32(r.below(1 << bits) as u32) {
            out.push(c);
            return;
        }
    }
    // ascii, blank, \n, \r\n, \r, wide, marks, clusters, odd
    let w: &[u32] = match style {
        Style::Ascii => &[80, 12, 8, 0, 0, 0, 0, 0, 0],
        Style::Tiny => &[0, 0, 0, 0, 0, 0, 0, 0, 0],
        Style::Lines => &[40, 8, 40, 3, 1, 4, 1, 3, 0],
        Style::Crlf => &[40, 5, 6, 30, 8, 5, 3, 3, 0],
        Style::Wide => &[20, 8, 10, 1, 0, 50, 3, 5, 3],
        Style::Clusters => &[10, 4, 10, 2, 1, 8, 30, 34, 1],
        Style::Everything => &[25, 8, 12, 5, 3, 15, 10, 14, 8],
    };
    if style == Style::Tiny {
        out.push_str(r.pick(&["a", "a", "a", "b", "\n", "aa", "ab", "é"]));
        return;
    }
    let s: &str = match r.weighted(w) {
        0 => r.pick(ASCII),
        1 => r.pick(BLANK),
        2 => "\n",
        3 => "\r\n",
        4 => "\r",
        5 => r.pick(WIDE),
        6 => r.pick(MARKS),
        7 => r.pick(CLUSTERS),
        _ => r.pick(ODD),
    };
    out.push_str(s);
}

/// A text of roughly `atoms` atoms.
pub fn text_of(r: &mut Rng, style: Style, dict: &Dict, atoms: usize) -> String {
    let mut s = String::new();
    // Long runs of the same atom are cheap and interesting.
    let mut i = 0;
    while i < atoms {
        if atoms > 8 && r.one_in(24) {
            let mut a = String::new();
            atom(r, style, dict, &mut a);
            let n = r.range(2, 12).min(atoms - i);
            for _ in 0..n {
                s.push_str(&a);
            }
            i += n;
        } else {
            atom(r, style, dict, &mut s);
            i += 1;
        }
    }
    s
}

/// Small pieces, as typed or pasted into a document.
pub fn piece(r: &mut Rng, style: Style, dict: &Dict) -> String {
    let n = match r.weighted(&[3, 45, 30, 16, 5, 1]) {
        0 => 0,
        1 => 1,
        2 => r.range(2, 5),
        3 => r.range(4, 20),
        4 => r.range(20, 90),
        _ => r.range(90, 400),
    };
    text_of(r, style, dict, n)
}

/// A text whose size is near an interesting number of bytes, lines or characters.
pub fn sized_text(r: &mut Rng, dict: &Dict, max: usize) -> String {
    const SIZES: &[usize] = &[
        16, 32, 64, 100, 128, 255, 256, 512, 1000, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 100_000, 131072,
    ];
    let mined = if r.chance(40) { dict.int(r, max) } else { None };
    let n = mined.unwrap_or_else(|| {
        let c: Vec<usize> = SIZES.iter().copied().filter(|s| *s <= max).collect();
        let n = *r.pick(&c);
        match r.below(4) {
            0 => n.saturating_sub(1),
            1 => n + 1,
            2 => n + r.below(9),
            _ => n,
        }
    });
    match r.below(6) {
        0 => "a".repeat(n),
        1 => "x\n".repeat(n / 2 + 1)[..n].to_string(),
        2 => "\n".repeat(n),
        3 => "é".repeat(n / 2),
        4 => {
            // A multi-byte character straddling the size boundary.
            let mut s = "a".repeat(n.saturating_sub(1));
            s.push('é');
            s.push_str("b\nc");
            s
        }
        _ => {
            let mut s = String::new();
            let mut k = 0usize;
            while s.len() < n {
                s.push_str(["lorem ", "ipsum\n", "dólor ", "sit\r\n", "日本 ", "e\u{301}t "][k % 6]);
                k += 1 + r.below(2);
            }
            s
        }
    }
}

/// A text of exactly a round number of bytes, or one around it: what works in
/// blocks goes wrong at their borders.
pub fn round_text(r: &mut Rng, max: usize) -> String {
    let mut n = 1usize << r.range(10, 20);
    n *= *r.pick(&[1, 1, 2, 2, 3, 5, 10]);
    while n > max {
        n /= 2;
    }
    if r.one_in(4) {
        n = (n + r.below(3)).saturating_sub(r.below(3));
    }
    let unit = *r.pick(&["a", "x\n", "0123456789abcde\n", "wörd ", "日本\n", "e\u{301}t ", "sit\r\n", "fn f() {}\n", "😀"]);
    let mut s = unit.repeat(n / unit.len());
    while s.len() < n {
        s.push('z');
    }
    s
}

/// The initial text of a case.
pub fn document(r: &mut Rng, style: Style, dict: &Dict, big: bool) -> String {
    match r.weighted(if big { &[80, 200, 350, 250, 80, 40, 3] } else { &[80, 250, 420, 250, 0, 0, 0] }) {
        0 => String::new(),
        1 => {
            let n = r.range(1, 6);
            text_of(r, style, dict, n)
        }
        2 => {
            let n = r.range(5, 40);
            text_of(r, style, dict, n)
        }
        3 => {
            let n = r.range(40, 200);
            text_of(r, style, dict, n)
        }
        4 => sized_text(r, dict, 9000),
        5 => {
            let n = r.range(200, 1500);
            text_of(r, style, dict, n)
        }
        _ => huge(r, dict),
    }
}

/// More lines, or more clusters on a line, than fit into narrow integers, among short lines.
pub fn huge(r: &mut Rng, dict: &Dict) -> String {
    let n = if r.chance(60) { 65_536 + r.below(40) } else { dict.int(r, 140_000).unwrap_or(66_000).max(9_000) };
    let mut s = String::new();
    let lead = *r.pick(&["", "a", "\n", "ab\né\n", "x\r\n"]);
    s.push_str(lead);
    let unit = *r.pick(&["a", "\n", "\n", "é", "x", "\r\n"]);
    for _ in 0..n {
        s.push_str(unit);
    }
    s.push_str(r.pick(&["", "b", "\n", "bc\nd", "é\n\n"]));
    s
}

/// A position that exists.
pub fn valid_pos(r: &mut Rng, d: &Doc) -> Position {
    if (d.text.len() > 250) && r.one_in(12) {
        // Where narrow integers end.
        let n = *r.pick(&[127usize, 255, 255, 32_767, 65_535, 65_535]) + r.below(4);
        if n < d.line_count() && r.chance(60) {
            return Position { line: n, offset: r.below(d.clusters(n) + 1) };
        }
        for _ in 0..3 {
            let line = r.below(d.line_count());
            if n <= d.clusters(line) {
                return Position { line, offset: n };
            }
        }
    }
    match r.weighted(&[40, 12, 14, 10, 6, 6]) {
        0 => {
            let line = r.below(d.line_count());
            let n = d.clusters(line);
            Position { line, offset: r.below(n + 1) }
        }
        1 => Position { line: r.below(d.line_count()), offset: 0 },
        2 => {
            let line = r.below(d.line_count());
            Position { line, offset: d.clusters(line) }
        }
        3 => d.end(),
        4 => Position { line: 0, offset: 0 },
        _ => {
            let line = d.line_count() - 1;
            Position { line, offset: r.below(d.clusters(line) + 1) }
        }
    }
}

/// A position that does not exist: just outside, somewhat outside, or extreme.
pub fn invalid_pos(r: &mut Rng, d: &Doc) -> Position {
    let line = r.below(d.line_count());
    let n = d.clusters(line);
    match r.weighted(&[30, 12, 8, 20, 8, 4, 4, 6, 4, 3, 3]) {
        0 => Position { line, offset: n + 1 },
        1 => Position { line, offset: n + r.range(2, 40) },
        2 => Position { line, offset: usize::MAX - r.below(2) },
        3 => Position { line: d.line_count(), offset: 0 },
        4 => Position { line: d.line_count(), offset: r.range(1, 9) },
        5 => Position { line: d.line_count() + r.range(1, 30), offset: r.below(3) },
        6 => Position { line: usize::MAX, offset: 0 },
        7 => Position { line: d.line_count() - 1, offset: d.clusters(d.line_count() - 1) + 1 + r.below(2) },
        8 => Position { line: usize::MAX - r.below(2), offset: usize::MAX - r.below(2) },
        9 => Position { line: usize::MAX / 2 + 1, offset: r.below(3) },
        _ => Position { line: d.line_count(), offset: usize::MAX },
    }
}

pub fn any_pos(r: &mut Rng, d: &Doc, invalid_percent: usize, near: Position) -> Position {
    if r.chance(invalid_percent) {
        invalid_pos(r, d)
    } else if r.chance(30) {
        // Around the last edit: where gaps and freshly merged clusters are.
        let dl = r.below(3);
        let line = match dl {
            0 => near.line,
            1 => near.line.saturating_sub(1),
            _ => near.line.saturating_add(1),
        }
        .min(d.line_count() - 1);
        let n = d.clusters(line);
        let o = near.offset.saturating_add(r.below(4)).saturating_sub(r.below(4));
        Position { line, offset: o.min(n) }
    } else {
        valid_pos(r, d)
    }
}
