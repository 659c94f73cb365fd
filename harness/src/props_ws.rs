//! Properties of workspaces: a model of the open buffers, their order and the
//! selection runs alongside a real workspace on real files.

use crate::fault::{self, Plan};
use crate::gen::{self, Style};
use crate::model::{diff, show, Doc};
use crate::props_tok::write_syntaxes;
use crate::rng::{hash_str, mix2, Rng};
use crate::run::{own_cwd, guard, Ctx, Outcome};
use crate::session::{p, variant};
use scribe::buffer::Position;
use scribe::{Buffer, Workspace};
use std::cell::Cell;
use std::collections::HashSet;
use std::fs;
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::symlink;
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::OnceLock;
use syntect::parsing::{SyntaxDefinition, SyntaxSet, SyntaxSetBuilder};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Focus {
    Order,
    Isolation,
    Opening,
    Syntax,
    Paths,
}

/// What is known about an open buffer.
struct Known {
    id: usize,
    text: String,
    undo: Vec<String>,
    redo: Vec<String>,
    /// An operation group is open; true once it has modifications.
    group: Option<bool>,
    pos: Position,
    path: Option<PathBuf>,
    /// Canonical, as far as known: the path can be compared with a file.
    canonical: bool,
    modified: bool,
    syntax: Option<String>,
    calls: Rc<Cell<u64>>,
    seen_calls: u64,
    /// A buffer that gets the same calls, but never is in a workspace.
    twin: Option<Buffer>,
}

/// Places to open, with several spellings each.
struct Place {
    canonical: PathBuf,
    spellings: Vec<PathBuf>,
}

struct World {
    dir: PathBuf,
    root: PathBuf,
    ws_spelling: PathBuf,
    places: Vec<Place>,
    /// Links to places, each with a link to itself.
    links: Vec<[PathBuf; 2]>,
    bad: Vec<(PathBuf, &'static str)>,
}

const NAMES: &[&str] = &[
    "a.rs", "b.py", "c.txt", "noext", "Makefile", "d.tar.gz", "é.md", "sp ace.js", ".hidden", "x.unknownext", "e.monx", "Rakefile", "f.RS", "g.json", "h.", "i.c",
    "CMakeLists.txt", "日本.html", "j.rs.bak", "k.yml", ".bashrc", "l.erb", "rs", "txt", "m..rs",
    // What other programs read something into.
    "~", "$HOME", "n.rs:12", " lead.py", "trail.py ", "a%20b.js", "o\\p.c", "*.c", "[x].rs", "file:q.md", "-r", "\"s\".rs", "t.rs\n", "u.rs?v=1", "w.rs#L3", "{x,y}.rs",
    // Names of languages that are no extensions, and the other way around.
    "Rust", "x.rust", "Python", "x.ruby", "json", "Plain Text", "x.C++", "x.markdown", "Markdown", "x.JSON", "HTML",
];

/// First lines that tell a language, which nobody asked for.
pub const FIRST_LINES: &[&str] = &[
    "#!/bin/bash\n", "#!/usr/bin/env python\n", "<?xml version=\"1.0\"?>\n", "#!/usr/bin/env ruby", "<?php\n", "// -*- C++ -*-\n", "#!/usr/bin/perl -w\n", "# vim: set ft=rust :\n",
    "# -*- mode: python -*-\n", "<!DOCTYPE html>\n", "#!/usr/bin/env node\n", "%YAML 1.2\n", "\\documentclass{article}\n", "<html>", "#!/usr/bin/make -f\n",
];

/// A name that a careless comparison takes for the same one.
fn alike(r: &mut Rng, name: &str, bytes: bool) -> (OsString, OsString) {
    if r.one_in(2) {
        // What is left when somebody interprets the name.
        let (a, b) = match r.below(12) {
            0 => (format!("{}:{}", name, r.below(40)), name.into()),
            1 => (format!("{}:3:14", name), name.into()),
            2 => (format!(" {}", name), name.into()),
            3 => (format!("{}\n", name), name.into()),
            4 => ("a%20b".into(), "a b".into()),
            5 => (format!("file:{}", name), name.into()),
            6 => (format!("{}#L1", name), name.into()),
            7 => (format!("\"{}\"", name), name.into()),
            8 => (format!("a\\{}", name), format!("a{}", name)),
            9 => (format!("{}.", name), name.into()),
            10 => ("*".into(), name.into()),
            _ => (format!("{}?x", name), name.into()),
        };
        let both = (OsString::from(a), OsString::from(b));
        return if r.chance(50) { both } else { (both.1, both.0) };
    }
    let twin = match r.below(if bytes { 8 } else { 6 }) {
        0 => name.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
        1 => name.to_uppercase(),
        2 => format!("{} ", name),
        3 => format!("{}~", name),
        4 => name.replace('é', "e\u{301}"),
        5 => format!("{}{}", &name[..0], name.chars().rev().collect::<String>()),
        n => {
            // Not text at all, and different only in what isn't.
            let v = |b: u8| OsString::from_vec(if n == 6 { vec![b'n', b, b'x'] } else { vec![b, b] });
            return (v(0xff), v(0xfe));
        }
    };
    (OsString::from(name), OsString::from(twin))
}

fn world(r: &mut Rng, ctx: &Ctx, focus: Focus) -> World {
    let dir = ctx.scratch.join("ws");
    let _ = fs::remove_dir_all(&dir);
    let style = gen::style(r);
    // Siblings whose names begin alike, one inside the other.
    let base = *r.pick(&["proj", "p", "é", "w s"]);
    let root = dir.join(base);
    fs::create_dir_all(root.join("sub/deep")).expect("scratch");
    let sibling = dir.join(match r.below(8) {
        // The same to whoever doesn't look closely.
        0 => base.to_uppercase(),
        1 if base == "proj" => "pROJ".to_string(),
        1 if base == "é" => "e\u{301}".to_string(),
        1 | 2 => format!("{} ", base),
        n => format!("{}{}", base, ["2", "ect", ".bak", "\\", "%20"][n - 3]),
    });
    fs::create_dir_all(&sibling).expect("scratch");
    let outside = dir.join("out");
    fs::create_dir_all(outside.join("sub")).expect("scratch");
    symlink(root.join("sub"), root.join("ln")).expect("scratch");
    symlink("deep", root.join("sub/down")).expect("scratch");
    symlink(&root, dir.join("alias")).expect("scratch");
    symlink("../out", root.join("away")).expect("scratch");
    // Links to links, as many as anybody follows.
    let chain = |r: &mut Rng, to: &Path, name: &str| -> PathBuf {
        let n = *r.pick(&[3, 5, 6, 7, 8, 9, 10, 11, 16, 17, 20, 21, 30]);
        let mut last = to.to_path_buf();
        let mut whole = last.clone();
        for i in 0..n {
            let here = if i % 2 == 0 { &outside } else { &root }.join(format!("{}{}", name, i));
            symlink(&last, &here).expect("scratch");
            // Said in full, or from where the next link is going to be.
            last = match (r.below(3), i % 2) {
                (0, 0) => Path::new("../out").join(here.file_name().unwrap()),
                (0, _) => Path::new("..").join(base).join(here.file_name().unwrap()),
                _ => here.clone(),
            };
            whole = here;
        }
        whole
    };
    // Folders called like something else.
    let odd = root.join(*r.pick(&["~", "$HOME", "file:", "~root", "%2e%2e", "http:", "out", "\\", " "]));
    fs::create_dir_all(&odd).expect("scratch");
    let inner = root.join(base);
    fs::create_dir_all(&inner).expect("scratch");
    let cwd = std::env::current_dir().expect("cwd");
    let mut names: Vec<&str> = NAMES.to_vec();
    let mut places = vec![];
    let mut links = vec![];
    for n in 0..r.range(4, 9) {
        let i = r.below(names.len());
        let name = names.swap_remove(i);
        // The folder, and other ways to say it.
        let (folder, other): (PathBuf, Vec<PathBuf>) = match r.below(8) {
            6 => (odd.canonicalize().expect("scratch"), vec![dir.join("alias").join(odd.strip_prefix(&root).unwrap()), odd.join("../sub/..").join(odd.file_name().unwrap())]),
            7 => (inner.clone(), vec![dir.join("alias").join(base), root.join("ln/..").join(base)]),
            0 | 1 => (root.clone(), vec![dir.join("alias"), root.join("sub/.."), root.join("ln/deep/../..")]),
            2 => (root.join("sub"), vec![root.join("ln"), dir.join("alias/ln"), root.join("./sub/deep/..")]),
            3 => (root.join("sub/deep"), vec![root.join("ln/down"), root.join("sub/down"), dir.join("alias/sub/./deep")]),
            4 => (sibling.clone(), vec![root.join("..").join(sibling.file_name().unwrap())]),
            _ => (outside.clone(), vec![root.join("away"), root.join("ln/../../out")]),
        };
        // The same name may occur in another folder.
        if n > 0 && r.one_in(5) {
            names.push(name);
        }
        let canonical = folder.join(name);
        if canonical.is_dir() || places.iter().any(|q: &Place| q.canonical == canonical) {
            continue;
        }
        let atoms = r.below(12);
        let mut t = gen::text_of(r, style, &ctx.dict, atoms);
        if r.chance(if focus == Focus::Syntax { 35 } else { 8 }) {
            t.insert_str(0, r.pick(FIRST_LINES));
        }
        fs::write(&canonical, t).expect("scratch");
        let mut spellings = vec![canonical.clone(), canonical.clone()];
        for o in &other {
            spellings.push(o.join(name));
        }
        spellings.push(PathBuf::from(format!("{}//./{}", folder.display(), name)));
        // Links to the file, and to the link.
        let l = outside.join(format!("l{}", n));
        symlink(&canonical, &l).expect("scratch");
        let ll = root.join(format!("ll{}.lnk", n));
        symlink(format!("../out/l{}", n), &ll).expect("scratch");
        links.push([l.clone(), ll.clone()]);
        spellings.push(l);
        spellings.push(ll);
        if r.chance(if focus == Focus::Opening { 25 } else { 5 }) {
            // Repeated, to be chosen more often.
            let whole = if r.chance(60) {
                chain(r, &canonical, &format!("c{}x", n))
            } else {
                chain(r, &folder, &format!("d{}x", n)).join(name)
            };
            spellings.push(whole.clone());
            spellings.push(whole);
        }
        if let Ok(rel) = folder.strip_prefix(&cwd) {
            spellings.push(rel.join(name));
            spellings.push(Path::new(".").join(rel).join("..").join(folder.file_name().unwrap()).join(name));
        }
        // Other files whose paths are easily mixed up with this one's.
        let mut more = vec![];
        if r.chance(if focus == Focus::Opening { 30 } else if focus == Focus::Paths { 15 } else { 6 }) {
            let (a, b) = alike(r, name, matches!(focus, Focus::Opening | Focus::Paths));
            more.push(folder.join(a));
            more.push(folder.join(b));
        }
        if let (Ok(rel), true) = (canonical.strip_prefix(&cwd), r.chance(if focus == Focus::Opening { 30 } else { 6 })) {
            // What a relative spelling says when it is taken from elsewhere.
            let base = r.pick(&[&root, &folder]).join(rel);
            fs::create_dir_all(base.parent().unwrap()).expect("scratch");
            more.push(base);
        }
        places.push(Place { canonical, spellings });
        if r.chance(if focus == Focus::Opening { 25 } else { 4 }) {
            // Two dots after a link lead to where the link leads, not back.
            let to = r.pick(&[&root, &inner, &outside, &outside.join("sub"), &root.join("sub/deep"), &sibling]).to_path_buf();
            let back = to.parent().unwrap().join(name);
            let link = folder.join(format!("lk{}", n));
            if !back.exists() && !places.iter().any(|q: &Place| q.canonical == back) {
                symlink(&to, &link).expect("scratch");
                fs::write(&back, format!("{} after two dots\n", places.len())).expect("scratch");
                let dots = link.join("..").join(name);
                places.push(Place { canonical: back.clone(), spellings: vec![back, dots.clone(), dots] });
            }
        }
        for m in more {
            if m.exists() || places.iter().any(|q: &Place| q.canonical == m) {
                continue;
            }
            fs::write(&m, format!("{} {}\n", places.len(), gen::text_of(r, style, &ctx.dict, 2))).expect("scratch");
            places.push(Place { canonical: m.clone(), spellings: vec![m.clone(), m] });
        }
    }
    let bad = vec![
        (root.join("missing.txt"), "the file is missing"),
        (root.join("nowhere/x.txt"), "the folder is missing"),
        (root.clone(), "it's a folder"),
        (PathBuf::new(), "the path is empty"),
        (PathBuf::from("a\0b"), "the path has a NUL"),
        (places[0].canonical.join("x"), "it's below a file"),
        (root.join("dangling"), "the link is dangling"),
        (root.join("loop"), "the link goes in circles"),
        (root.join("binary"), "the file is not UTF-8"),
        (root.join("n".repeat(300)), "the name is too long"),
        (PathBuf::from("sub/only here.txt"), "relative paths start at the current directory, where there is none"),
        (PathBuf::from("only here.txt"), "relative paths start at the current directory, where there is none"),
    ];
    fs::write(root.join("sub/only here.txt"), "below the workspace\n").expect("scratch");
    fs::write(root.join("only here.txt"), "below the workspace\n").expect("scratch");
    symlink("not/there", root.join("dangling")).expect("scratch");
    symlink("loop", root.join("loop")).expect("scratch");
    fs::write(root.join("binary"), b"abc\xff\xfe\n").expect("scratch");
    let ws_spelling = match r.below(5) {
        0 => dir.join("alias"),
        1 => root.join("sub/.."),
        2 => root.strip_prefix(&cwd).map(|p| p.to_path_buf()).unwrap_or(root.clone()),
        _ => root.clone(),
    };
    World { dir, root, ws_spelling, places, links, bad }
}

/// The way from one folder to a place, both canonical.
fn way(from: &Path, to: &Path) -> PathBuf {
    let common = from.components().zip(to.components()).take_while(|(a, b)| a == b).count();
    let mut out = PathBuf::new();
    for _ in from.components().skip(common) {
        out.push("..");
    }
    to.components().skip(common).for_each(|c| out.push(c));
    out
}

/// Puts the current directory back where it was.
pub struct Home(pub PathBuf);

impl Drop for Home {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir(&self.0);
    }
}

/// File name and extension, judged from the spelling alone.
fn name_of(path: &Path) -> (Option<String>, Option<String>) {
    let s = path.as_os_str().as_bytes();
    let last = s.rsplit(|c| *c == b'/').next().unwrap();
    if last.is_empty() || last == b"." || last == b".." {
        return (None, None);
    }
    let text = |b: &[u8]| String::from_utf8(b.to_vec()).ok();
    let ext = match last.iter().rposition(|c| *c == b'.') {
        None | Some(0) => None,
        Some(i) => text(&last[i + 1..]).filter(|e| !e.is_empty()),
    };
    (text(last), ext)
}

/// Sets of syntaxes that differ in which extensions they have, and what for.
pub fn other_sets() -> &'static [SyntaxSet] {
    static SETS: OnceLock<Vec<SyntaxSet>> = OnceLock::new();
    SETS.get_or_init(|| {
        let made = |pairs: &[(&str, &str)]| {
            let mut b = SyntaxSetBuilder::new();
            b.add_plain_text_syntax();
            for (name, extensions) in pairs {
                let s = format!("%YAML 1.2\n---\nname: {name}\nfile_extensions: [{extensions}]\nscope: source.{name}\ncontexts:\n  main:\n    - match: x\n      scope: x.{name}\n");
                b.add(SyntaxDefinition::load_from_str(&s, true, None).expect("a syntax"));
            }
            b.build()
        };
        vec![
            made(&[]),
            made(&[("one", "rs, txt, unknownext, noext"), ("two", "py, md, Makefile, gz")]),
            made(&[("two", "rs, json, Rakefile, .hidden"), ("one", "js, yml, html, .bashrc")]),
            SyntaxSet::load_defaults_newlines(),
        ]
    })
}

fn expected_syntax(ws: &Workspace, path: Option<&Path>) -> String {
    let key = path.and_then(|q| {
        let (name, ext) = name_of(q);
        ext.or(name)
    });
    key.and_then(|k| ws.syntax_set.find_syntax_by_extension(&k)).unwrap_or_else(|| ws.syntax_set.find_syntax_plain_text()).name.clone()
}

/// The path to report for a buffer's path, if that is clear.
fn expected_path(ws: &Path, path: &Path) -> Option<PathBuf> {
    let (w, s) = (ws.as_os_str().as_bytes(), path.as_os_str().as_bytes());
    if s.split(|c| *c == b'/').any(|c| c == b".." || c == b".") || s.windows(2).any(|x| x == b"//") || path == ws || s.is_empty() || s.ends_with(b"/") {
        return None;
    }
    if w == b"/" {
        return Some(PathBuf::from(OsStr::from_bytes(s.strip_prefix(w).unwrap_or(s))));
    }
    match s.strip_prefix(w) {
        Some(rest) if rest.starts_with(b"/") => Some(PathBuf::from(OsStr::from_bytes(&rest[1..]))),
        _ => Some(path.to_path_buf()),
    }
}

#[derive(Clone, Debug, PartialEq)]
struct Now {
    id: Option<usize>,
    text: String,
    pos: Position,
    modified: bool,
    path: Option<PathBuf>,
    syntax: Option<String>,
}

fn observe(b: &Buffer) -> Result<Now, String> {
    guard("looking at the current buffer", || Now {
        id: b.id,
        text: b.data(),
        pos: b.cursor.position,
        modified: b.modified(),
        path: b.path.clone(),
        syntax: b.syntax_definition.as_ref().map(|s| s.name.clone()),
    })
}

#[derive(Default)]
struct Counts {
    retargeted: u64,
    rebased: u64,
    sets: u64,
    moved: u64,
    from_cwd: u64,
    ops: u64,
    adds: u64,
    opened: u64,
    reselected: u64,
    spelled: u64,
    failed: u64,
    injected: u64,
    nav: u64,
    wraps: u64,
    closes: u64,
    closed_first: u64,
    empty: u64,
    edits: u64,
    moves: u64,
    twins: u64,
    tours: u64,
    undone: u64,
    groups: u64,
    grouped: u64,
    syntaxes: u64,
    plain: u64,
    by_name: u64,
    kept: u64,
    updates: u64,
    relative: u64,
    unchanged: u64,
    dotted: u64,
    none: u64,
    siblings: u64,
    user_sets: u64,
    refused_ws: u64,
    most: u64,
}

/// The case ends here without a verdict: something that another property is about
/// went differently than modelled.
const ASIDE: &str = "\u{1}aside";

fn aside<T>() -> Result<T, String> {
    Err(ASIDE.into())
}

struct Run<'a> {
    ctx: &'a Ctx,
    focus: Focus,
    ws: Workspace,
    world: World,
    style: Style,
    open: Vec<Known>,
    at: Option<usize>,
    ids: HashSet<usize>,
    crowd: usize,
    /// The current directory is no longer that of the harness.
    moved: bool,
    /// The path of the workspace, which is anyone's to change.
    base: PathBuf,
    n: Counts,
}

impl<'a> Run<'a> {
    fn is(&self, f: Focus) -> bool {
        self.focus == f
    }

    /// A deviation that only counts for one property.
    fn claim<T>(&self, f: Focus, m: String) -> Result<T, String> {
        if self.focus == f {
            Err(m)
        } else {
            aside()
        }
    }

    /// Judges everything that can be seen without selecting other buffers.
    fn look(&mut self, after: &str) -> Result<(), String> {
        self.n.most = self.n.most.max(self.open.len() as u64);
        let index = guard("current_buffer_index", || self.ws.current_buffer_index())?;
        let count = guard("buffer_paths", || self.ws.buffer_paths().len())?;
        if count != self.open.len() {
            let f = if self.is(Focus::Order) || self.is(Focus::Opening) { self.focus } else { Focus::Isolation };
            return self.claim(f, format!("after {}: {} buffers are listed, {} should be open", after, count, self.open.len()));
        }
        let now = match &self.ws.current_buffer {
            None => None,
            Some(b) => Some(observe(b)?),
        };
        let expected = self.at.map(|i| self.open[i].id);
        let got = now.as_ref().map(|n| n.id);
        if got.is_some() == self.open.is_empty() {
            return self.claim(Focus::Order, format!("after {}: {} buffers are open, and there is {} current buffer", after, self.open.len(), if got.is_some() { "a" } else { "no" }));
        }
        if got != expected.map(Some) || index != self.at {
            // Which buffer it is may be told from its text where ids are not to be trusted.
            let f = if self.is(Focus::Opening) || self.is(Focus::Isolation) { self.focus } else { Focus::Order };
            if f == Focus::Isolation {
                // Buffers must be themselves, wherever they are.
                if let Some(n) = &now {
                    match n.id.and_then(|id| self.open.iter().position(|k| k.id == id)) {
                        Some(i) => {
                            self.whole(i, n, after)?;
                            return aside();
                        }
                        None => return Err(format!("after {}: the current buffer has id {:?}, which no open buffer has", after, n.id)),
                    }
                }
                return aside();
            }
            return self.claim(
                f,
                format!(
                    "after {}: the current buffer has id {:?} at index {:?}; expected id {:?} at index {:?} (of {:?})",
                    after,
                    got.flatten(),
                    index,
                    expected,
                    self.at,
                    self.open.iter().map(|k| k.id).collect::<Vec<_>>()
                ),
            );
        }
        if let (Some(i), Some(n)) = (self.at, &now) {
            self.whole(i, n, after)?;
        }
        if self.is(Focus::Isolation) {
            for (i, k) in self.open.iter().enumerate() {
                if Some(i) != self.at && k.calls.get() != k.seen_calls {
                    return Err(format!("after {}: buffer {} was changed although it's not the current one", after, k.id));
                }
            }
        }
        if self.is(Focus::Paths) {
            self.paths(after)?;
        }
        Ok(())
    }

    /// Is the buffer what it was?
    fn whole(&mut self, i: usize, n: &Now, after: &str) -> Result<(), String> {
        let k = &self.open[i];
        if n.text != k.text {
            let f = if self.is(Focus::Opening) { self.focus } else { Focus::Isolation };
            return self.claim(f, format!("after {}: the text of buffer {} is wrong: {}", after, k.id, diff(&k.text, &n.text)));
        }
        if n.path != k.path {
            let f = if self.is(Focus::Opening) || self.is(Focus::Paths) { self.focus } else { Focus::Isolation };
            return self.claim(f, format!("after {}: the path of buffer {} is {:?}, not {:?}", after, k.id, n.path, k.path));
        }
        if n.pos != k.pos || n.modified != k.modified {
            let f = Focus::Isolation;
            return self.claim(
                f,
                format!("after {}: buffer {} has its cursor at {} (modified: {}), not at {} (modified: {})", after, k.id, p(&n.pos), n.modified, p(&k.pos), k.modified),
            );
        }
        if n.syntax != k.syntax {
            return self.claim(Focus::Syntax, format!("after {}: buffer {} has syntax {:?}, not {:?}", after, k.id, n.syntax, k.syntax));
        }
        Ok(())
    }

    fn paths(&mut self, after: &str) -> Result<(), String> {
        let wsp = self.base.clone();
        let got: Vec<Option<PathBuf>> = guard("buffer_paths", || self.ws.buffer_paths().iter().map(|q| q.map(|q| q.to_path_buf())).collect())?;
        for (i, k) in self.open.iter().enumerate() {
            let e = match &k.path {
                None => {
                    self.n.none += 1;
                    None
                }
                Some(q) => match expected_path(&wsp, q) {
                    None => {
                        // The path, or what is left of it below the workspace's.
                        let right = got[i].as_ref().is_some_and(|g| g == q || !g.has_root() && wsp.join(g) == *q);
                        if !right {
                            return Err(format!("after {}: path {} in the list is {:?} (path {:?}, workspace {:?})", after, i, got[i], q, wsp));
                        }
                        self.n.dotted += 1;
                        continue;
                    }
                    Some(e) => {
                        if e == *q {
                            self.n.unchanged += 1;
                            self.n.siblings += q.to_str().is_some_and(|s| s.starts_with(wsp.to_str().unwrap_or("\0"))) as u64;
                        } else {
                            self.n.relative += 1;
                        }
                        Some(e)
                    }
                },
            };
            let same = match (&got[i], &e) {
                (None, None) => true,
                (Some(a), Some(b)) => a.as_os_str() == b.as_os_str(),
                _ => false,
            };
            if !same {
                return Err(format!("after {}: path {} in the list is {:?}, should be {:?} (path {:?}, workspace {:?})", after, i, got[i], e, k.path, wsp));
            }
        }
        let cur = guard("current_buffer_path", || self.ws.current_buffer_path().map(|q| q.to_path_buf()))?;
        let listed = guard("current_buffer_index", || self.ws.current_buffer_index())?.and_then(|i| got.get(i).cloned().flatten());
        if cur != listed {
            return Err(format!("after {}: the current path is {:?}, but the list has {:?} at the current index", after, cur, listed));
        }
        if let (Some(i), Some(b)) = (self.at, &self.ws.current_buffer) {
            if let Some(q) = &self.open[i].path {
                let (name, ext) = name_of(q);
                let (a, b) = guard("file_name, file_extension", || (b.file_name(), b.file_extension()))?;
                if (a.clone(), b.clone()) != (name.clone(), ext.clone()) {
                    return Err(format!("file name and extension of {:?} are {:?} and {:?}, should be {:?} and {:?}", q, a, b, name, ext));
                }
            } else {
                let (a, b) = guard("file_name, file_extension", || (b.file_name(), b.file_extension()))?;
                if a.is_some() || b.is_some() {
                    return Err(format!("a buffer without a path has file name {:?} and extension {:?}", a, b));
                }
            }
        }
        Ok(())
    }

    fn adopt(&mut self, text: String, path: Option<PathBuf>, canonical: bool, syntax: Option<String>, calls: Rc<Cell<u64>>, what: &str) -> Result<(), String> {
        let index = self.at.map_or(0, |i| i + 1);
        let Some(b) = self.ws.current_buffer.as_ref() else {
            return self.claim(Focus::Order, format!("after {}: there is no current buffer", what));
        };
        let n = observe(b)?;
        let Some(id) = n.id else {
            return self.claim(Focus::Isolation, format!("after {}: the buffer has no id", what));
        };
        if !self.ids.insert(id) {
            // Either the wrong buffer was selected, or the id was used before.
            if self.is(Focus::Isolation) && n.text == text && n.path == path {
                return Err(format!("after {}: the buffer has id {}, which was used before", what, id));
            }
            let f = if self.is(Focus::Opening) { self.focus } else { Focus::Order };
            return self.claim(f, format!("after {}: the current buffer is not the new one", what));
        }
        self.open.insert(
            index,
            Known { id, text, undo: vec![], redo: vec![], group: None, pos: Position { line: 0, offset: 0 }, path, canonical, modified: n.modified, syntax, seen_calls: calls.get(), calls, twin: None },
        );
        self.at = Some(index);
        // The cursor of a new buffer may have been moved before it was added.
        self.open[index].pos = n.pos;
        Ok(())
    }

    fn add(&mut self, r: &mut Rng, say: &mut String) -> Result<(), String> {
        let calls = Rc::new(Cell::new(0u64));
        let mut undo = vec![];
        let mut canonical = true;
        let mut b;
        let mut text;
        let mut twin = None;
        let mut inserted = false;
        if r.chance(45) {
            let place = r.below(self.world.places.len());
            let spelling = self.spell(r, place);
            let Ok(t) = fs::read_to_string(&spelling) else { return Ok(()) };
            *say = format!("add_buffer(from_file({:?}))", spelling);
            b = guard("from_file", || Buffer::from_file(&spelling))?.map_err(|e| format!("from_file({:?}): {}", spelling, e))?;
            if self.is(Focus::Isolation) {
                twin = guard("from_file", || Buffer::from_file(&spelling).ok())?;
            }
            text = t;
            let c = &self.world.places[place].canonical;
            if b.path.as_ref() != Some(c) {
                let f = if self.is(Focus::Opening) { self.focus } else { Focus::Paths };
                return self.claim(f, format!("from_file({:?}) has the path {:?}, not {:?}", spelling, b.path, c));
            }
        } else {
            b = Buffer::new();
            text = String::new();
            if r.chance(60) {
                let mut t = gen::piece(r, self.style, &self.ctx.dict);
                if r.chance(if self.is(Focus::Syntax) { 35 } else { 5 }) {
                    t.insert_str(0, r.pick(FIRST_LINES));
                }
                if !t.is_empty() {
                    undo.push(text.clone());
                }
                guard("insert", || b.insert(t.as_str()))?;
                inserted = true;
                text = t;
            }
            if self.is(Focus::Isolation) {
                let mut x = Buffer::new();
                if inserted {
                    guard("insert", || x.insert(text.as_str()))?;
                }
                twin = Some(x);
            }
            if r.chance(50) {
                let q = self.some_path(r, &mut canonical);
                b.path = Some(q);
            }
            *say = format!("add_buffer(a new one with {}, path {:?})", show(&text), b.path);
        }
        let c = calls.clone();
        b.change_callback = Some(Box::new(move |_| c.set(c.get() + 1)));
        let mut syntax = None;
        if r.chance(if self.is(Focus::Syntax) { 35 } else { 20 }) {
            let all = self.ws.syntax_set.syntaxes();
            let s = if r.chance(35) { self.ws.syntax_set.find_syntax_plain_text() } else { &all[r.below(all.len())] }.clone();
            *say += &format!(" with syntax {}", s.name);
            syntax = Some(s.name.clone());
            b.syntax_definition = Some(s);
            self.n.kept += 1;
        }
        if r.one_in(3) {
            // Not from this workspace.
            b.id = Some(r.below(6));
        }
        let path = b.path.clone();
        if let Some(x) = &mut twin {
            x.path = path.clone();
            if r.one_in(2) && text.contains('\n') {
                // Remembers a column before it gets here.
                for c in [&mut b, x] {
                    guard("moving the cursor", || {
                        c.cursor.move_to_first_line();
                        c.cursor.move_to_end_of_line();
                        c.cursor.move_down();
                    })?;
                }
            }
        }
        let modified = guard("modified", || b.modified())?;
        guard(say, || self.ws.add_buffer(b))?;
        let syntax = self.derived(syntax, path.as_deref());
        self.n.adds += 1;
        self.adopt(text, path, canonical, Some(syntax), calls, say)?;
        let k = &mut self.open[self.at.unwrap()];
        k.undo = undo;
        k.modified = modified;
        k.twin = twin;
        Ok(())
    }

    fn derived(&mut self, has: Option<String>, path: Option<&Path>) -> String {
        match has {
            Some(s) => s,
            None => {
                let e = expected_syntax(&self.ws, path);
                self.n.syntaxes += 1;
                if e == "Plain Text" {
                    self.n.plain += 1;
                } else if path.is_some_and(|q| name_of(q).1.is_none()) {
                    self.n.by_name += 1;
                }
                e
            }
        }
    }

    fn some_path(&self, r: &mut Rng, canonical: &mut bool) -> PathBuf {
        let name = *r.pick(NAMES);
        if self.is(Focus::Paths) && r.chance(25) {
            *canonical = false;
            let root = &self.world.root;
            return match r.below(9) {
                0 => root.join("sub/..").join(name),
                1 => root.join("ln/..").join(name),
                2 => root.join("../out").join(name),
                3 => self.world.dir.join("out/..").join(root.file_name().unwrap()).join(name),
                4 => PathBuf::from("..").join(name),
                5 => root.join("sub/deep/../..").join(name),
                6 => root.join("sub/../..").join(name),
                7 => PathBuf::from(OsString::from_vec([root.as_os_str().as_bytes(), b"/n\xff\xfe.rs"].concat())),
                _ => self.world.dir.join("alias").join(name),
            };
        }
        let folder = match r.below(8) {
            0..=2 => self.world.root.clone(),
            3 => self.world.root.join("sub/deep"),
            4 => self.world.dir.join("out"),
            5 => PathBuf::from(format!("{}-not-inside", self.world.root.display())),
            6 => {
                *canonical = false;
                return PathBuf::from(name);
            }
            _ => {
                *canonical = false;
                return PathBuf::from(format!("sub/{}", name));
            }
        };
        folder.join(name)
    }

    /// One of the spellings of a place.
    fn spell(&mut self, r: &mut Rng, place: usize) -> PathBuf {
        let spelling = r.pick(&self.world.places[place].spellings).clone();
        match std::env::current_dir() {
            Ok(d) if spelling.is_relative() && self.moved || r.one_in(6) => {
                self.n.from_cwd += 1;
                way(&d, &self.world.places[place].canonical)
            }
            _ => spelling,
        }
    }

    fn open_path(&mut self, r: &mut Rng, say: &mut String) -> Result<(), String> {
        let fault = r.chance(if self.is(Focus::Opening) { 20 } else { 4 });
        if r.chance(if self.is(Focus::Opening) { 25 } else { 6 }) {
            let (q, why) = r.pick(&self.world.bad).clone();
            if self.moved && why.starts_with("relative") {
                return Ok(());
            }
            *say = format!("open_buffer({:?}), {}", q, why);
            return self.must_fail(&q, Plan::default(), say, why);
        }
        let i = r.below(self.world.places.len());
        let c = self.world.places[i].canonical.clone();
        if self.is(Focus::Opening) && r.one_in(10) && own_cwd() {
            // What relative paths mean changes.
            let d = r.pick(&[self.world.root.clone(), self.world.root.join("sub/deep"), self.world.dir.join("out"), self.world.dir.clone()]).clone();
            std::env::set_current_dir(&d).expect("scratch");
            self.moved = true;
            self.n.moved += 1;
        }
        if self.is(Focus::Opening) && r.one_in(8) && !self.world.links.is_empty() {
            // A link leads elsewhere from now on.
            let pair = r.pick(&self.world.links).clone();
            fs::remove_file(&pair[0]).expect("scratch");
            symlink(&c, &pair[0]).expect("scratch");
            for place in &mut self.world.places {
                place.spellings.retain(|s| !pair.contains(s));
            }
            for s in &pair {
                // More often than the others, to be sure that it is used.
                self.world.places[i].spellings.extend([s.clone(), s.clone()]);
            }
            self.n.retargeted += 1;
        }
        let spelling = self.spell(r, i);
        if r.one_in(12) && self.is(Focus::Opening) {
            // Something happened to the file meanwhile.
            match r.below(4) {
                0 => {
                    fs::write(&c, b"\xff not text").expect("scratch");
                }
                1 => {
                    let t = gen::piece(r, self.style, &self.ctx.dict);
                    fs::write(&c, t).expect("scratch");
                }
                2 => {
                    let _ = fs::remove_file(&c);
                }
                _ => {
                    let _ = fs::remove_file(&c);
                    fs::write(&c, "back again\n").expect("scratch");
                }
            }
        }
        let disk = fs::read(&c).ok();
        let known: Vec<usize> = (0..self.open.len()).filter(|k| self.open[*k].path.as_ref() == Some(&c)).collect();
        *say = format!("open_buffer({:?})", spelling);
        if fault {
            let mut plan = Plan { errno: *r.pick(&[libc::EIO, libc::EACCES, libc::ENOMEM]), ..Plan::default() };
            match r.below(3) {
                0 => plan.fail_open = 1,
                1 => plan.fail_read = r.range(1, 2) as u32,
                _ => plan.fail_realpath = r.range(1, 2) as u32,
            }
            plan.piece = r.range(0, 3);
            // Whether it can fail at all: selecting needs no reading.
            if known.is_empty() && disk.is_some() {
                let (x, seen) = fault::with_plan(plan, || guard("from_file", || Buffer::from_file(&spelling).map(|_| ())));
                if seen.failed > 0 && x?.is_err() && plan.fail_realpath != 2 {
                    *say += &format!(" with {:?}", plan);
                    self.n.injected += 1;
                    return self.must_fail(&spelling, plan, say, "a fault was injected");
                }
            }
        }
        match disk {
            None => return self.must_fail(&spelling, Plan::default(), say, "the file is gone"),
            Some(d) => {
                if known.is_empty() {
                    match String::from_utf8(d) {
                        Err(_) => return self.must_fail(&spelling, Plan::default(), say, "the file is not UTF-8"),
                        Ok(text) => {
                            let res = guard(say, || self.ws.open_buffer(&spelling))?;
                            if let Err(e) = res {
                                return self.claim(Focus::Opening, format!("{} failed: {}", say, e));
                            }
                            self.n.opened += 1;
                            let syntax = self.derived(None, Some(&c));
                            let calls = Rc::new(Cell::new(0u64));
                            let cb = calls.clone();
                            if let Some(b) = self.ws.current_buffer.as_mut() {
                                if b.change_callback.is_none() {
                                    b.change_callback = Some(Box::new(move |_| cb.set(cb.get() + 1)));
                                }
                            }
                            let twin = if self.is(Focus::Isolation) { guard("from_file", || Buffer::from_file(&c).ok())? } else { None };
                            self.adopt(text, Some(c), true, Some(syntax), calls, say)?;
                            let i = self.at.unwrap();
                            self.open[i].twin = twin;
                            if self.open[i].modified {
                                return self.claim(Focus::Opening, format!("{}: a buffer just opened is modified", say));
                            }
                            if self.open[i].pos != (Position { line: 0, offset: 0 }) {
                                return self.claim(Focus::Opening, format!("{}: a buffer just opened has its cursor at {}", say, p(&self.open[i].pos)));
                            }
                            return Ok(());
                        }
                    }
                }
            }
        }
        // It's open already: it gets selected, whatever the file looks like by now.
        let res = guard(say, || self.ws.open_buffer(&spelling))?;
        if let Err(e) = res {
            return self.claim(Focus::Opening, format!("{} failed although the file is open already: {}", say, e));
        }
        self.n.reselected += 1;
        self.n.spelled += (spelling != c) as u64;
        let id = self.ws.current_buffer.as_ref().and_then(|b| b.id);
        match known.iter().find(|k| Some(self.open[**k].id) == id) {
            Some(k) => {
                self.at = Some(*k);
                Ok(())
            }
            None => self.claim(
                Focus::Opening,
                format!("{} selected the buffer with id {:?}; the file is open in {:?}", say, id, known.iter().map(|k| self.open[*k].id).collect::<Vec<_>>()),
            ),
        }
    }

    fn must_fail(&mut self, path: &Path, plan: Plan, say: &str, why: &str) -> Result<(), String> {
        let (res, _) = fault::with_plan(plan, || guard(say, || self.ws.open_buffer(path)));
        self.n.failed += 1;
        if res?.is_ok() {
            return self.claim(Focus::Opening, format!("{} succeeded although {}", say, why));
        }
        Ok(())
    }

    fn edit(&mut self, r: &mut Rng, say: &mut String) -> Result<(), String> {
        let Some(i) = self.at else { return Ok(()) };
        let style = self.style;
        let Some(b) = self.ws.current_buffer.as_mut() else { return aside() };
        let k = &mut self.open[i];
        let d = Doc::new(&k.text);
        let mut changed = None;
        let mut twin = k.twin.take();
        let isolation = self.focus == Focus::Isolation;
        // The same for the buffer and for its twin.
        macro_rules! both {
            ($f:expr) => {{
                let f = $f;
                guard(say, || f(b))?;
                if let Some(x) = &mut twin {
                    guard("the same without a workspace", || f(x))?;
                }
            }};
        }
        match r.below(if isolation { 16 } else { 10 }) {
            0..=3 => {
                let at = gen::valid_pos(r, &d);
                let mut t = gen::piece(r, style, &self.ctx.dict);
                if t.is_empty() {
                    t.push('i');
                }
                *say = format!("insert({} at {})", show(&t), p(&at));
                let e = d.after_insert(&at, &t).unwrap();
                both!(|b: &mut Buffer| {
                    b.cursor.move_to(at);
                    b.insert(t.clone())
                });
                changed = Some(e);
            }
            4 => {
                let at = gen::valid_pos(r, &d);
                *say = format!("delete at {}", p(&at));
                let e = d.after_delete_at(&at).unwrap();
                if e == k.text {
                    k.twin = twin;
                    return Ok(());
                }
                both!(|b: &mut Buffer| {
                    b.cursor.move_to(at);
                    b.delete()
                });
                changed = Some(e);
            }
            5 => {
                let t = variant(r, &d, style, &self.ctx.dict);
                *say = format!("replace({})", show(&t));
                let e = t.clone();
                both!(|b: &mut Buffer| b.replace(t.clone()));
                if e != k.text {
                    changed = Some(e);
                }
            }
            6 | 7 => {
                let undo = r.chance(60);
                // Redoing in an open group is not for workspaces to judge.
                if !undo && k.group.is_some() {
                    k.twin = twin;
                    return Ok(());
                }
                if undo {
                    k.group = None;
                }
                *say = if undo { "undo()".into() } else { "redo()".into() };
                both!(|b: &mut Buffer| if undo { b.undo() } else { b.redo() });
                let (from, to) = if undo { (&mut k.undo, &mut k.redo) } else { (&mut k.redo, &mut k.undo) };
                if let Some(t) = from.pop() {
                    to.push(std::mem::replace(&mut k.text, t));
                    self.n.undone += 1;
                }
            }
            8 => {
                let start = k.group.is_none();
                *say = if start { "start_operation_group()".into() } else { "end_operation_group()".into() };
                both!(|b: &mut Buffer| if start { b.start_operation_group() } else { b.end_operation_group() });
                k.group = if start { Some(false) } else { None };
                self.n.groups += start as u64;
            }
            _ => {
                let at = gen::valid_pos(r, &d);
                *say = format!("move_to({})", p(&at));
                both!(|b: &mut Buffer| {
                    b.cursor.move_to(at);
                });
                let ways: Vec<usize> = if isolation { (0..r.below(4)).map(|_| r.below(12)).collect() } else { vec![] };
                if !ways.is_empty() {
                    *say += &format!(", then moves {:?}", ways);
                    self.n.moves += ways.len() as u64;
                }
                both!(|b: &mut Buffer| {
                    for w in &ways {
                        match w {
                            0..=2 => b.cursor.move_down(),
                            3..=5 => b.cursor.move_up(),
                            6 => b.cursor.move_left(),
                            7 => b.cursor.move_right(),
                            8 | 9 => b.cursor.move_to_end_of_line(),
                            10 => b.cursor.move_to_start_of_line(),
                            _ => b.cursor.move_to_last_line(),
                        }
                    }
                });
            }
        }
        if let Some(x) = &mut twin {
            // Up and down again, for the column that is remembered.
            let ups = r.below(6);
            if ups < 3 {
                *say += &["; up", "; down", "; up and down"][ups];
                for c in [&mut *b, x] {
                    guard("moving up or down", || {
                        if ups != 1 {
                            c.cursor.move_up();
                        }
                        if ups != 0 {
                            c.cursor.move_down();
                        }
                    })?;
                }
                self.n.moves += 1;
            }
            let (n, mut m) = (observe(b)?, observe(x)?);
            m.id = n.id;
            m.syntax = n.syntax.clone();
            if n != m {
                return Err(format!("in a workspace, after {}, the buffer is {:?}; without one, after the same calls, it is {:?}", say, n, m));
            }
            self.n.twins += 1;
        }
        k.twin = twin;
        if let Some(e) = changed {
            k.redo.clear();
            let before = std::mem::replace(&mut k.text, e);
            if k.group != Some(true) {
                k.undo.push(before);
            } else {
                self.n.grouped += 1;
            }
            k.group = k.group.map(|_| true);
            self.n.edits += 1;
        }
        // What editing does exactly is for others to judge; here it's only whether
        // the buffer is the same one later on.
        let n = observe(b)?;
        if n.text != k.text {
            return aside();
        }
        k.pos = n.pos;
        k.modified = n.modified;
        k.seen_calls = k.calls.get();
        Ok(())
    }

    fn step(&mut self, r: &mut Rng, say: &mut String) -> Result<(), String> {
        self.n.ops += 1;
        let w = match self.focus {
            //              add open next prev close edit repath syntax tour save base set
            Focus::Order => [16, 12, 22, 22, 16, 4, 0, 0, 6, 0, 0, 0],
            Focus::Isolation => [10, 7, 14, 14, 7, 40, 2, 1, 6, 2, 1, 0],
            Focus::Opening => [8, 50, 6, 6, 8, 12, 3, 0, 3, 5, 2, 0],
            Focus::Syntax => [28, 14, 10, 10, 8, 2, 14, 14, 5, 0, 0, 3],
            Focus::Paths => [22, 14, 12, 12, 10, 2, 16, 0, 4, 0, 4, 0],
        };
        let mut w = w;
        if self.crowd > 12 {
            w[0] *= 3;
        }
        let crowded = self.open.len() > self.crowd;
        match r.weighted(&w) {
            0 if crowded => self.close(say),
            0 => self.add(r, say),
            1 => self.open_path(r, say),
            k @ (2 | 3) => self.turn(k == 2, say),
            4 => self.close(say),
            5 => self.edit(r, say),
            6 => {
                let (Some(i), true) = (self.at, self.ws.current_buffer.is_some()) else { return Ok(()) };
                let mut canonical = true;
                let q = if r.chance(15) {
                    None
                } else if self.is(Focus::Opening) {
                    // Saving under another name, which is then how the file is found.
                    Some(self.world.root.join(*r.pick(NAMES)))
                } else {
                    Some(self.some_path(r, &mut canonical))
                };
                *say = format!("current path becomes {:?}", q);
                let b = self.ws.current_buffer.as_mut().unwrap();
                b.path = q.clone();
                if let Some(x) = &mut self.open[i].twin {
                    x.path = q.clone();
                }
                let m = guard("modified", || b.modified())?;
                let k = &mut self.open[i];
                k.path = q;
                k.canonical = canonical;
                k.modified = m;
                Ok(())
            }
            7 => {
                *say = "update_current_syntax()".into();
                let res = guard(say, || self.ws.update_current_syntax())?;
                self.n.updates += 1;
                match self.at {
                    None => {
                        if res.is_ok() {
                            return self.claim(Focus::Syntax, "update_current_syntax() succeeded without a buffer".into());
                        }
                    }
                    Some(i) => {
                        if let Err(e) = res {
                            return self.claim(Focus::Syntax, format!("update_current_syntax() failed: {}", e));
                        }
                        let path = self.open[i].path.clone();
                        self.open[i].syntax = Some(self.derived(None, path.as_deref()));
                    }
                }
                Ok(())
            }
            10 => {
                let root = &self.world.root;
                let d = match r.below(7) {
                    0 | 1 => root.clone(),
                    2 => root.join("sub"),
                    3 => self.world.dir.clone(),
                    4 => self.world.dir.join("out"),
                    5 => PathBuf::from("/"),
                    _ => PathBuf::from(format!("{}-not-inside", root.display())),
                };
                *say = format!("the path of the workspace becomes {:?}", d);
                self.ws.path = d.clone();
                self.base = d;
                self.n.rebased += 1;
                Ok(())
            }
            11 => {
                let sets = other_sets();
                let k = r.below(sets.len());
                *say = format!("the workspace gets another set of syntaxes, number {}", k);
                self.ws.syntax_set = sets[k].clone();
                self.n.sets += 1;
                Ok(())
            }
            8 if self.crowd > 12 => Ok(()),
            8 => self.tour(r, say),
            _ => {
                let Some(i) = self.at else { return Ok(()) };
                let k = &mut self.open[i];
                let inside = k.canonical && k.path.as_ref().is_some_and(|q| q.starts_with(&self.world.dir) && q.parent().is_some_and(|f| f.is_dir()) && !q.is_dir());
                let Some(b) = self.ws.current_buffer.as_mut() else { return aside() };
                if !inside || b.path != k.path {
                    return Ok(());
                }
                *say = format!("save() to {:?}", k.path);
                let _ = guard(say, || b.save())?;
                if let Some(x) = &mut k.twin {
                    let _ = guard("the same without a workspace", || x.save())?;
                }
                k.modified = guard("modified", || b.modified())?;
                let q = k.path.clone().unwrap();
                if !self.world.places.iter().any(|x| x.canonical == q) && q.is_file() && q.canonicalize().ok().as_ref() == Some(&q) {
                    // From now on there's one more file to open.
                    let mut spellings = vec![q.clone()];
                    if let Ok(rest) = q.strip_prefix(&self.world.root) {
                        spellings.push(self.world.dir.join("alias").join(rest));
                        spellings.push(self.world.root.join("ln/..").join(rest));
                    }
                    self.world.places.push(Place { canonical: q, spellings });
                }
                Ok(())
            }
        }
    }

    /// Adds and closes many buffers.
    fn mass(&mut self, count: usize, say: &mut String) -> Result<(), String> {
        for k in 0..count {
            *say = format!("add_buffer, number {} of {}", k + 1, count);
            let mut b = Buffer::new();
            b.id = if k % 5 == 0 { Some(0) } else { None };
            guard(say, || self.ws.add_buffer(b))?;
            let syntax = self.derived(None, None);
            self.n.adds += 1;
            self.adopt(String::new(), None, true, Some(syntax), Rc::new(Cell::new(0)), say)?;
            if k % 1000 == 0 {
                self.look("adding many buffers")?;
            }
            self.close(say)?;
            if k % 1000 == 0 {
                self.look("closing many buffers")?;
            }
        }
        *say = format!("{} buffers added and closed", count);
        Ok(())
    }

    fn turn(&mut self, forward: bool, say: &mut String) -> Result<(), String> {
        *say = if forward { "next_buffer()".into() } else { "previous_buffer()".into() };
        guard(say, || if forward { self.ws.next_buffer() } else { self.ws.previous_buffer() })?;
        self.n.nav += 1;
        match self.at {
            None => self.n.empty += 1,
            Some(i) => {
                let n = self.open.len();
                let j = if forward { (i + 1) % n } else { (i + n - 1) % n };
                self.n.wraps += ((forward && j == 0) || (!forward && i == 0)) as u64;
                self.at = Some(j);
            }
        }
        Ok(())
    }

    fn close(&mut self, say: &mut String) -> Result<(), String> {
        *say = "close_current_buffer()".into();
        guard(say, || self.ws.close_current_buffer())?;
        self.n.closes += 1;
        match self.at {
            None => self.n.empty += 1,
            Some(i) => {
                self.n.closed_first += (i == 0) as u64;
                self.open.remove(i);
                self.at = if self.open.is_empty() { None } else { Some(i.saturating_sub(1)) };
            }
        }
        Ok(())
    }

    /// Visits every buffer and comes back.
    fn tour(&mut self, r: &mut Rng, say: &mut String) -> Result<(), String> {
        let forward = r.chance(50);
        let mut found = HashSet::new();
        for k in 0..self.open.len() {
            self.turn(forward, say)?;
            let after = format!("step {} of a tour ({})", k + 1, say);
            self.look(&after)?;
            if let Some(id) = self.ws.current_buffer.as_ref().and_then(|b| b.id) {
                found.insert(id);
            }
        }
        if found.len() != self.open.len() {
            return self.claim(Focus::Order, format!("a tour of {} buffers found {}", self.open.len(), found.len()));
        }
        self.n.tours += 1;
        *say = "a tour".into();
        Ok(())
    }

    /// Undoes everything in every buffer.
    fn unwind(&mut self, say: &mut String) -> Result<(), String> {
        for _ in 0..self.open.len() {
            self.turn(true, say)?;
            self.look("switching, at the end")?;
            let Some(i) = self.at else { return Ok(()) };
            let Some(b) = self.ws.current_buffer.as_mut() else { return aside() };
            while let Some(t) = self.open[i].undo.pop() {
                guard("undo", || b.undo())?;
                if let Some(x) = &mut self.open[i].twin {
                    guard("undo", || x.undo())?;
                }
                let got = guard("data", || b.data())?;
                if got != t {
                    return Err(format!("undoing in buffer {} at the end, {} steps before its first text: {}", self.open[i].id, self.open[i].undo.len(), diff(&t, &got)));
                }
                self.n.undone += 1;
            }
            let n = observe(b)?;
            let k = &mut self.open[i];
            k.text = n.text;
            k.pos = n.pos;
            k.modified = n.modified;
            k.seen_calls = k.calls.get();
        }
        Ok(())
    }
}

fn workspace_case(ctx: &Ctx, seed: u64, keep: Option<&[usize]>, focus: Focus) -> Outcome {
    let mut r = Rng::new(mix2(seed, 0x3000 + focus as u64));
    let mut ops = match r.weighted(&[30, 45, 25]) {
        0 => r.range(3, 20),
        1 => r.range(20, 60),
        _ => r.range(60, 250),
    };
    // Sometimes many more buffers than anybody opens by hand.
    let mut crowd = 12;
    if r.one_in(150) {
        crowd = *r.pick(&[20usize, 40, 70, 140, 300]);
        ops = crowd * r.range(2, 4);
    }
    let mass = if r.one_in(200) { ctx.dict.int(&mut r, 5000).unwrap_or(1000).max(*r.pick(&[260usize, 1030])) } else { 0 };
    let mass = if mass > 0 && r.one_in(12) { 66_000 } else { mass };
    let mut all = vec![];
    let keep = match keep {
        Some(k) => k,
        None => {
            all.extend(0..ops);
            &all
        }
    };
    let w = world(&mut r, ctx, focus);
    let home = Home(std::env::current_dir().expect("cwd"));
    let dir = w.dir.clone();
    let mut n = Counts::default();
    let mut sig = 0;
    let verdict = (|| -> Result<(), String> {
        let user = focus == Focus::Syntax && r.one_in(60);
        let folder = dir.join("syntaxes");
        let style = gen::style(&mut r);
        let mut names = vec![];
        if user {
            names = write_syntaxes(&folder);
        }
        if focus == Focus::Syntax && r.one_in(4) {
            n.refused_ws += 1;
            let missing = dir.join("no-such-folder");
            if guard("Workspace::new", || Workspace::new(&w.ws_spelling, Some(&missing)).is_ok())? {
                return Err("a workspace with a missing syntax folder is created without an error".into());
            }
            if guard("Workspace::new", || Workspace::new(&missing, None).is_ok())? {
                return Err("a workspace with a missing path is created without an error".into());
            }
        }
        ctx.say(|| format!("Workspace::new({:?})", w.ws_spelling));
        let ws = guard("Workspace::new", || Workspace::new(&w.ws_spelling, if user { Some(&folder) } else { None }))?
            .map_err(|e| format!("Workspace::new: {}", e))?;
        if ws.path != w.root && focus == Focus::Paths {
            return Err(format!("the workspace path is {:?}, not {:?}", ws.path, w.root));
        }
        if user {
            n.user_sets += 1;
            for name in &names {
                if ws.syntax_set.find_syntax_by_name(name).is_none() {
                    return Err(format!("the user syntax {} is not in the workspace's set", name));
                }
            }
            for name in ["Rust", "Plain Text", "HTML"] {
                if ws.syntax_set.find_syntax_by_name(name).is_none() {
                    return Err(format!("with user syntaxes, {} is not in the workspace's set any more", name));
                }
            }
            if ws.syntax_set.find_syntax_by_extension("monx").map(|s| s.name.as_str()) != Some("Mon") {
                return Err("a user syntax is not found by its extension".into());
            }
        }
        let base = w.root.clone();
        let mut run = Run { ctx, focus, ws, world: w, style, open: vec![], at: None, ids: HashSet::new(), crowd, moved: false, base, n: std::mem::take(&mut n) };
        let out = (|| -> Result<(), String> {
            run.look("creating the workspace")?;
            let mass_at = mass % 7;
            for (k, i) in keep.iter().enumerate() {
                if mass > 0 && k == mass_at {
                    let mut say = String::new();
                    run.mass(mass, &mut say)?;
                    ctx.say(|| say.clone());
                    run.look(&say)?;
                }
                let mut r = Rng::new(mix2(mix2(seed, 0xBEEF), *i as u64));
                let mut say = String::new();
                let res = run.step(&mut r, &mut say);
                if !say.is_empty() {
                    ctx.say(|| say.clone());
                }
                sig = mix2(sig, hash_str(&say));
                res?;
                if !say.is_empty() {
                    run.look(&say)?;
                }
            }
            let mut say = String::new();
            let mut r = Rng::new(mix2(seed, 0xE17D));
            run.tour(&mut r, &mut say)?;
            if focus == Focus::Isolation {
                run.unwind(&mut say)?;
                // Once more: undoing in one did nothing to the others.
                run.tour(&mut r, &mut say)?;
            }
            if focus == Focus::Order {
                while !run.open.is_empty() {
                    run.close(&mut say)?;
                    run.look("closing everything")?;
                }
                for _ in 0..3 {
                    run.close(&mut say)?;
                    run.turn(true, &mut say)?;
                    run.turn(false, &mut say)?;
                    run.look("navigating an empty workspace")?;
                }
                run.add(&mut r, &mut say)?;
                run.look("adding to an emptied workspace")?;
            }
            Ok(())
        })();
        n = run.n;
        out
    })();
    let set_aside = matches!(&verdict, Err(m) if m == ASIDE);
    let verdict = if set_aside { Ok(()) } else { verdict };
    drop(home);
    let _ = fs::remove_dir_all(&dir);
    ctx.add("workspace operations", n.ops);
    ctx.add("changes of the current directory", n.moved);
    ctx.add("links made to lead elsewhere", n.retargeted);
    ctx.add("changes of the workspace's path", n.rebased);
    ctx.add("changes of the workspace's syntax set", n.sets);
    ctx.add("paths taken from the current directory", n.from_cwd);
    ctx.add("histories set aside (deviating in what another property judges)", set_aside as u64);
    ctx.add("buffers added", n.adds);
    ctx.add("buffers opened by path", n.opened);
    ctx.add("paths opened again", n.reselected);
    ctx.add("paths opened again by another spelling", n.spelled);
    ctx.add("opens that had to fail", n.failed);
    ctx.add("opens failed by injection", n.injected);
    ctx.add("moves to the next or previous buffer", n.nav);
    ctx.add("moves that wrapped around", n.wraps);
    ctx.add("closes", n.closes);
    ctx.add("closes of the first buffer", n.closed_first);
    ctx.add("operations on an empty workspace", n.empty);
    ctx.add("edits", n.edits);
    ctx.add("moves up, down and along lines", n.moves);
    ctx.add("buffers compared with one outside of any workspace", n.twins);
    ctx.add("edits undone or redone", n.undone);
    ctx.add("groups started", n.groups);
    ctx.add("edits continuing a group", n.grouped);
    ctx.add("tours of all buffers", n.tours);
    ctx.add("syntaxes derived from a path", n.syntaxes);
    ctx.add("plain text for want of a better syntax", n.plain);
    ctx.add("syntaxes derived from a name without extension", n.by_name);
    ctx.add("syntaxes given in advance", n.kept);
    ctx.add("syntax updates", n.updates);
    ctx.add("workspaces with user syntaxes", n.user_sets);
    ctx.add("workspaces refused", n.refused_ws);
    ctx.add("paths inside the workspace judged", n.relative);
    ctx.add("paths outside judged", n.unchanged);
    ctx.add("paths with dots in them judged", n.dotted);
    ctx.add("paths outside beginning like the workspace's", n.siblings);
    ctx.add("buffers without a path judged", n.none);
    ctx.max("most buffers open at once", n.most);
    let nontrivial = n.most >= 2;
    Outcome { verdict, steps: ops, signature: sig, nontrivial }
}

pub fn w01(ctx: &Ctx, seed: u64, keep: Option<&[usize]>) -> Outcome {
    workspace_case(ctx, seed, keep, Focus::Order)
}
pub fn w02(ctx: &Ctx, seed: u64, keep: Option<&[usize]>) -> Outcome {
    workspace_case(ctx, seed, keep, Focus::Isolation)
}
pub fn w03(ctx: &Ctx, seed: u64, keep: Option<&[usize]>) -> Outcome {
    workspace_case(ctx, seed, keep, Focus::Opening)
}
pub fn w04(ctx: &Ctx, seed: u64, keep: Option<&[usize]>) -> Outcome {
    workspace_case(ctx, seed, keep, Focus::Syntax)
}
pub fn w05(ctx: &Ctx, seed: u64, keep: Option<&[usize]>) -> Outcome {
    workspace_case(ctx, seed, keep, Focus::Paths)
}
