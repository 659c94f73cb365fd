//! How much work calls are: instructions counted by callgrind, for texts, histories
//! and workspaces of some size and of four times that size.

use crate::gen;
use crate::rng::{mix2, Rng};
use crate::run::{self, guard, Ctx, Outcome};
use crate::still;
use crate::track;
use scribe::buffer::{Distance, GapBuffer, Position, Range, TokenSet};
use scribe::util::LineIterator;
use scribe::{Buffer, Workspace};
use std::cell::{Cell, RefCell};
use std::fs;
use std::os::unix::process::ExitStatusExt;
use std::path::Path;
use std::sync::atomic::{AtomicU64, Ordering};
use std::process::Command;

/// A request to the tool that the process runs under; nothing without one.
#[cfg(target_arch = "x86_64")]
fn request(what: usize) {
    let args: [usize; 6] = [0x4354_0000 + what, 0, 0, 0, 0, 0];
    unsafe {
        std::arch::asm!(
            "rol rdi, 3",
            "rol rdi, 13",
            "rol rdi, 61",
            "rol rdi, 51",
            "xchg rbx, rbx",
            in("rax") args.as_ptr(),
            inout("rdx") 0usize => _,
            out("rdi") _,
        );
    }
}

#[cfg(not(target_arch = "x86_64"))]
fn request(_: usize) {}

const DUMP: usize = 0;
const ZERO: usize = 1;
const START: usize = 4;
const STOP: usize = 5;

/// What is measured.
#[derive(Clone, Copy, PartialEq)]
enum How {
    Instructions,
    Time,
    Stack,
    Memory,
    Calls,
}

thread_local! {
    static HOW: Cell<How> = const { Cell::new(How::Instructions) };
    static RESULTS: RefCell<Vec<u64>> = const { RefCell::new(vec![]) };
}

/// How far down the stack is looked at.
const DEPTH: usize = 4 << 20;
const PAINT: usize = 0x5AFE_57AC_C0FF_EE11;

/// Marks the unused stack below an address, from afar on.
#[inline(always)]
fn paint(top: usize) {
    let mut p = top - DEPTH;
    while p < top {
        unsafe { std::ptr::write_volatile(p as *mut usize, PAINT) };
        p += 8;
    }
}

/// How far down the marks are gone.
#[inline(always)]
fn painted_over(top: usize) -> usize {
    let mut p = top - DEPTH;
    while p < top && unsafe { std::ptr::read_volatile(p as *const usize) } == PAINT {
        p += 8;
    }
    top - p
}

/// Counts the instructions of a call (or what else is measured); the counts are in the order of the calls.
fn measured<T>(f: impl FnOnce() -> T) -> T {
    match HOW.with(|h| h.get()) {
        How::Instructions => {}
        How::Time => {
            let before = run::thread_cpu();
            let r = f();
            let used = run::thread_cpu() - before;
            RESULTS.with(|v| v.borrow_mut().push((used * 1e9) as u64));
            return r;
        }
        How::Stack => {
            let base = 0usize;
            let top = (&base as *const usize as usize - 4096) & !15;
            paint(top);
            let r = f();
            let used = painted_over(top) + 4096;
            RESULTS.with(|v| v.borrow_mut().push(used as u64));
            std::hint::black_box(&base);
            return r;
        }
        How::Calls => {
            let w = still::watch();
            let r = f();
            drop(w);
            RESULTS.with(|v| v.borrow_mut().push(still::count() as u64));
            return r;
        }
        How::Memory => {
            RESULTS.with(|v| v.borrow_mut().reserve(64));
            track::count_held(true);
            let r = f();
            let most = track::most_held();
            track::count_held(false);
            RESULTS.with(|v| v.borrow_mut().push(most.max(0) as u64));
            return r;
        }
    }
    request(START);
    let r = f();
    request(STOP);
    request(DUMP);
    DUMPS.fetch_add(1, Ordering::Relaxed);
    r
}

static DUMPS: AtomicU64 = AtomicU64::new(0);

const SHAPES: usize = 12;

fn text(shape: usize, bytes: usize, r: &mut Rng) -> String {
    // The same all over, so that it makes no difference where something is.
    let unit = |r: &mut Rng| -> String {
        match shape {
            0 => "let some_name = call(1, \"text\");\n".into(),
            1 => "word ".into(),
            2 => "\n".into(),
            3 => "a line\r\n".into(),
            4 => "e\u{301}".into(),
            5 => "👩\u{200d}👩\u{200d}👧\n".into(),
            6 => "a".into(),
            7 => "{\"key\": [1, 2.5, null], \"other\": true},\n".into(),
            8 => "\u{301}".into(),
            9 => "日本語\t".into(),
            10 => "1,\"a\",[null],".into(),
            _ => {
                let style = gen::style(r);
                let dict = gen::Dict { ints: vec![], strings: vec!["fn".into()] };
                gen::text_of(r, style, &dict, 12)
            }
        }
    };
    let mut out = String::new();
    if shape == 8 {
        out.push('e');
    }
    let u = unit(r);
    while out.len() < bytes {
        out.push_str(&u);
        if u.is_empty() {
            out.push('x');
        }
    }
    out
}

/// The position after a number of the text's bytes, more or less.
fn somewhere(text: &str, at: usize) -> Position {
    let mut at = at.min(text.len());
    while !text.is_char_boundary(at) {
        at -= 1;
    }
    let head = &text[..at];
    let line = head.matches('\n').count();
    let last = head.rfind('\n').map_or(0, |i| i + 1);
    use unicode_segmentation::UnicodeSegmentation;
    let rest = text[last..].split('\n').next().unwrap_or("").trim_end_matches('\r');
    let offset = head[last..].graphemes(true).count().min(rest.graphemes(true).count());
    Position { line, offset }
}

const OPS: usize = 35;

/// How many buffers a workspace gets: fewer if they are opened, rather than added.
fn buffers(op: usize, n: usize) -> usize {
    if op == 33 {
        n / 20
    } else {
        n / 2
    }
}

/// One operation, at a size. Returns what it was, and the bytes it had to do with.
fn toil(op: usize, shape: usize, n: usize, seed: u64, dir: &Path) -> Result<(String, usize), String> {
    let mut r = Rng::new(seed);
    // Choices that must be the same for each size come first.
    let part = *r.pick(&[0, 1, 2, 3, 4, 4]);
    let kind = r.next();
    let t = text(shape, n, &mut r);
    let len = t.len();
    let at = |s: &str| somewhere(s, s.len() * part / 4);
    let file = dir.join("f.txt");
    let start = |t: &str| -> Buffer {
        let mut b = Buffer::new();
        b.insert(t);
        b.path = Some(file.clone());
        b
    };
    let place = |b: &mut Buffer, q: Position| {
        b.cursor.move_to(q);
    };
    guard("a call", || {
        let name: String = match op {
            0 => {
                fs::write(&file, &t).expect("scratch");
                measured(|| Buffer::from_file(&file)).expect("load");
                "from_file".into()
            }
            1 => {
                let mut b = start(&t);
                measured(|| b.save()).expect("save");
                "save".into()
            }
            2 => {
                let mut b = start("a");
                fs::write(&file, &t).expect("scratch");
                measured(|| b.reload()).expect("reload");
                "reload".into()
            }
            3 => {
                let mut b = start(&t);
                place(&mut b, at(&t));
                b.insert("x");
                measured(|| b.data());
                "data".into()
            }
            4 => {
                let base = if kind % 2 == 0 { "some\ntext".to_string() } else { t.clone() };
                let mut b = start(&base);
                place(&mut b, at(&base));
                measured(|| b.insert(t.as_str()));
                format!("inserting a text {}/4 into {}", part, if kind % 2 == 0 { "a short one" } else { "another" })
            }
            5 => {
                let mut b = start(&t);
                place(&mut b, at(&t));
                b.insert("y");
                measured(|| {
                    b.insert("x");
                    b.insert("x")
                });
                format!("two small insertions {}/4 into a text", part)
            }
            6 => {
                let mut b = start(&t);
                place(&mut b, at(&t));
                measured(|| {
                    b.delete();
                    b.delete()
                });
                format!("two deletions {}/4 into a text", part)
            }
            7 => {
                let mut b = start(&t);
                let (x, y) = match kind % 4 {
                    0 => (somewhere(&t, 0), somewhere(&t, len)),
                    1 => (at(&t), somewhere(&t, len)),
                    2 => (somewhere(&t, 0), at(&t)),
                    _ => (at(&t), Position { line: usize::MAX, offset: 1 }),
                };
                measured(|| b.delete_range(Range::new(x, y)));
                format!("delete_range({}), {}/4 in", kind % 4, part)
            }
            8 | 9 => {
                let mut b = start(&t);
                place(&mut b, at(&t));
                match kind % 4 {
                    0 => b.insert("x"),
                    1 => b.insert(t.as_str()),
                    2 => b.delete_range(Range::new(somewhere(&t, 0), at(&t))),
                    _ => b.replace("other"),
                }
                if op == 9 {
                    b.undo();
                    measured(|| b.redo());
                    format!("redo of an edit ({})", kind % 4)
                } else {
                    measured(|| b.undo());
                    format!("undo of an edit ({})", kind % 4)
                }
            }
            10..=12 => {
                // A group of many edits of a short text.
                let mut b = start("a short\ntext");
                let single = op != 12 && kind / 3 % 3 == 2;
                if !single {
                    b.start_operation_group();
                }
                let many = if single { n / 2 } else if op == 12 { n / 8 } else { n / 60 };
                for i in 0..many {
                    match kind % 3 {
                        0 | 2 if single => b.insert(""),
                        0 => {
                            b.insert("x");
                            b.delete();
                        }
                        1 => b.insert(""),
                        _ => {
                            place(&mut b, Position { line: i % 2, offset: i % 4 });
                            b.insert("é");
                            b.delete();
                        }
                    }
                }
                match op {
                    10 | 11 if single => {
                        let all = kind / 9 % 3;
                        if all > 0 {
                            (0..many).for_each(|_| b.undo());
                        }
                        measured(|| match all {
                            0 => (0..many).for_each(|_| b.undo()),
                            1 => (0..many).for_each(|_| b.redo()),
                            _ => b.insert("y"),
                        });
                        ["undoing many edits", "redoing many edits", "an edit after undoing many"][all as usize].into()
                    }
                    10 => {
                        measured(|| b.undo());
                        "undo of a group".into()
                    }
                    11 => {
                        b.undo();
                        measured(|| b.redo());
                        "redo of a group".into()
                    }
                    _ => {
                        measured(|| {
                            b.insert("y");
                            b.end_operation_group();
                            b.start_operation_group();
                        });
                        "an edit in, and the end of a group".into()
                    }
                }
            }
            13..=15 => {
                let mut b = start(&t);
                place(&mut b, at(&t));
                b.insert("x");
                let needle: String = match kind % 8 {
                    0 => "nowhere to be found".into(),
                    1 => "a".into(),
                    2 => "x".into(),
                    3 => t.chars().take(30).filter(|c| *c != '\n' && *c != '\r').collect(),
                    4 => "a".repeat(40) + "b",
                    5 => "e\u{301}".into(),
                    // Long, but nowhere even begun.
                    6 => "\u{7}x".repeat(t.len() / 6),
                    _ => " ".into(),
                };
                measured(|| b.search(&needle));
                format!("search ({})", kind % 8)
            }
            16 => {
                let mut b = start(&t);
                place(&mut b, at(&t));
                b.insert("x");
                let all = Range::new(somewhere(&t, 0), somewhere(&t, len));
                let some = Range::new(at(&t), somewhere(&t, len));
                measured(|| {
                    b.read(&all);
                    b.read(&some);
                });
                format!("read, from {}/4 on", part)
            }
            17 => {
                let b = start(&t);
                let q = at(&t);
                measured(|| {
                    let d = b.cursor.data.borrow();
                    (d.in_bounds(&q), d.in_bounds(&Position { line: q.line, offset: usize::MAX }), d.in_bounds(&Position { line: usize::MAX, offset: 0 }))
                });
                format!("in_bounds, {}/4 in", part)
            }
            18..=20 => {
                let mut b = start(&t);
                let q = at(&t);
                place(&mut b, q);
                let k = kind % 9;
                measured(|| match k {
                    0 => drop(b.cursor.move_to(Position { line: q.line, offset: 0 })),
                    1 => b.cursor.move_up(),
                    2 => b.cursor.move_down(),
                    3 => b.cursor.move_left(),
                    4 => b.cursor.move_right(),
                    5 => b.cursor.move_to_start_of_line(),
                    6 => b.cursor.move_to_end_of_line(),
                    7 => b.cursor.move_to_first_line(),
                    _ => b.cursor.move_to_last_line(),
                });
                format!("movement {} of the cursor, {}/4 in", k, part)
            }
            21 => {
                let b = start(&t);
                measured(|| b.line_count());
                "line_count".into()
            }
            22 => {
                measured(|| LineIterator::new(&t).count());
                "LineIterator".into()
            }
            23 => {
                let d = measured(|| Distance::of_str(&t));
                format!("Distance::of_str ({})", d.lines.min(1))
            }
            24 => {
                let mut b = start(&t);
                place(&mut b, at(&t));
                let other = if kind % 2 == 0 { t.clone() } else { format!("{}y", t) };
                measured(|| b.replace(other.as_str()));
                format!("replace by {} text", if kind % 2 == 0 { "the same" } else { "another" })
            }
            25..=28 => {
                // A long history of edits of a short text.
                let mut b = start("a short\ntext");
                for i in 0..n / 4 {
                    match kind % 4 {
                        0 => b.insert(""),
                        1 => {
                            b.insert("x");
                            b.delete();
                        }
                        2 => {
                            b.start_operation_group();
                            b.insert("x");
                            b.undo();
                        }
                        _ => {
                            b.delete_range(Range::new(Position { line: 0, offset: i % 7 }, Position { line: 0, offset: i % 7 }));
                        }
                    }
                }
                let k = kind / 4 % 7;
                measured(|| match k {
                    0 => b.insert("x"),
                    1 => b.undo(),
                    2 => {
                        b.undo();
                        b.redo()
                    }
                    3 => drop(b.modified()),
                    4 => b.save().expect("save"),
                    5 => {
                        b.undo();
                        b.undo();
                        b.undo();
                        b.insert("y")
                    }
                    _ => {
                        b.start_operation_group();
                        b.delete();
                        b.end_operation_group()
                    }
                });
                format!("call {} with a long history ({})", k, kind % 4)
            }
            29 => {
                let mut g = GapBuffer::new(t.as_str());
                let q = at(&t);
                measured(|| {
                    g.insert("x", &q);
                    g.delete(&Range::new(Position { line: 0, offset: 0 }, q));
                    g.to_string()
                });
                format!("edits of a gap buffer, {}/4 in", part)
            }
            30 => {
                let mut b = start(&t);
                place(&mut b, at(&t));
                b.insert("x");
                b.undo();
                if kind % 3 == 1 {
                    b.start_operation_group();
                }
                if kind % 3 > 0 {
                    b.replace("short");
                    for i in 0..n / 4 {
                        b.insert(if i % 2 == 0 { "y" } else { "" });
                    }
                    for _ in 0..kind / 3 % 2 * n as u64 / 9 {
                        b.undo();
                    }
                }
                measured(|| drop(b));
                format!("letting go of a buffer ({})", kind % 3)
            }
            31 => {
                // Many tokens, on whatever lines there are.
                const DEFINITION: &str = "name: dense\nfile_extensions: [dense]\nscope: source.dense\ncontexts:\n  main:\n    - match: '[0-9]'\n      scope: constant.numeric.dense\n    - match: 'a'\n      scope: keyword.dense\n    - match: '\\{'\n      scope: punctuation.dense\n      push:\n        - match: '\\}'\n          pop: true\n    - match: ' |,|日|\\t'\n      scope: space.dense\n";
                let mut builder = syntect::parsing::SyntaxSetBuilder::new();
                builder.add(syntect::parsing::syntax_definition::SyntaxDefinition::load_from_str(DEFINITION, true, None).expect("definition"));
                let syntaxes = builder.build();
                let def = syntaxes.find_syntax_by_name("dense").expect("syntax").clone();
                let set = TokenSet::new(t.clone(), &def, &syntaxes);
                let n = set.iter().map(|i| i.count()).unwrap_or(0);
                measured(|| set.iter().map(|i| i.count()).unwrap_or(0));
                format!("tokens of a dense text ({})", n.min(1))
            }
            _ => {
                // Workspaces: of many buffers, or asked for tokens.
                let root = dir.join("root");
                fs::create_dir_all(&root).expect("scratch");
                let mut ws = Workspace::new(&root, None).expect("workspace");
                if op == 32 {
                    let t = if shape == 8 { text(0, n, &mut r) } else { t.clone() };
                    let t = &t[..t.char_indices().map(|c| c.0).take_while(|i| *i <= n / 2).last().unwrap_or(0)];
                    let syntax = ["Plain Text", "JSON", "Rust"][(kind % 3) as usize];
                    let def = ws.syntax_set.find_syntax_by_name(syntax).expect("syntax").clone();
                    let set = TokenSet::new(t.to_string(), &def, &ws.syntax_set);
                    let n = set.iter().map(|i| i.count()).unwrap_or(0);
                    measured(|| set.iter().map(|i| i.count()).unwrap_or(0));
                    format!("tokens of {} ({})", syntax, n.min(1))
                } else {
                    let many = buffers(op, n);
                    for i in 0..many {
                        let q = root.join(format!("f{}.txt", i));
                        fs::write(&q, "text").expect("scratch");
                        if op == 33 && (kind % 2 == 0 || i % 16 == 0) {
                            ws.open_buffer(&q).expect("open");
                        } else {
                            let mut b = Buffer::new();
                            b.path = Some(q);
                            ws.add_buffer(b);
                        }
                    }
                    for _ in 0..part {
                        ws.previous_buffer();
                    }
                    let k = kind / 2 % 9;
                    fs::write(root.join("new.txt"), "new").expect("scratch");
                    measured(|| match k {
                        0 => ws.next_buffer(),
                        1 => ws.previous_buffer(),
                        2 => ws.close_current_buffer(),
                        3 => drop(ws.buffer_paths()),
                        4 => drop(ws.current_buffer_index()),
                        5 => ws.open_buffer(&root.join("f0.txt")).expect("open"),
                        6 => ws.open_buffer(&root.join("new.txt")).expect("open"),
                        7 => ws.add_buffer(Buffer::new()),
                        _ => drop(ws.current_buffer_path()),
                    });
                    format!("call {} on a workspace of many buffers ({})", k, if op == 33 { kind % 2 } else { 2 })
                }
            }
        };
        name
    })
    .map(|name| {
        // What the work may be in proportion to: for calls whose work has nothing to do
        // with the length of the history, nothing.
        let size = match op {
            10 | 11 if kind / 3 % 3 == 2 => n / 2,
            10 | 11 => n / 60 * 200,
            12 | 25..=28 => 0,
            32 => n / 2,
            33.. => buffers(op, n),
            _ => len,
        };
        (name, size)
    })
}

/// What a measured process does. A line for every call: what it was, and its size.
pub fn run_toil(seed: u64, scratch: &Path) {
    let mut r = Rng::new(mix2(seed, 0x701));
    fs::create_dir_all(scratch).expect("scratch");
    let count = 12;
    for _ in 0..count {
        let op = r.below(OPS - 3);
        one(&mut r, op, scratch);
    }
    if seed % 4 == 0 {
        let op = *r.pick(&[32, 33, 34, 34]);
        one(&mut r, op, scratch);
    }
}

/// The same for one operation that has been chosen: `op,shape,n,seed`.
pub fn run_toil_on(what: &str, scratch: &Path) {
    fs::create_dir_all(scratch).expect("scratch");
    let v: Vec<u64> = what.split(',').map(|x| x.parse().expect("a number")).collect();
    twice(v[0] as usize, v[1] as usize, v[2] as usize, v[3], scratch);
}

fn one(r: &mut Rng, op: usize, scratch: &Path) {
    let shape = r.below(SHAPES);
    let many = r.one_in(4) && !matches!(op, 12 | 25..=28 | 32..);
    let n = if many { r.range(12_000, 20_000) } else { r.range(2500, 4500) };
    twice(op, shape, n, r.next(), scratch);
}

fn twice(op: usize, shape: usize, n: usize, seed: u64, scratch: &Path) {
    // Once before, so that nothing has to be got ready when it counts.
    for (k, n) in [n, n, 4 * n].into_iter().enumerate() {
        println!(">{} {} {}", op, shape, n);
        match toil(op, shape, n, seed, scratch) {
            Ok((name, len)) => {
                if k > 0 {
                    println!("{}\t{}\t{}\t{}", name, shape, DUMPS.load(Ordering::Relaxed), len);
                } else {
                    println!("-");
                }
            }
            // Not what is judged here; nothing was counted.
            Err(m) => {
                request(STOP);
                request(ZERO);
                println!("!{}", m.replace('\n', " "));
                break;
            }
        }
    }
}

/// What counting instructions told.
#[derive(Default)]
struct Told {
    pairs: u64,
    skipped: u64,
    instructions: u64,
    signature: u64,
}

/// Has a process of its own make calls, and judges the instructions counted.
fn counted(ctx: &Ctx, which: &[String], short: bool, told_of: &mut Told) -> Result<(), String> {
    let dir = ctx.scratch.join("toil");
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).expect("scratch");
    let exe = std::env::current_exe().expect("own path");
    let mut c = Command::new("valgrind");
    c.arg("--tool=callgrind").arg("--instr-atstart=no").arg("-q").arg(format!("--callgrind-out-file={}/counts", dir.display()));
    c.arg(&exe).arg("toil").args(which).arg("--scratch").arg(dir.join("files"));
    let out = run::output(&mut c, 120);
    let told = String::from_utf8_lossy(&out.stdout);
    let last = told.lines().rev().find_map(|l| l.strip_prefix('>')).unwrap_or("nothing yet").to_string();
    let killed = matches!(out.status.signal(), Some(libc::SIGXCPU | libc::SIGKILL));
    if out.status.signal() == Some(libc::SIGALRM) || killed && !short {
        // Kept from running; that tells nothing.
        ctx.add("measured processes that got no time", 1);
        return Ok(());
    }
    if !out.status.success() && !killed {
        panic!("the measured process ended with {}: {}", out.status, String::from_utf8_lossy(&out.stderr));
    }
    let mut previous: Option<(String, u64, u64)> = None;
    for line in told.lines().filter(|l| !l.starts_with(['!', '>'])) {
        let Some((name, len)) = line.rsplit_once('\t') else {
            previous = None;
            continue;
        };
        let (name, k) = name.rsplit_once('\t').expect("a number");
        let len: u64 = len.parse().expect("a size");
        let counts = fs::read_to_string(dir.join(format!("counts.{}", k))).expect("counts");
        let n: u64 = counts.lines().find_map(|l| l.strip_prefix("totals: ")).and_then(|n| n.trim().parse().ok()).expect("a count");
        ctx.say(|| format!("{}: {} bytes, {} instructions", name.replace('\t', " of shape "), len, n));
        told_of.instructions += n;
        match previous.take() {
            Some((before, small, at_small)) if before == name => {
                told_of.pairs += 1;
                told_of.signature = mix2(told_of.signature, n);
                let (most, factor) = if small == 0 { (2 * at_small.max(40_000), "greatest growth where none is due, in percent") } else { (8 * at_small.max(600 * small + 40_000), "greatest growth for sizes four times as great, in percent") };
                ctx.max(factor, n * 200 / most * if small == 0 { 1 } else { 4 });
                if n > most {
                    let (what, shape) = name.split_once('\t').unwrap_or((name, ""));
                    return Err(format!(
                        "{} takes {} instructions at some size (of shape {}, {} bytes or nothing that counts), but {} at four times that size: more than in proportion",
                        what, at_small, shape, small, n
                    ));
                }
            }
            _ => previous = Some((name.to_string(), len, n)),
        }
    }
    if killed {
        return Err(format!("a call on a short text didn't end within two minutes of processor time: operation, shape, size {}", last));
    }
    told_of.skipped += told.lines().filter(|l| l.starts_with('!')).count() as u64;
    let _ = fs::remove_dir_all(&dir);
    Ok(())
}

pub fn p01(ctx: &Ctx, seed: u64, _: Option<&[usize]>) -> Outcome {
    let mut told = Told { signature: seed, ..Told::default() };
    let (mut timed, mut suspected) = (0u64, 0u64);
    let verdict = (|| -> Result<(), String> {
        if mix2(seed, 0x9) % 5 == 0 {
            return counted(ctx, &["--seed".into(), seed.to_string()], true, &mut told);
        }
        // Many more are only timed. What seems to take too long gets its instructions counted, which decides.
        let mut r = Rng::new(mix2(seed, 0x71));
        let dir = ctx.scratch.join("timed");
        for _ in 0..6 {
            let (op, shape, n) = choice(&mut r);
            let (n, s) = (if op == 30 { n.min(12_000) } else { n }, r.next());
            // At a smaller size first, in case it takes very long indeed.
            let mut suspect = false;
            for n in [n / 8, n] {
                let slow = || -> Option<bool> {
                    let (_, _, size, small, big) = pair(How::Time, op, shape, n, s, &dir)?;
                    Some(big > if size == 0 { 4 * small.max(50_000) } else { 7 * small.max(100_000) })
                };
                let before = run::thread_cpu();
                let Some(once) = slow() else { break };
                timed += 1;
                if run::thread_cpu() - before > 12.0 {
                    // Even getting there takes long.
                    suspect = true;
                    break;
                }
                suspect = once && (0..2).all(|_| slow() == Some(true));
                if suspect {
                    break;
                }
            }
            if suspect {
                suspected += 1;
                ctx.say(|| format!("operation {} (shape {}, size {}) seems to take long", op, shape, n));
                for size in [1500, 3000, 12_000].into_iter().filter(|s| *s < 4000 || op < 30) {
                    counted(ctx, &["--on".into(), format!("{},{},{},{}", op, shape, size, s)], size <= 3000, &mut told)?;
                }
            }
        }
        let _ = fs::remove_dir_all(&dir);
        Ok(())
    })();
    ctx.add("pairs of sizes compared", told.pairs);
    ctx.add("pairs of sizes timed", timed);
    ctx.add("pairs counted because they seemed to take long", suspected);
    ctx.add("instructions counted", told.instructions);
    ctx.add("calls that panicked", told.skipped);
    Outcome { verdict, steps: 0, signature: mix2(told.signature, timed), nontrivial: told.pairs + timed > 0 }
}

/// What a call took at two sizes: its name, whether it's one on a history or group, the
/// size at first, and both measures.
type Pair = (String, bool, usize, u64, u64);

fn pair(how: How, op: usize, shape: usize, n: usize, seed: u64, dir: &Path) -> Option<Pair> {
    fs::create_dir_all(dir).expect("scratch");
    let mut got: Vec<(String, usize, u64)> = vec![];
    // Once before, so that nothing has to be got ready when it counts.
    for n in [n, n, 4 * n] {
        HOW.with(|h| h.set(how));
        RESULTS.with(|v| v.borrow_mut().clear());
        let r = toil(op, shape, n, seed, dir);
        HOW.with(|h| h.set(How::Instructions));
        track::count_held(false);
        match r {
            Ok((name, len)) => got.push((name, len, RESULTS.with(|v| v.borrow().last().copied()).unwrap_or(0))),
            // Judged by other properties.
            Err(_) => return None,
        }
    }
    if got[1].0 != got[2].0 {
        return None;
    }
    Some((got[1].0.clone(), matches!(op, 10..=12 | 25..=28 | 30), got[1].1, got[1].2, got[2].2))
}

/// An operation, a shape of text, and a size at which it isn't done too slowly.
fn choice(r: &mut Rng) -> (usize, usize, usize) {
    let op = if r.one_in(30) { r.range(32, OPS - 1) } else { r.below(32) };
    let shape = r.below(SHAPES);
    let n = match op {
        31.. => r.range(2500, 4500),
        _ if r.one_in(4) => r.range(40_000, 60_000),
        _ => r.range(9000, 20_000),
    };
    (op, shape, n)
}

/// Makes a call on something large, watching its system calls: what it was, and those made.
pub fn watched(seed: u64, dir: &Path) -> Option<(String, u64)> {
    let mut r = Rng::new(seed);
    fs::create_dir_all(dir).expect("scratch");
    let (op, shape, n) = choice(&mut r);
    let n = if op < 31 && r.one_in(3) { r.range(60_000, 140_000) } else { n };
    HOW.with(|h| h.set(How::Calls));
    RESULTS.with(|v| v.borrow_mut().clear());
    drop(still::watch());
    let done = toil(op, shape, n, r.next(), dir);
    HOW.with(|h| h.set(How::Instructions));
    let name = match done {
        Ok((name, _)) => name,
        Err(_) if still::started() => return Some((format!("operation {} (shape {}, size {})", op, shape, n), still::count() as u64)),
        // Judged by other properties.
        Err(_) => return None,
    };
    let files = ["from_file", "save", "reload", "call 4 with a long", "call 5 on a work", "call 6 on a work"];
    if files.iter().any(|f| name.starts_with(f)) {
        return None;
    }
    Some((format!("{} (shape {}, size {})", name, shape, n), RESULTS.with(|v| v.borrow().last().copied()).unwrap_or(0)))
}

pub fn r02(ctx: &Ctx, seed: u64, _: Option<&[usize]>) -> Outcome {
    let mut r = Rng::new(mix2(seed, 0x202));
    let mut signature = seed;
    let (mut pairs, mut histories) = (0u64, 0u64);
    let dir = ctx.scratch.join("r02");
    let verdict = (|| -> Result<(), String> {
        for _ in 0..4 {
            let (op, shape, n) = choice(&mut r);
            let Some((name, history, _, small, big)) = pair(How::Stack, op, shape, n, r.next(), &dir) else { continue };
            ctx.say(|| format!("{} (shape {}, size {}): {} bytes of stack, {} at four times that size", name, shape, n, small, big));
            pairs += 1;
            histories += history as u64;
            signature = mix2(signature, mix2(small, big));
            ctx.max("most stack used in bytes", big);
            ctx.max("greatest growth of the stack used in bytes", big.saturating_sub(small));
            if big > small + 16_384 {
                return Err(format!("{} (of shape {}) uses {} bytes of stack at size {}, but {} at four times that size", name, shape, small, n, big));
            }
        }
        Ok(())
    })();
    let _ = fs::remove_dir_all(&dir);
    ctx.add("pairs of sizes compared", pairs);
    ctx.add("pairs of histories and groups compared", histories);
    Outcome { verdict, steps: 0, signature, nontrivial: pairs > 0 }
}

/// Bytes held by a text after a number of small edits and questions.
fn held_after(text: &str, edits: usize, kinds: &[u64], seed: u64, dir: &Path) -> Result<(isize, usize), String> {
    let mut r = Rng::new(seed);
    let mut put = 0;
    let file = dir.join("held.txt");
    fs::write(&file, text).expect("scratch");
    let lines = text.matches('\n').count() + 1;
    guard("edits", || {
        track::count_held(true);
        let mut b = Buffer::from_file(&file).expect("load");
        for i in 0..edits {
            b.cursor.move_to(Position { line: r.below(lines), offset: r.below(3) });
            match *r.pick(kinds) {
                0 => {
                    b.insert("word ");
                    put += 5;
                }
                1 => {
                    b.delete();
                    put += 40;
                }
                2 => {
                    b.insert("x\n");
                    b.undo();
                    b.redo();
                    put += 2;
                }
                3 => {
                    b.start_operation_group();
                    b.insert("y");
                    b.delete();
                    b.end_operation_group();
                    put += 41;
                }
                4 => {
                    let q = *b.cursor.clone();
                    b.delete_range(Range::new(q, Position { line: q.line, offset: q.offset + 2 }));
                    put += 80;
                }
                5 => {
                    if i % 16 == 0 {
                        drop(b.search("word"));
                    }
                    drop(b.data());
                    b.modified();
                }
                6 => {
                    b.line_count();
                    let c = b.cursor.clone();
                    drop(c);
                    b.insert("");
                }
                7 => {
                    if i % 8 == 0 {
                        b.save().expect("save");
                    }
                    b.insert("s");
                    put += 1;
                }
                _ => {
                    b.undo();
                    b.insert("u");
                    put += 1;
                }
            }
        }
        let held = track::held();
        drop(b);
        held
    })
    .map(|h| (h, put))
}

pub fn m03(ctx: &Ctx, seed: u64, _: Option<&[usize]>) -> Outcome {
    let mut r = Rng::new(mix2(seed, 0x303));
    let mut signature = seed;
    let (mut pairs, mut histories, mut spaces, mut asked) = (0u64, 0u64, 0u64, 0u64);
    let dir = ctx.scratch.join("m03");
    fs::create_dir_all(&dir).expect("scratch");
    let verdict = (|| -> Result<(), String> {
        match r.below(8) {
            0..=3 => {
                for _ in 0..3 {
                    let (op, shape, n) = choice(&mut r);
                    let Some((name, _, _, small, big)) = pair(How::Memory, op, shape, n, r.next(), &dir) else { continue };
                    ctx.say(|| format!("{} (shape {}, size {}): {} bytes at most, {} at four times that size", name, shape, n, small, big));
                    pairs += 1;
                    signature = mix2(signature, mix2(small, big));
                    let most = 8 * small.max(64 * n as u64 + 65_536);
                    ctx.max("greatest use of memory for sizes four times as great, in percent of what is in proportion", big * 200 / most * 4);
                    if big > most {
                        return Err(format!("{} (of shape {}) needs {} bytes of memory at size {}, but {} at four times that size: more than in proportion", name, shape, small, n, big));
                    }
                }
            }
            4 | 5 => {
                let shape = r.below(SHAPES);
                let n = match r.below(10) {
                    0 => r.range(120_000, 500_000),
                    1..=4 => r.range(20_000, 120_000),
                    _ => r.range(1500, 6000),
                };
                let t = text(shape, n, &mut r);
                let edits = if n > 10_000 { r.range(20, 80) } else { r.range(200, 600) };
                let mut kinds: Vec<u64> = (0..9).filter(|_| r.chance(40)).collect();
                if kinds.is_empty() {
                    kinds = vec![r.below(9) as u64];
                }
                let s = r.next();
                let ((few, _), (many, put)) = match (held_after(&t, edits, &kinds, s, &dir), held_after(&t, 4 * edits, &kinds, s, &dir)) {
                    (Ok(a), Ok(b)) => (a, b),
                    // Judged by other properties.
                    _ => return Ok(()),
                };
                ctx.say(|| format!("{} bytes of text (shape {}): {} bytes held after {} edits of kinds {:?}, {} after four times as many", t.len(), shape, few, edits, kinds, many));
                histories += 1;
                signature = mix2(signature, mix2(few as u64, many as u64));
                // A text that has to be stored anew grows for good.
                let most = 4 * t.len() + 100_000 + 4 * edits * 1500 + 64 * put;
                ctx.max("greatest growth of memory held by edits, in percent of the most allowed", ((many - few).max(0) as u64) * 100 / most as u64);
                if many - few > most as isize {
                    return Err(format!(
                        "a text of {} bytes (of shape {}) and its history hold {} bytes after {} small edits (of kinds {:?}), but {} after {}",
                        t.len(), shape, few, edits, kinds, many, 4 * edits
                    ));
                }
            }
            6 => {
                // What a text holds after everything was asked of it.
                let shape = r.below(SHAPES);
                let n = if r.chance(30) { r.range(200_000, 1_200_000) } else { r.range(20_000, 200_000) };
                let t = text(shape, n, &mut r);
                let file = dir.join(*r.pick(&["asked.txt", "asked.json", "asked"]));
                fs::write(&file, &t).expect("scratch");
                let end = somewhere(&t, t.len());
                let held = guard("questions", || {
                    track::count_held(true);
                    let mut b = Buffer::from_file(&file).expect("load");
                    drop(b.data());
                    drop(b.search("a"));
                    drop(b.search("word"));
                    b.line_count();
                    b.modified();
                    drop(b.read(&Range::new(Position { line: 0, offset: 0 }, end)));
                    drop(b.file_name());
                    b.cursor.move_to(end);
                    b.cursor.move_up();
                    b.cursor.move_to_start_of_line();
                    b.insert("x");
                    drop(b.data());
                    b.undo();
                    b.save().expect("save");
                    b.reload().expect("reload");
                    let h = track::held();
                    drop(b);
                    h
                });
                let Ok(held) = held else { return Ok(()) };
                ctx.say(|| format!("{} bytes of text (shape {}): {} bytes held after all questions", t.len(), shape, held));
                asked += 1;
                signature = mix2(signature, held as u64);
                let most = 16 * t.len() + 131_072;
                ctx.max("greatest size of memory held by a text, in percent of its own", (held.max(0) as u64) * 100 / t.len() as u64);
                if held > most as isize {
                    return Err(format!("a text of {} bytes (of shape {}) holds {} bytes after loading and some questions", t.len(), shape, held));
                }
            }
            _ => {
                let root = dir.join("root");
                fs::create_dir_all(&root).expect("scratch");
                let many = r.range(20, 60);
                let kind = r.below(4);
                let name = *r.pick(&["rs", "json", "txt", "none"]);
                let got = guard("buffers of a workspace", || {
                    let mut ws = Workspace::new(&root, None).expect("workspace");
                    let mut at = vec![];
                    // One of its kind before.
                    for (from, to) in [(0, 2), (2, many), (many, 4 * many)] {
                        track::count_held(true);
                        for i in from..to {
                            let q = root.join(format!("f{}.{}", i, name));
                            if kind % 2 == 0 {
                                fs::write(&q, "text").expect("scratch");
                                ws.open_buffer(&q).expect("open");
                            } else {
                                let mut b = Buffer::new();
                                b.path = Some(q);
                                b.insert("text");
                                ws.add_buffer(b);
                            }
                            if kind > 1 {
                                let _ = ws.current_buffer_tokens().map(|t| t.iter().map(|i| i.count()));
                                ws.previous_buffer();
                                drop(ws.buffer_paths());
                            }
                        }
                        at.push(track::held());
                        track::count_held(false);
                    }
                    at
                });
                let Ok(at) = got else { return Ok(()) };
                ctx.say(|| format!("{} buffers named .{}: {} bytes, and {} for {} more", many, name, at[1], at[2], 3 * many));
                spaces += 1;
                signature = mix2(signature, mix2(at[2] as u64, kind as u64));
                ctx.max("most bytes held by a buffer of a workspace", (at[2].max(0) as u64) / (3 * many as u64));
                // Each has a copy of its syntax, which isn't small.
                if at[2] > (65_536 + 3 * many * 400_000) as isize || at[2] > 6 * at[1].max(0) + 262_144 {
                    return Err(format!("{} more buffers of four bytes each in a workspace hold {} bytes", 3 * many, at[2]));
                }
            }
        }
        Ok(())
    })();
    track::count_held(false);
    let _ = fs::remove_dir_all(&dir);
    ctx.add("pairs of sizes compared", pairs);
    ctx.add("pairs of histories compared", histories);
    ctx.add("pairs of workspaces compared", spaces);
    ctx.add("texts with all questions asked", asked);
    Outcome { verdict, steps: 0, signature, nontrivial: pairs + histories + spaces + asked > 0 }
}
