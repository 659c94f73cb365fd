//! Properties of lexing. The oracle replays the syntax parser itself, line by
//! line over the whole document, and knows the scopes of every byte.

use crate::gen;
use crate::model::{show, Doc};
use crate::props_deep::count;
use crate::rng::{hash_str, mix2, Rng};
use crate::run::{guard, Ctx, Outcome};
use crate::session::p;
use scribe::buffer::{GapBuffer, Lexeme, Position, Range, ScopeStack, Token, TokenSet};
use scribe::{Buffer, ErrorKind, Workspace};
use std::any::Any;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::Arc;
use syntect::parsing::{ParseState, SyntaxReference, SyntaxSet};
use unicode_segmentation::UnicodeSegmentation;

pub struct Syntaxes {
    pub set: SyntaxSet,
    /// Without the default syntaxes: contexts of theirs don't exist in it.
    pub small: SyntaxSet,
    pub folder: PathBuf,
    pub custom: Vec<String>,
    pub failing: Vec<String>,
}

const MON: &str = r##"%YAML 1.2
---
name: Mon
file_extensions: [monx, Monfile]
scope: source.monx
variables:
  ident: '[a-z]+'
contexts:
  prototype:
    - match: '%%'
      scope: punctuation.proto.monx
  main:
    - match: '"'
      scope: punctuation.begin.monx
      push: string
    - match: '\('
      scope: paren.monx
      push: nested
    - match: '/\*'
      push: comment
    - match: '<<({{ident}})'
      captures:
        1: heredoc.name.monx
      push: heredoc
    - match: '(?=@)'
      push: at
    - match: '([a-z])([0-9])([a-z]*)'
      scope: word.monx
      captures:
        1: first.monx
        2: digit.monx second.monx
    - match: '#'
      push:
        - meta_scope: comment.line.monx
        - match: '$\n?'
          pop: true
    - match: '!'
      set: alternate
    - match: '\n'
      scope: newline.monx
    - match: '~'
      embed: scope:source.json
      embed_scope: embedded.monx
      escape: '~|$'
  string:
    - meta_scope: string.monx
    - match: '\\.'
      scope: escape.monx
    - match: '"'
      pop: true
  nested:
    - meta_scope: nested.monx
    - meta_content_scope: inner.monx
    - match: '\)'
      pop: true
    - include: main
  comment:
    - clear_scopes: 1
    - meta_scope: comment.block.monx
    - meta_include_prototype: false
    - match: '\*/'
      pop: true
  heredoc:
    - meta_content_scope: heredoc.monx
    - match: '^\1$'
      pop: true
  at:
    - meta_scope: at.monx
    - match: '@[a-z]*'
      scope: at.word.monx
    - match: '(?=.)|$'
      pop: true
  alternate:
    - meta_scope: alternate.monx
    - match: '!'
      set: main
    - match: '[^!\n]+'
      scope: text.alternate.monx
"##;

const SPLIT: &str = r##"%YAML 1.2
---
name: Split
file_extensions: [splitx]
scope: source.splitx
contexts:
  main:
    - match: 'e'
      scope: letter.splitx
    - match: '\x{301}'
      scope: accent.splitx
    - match: '\x{200d}'
      scope: joiner.splitx
      push: joined
    - match: '\r'
      scope: return.splitx
    - match: '\n'
      scope: newline.splitx
    - match: '[\x{1F1E6}-\x{1F1FF}]'
      scope: flag.splitx
    - match: '[^\x00-\x7f]'
      scope: wide.splitx
    - match: ' +'
      scope: blank.splitx
  joined:
    - meta_scope: joined.splitx
    - match: '.'
      scope: after.splitx
      pop: true
    - match: '$'
      pop: true
"##;

const BOOM: &str = r##"%YAML 1.2
---
name: Boom
file_extensions: [boomx]
scope: source.boomx
contexts:
  main:
    - match: 'BOOM'
      scope: boom.boomx
      push: nowhere
    - match: 'BANG'
      push: scope:source.that.does.not.exist
    - match: '[a-z]+'
      scope: word.boomx
    - match: '\{'
      push:
        - meta_scope: braces.boomx
        - match: '\}'
          pop: true
        - match: 'BOOM'
          set: nowhere
        - match: '[0-9]'
          scope: digit.boomx
"##;

/// A made-up syntax: a few contexts pushing, popping and replacing each other.
fn made_up(n: usize) -> String {
    let mut r = Rng::new(mix2(0x57A7, n as u64));
    let name = format!("r{}x", n);
    let mut s = format!("%YAML 1.2\n---\nname: Made {n}\nfile_extensions: [{name}]\nscope: source.{name}\ncontexts:\n");
    let contexts = r.range(2, 5);
    let pats = [
        "a", "b", "ab", "[a-c]+", "é", r"\(", r"\)", r"\{", r"\}", "x", "=", ";", "1|2", "[0-9]+", " ", r"\n", r"^\s*#", r"\bfn\b", "日", r"\x{301}",
        "👩", r"\r", "(?=z)", r"$", r"\S\s", "e", r"[^\x00-\x7f]+", r"\w", "q.*", "(a)(b)?", r"-+$\n?", "'", "\"\"",
    ];
    for c in 0..contexts {
        if c == 0 {
            s.push_str("  main:\n");
        } else {
            s.push_str(&format!("  c{}:\n", c));
        }
        if c > 0 {
            if r.chance(50) {
                s.push_str(&format!("    - meta_scope: m{}.{}\n", c, name));
            }
            if r.chance(30) {
                s.push_str(&format!("    - meta_content_scope: i{}.{} j{}.{}\n", c, name, c, name));
            }
            if r.chance(15) {
                s.push_str(&format!("    - clear_scopes: {}\n", r.range(1, 2)));
            }
        }
        for k in 0..r.range(2, 6) {
            let pat = r.pick(&pats);
            let quoted = pat.replace('\'', "''");
            s.push_str(&format!("    - match: '{}'\n", quoted));
            if r.chance(60) {
                s.push_str(&format!("      scope: s{}{}.{}\n", c, k, name));
            }
            if pat.starts_with("(a)") {
                s.push_str(&format!("      captures:\n        1: g1.{}\n        2: g2.{}\n", name, name));
            }
            match r.below(6) {
                0 | 1 if contexts > 1 => s.push_str(&format!("      push: c{}\n", r.range(1, contexts - 1))),
                2 | 3 if c > 0 => s.push_str("      pop: true\n"),
                4 if c > 0 && contexts > 1 => s.push_str(&format!("      set: c{}\n", r.range(1, contexts - 1))),
                5 if contexts > 2 => s.push_str(&format!("      push: [c{}, c{}]\n", r.range(1, contexts - 1), r.range(1, contexts - 1))),
                _ => {}
            }
        }
        if c > 0 {
            s.push_str("    - match: '\\}|>'\n      pop: true\n");
        }
    }
    s
}

const MADE: usize = 40;

pub fn write_syntaxes(folder: &Path) -> Vec<String> {
    std::fs::create_dir_all(folder).expect("scratch");
    std::fs::write(folder.join("mon.sublime-syntax"), MON).expect("scratch");
    std::fs::write(folder.join("split.sublime-syntax"), SPLIT).expect("scratch");
    std::fs::write(folder.join("boom.sublime-syntax"), BOOM).expect("scratch");
    let mut names = vec!["Mon".to_string(), "Split".into()];
    for n in 0..MADE {
        let s = made_up(n);
        std::fs::write(folder.join(format!("made{}.sublime-syntax", n)), s).expect("scratch");
        names.push(format!("Made {}", n));
    }
    names
}

/// Tokens as a number, with a syntax picked by `pick`.
pub fn fingerprint(sy: &Syntaxes, text: &str, pick: u64) -> u64 {
    use scribe::buffer::{Token, TokenSet};
    // Few syntaxes: getting a new one ready takes its time.
    let few = ["Rust", "C", "HTML", "Plain Text", "JSON", "Mon"];
    let def = sy.set.find_syntax_by_name(few[(pick % few.len() as u64) as usize]).expect("syntax");
    let set = TokenSet::new(text.to_string(), def, &sy.set);
    let mut h = crate::rng::hash_str(&def.name);
    let Ok(tokens) = set.iter() else { return mix2(h, 0xE) };
    for t in tokens {
        match t {
            Token::Newline => h = mix2(h, 1),
            Token::Lexeme(l) => {
                h = mix2(h, mix2(crate::rng::hash_str(l.value), mix2(l.position.line as u64, l.position.offset as u64)));
                h = mix2(h, crate::rng::hash_str(&l.scope.to_string()));
            }
        }
    }
    h
}

pub fn shared(scratch: &Path) -> Arc<dyn Any + Send + Sync> {
    let folder = scratch.join("syntaxes");
    let custom = write_syntaxes(&folder);
    let mut b = SyntaxSet::load_defaults_newlines().into_builder();
    b.add_from_folder(&folder, true).expect("custom syntaxes");
    let set = b.build();
    let mut b = syntect::parsing::SyntaxSetBuilder::new();
    b.add_plain_text_syntax();
    let small = b.build();
    Arc::new(Syntaxes { set, small, folder, custom, failing: vec!["Boom".into()] })
}

/// Snippets whose constructs span lines and nest.
const SNIPPETS: &[(&str, &[&str])] = &[
    ("Rust", &["fn main() {\n", "let s = \"a\\n\nb\";\n", "/* outer /* inner */\n still */ ", "r#\"raw\n\"text\"#", "// comment\n", "#[derive(Debug)]\n", "'a'", "<'a, T: Fn(&str)>", "1_000u32 ", "}\n", "\"", "/*", "*/", "impl X for Y {}\n", "println!(\"{}\", x);\n"]),
    ("C", &["#define A(x) \\\n  (x)\n", "int main(void) {\n", "/* c\n d */", "// x \\\n y\n", "\"s\\\"t\"", "}\n", "#if 0\nint a;\n#endif\n", "'\\n'", "return 0;\n", "/*", "\""]),
    ("C++", &["template <class T>\n", "class A : public B {\n", "R\"x(raw\n)x\"", "};\n", "std::vector<int> v;\n", "// e\n", "#include <a.h>\n", "auto f = [&](int x) { return x; };\n"]),
    ("JavaScript", &["const a = `t ${x + `n\n${y}`} e`;\n", "/re[/]g/gi", "function f(a, b) {\n", "/* c\n */", "// l\n", "'s\\\n t'", "}\n", "x => y / 2 / 3;\n", "`", "${", "class A extends B {\n get x() { return 1; }\n}\n"]),
    ("HTML", &["<!DOCTYPE html>\n", "<script>\nvar a = \"</b>\";\n</script>\n", "<style>\nb { color: red }\n</style>\n", "<!-- c\n -->", "<a href=\"x\n y\" b>", "</a>\n", "&amp;", "<script>", "<!--", "<p class='q'>é</p>\n"]),
    ("Markdown", &["# Title\n", "```rust\nfn a() {}\n```\n", "*em* **st\nrong** ", "- item\n  - sub\n", "> quote\n", "[l](u \"t\")", "```\n", "`code`", "<b>x</b>\n", "\n\n", "1. one\n", "    indented\n", "---\n"]),
    ("Python", &["def f(a, *b):\n", "    '''doc\n    string'''\n", "\"\"\"x\n", "@dec\n", "r'raw\\'", "f'{x!r}'", "# c\n", "class A(object):\n    pass\n", "lambda x: (x,\n 1)\n", "print(\"a\" \\\n  \"b\")\n", "'''"]),
    ("YAML", &["a: b\n", "- c: |\n    block\n    more\n", "d: &x \"q\n  r\"\n", "# c\n", "e: [1, {f: g}]\n", "---\n", "? k\n: v\n", "<<: *x\n"]),
    ("JSON", &["{\"a\": [1, -2.5e3, \"s\\u00e9\", null],\n", "\"", "}", "\n \"k\": true,\n", "[", "]", "\"e\u{301}\"", "x"]),
    ("Ruby", &["def a(b)\n", "x = <<~EOS\n  t #{y}\nEOS\n", "%w[a b]", ":sym", "/r#{e}x/i", "=begin\nc\n=end\n", "end\n", "\"#{\"n\"}\"", "<<A + <<B\n1\nA\n2\nB\n"]),
    ("PHP", &["<?php\n", "$a = <<<X\n t $b {$c}\nX;\n", "?>\n<b>h</b>\n", "/* c */", "function f(array $x = []) {\n", "}\n", "'s'", "# c\n", "\"$a[0] {$b->c}\""]),
    ("SQL", &["SELECT a.*, 'x''y' FROM t -- c\n", "/* c\n */", "WHERE b = \"q\"\n", "CREATE TABLE t (a INT);\n", "'"]),
    ("Bourne Again Shell (bash)", &["#!/bin/bash\n", "cat <<EOF\n $a `b`\nEOF\n", "if [ \"$x\" = 'y' ]; then\n", "fi\n", "f() { echo $((1+2)); }\n", "# c\n", "a=\"b\n c\"\n", "$(ls | wc -l)", "case $a in\n b) ;;\nesac\n"]),
    ("CSS", &["a:hover > b {\n", "color: #fff;\n", "/* c\n */", "}\n", "@media print { p { } }\n", "content: \"x\\\ny\";\n", "background: url(a.png);"]),
    ("Java", &["public class A<T> extends B {\n", "/** d\n * @param x\n */\n", "@Override\n", "String s = \"q\";\n", "}\n", "// c\n", "int[] a = {1, 2};\n", "char c = '\\u0041';\n"]),
    ("Go", &["package main\n", "func f(a int) (b string, err error) {\n", "s := `raw\n text`\n", "/* c\n */", "}\n", "'\\x00'", "go func() {}()\n", "`"]),
    ("Lua", &["--[[ c\n d ]]", "s = [==[ long\n ]] ]==]\n", "function f(a, ...)\n", "end\n", "-- l\n", "'q'", "[["]),
    ("Perl", &["=pod\n\ntext\n\n=cut\n", "my $x = qq{a {b}\n};\n", "s/a/b/g;\n", "<<'E';\nh\nE\n", "# c\n", "%h = (a => 1);\n", "$x =~ m{re\n}x;\n"]),
    ("Haskell", &["module A where\n", "{- c {- n -}\n -}", "f :: Int -> a\n", "f x = \"s\\\n  \\t\"\n", "-- l\n", "'c'", "{-"]),
    ("XML", &["<?xml version=\"1.0\"?>\n", "<a b='c'>\n", "<![CDATA[ x ]\n ]]>", "<!-- c\n -->", "</a>\n", "&lt;", "<!DOCTYPE a [\n<!ENTITY b \"c\">\n]>\n", "<![CDATA["]),
    ("Makefile", &["a: b\n\tcc $(X) \\\n\t -o $@\n", "define F\n x\nendef\n", "ifeq (a,b)\nendif\n", "# c\n", "V := $(shell ls)\n"]),
    ("Diff", &["--- a\n+++ b\n", "@@ -1,2 +1 @@\n", "-old\n", "+new\n", " same\n", "\\ No newline\n"]),
    ("LaTeX", &["\\begin{verbatim}\n$x\n\\end{verbatim}\n", "$a^2$ ", "\\[\nx\n\\]\n", "% c\n", "\\section{T}\n", "\\begin{itemize}\n\\item\n\\end{itemize}\n", "$$"]),
    ("Plain Text", &["some text\n", "  more\n", "\n"]),
    ("Mon", &["\"s\\\"\n t\" ", "(a (b\n) c) ", "/* c\n */", "<<end\ntext\nend\n", "@ab@cd ", "a1bc b2 ", "# line\n", "!alt\nmore! ", "~{\"j\": [1]}~", "%%", "\n", "(", ")", "\"", "/*", "~", "<<q\n", "!", "e\u{301}1x"]),
    ("Split", &["e\u{301}", "e", "\u{301}", "👩\u{200d}👩\u{200d}👧", "🇨🇦🇨", "\r\n", "\r", "\n", "é", " ", "\u{200d}", "ab"]),
];

const MADE_BITS: &[&str] = &[
    "a", "b", "ab", "abc", "é", "(", ")", "{", "}", "x", "=", ";", "1", "23", " ", "\n", "\n", "#", "fn", "日", "\u{301}", "👩", "\r", "\r\n", "z", "q", "e", "-",
    "--\n", "'", "\"", ">", "  ",
];

/// A document in the style of a syntax, with foreign characters strewn in.
fn source(r: &mut Rng, ctx: &Ctx, syntax: &str) -> String {
    let mut s = String::new();
    let style = gen::style(r);
    let bits: &[&str] = match SNIPPETS.iter().find(|x| x.0 == syntax) {
        Some(x) => x.1,
        None => MADE_BITS,
    };
    let foreign = *r.pick(&[0, 5, 15, 40]);
    let n = match r.weighted(&[4, 36, 45, 13, 2]) {
        0 => 0,
        1 => r.range(1, 4),
        2 => r.range(4, 16),
        3 => r.range(16, 50),
        _ => r.range(50, 160),
    };
    for _ in 0..n {
        if r.chance(foreign) {
            for _ in 0..r.range(1, 3) {
                gen::atom(r, style, &ctx.dict, &mut s);
            }
        }
        if r.one_in(20) {
            let other = r.pick(SNIPPETS);
            s.push_str(r.pick(other.1));
        } else {
            s.push_str(r.pick(bits));
        }
        if r.one_in(12) {
            // Cut short in the middle of a construct.
            let keep = r.below(s.chars().count() + 1);
            s = s.chars().take(keep).collect();
        }
    }
    if r.one_in(30) {
        let mut long = String::new();
        for _ in 0..r.range(50, 300) {
            long.push_str(r.pick(bits).trim_end_matches('\n'));
        }
        s.push_str(&long);
    }
    if r.one_in(25) {
        // Deeply nested.
        let (open, close) = *r.pick(&[("[", "]"), ("(", ")"), ("{", "}"), ("{[", "]}"), ("<b>", "</b>"), ("{\"a\": [", "]}"), ("f(", ")"), ("> ", "\n"), ("#{\"", "\"}"), ("${`", "`}"), ("/* ", " */")]);
        let n = if r.chance(30) { ctx.dict.int(r, 300) } else { None }.unwrap_or_else(|| *r.pick(&[5, 9, 17, 26, 33, 40, 65, 100]));
        let between = *r.pick(&["", "", " ", "\n", "x "]);
        for _ in 0..n {
            s.push_str(open);
            s.push_str(between);
        }
        s.push_str(r.pick(bits));
        s.push_str(r.pick(&["1", "a b", "\"é\" 1", "\n"]));
        for _ in 0..if r.chance(80) { n } else { r.below(n) } {
            s.push_str(close);
        }
        s.push_str(r.pick(bits));
    }
    if r.one_in(10) {
        s = s.replace('\n', "\r\n");
    }
    if r.one_in(4) {
        while s.ends_with('\n') {
            s.pop();
        }
    }
    s
}

fn pick_syntax(r: &mut Rng, sh: &Syntaxes) -> String {
    if r.chance(55) {
        r.pick(SNIPPETS).0.to_string()
    } else if r.chance(15) {
        r.pick(&["Mon", "Split"]).to_string()
    } else {
        r.pick(&sh.custom).clone()
    }
}

struct Truth {
    /// The scopes of every byte range, in order, without gaps.
    parts: Vec<(usize, usize, ScopeStack)>,
    /// The line on which parsing fails, and its first byte.
    fails: Option<(usize, usize)>,
}

/// Parses the whole document from its start, one line after the other.
fn truth(text: &str, def: &SyntaxReference, set: &SyntaxSet) -> Option<Truth> {
    catch_unwind(AssertUnwindSafe(|| {
        let mut state = ParseState::new(def);
        let mut stack = ScopeStack::new();
        let mut parts: Vec<(usize, usize, ScopeStack)> = vec![];
        let mut start = 0;
        let mut n = 0;
        let mut weight = 0;
        loop {
            // Stacks that grow with every line take memory by the square.
            if weight > 4_000_000 {
                return None;
            }
            let end = text[start..].find('\n').map_or(text.len(), |i| start + i + 1);
            let line = &text[start..end];
            let ops = match state.parse_line(line, set) {
                Ok(ops) => ops,
                Err(_) => return Some(Truth { parts, fails: Some((n, start)) }),
            };
            let mut at = 0;
            for (i, op) in ops {
                if i > at {
                    weight += stack.len() + 1;
                    parts.push((start + at, start + i, stack.clone()));
                    at = i;
                }
                if stack.apply(&op).is_err() {
                    return None;
                }
            }
            if line.len() > at {
                weight += stack.len() + 1;
                parts.push((start + at, end, stack.clone()));
            }
            n += 1;
            start = end;
            if end == text.len() {
                // A final line break is followed by an empty line, which is parsed too.
                if line.ends_with('\n') {
                    if state.parse_line("", set).is_err() {
                        return Some(Truth { parts, fails: Some((n, end)) });
                    }
                }
                return Some(Truth { parts, fails: None });
            }
        }
    }))
    .unwrap_or(None)
}

fn show_token(t: &Token) -> String {
    match t {
        Token::Newline => "Newline".into(),
        Token::Lexeme(l) => format!("{} at {} [{}]", show(l.value), p(&l.position), l.scope),
    }
}

#[derive(Default)]
struct Seen {
    tokens: u64,
    newlines: u64,
    inexact: u64,
    scopes: u64,
    read_back: u64,
    failed_first: u64,
    failed_later: u64,
    multi: u64,
}

/// Collects the tokens of a set; `Err(None)` when the iterator can't be had.
#[allow(clippy::type_complexity)]
fn collect<'a>(set: &'a TokenSet<'a>, limit: usize, on: bool) -> Result<Result<(Vec<Token<'a>>, bool), scribe::Error>, String> {
    guard("tokens", || match set.iter() {
        Err(e) => Ok(Err(e)),
        Ok(mut it) => {
            let mut v = vec![];
            while let Some(t) = it.next() {
                v.push(t);
                if v.len() > limit {
                    return Err(format!("iterating over the tokens of {} bytes has not ended after {} tokens", limit, v.len()));
                }
            }
            // Asking on changes nothing: it's over, and what went wrong stays known.
            let error = it.error.is_some();
            for n in 1..if on { 4 } else { 1 } {
                if let Some(t) = it.next() {
                    return Err(format!("{} tokens came before the end, but asking again ({}) yields {}", v.len(), n, show_token(&t)));
                }
                if it.error.is_some() != error {
                    return Err(format!("at the end the iterator has {} error, but not after asking again ({})", if error { "an" } else { "no" }, n));
                }
            }
            Ok(Ok((v, error)))
        }
    })?
}

fn judge_lossless(text: &str, expect_end: usize, alt_end: usize, tokens: &[Token], seen: &mut Seen) -> Result<(), String> {
    let mut got = String::new();
    for t in tokens {
        seen.tokens += 1;
        match t {
            Token::Newline => {
                seen.newlines += 1;
                got.push('\n');
            }
            Token::Lexeme(l) => {
                if l.value.contains('\n') {
                    return Err(format!("lexeme {} of {} contains a line feed", show(l.value), show(text)));
                }
                got.push_str(l.value);
            }
        }
    }
    if got != text[..expect_end] && got != text[..alt_end] {
        return Err(format!("the tokens don't add up to the text: {}", crate::model::diff(&text[..expect_end], &got)));
    }
    Ok(())
}

fn judge_positions(text: &str, tokens: &[Token], seen: &mut Seen, r: &mut Rng) -> Result<(), String> {
    let d = Doc::new(text);
    let mut at = 0;
    let mut starts: Vec<Vec<usize>> = vec![];
    for line in 0..d.line_count() {
        let base = d.line_start(line);
        let mut v: Vec<usize> = d.line(line).grapheme_indices(true).map(|(i, _)| base + i).collect();
        v.push(base + d.line(line).len());
        starts.push(v);
    }
    let mut line = 0;
    let mut last = Position { line: 0, offset: 0 };
    let place = |line: usize, at: usize| starts[line].binary_search(&at).ok().map(|offset| Position { line, offset });
    let gap = guard("new", || GapBuffer::new(text))?;
    // Reading takes time in proportion to the text.
    let every = 4 + tokens.len() / 40 * (text.len() / 20_000).min(1);
    for t in tokens {
        match t {
            Token::Newline => {
                at += 1;
                line += 1;
            }
            Token::Lexeme(l) => {
                match place(line, at) {
                    Some(q) => {
                        if q != l.position {
                            return Err(format!(
                                "lexeme {} starting at byte {} of {} has position {}, not {}",
                                show(l.value),
                                at,
                                show(text),
                                p(&l.position),
                                p(&q)
                            ));
                        }
                        if !l.value.is_empty() && r.one_in(every) {
                            if let Some(e) = place(line, at + l.value.len()) {
                                seen.read_back += 1;
                                let range = Range::new(l.position, e);
                                let got = guard("read", || gap.read(&range))?;
                                if got.as_deref() != Some(l.value) {
                                    return Err(format!("reading {}..{} gives {:?}, not the lexeme {}", p(&q), p(&e), got, show(l.value)));
                                }
                            }
                        }
                    }
                    None => {
                        seen.inexact += 1;
                        if l.position.line != line {
                            return Err(format!("lexeme {} at byte {} of {} is on line {}, but has position {}", show(l.value), at, show(text), line, p(&l.position)));
                        }
                    }
                }
                if l.position < last {
                    return Err(format!("position {} of lexeme {} comes before the previous one's, {}", p(&l.position), show(l.value), p(&last)));
                }
                last = l.position;
                at += l.value.len();
            }
        }
    }
    Ok(())
}

fn judge_scopes(text: &str, truth: &Truth, tokens: &[Token], seen: &mut Seen) -> Result<(), String> {
    let mut at = 0;
    let mut i = 0;
    for t in tokens {
        match t {
            Token::Newline => at += 1,
            Token::Lexeme(Lexeme { value, scope, .. }) => {
                let end = at + value.len();
                while i < truth.parts.len() && truth.parts[i].1 <= at {
                    i += 1;
                }
                let mut k = i;
                while k < truth.parts.len() && truth.parts[k].0 < end {
                    if truth.parts[k].2 != *scope {
                        let (a, b) = (truth.parts[k].0.max(at), truth.parts[k].1.min(end));
                        return Err(format!(
                            "lexeme {} at byte {} of {} has scopes [{}], but the syntax gives [{}] to {}",
                            show(value),
                            at,
                            show(text),
                            scope,
                            truth.parts[k].2,
                            show(&text[a..b])
                        ));
                    }
                    k += 1;
                }
                if !value.is_empty() {
                    seen.scopes += 1;
                    seen.multi += (scope.len() > 2) as u64;
                }
                at = end;
            }
        }
    }
    Ok(())
}

#[derive(Clone, Copy)]
struct What {
    lossless: bool,
    scopes: bool,
    failures: bool,
}

fn judge_set(set: &TokenSet, text: &str, truth: &Truth, what: What, seen: &mut Seen, r: &mut Rng) -> Result<(), String> {
    let limit = text.len() * 4 + 1000;
    let (tokens, error) = match (collect(set, limit, what.lossless || what.failures)?, truth.fails) {
        (Err(e), Some((0, _))) => {
            seen.failed_first += 1;
            if what.failures && !matches!(e.kind(), ErrorKind::ParsingError(_)) {
                return Err(format!("parsing fails on the first line, but the error says: {}", e));
            }
            // It fails as often as it's tried.
            for k in 0..r.below(4) {
                match collect(set, limit, false)? {
                    Err(e) if !what.failures || matches!(e.kind(), ErrorKind::ParsingError(_)) => {}
                    Err(e) => return Err(format!("parsing fails on the first line, but the error on attempt {} says: {}", k + 2, e)),
                    Ok(_) => return Err(format!("parsing {} fails on the first line, but on attempt {} no error is returned", show(text), k + 2)),
                }
            }
            return Ok(());
        }
        (Err(e), f) => return Err(format!("no tokens of {} to be had: {} (parsing fails on line {:?})", show(text), e, f)),
        (Ok(_), Some((0, _))) => return Err(format!("parsing {} fails on the first line, but no error is returned", show(text))),
        (Ok(x), _) => x,
    };
    match truth.fails {
        Some((n, at)) => {
            seen.failed_later += 1;
            if what.failures {
                if !error {
                    return Err(format!("parsing {} fails on line {}, but the iterator keeps no error", show(text), n));
                }
                judge_lossless(text, at, at - 1, &tokens, seen)?;
                judge_scopes(text, truth, &tokens, seen)?;
                judge_positions(text, &tokens, seen, r)?;
                for k in 0..r.below(3) {
                    match collect(set, limit, true)? {
                        Err(e) => return Err(format!("tokens are there the first time, but on attempt {} there is an error: {}", k + 2, e)),
                        Ok((again, failed)) => {
                            if !failed || again != tokens {
                                return Err(format!("parsing {} again (attempt {}) gives {} tokens instead of {}, error: {}", show(text), k + 2, again.len(), tokens.len(), failed));
                            }
                        }
                    }
                }
            }
            return Ok(());
        }
        None => {
            if error {
                return Err(format!("parsing {} doesn't fail, but the iterator has an error", show(text)));
            }
        }
    }
    if what.lossless {
        judge_lossless(text, text.len(), text.len(), &tokens, seen)?;
        judge_positions(text, &tokens, seen, r)?;
        // The other ways of iterating agree with going token by token.
        for _ in 0..2 {
            let taken = r.below(tokens.len().min(6) + 1);
            let rest = &tokens[taken..];
            let skipped = if r.chance(50) { r.below(3) } else { r.below(rest.len() + 2) };
            let how = r.below(6);
            let got = guard("tokens", || {
                let mut it = set.iter().ok()?;
                for _ in 0..taken {
                    it.next();
                }
                let hint = it.size_hint();
                let v: Vec<Option<Token>> = match how {
                    0 => vec![it.nth(skipped), it.next()],
                    1 => return Some((hint, vec![], it.count())),
                    2 => vec![it.last()],
                    3 => it.skip(skipped).map(Some).collect(),
                    4 => it.step_by(skipped + 1).map(Some).collect(),
                    _ => it.fold(vec![], |mut v, t| {
                        v.push(Some(t));
                        v
                    }),
                };
                Some((hint, v, rest.len()))
            })?;
            let Some((hint, got, count)) = got else { return Err("iterating again fails".into()) };
            let want: Vec<Option<&Token>> = match how {
                0 => vec![rest.get(skipped), if skipped < rest.len() { rest.get(skipped + 1) } else { None }],
                1 => vec![],
                2 => vec![rest.last()],
                3 => rest.iter().skip(skipped).map(Some).collect(),
                4 => rest.iter().step_by(skipped + 1).map(Some).collect(),
                _ => rest.iter().map(Some).collect(),
            };
            let name = ["nth", "count", "last", "skip", "step_by", "fold"][how];
            if hint.0 > rest.len() || hint.1.is_some_and(|m| m < rest.len()) {
                return Err(format!("size_hint after {} tokens of {}: {:?}, but there are {} more", taken, show(text), hint, rest.len()));
            }
            if count != rest.len() || got.iter().map(|t| t.as_ref()).collect::<Vec<_>>() != want {
                return Err(format!("{}({}) after {} tokens of {}: {} counted, {} tokens, not those going one by one gives ({} more)", name, skipped, taken, show(text), count, got.len(), rest.len()));
            }
        }
        // Again, with two iterators taking turns.
        guard("tokens", || -> Result<(), String> {
            let (Ok(mut a), Ok(mut b)) = (set.iter(), set.iter()) else { return Err("iterating again fails".into()) };
            let mut counts = [0usize; 2];
            let mut done = [false; 2];
            while !done[0] || !done[1] {
                let k = r.below(2);
                let t = if k == 0 { a.next() } else { b.next() };
                if done[k] {
                    if t.is_some() {
                        return Err(format!("the iterator went on after its end with {}", show_token(&t.unwrap())));
                    }
                    if done[1 - k] || r.one_in(3) {
                        continue;
                    }
                    continue;
                }
                match t {
                    None => {
                        done[k] = true;
                        if counts[k] != tokens.len() {
                            return Err(format!("iterating again gives {} tokens instead of {}", counts[k], tokens.len()));
                        }
                    }
                    Some(t) => {
                        if tokens.get(counts[k]) != Some(&t) {
                            return Err(format!("iterating again, token {} is {}", counts[k], show_token(&t)));
                        }
                        counts[k] += 1;
                    }
                }
            }
            Ok(())
        })??;
    }
    if what.scopes {
        judge_lossless(text, text.len(), text.len(), &tokens, seen)?;
        judge_scopes(text, truth, &tokens, seen)?;
    }
    Ok(())
}

thread_local! {
    static WORKSPACE: RefCell<Option<Workspace>> = const { RefCell::new(None) };
}

/// One workspace per thread: loading the syntaxes takes long.
pub fn with_workspace<T>(ctx: &Ctx, sh: &Syntaxes, f: impl FnOnce(&mut Workspace) -> Result<T, String>) -> Result<T, String> {
    WORKSPACE.with(|w| {
        let mut w = w.borrow_mut();
        if w.is_none() {
            let ws = guard("Workspace::new", || Workspace::new(&ctx.scratch, Some(&sh.folder)))?.map_err(|e| format!("Workspace::new: {}", e))?;
            *w = Some(ws);
        }
        let out = f(w.as_mut().unwrap());
        // Nothing is left behind for the next case.
        if out.is_err() {
            *w = None;
        } else {
            let ws = w.as_mut().unwrap();
            for _ in 0..20 {
                if ws.current_buffer.is_none() {
                    break;
                }
                guard("close_current_buffer", || ws.close_current_buffer())?;
            }
        }
        out
    })
}

fn tokens_case(ctx: &Ctx, seed: u64, what: What) -> Outcome {
    let sh = ctx.shared.clone();
    let sh = sh.downcast_ref::<Syntaxes>().expect("syntaxes");
    let mut r = Rng::new(mix2(seed, 0x70C));
    let mut name = if what.failures && r.chance(75) { sh.failing[0].clone() } else { pick_syntax(&mut r, sh) };
    let mut text = if name == "Boom" {
        let mut s = String::new();
        for _ in 0..r.range(0, 14) {
            s.push_str(r.pick(&["word ", "two\n", "\n", "{1 x", "2\n}", "é", "e\u{301} ", "日本\n", "  ", "\r\n", "x{", "}\n", "BOO", "# 1\n"]));
        }
        if r.chance(85) {
            let at = r.below(s.chars().count() + 1);
            let k: usize = s.chars().take(at).map(|c| c.len_utf8()).sum();
            s.insert_str(k, r.pick(&["BOOM", "BOOM", "BANG", "BOOM BOOM", "\nBOOM", "BOOM\nrest\nBOOM"]));
        }
        s
    } else {
        source(&mut r, ctx, &name)
    };
    let mut many = 0;
    if r.one_in(120) {
        // Many lines, or one line of many tokens.
        let lines = count(&mut r, &ctx.dict, if ctx.thorough { 140_000 } else { 70_000 }).max(match r.below(3) { 0 => 1, 1 => 300, _ => 1 << r.range(8, 16) });
        if lines > 3000 && !["Boom", "Split", "JSON"].contains(&name.as_str()) {
            // The larger syntaxes take their time.
            name = if r.chance(40) { "Plain Text".to_string() } else { r.pick(&sh.custom).clone() };
        }
        let mut unit: String = text.chars().take(r.range(1, 24).min(4 + 60_000 / lines)).collect();
        if r.one_in(6) {
            unit = unit.replace(['\n', '\r'], " ") + " ";
        } else if !unit.contains('\n') {
            unit.push('\n');
        }
        let per = unit.matches('\n').count();
        let times = if per == 0 { (lines / 16).clamp(2, 200) } else { lines / per + 1 };
        let tail = text.chars().take(60).collect::<String>();
        text = unit.repeat(times) + &tail;
        many = text.matches('\n').count() as u64 + 1;
    }
    if r.one_in(500) && !what.failures {
        // A line that's longer than narrow integers count.
        name = r.pick(&["Plain Text", "JSON", "Rust", "Split", "C", "Mon"]).to_string();
        let unit = *r.pick(&[" ", " ", "\t", "a", "é ", "12 ", "word ", "日"]);
        let n = if r.chance(30) { ctx.dict.int(&mut r, 100_000) } else { None }.unwrap_or(65_536 + r.below(5000));
        let first: String = text.chars().take(40).collect();
        let last: String = text.chars().skip(40).take(60).collect();
        text = format!("{}{}{} fn x() {{1}}\n{}", first, unit.repeat(n / unit.len()), if r.chance(50) { "" } else { "\n" }, last);
        ctx.max("longest line lexed in bytes", text.lines().map(|l| l.len()).max().unwrap_or(0) as u64);
    }
    let mut seen = Seen::default();
    let mut judged = 0u64;
    let mut skipped = 0u64;
    let mut foreign = 0u64;
    let mut absent = 0u64;
    let sig = hash_str(&text);
    ctx.max("most lines lexed", many);
    let verdict = (|| -> Result<(), String> {
        let Some(def) = sh.set.find_syntax_by_name(&name) else { panic!("no syntax {}", name) };
        if what.failures && r.one_in(12) {
            // A definition whose contexts the set doesn't have.
            foreign += 1;
            let Some(t) = truth(&text, def, &sh.small) else { return Ok(()) };
            ctx.say(|| format!("{} with a definition for {} foreign to the set", show(&text), name));
            let set = TokenSet::new(text.clone(), def, &sh.small);
            return judge_set(&set, &text, &t, what, &mut seen, &mut r);
        }
        if what.failures && r.chance(20) {
            return with_workspace(ctx, sh, |ws| {
                absent += 1;
                ctx.say(|| "asking for tokens without a buffer or syntax".into());
                match guard("current_buffer_tokens", || ws.current_buffer_tokens().map(|_| ()))? {
                    Err(e) if matches!(e.kind(), ErrorKind::EmptyWorkspace) => {}
                    Err(e) => return Err(format!("an empty workspace gives the error {}", e)),
                    Ok(()) => return Err("an empty workspace gives tokens".into()),
                }
                let mut b = Buffer::new();
                guard("insert", || b.insert(text.as_str()))?;
                // A path, even one that tells the syntax, is no definition.
                let path = match r.below(5) {
                    0 => None,
                    1 => Some("/nowhere/main.rs"),
                    2 => Some("noext"),
                    3 => Some("Makefile"),
                    _ => Some("x.txt"),
                };
                b.path = path.map(std::path::PathBuf::from);
                guard("add_buffer", || ws.add_buffer(b))?;
                let keep = ws.current_buffer.as_mut().unwrap().syntax_definition.take();
                match guard("current_buffer_tokens", || ws.current_buffer_tokens().map(|_| ()))? {
                    Err(e) if matches!(e.kind(), ErrorKind::MissingSyntax) => {}
                    Err(e) => return Err(format!("a buffer without syntax gives the error {}", e)),
                    Ok(()) => return Err("a buffer without syntax gives tokens".into()),
                }
                if guard("data", || ws.current_buffer.as_ref().unwrap().data())? != text {
                    return Err("failing to give tokens changed the buffer".into());
                }
                let other = r.one_in(2);
                if other {
                    // Another buffer's syntax doesn't stand in for it.
                    guard("add_buffer", || ws.add_buffer(Buffer::new()))?;
                    if guard("current_buffer_tokens", || ws.current_buffer_tokens().map(|_| ()))?.is_err() {
                        return Err("a buffer with a syntax gives no tokens".into());
                    }
                    guard("previous_buffer", || ws.previous_buffer())?;
                    if guard("current_buffer_tokens", || ws.current_buffer_tokens().is_ok())? {
                        return Err("a buffer without syntax gives tokens".into());
                    }
                }
                ws.current_buffer.as_mut().unwrap().syntax_definition = keep;
                match guard("current_buffer_tokens", || ws.current_buffer_tokens().map(|_| ()))? {
                    Ok(()) => {}
                    Err(e) => return Err(format!("a buffer with its syntax back gives the error {}", e)),
                }
                guard("close_current_buffer", || ws.close_current_buffer())?;
                if other {
                    guard("close_current_buffer", || ws.close_current_buffer())?;
                }
                match guard("current_buffer_tokens", || ws.current_buffer_tokens().map(|_| ()))? {
                    Err(e) if matches!(e.kind(), ErrorKind::EmptyWorkspace) => Ok(()),
                    _ => Err("an emptied workspace doesn't say so when asked for tokens".into()),
                }
            });
        }
        if r.chance(70) {
            let Some(t) = truth(&text, def, &sh.set) else {
                skipped += 1;
                return Ok(());
            };
            ctx.say(|| format!("{} tokens of {}", name, show(&text)));
            let set = TokenSet::new(text.clone(), def, &sh.set);
            judged += 1;
            return judge_set(&set, &text, &t, what, &mut seen, &mut r);
        }
        // Through a workspace, the buffer being edited in between.
        with_workspace(ctx, sh, |ws| {
            let def = ws.syntax_set.find_syntax_by_name(&name).cloned().expect("syntax");
            let mut b = Buffer::new();
            guard("insert", || b.insert(text.as_str()))?;
            b.syntax_definition = Some(def.clone());
            if r.one_in(4) {
                guard("add_buffer", || ws.add_buffer(Buffer::new()))?;
            }
            guard("add_buffer", || ws.add_buffer(b))?;
            for round in 0..r.range(1, 3) {
                if round > 0 {
                    let d = Doc::new(&text);
                    let b = ws.current_buffer.as_mut().unwrap();
                    let at = gen::valid_pos(&mut r, &d);
                    guard("move_to", || b.cursor.move_to(at))?;
                    let bits = SNIPPETS.iter().find(|x| x.0 == name).map_or(MADE_BITS, |x| x.1);
                    let piece = *r.pick(bits);
                    match r.below(6) {
                        0 => guard("delete", || b.delete())?,
                        1 => guard("undo", || b.undo())?,
                        2 => {
                            // Other text of the same length.
                            let n = text.chars().count();
                            let k = r.range(1, 30);
                            let turned: String = if r.chance(50) { text.chars().cycle().skip(k).take(n).collect() } else { text.chars().map(|c| if c == 'a' { 'b' } else if c == 'b' { '"' } else { c }).collect() };
                            guard("replace", || b.replace(turned))?
                        }
                        _ => guard("insert", || b.insert(piece))?,
                    }
                    text = guard("data", || b.data())?;
                }
                let Some(t) = truth(&text, &def, &ws.syntax_set) else {
                    skipped += 1;
                    return Ok(());
                };
                ctx.say(|| format!("{} tokens of {} through a workspace", name, show(&text)));
                let set = guard("current_buffer_tokens", || ws.current_buffer_tokens())?.map_err(|e| format!("no tokens: {}", e))?;
                judged += 1;
                judge_set(&set, &text, &t, what, &mut seen, &mut r)?;
            }
            Ok(())
        })
    })();
    ctx.add("texts lexed and judged", judged);
    ctx.add("texts left out (the parser itself fails badly, or scopes pile up by the thousands)", skipped);
    ctx.add("tokens", seen.tokens);
    ctx.add("newline tokens", seen.newlines);
    ctx.add("lexemes starting within a cluster", seen.inexact);
    ctx.add("lexemes read back from their position", seen.read_back);
    ctx.add("lexemes with scopes judged", seen.scopes);
    ctx.add("lexemes with more than two scopes", seen.multi);
    ctx.add("texts failing on the first line", seen.failed_first);
    ctx.add("texts failing on a later line", seen.failed_later);
    ctx.add("foreign syntax definitions", foreign);
    ctx.add("missing buffer or syntax", absent);
    let nontrivial = if what.failures { seen.failed_first + seen.failed_later + absent > 0 } else { seen.tokens + seen.scopes > 1 };
    Outcome { verdict, steps: 0, signature: mix2(sig, mix2(hash_str(&name), absent)), nontrivial }
}

pub fn k01(ctx: &Ctx, seed: u64, _keep: Option<&[usize]>) -> Outcome {
    tokens_case(ctx, seed, What { lossless: true, scopes: false, failures: false })
}

pub fn k02(ctx: &Ctx, seed: u64, _keep: Option<&[usize]>) -> Outcome {
    tokens_case(ctx, seed, What { lossless: false, scopes: true, failures: false })
}

pub fn k03(ctx: &Ctx, seed: u64, _keep: Option<&[usize]>) -> Outcome {
    tokens_case(ctx, seed, What { lossless: false, scopes: false, failures: true })
}
