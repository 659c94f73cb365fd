//! What saving and loading leave alone on disk, and what a new workspace is like.

use crate::fault::{self, Plan};
use crate::gen;
use crate::model::{show, Doc};
use crate::props_io::hard_plan;
use crate::props_tok::write_syntaxes;
use crate::props_ws::{Home, FIRST_LINES};
use crate::rng::{hash_str, mix2, Rng};
use crate::run::{guard, own_cwd, Ctx, Outcome};
use crate::session::variant;
use scribe::{Buffer, ErrorKind, Workspace};
use std::any::Any;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::os::unix::fs::{symlink, MetadataExt, PermissionsExt};
use std::path::{Path, PathBuf};
use std::sync::Arc;
use syntect::parsing::SyntaxSet;

#[derive(Clone, PartialEq, Debug)]
pub struct Entry {
    kind: char,
    mode: u32,
    owner: (u32, u32),
    inode: u64,
    /// Seconds and nanoseconds; nothing for folders, and for what may be written.
    modified: Option<(i64, i64)>,
    content: Vec<u8>,
}

/// Everything below a folder, links not followed.
pub fn tree(dir: &Path) -> BTreeMap<PathBuf, Entry> {
    let mut out = BTreeMap::new();
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in fs::read_dir(&d).expect("scratch").flatten() {
            let path = e.path();
            let Ok(m) = path.symlink_metadata() else { continue };
            let kind = if m.is_dir() {
                'd'
            } else if m.file_type().is_symlink() {
                'l'
            } else {
                'f'
            };
            let content = match kind {
                'f' => fs::read(&path).unwrap_or_default(),
                'l' => fs::read_link(&path).map(|l| l.to_string_lossy().as_bytes().to_vec()).unwrap_or_default(),
                _ => vec![],
            };
            out.insert(
                path.clone(),
                Entry {
                    kind,
                    mode: m.permissions().mode(),
                    owner: (m.uid(), m.gid()),
                    inode: m.ino(),
                    modified: if kind == 'd' { None } else { Some((m.mtime(), m.mtime_nsec())) },
                    content,
                },
            );
            if kind == 'd' {
                todo.push(path);
            }
        }
    }
    out
}

/// The difference, not minding what happened to the contents of the file with this inode.
pub fn compare(before: &BTreeMap<PathBuf, Entry>, after: &BTreeMap<PathBuf, Entry>, may: Option<u64>, made: Option<&Path>) -> Result<(), String> {
    for (path, b) in before {
        let Some(a) = after.get(path) else { return Err(format!("{:?} is gone", path)) };
        let (mut a, mut b) = (a.clone(), b.clone());
        if b.kind == 'f' && may == Some(b.inode) {
            if a.inode != b.inode && a.kind == 'f' {
                return Err(format!("{:?} isn't the same file any more", path));
            }
            for x in [&mut a, &mut b] {
                x.modified = None;
                x.content = vec![];
            }
        }
        if a != b {
            return Err(format!(
                "{:?} has changed: kind {} to {}, mode {:o} to {:o}, owner {:?} to {:?}, {} to {}{}",
                path,
                b.kind,
                a.kind,
                b.mode,
                a.mode,
                b.owner,
                a.owner,
                show(&String::from_utf8_lossy(&b.content)),
                show(&String::from_utf8_lossy(&a.content)),
                if a.inode != b.inode { ", and is another file" } else { "" }
            ));
        }
    }
    for path in after.keys() {
        if !before.contains_key(path) && Some(path.as_path()) != made {
            return Err(format!("{:?} has appeared", path));
        }
    }
    Ok(())
}

/// Names that editors and others like to use besides a file.
pub fn beside(name: &str, k: usize) -> String {
    match k {
        0 => format!("{}~", name),
        1 => format!(".{}.swp", name),
        2 => format!("{}.bak", name),
        3 => format!("{}.tmp", name),
        4 => format!(".{}.tmp", name),
        5 => format!("#{}#", name),
        6 => format!("{}.orig", name),
        7 => format!("{}.new", name),
        8 => format!("{}.lock", name),
        9 => format!(".{}", name),
        10 => name.split('.').next().unwrap().to_string() + ".bak",
        11 => name.split('.').next().unwrap().to_string() + ".tmp",
        12 => "tmp".into(),
        _ => name.to_uppercase() + "2",
    }
}

pub fn f04(ctx: &Ctx, seed: u64, _keep: Option<&[usize]>) -> Outcome {
    let mut r = Rng::new(mix2(seed, 0xF04));
    let style = gen::style(&mut r);
    let dir = ctx.scratch.join("f04");
    let _ = fs::remove_dir_all(&dir);
    let place = dir.join("place");
    fs::create_dir_all(place.join("sub")).expect("scratch");
    fs::create_dir_all(dir.join("cwd")).expect("scratch");
    let name = *r.pick(&["doc.txt", "a", "main.rs", ".hidden", "x.tar.gz", "é.md", "with space", "Makefile"]);
    let file = place.join(name);
    let home = Home(std::env::current_dir().expect("cwd"));
    let (mut saves, mut failed, mut loads, mut created, mut sig, mut linked) = (0u64, 0u64, 0u64, 0u64, seed, 0u64);
    let verdict = (|| -> Result<(), String> {
        if own_cwd() {
            std::env::set_current_dir(dir.join("cwd")).expect("cwd");
        }
        let mut text = match r.below(12) {
            0 => gen::sized_text(&mut r, &ctx.dict, 70_000),
            1 => gen::round_text(&mut r, 70_000),
            2 => gen::document(&mut r, style, &ctx.dict, false),
            _ => {
                let atoms = r.range(0, 40);
                gen::text_of(&mut r, style, &ctx.dict, atoms)
            }
        };
        if r.one_in(6) {
            text.insert_str(0, r.pick(FIRST_LINES));
        }
        // Around the file.
        for k in 0..14 {
            if r.chance(25) {
                let b = beside(name, k);
                for folder in [place.clone(), dir.join("cwd")] {
                    if r.chance(60) && !folder.join(&b).exists() {
                        fs::write(folder.join(&b), format!("previous contents {}", k)).expect("scratch write");
                    }
                }
            }
        }
        fs::write(dir.join("reference"), "").expect("scratch write");
        let usual = fs::metadata(dir.join("reference")).expect("scratch").permissions().mode();
        // The file, and the way to it.
        let way = r.below(7);
        let mut path = file.clone();
        let exists = way != 5 && way != 6;
        if exists {
            fs::write(&file, &text).expect("scratch write");
            let mode = *r.pick(&[0o644, 0o600, 0o755, 0o640, 0o666, 0o444, 0o777]);
            fs::set_permissions(&file, fs::Permissions::from_mode(mode)).expect("scratch");
            if r.one_in(3) {
                let _ = std::os::unix::fs::chown(&file, Some(1000 + r.below(5) as u32), Some(2000));
            }
        }
        match way {
            1 => {
                symlink(name, place.join("link")).expect("scratch");
                path = place.join("link");
            }
            2 => {
                symlink(&file, place.join("sub/one")).expect("scratch");
                symlink("sub/one", place.join("two")).expect("scratch");
                path = place.join("two");
            }
            3 => {
                symlink("place", dir.join("folder")).expect("scratch");
                path = dir.join("folder").join(name);
            }
            4 => fs::hard_link(&file, place.join("sub/same")).expect("scratch"),
            6 => {
                // A link to where nothing is yet.
                symlink(&file, place.join("link")).expect("scratch");
                path = place.join("link");
            }
            _ => {}
        }
        if matches!(way, 0 | 4) && own_cwd() && r.chance(30) {
            path = Path::new("../place").join(name);
        }
        linked += matches!(way, 1 | 2 | 3 | 4 | 6) as u64;
        ctx.say(|| format!("{:?} through {:?}, {} bytes", file, path, text.len()));
        let mut before = tree(&dir);
        let mut b;
        if exists && r.chance(70) {
            let x = guard("from_file", || Buffer::from_file(&path))?;
            b = x.map_err(|e| format!("from_file({:?}): {}", path, e))?;
            loads += 1;
            compare(&before, &tree(&dir), None, None).map_err(|e| format!("loading {:?}: {}", path, e))?;
            // Canonical now; or by hand, the way it is to be saved through.
            if r.chance(60) {
                b.path = Some(path.clone());
            }
        } else {
            b = Buffer::new();
            b.path = Some(path.clone());
        }
        for _ in 0..r.range(2, 8) {
            let now = guard("data", || b.data())?;
            let d = Doc::new(&now);
            let at = gen::valid_pos(&mut r, &d);
            guard("move_to", || b.cursor.move_to(at))?;
            match r.below(5) {
                0 => guard("delete", || b.delete())?,
                1 => guard("undo", || b.undo())?,
                2 => guard("replace", || b.replace(variant(&mut r, &d, style, &ctx.dict)))?,
                3 => {}
                _ => {
                    let what = match r.below(12) {
                        0 => gen::sized_text(&mut r, &ctx.dict, 20_000),
                        1 => r.pick(FIRST_LINES).to_string(),
                        2 => gen::piece(&mut r, style, &ctx.dict),
                        _ => "insérted\n".to_string(),
                    };
                    if r.one_in(4) {
                        guard("move_to", || b.cursor.move_to(scribe::buffer::Position::new()))?;
                    }
                    guard("insert", || b.insert(what.clone()))?
                }
            }
            let now = guard("data", || b.data())?;
            let inode = fs::metadata(&file).ok().map(|m| m.ino());
            let what;
            match r.below(8) {
                0..=2 => {
                    what = "saving".to_string();
                    let (x, _) = fault::with_plan(hard_plan(&mut r, now.len()), || guard("save", || b.save()));
                    x?.map_err(|e| format!("save to {:?}: {}", b.path, e))?;
                    saves += 1;
                    if fs::read(&file).ok().as_deref() != Some(now.as_bytes()) {
                        return Err(format!("saving to {:?} did not write {} to {:?}", b.path, show(&now), file));
                    }
                    if inode.is_none() {
                        created += 1;
                        let mode = fs::metadata(&file).expect("scratch").permissions().mode();
                        if mode != usual {
                            return Err(format!("the file created by saving has the permissions {:o}, not the usual {:o}", mode, usual));
                        }
                    }
                }
                3 => {
                    what = "a failing save".to_string();
                    let plan = match r.below(3) {
                        0 => Plan { fail_open: 1, errno: libc::EACCES, ..Plan::default() },
                        1 => Plan { fail_other: 1 + r.below(3) as u32, errno: libc::EIO, ..Plan::default() },
                        _ => Plan { piece: 1 + now.len() / 3, fail_write: 1 + r.below(4) as u32, errno: libc::ENOSPC, ..Plan::default() },
                    };
                    let (x, _) = fault::with_plan(plan, || guard("save", || b.save()));
                    failed += x?.is_err() as u64;
                }
                4 => {
                    what = "a save to a wrong place".to_string();
                    let good = b.path.clone();
                    b.path = match r.below(6) {
                        0 => None,
                        1 => Some(place.join("nowhere/doc.txt")),
                        4 => Some(place.join("no/where/at/all/doc.txt")),
                        5 => Some(PathBuf::from(format!("nowhere{}/doc.txt", if own_cwd() { "" } else { "/no" }))),
                        2 => Some(place.clone()),
                        _ => Some(dir.join("reference/doc.txt")),
                    };
                    let x = guard("save", || b.save())?;
                    b.path = good;
                    failed += x.is_err() as u64;
                    let after = tree(&dir);
                    compare(&before, &after, None, None).map_err(|e| format!("{}: {}", what, e))?;
                }
                5 => {
                    what = "a failing reload or load".to_string();
                    let plan = match r.below(2) {
                        0 => Plan { fail_open: 1, errno: libc::EACCES, ..Plan::default() },
                        _ => Plan { fail_read: 1, errno: libc::EIO, ..Plan::default() },
                    };
                    let (x, _) = fault::with_plan(plan, || guard("reload", || b.reload().is_err()));
                    failed += x? as u64;
                    let (x, _) = fault::with_plan(plan, || guard("from_file", || Buffer::from_file(&path).is_err()));
                    failed += x? as u64;
                    failed += guard("from_file", || Buffer::from_file(&place.join("missing")).is_err())? as u64;
                    if inode.is_some() && r.one_in(2) {
                        // What's there isn't text.
                        let text = fs::read(&file).expect("scratch");
                        let mut damaged = text.clone();
                        damaged.insert(r.below(damaged.len() + 1), *r.pick(&[0xffu8, 0xc0, 0xf8]));
                        fs::write(&file, &damaged).expect("scratch write");
                        let then = tree(&dir);
                        if guard("reload", || b.reload().is_ok())? || guard("from_file", || Buffer::from_file(&path).is_ok())? {
                            return Err(format!("a file that isn't UTF-8 is loaded: {:?}", String::from_utf8_lossy(&damaged)));
                        }
                        failed += 2;
                        compare(&then, &tree(&dir), None, None).map_err(|e| format!("failing to load what isn't UTF-8: {}", e))?;
                        if b.data() != now {
                            return Err("a failing reload changes the text".into());
                        }
                        fs::write(&file, &text).expect("scratch write");
                        before = tree(&dir);
                    }
                    compare(&before, &tree(&dir), None, None).map_err(|e| format!("{}: {}", what, e))?;
                }
                _ => {
                    what = "reloading and loading".to_string();
                    let _ = guard("reload", || b.reload().is_ok())?;
                    let _ = guard("from_file", || Buffer::from_file(&path).is_ok())?;
                    let _ = guard("modified", || b.modified())?;
                    loads += 1;
                    compare(&before, &tree(&dir), None, None).map_err(|e| format!("{}: {}", what, e))?;
                }
            }
            ctx.say(|| what.clone());
            let after = tree(&dir);
            compare(&before, &after, inode, Some(&file)).map_err(|e| format!("{} through {:?}: {}", what, b.path.as_ref().unwrap_or(&path), e))?;
            sig = mix2(sig, hash_str(&what) ^ hash_str(&now));
            before = after;
        }
        drop(b);
        compare(&before, &tree(&dir), None, None).map_err(|e| format!("dropping the buffer: {}", e))?;
        if r.one_in(60) {
            // The same from a workspace.
            let mut ws = guard("Workspace::new", || Workspace::new(&place, None))?.map_err(|e| format!("Workspace::new: {}", e))?;
            for _ in 0..r.range(3, 9) {
                let inode = fs::metadata(&file).ok().map(|m| m.ino());
                let mut may = None;
                let what = match r.below(6) {
                    0 | 1 => {
                        let places = [path.clone(), file.clone(), place.join("missing.rs"), place.join("sub"), place.join("no/where"), place.join(beside(name, r.below(14)))];
                        let at = r.pick(&places);
                        let _ = guard("open_buffer", || ws.open_buffer(at).is_ok())?;
                        format!("opening {:?}", at)
                    }
                    2 => {
                        guard("close_current_buffer", || ws.close_current_buffer())?;
                        "closing a buffer".to_string()
                    }
                    3 => {
                        guard("add_buffer", || ws.add_buffer(Buffer::new()))?;
                        "adding a buffer".into()
                    }
                    _ => {
                        let _ = guard("tokens", || ws.current_buffer_tokens().is_ok())?;
                        guard("buffer_paths", || ws.buffer_paths().len())?;
                        if let Some(b) = ws.current_buffer.as_mut() {
                            guard("insert", || b.insert("more\n"))?;
                            if b.path.as_ref().is_some_and(|p| fs::metadata(p).ok().map(|m| m.ino()) == inode) && inode.is_some() {
                                may = inode;
                                let _ = guard("save", || b.save().is_ok())?;
                            }
                        }
                        "editing and saving in a workspace".into()
                    }
                };
                loads += 1;
                ctx.say(|| what.clone());
                let after = tree(&dir);
                compare(&before, &after, may, None).map_err(|e| format!("{}: {}", what, e))?;
                before = after;
            }
        }
        Ok(())
    })();
    drop(home);
    ctx.add("saves", saves);
    ctx.add("loads and reloads", loads);
    ctx.add("failing calls", failed);
    ctx.add("files created by saving", created);
    ctx.add("files reached through links", linked);
    let _ = fs::remove_dir_all(&dir);
    Outcome { verdict, steps: 0, signature: sig, nontrivial: saves > 0 }
}

/// Names and extensions of the syntaxes that come with the library's set.
struct Bundled(BTreeSet<(String, Vec<String>)>);

pub fn bundled(_: &Path) -> Arc<dyn Any + Send + Sync> {
    let set = SyntaxSet::load_defaults_newlines();
    Arc::new(Bundled(set.syntaxes().iter().map(|s| (s.name.clone(), s.file_extensions.clone())).collect()))
}

pub fn w06(ctx: &Ctx, seed: u64, _keep: Option<&[usize]>) -> Outcome {
    let bundled = ctx.shared.downcast_ref::<Bundled>().expect("bundled");
    let mut r = Rng::new(mix2(seed, 0x306));
    let dir = ctx.scratch.join("w06");
    let _ = fs::remove_dir_all(&dir);
    let base = *r.pick(&["proj", "é", "w s", "~", "a.b", "-x", ".git", "$HOME"]);
    let root = dir.join("in").join(base);
    fs::create_dir_all(root.join("sub")).expect("scratch");
    fs::create_dir_all(dir.join("cwd")).expect("scratch");
    symlink(&root, dir.join("alias")).expect("scratch");
    symlink("alias", dir.join("again")).expect("scratch");
    symlink("nothing", dir.join("dangling")).expect("scratch");
    symlink("loop", dir.join("loop")).expect("scratch");
    for n in ["main.rs", "a.txt", ".scribe", "Cargo.toml", "x.sublime-syntax"] {
        if r.chance(30) {
            fs::write(root.join(n), "not: [a syntax").expect("scratch write");
        }
    }
    // Syntaxes lying around, in places that might be looked into unasked.
    const OWN: &str = "%YAML 1.2\n---\nname: Unasked\nfile_extensions: [unasked]\nscope: source.unasked\ncontexts:\n  main:\n    - match: x\n      scope: x.unasked\n";
    for _ in 0..r.below(4) {
        let mined: Vec<&String> = ctx.dict.strings.iter().filter(|s| !s.is_empty() && s.len() < 60 && !s.contains('\0') && !s.contains("..") && !s.starts_with('/')).collect();
        let name = if !mined.is_empty() && r.chance(55) { r.pick(&mined).to_string() } else { r.pick(&["syntaxes", ".syntaxes", ".scribe/syntaxes", ".config/scribe", "syntax", ".", "syntax_definitions", ".git"]).to_string() };
        for folder in [root.join(&name), dir.join("cwd").join(&name), root.parent().unwrap().join(&name)] {
            if r.chance(70) && fs::create_dir_all(&folder).is_ok() {
                let _ = fs::write(folder.join(*r.pick(&["own.sublime-syntax", "unasked.sublime-syntax"])), OWN);
            }
        }
        if r.one_in(3) && Path::new(&name).extension().is_some() {
            let _ = fs::write(root.join("sub").join(&name), OWN);
        }
    }
    fs::write(root.join("sub/a file"), "x").expect("scratch write");
    let home = Home(std::env::current_dir().expect("cwd"));
    let root = root.canonicalize().expect("scratch");
    let (mut made, mut refused, mut user, mut relative, mut sig) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let verdict = (|| -> Result<(), String> {
        let mut own = false;
        if own_cwd() {
            own = true;
            let at = [dir.join("cwd"), root.clone(), root.join("sub"), dir.clone()];
            std::env::set_current_dir(r.pick(&at)).expect("cwd");
        }
        for _ in 0..r.range(1, 3) {
            let cwd = std::env::current_dir().expect("cwd");
            let back = "../".repeat(cwd.components().count() - 1);
            let mut ways = vec![
                root.clone(),
                dir.join("alias"),
                dir.join("again"),
                dir.join("again/sub/.."),
                root.join("sub/./../"),
                PathBuf::from(format!("{}//./", root.display())),
            ];
            if own {
                ways.push(PathBuf::from(format!("{}{}", back, root.display().to_string().trim_start_matches('/'))));
                if cwd == root {
                    ways.extend([".", "./", "sub/.."].map(PathBuf::from));
                }
                if cwd == root.join("sub") {
                    ways.extend(["..", "../", "./.."].map(PathBuf::from));
                }
            }
            let mut way = r.pick(&ways).clone();
            let mut expected = root.clone();
            if own && r.one_in(4) {
                // Where one is, or above, whatever it's called.
                let (w, to) = match r.below(6) {
                    0 | 1 => (".", cwd.clone()),
                    2 => ("./", cwd.clone()),
                    3 => ("./.", cwd.clone()),
                    4 => ("..", cwd.parent().unwrap().to_path_buf()),
                    _ => ("./..//", cwd.parent().unwrap().to_path_buf()),
                };
                way = PathBuf::from(w);
                expected = to;
            }
            if r.one_in(10) {
                // Whatever is there: a file will do.
                way = r.pick(&[root.join("sub/a file"), dir.join("again/sub/a file")]).clone();
                expected = root.join("sub/a file");
            }
            relative += way.is_relative() as u64;
            // The folder of syntaxes.
            let folder = dir.join("syntaxes");
            let _ = fs::remove_dir_all(&folder);
            let mut names = vec![];
            let mut written: Vec<(String, Vec<String>)> = vec![];
            let mut bad = false;
            let given: Option<PathBuf> = match r.weighted(&[50, 10, 4, 4, 8, 8, 22]) {
                0 => None,
                1 => {
                    fs::create_dir_all(&folder).expect("scratch");
                    if r.chance(50) {
                        fs::write(folder.join("readme.txt"), "%YAML 1.2\n---\nnot: [a syntax").expect("scratch write");
                        fs::create_dir_all(folder.join("empty.d")).expect("scratch");
                    }
                    Some(folder.clone())
                }
                2 => {
                    names = write_syntaxes(&folder);
                    Some(folder.clone())
                }
                3 => {
                    // Further down, and through a link.
                    names = write_syntaxes(&folder.join("deep/down"));
                    symlink(&folder, dir.join("linked")).ok();
                    Some(folder.join("deep"))
                }
                4 => {
                    fs::create_dir_all(folder.join("x")).expect("scratch");
                    let bad_one = *r.pick(&["", "%YAML 1.2\n---\nname: [", "just text", "%YAML 1.2\n---\nname: X\n", "\u{0}"]);
                    fs::write(folder.join(*r.pick(&["bad.sublime-syntax", "x/bad.sublime-syntax"])), bad_one).expect("scratch write");
                    bad = true;
                    Some(folder.clone())
                }
                5 => {
                    bad = true;
                    Some(dir.join("no-such-folder"))
                }
                _ => {
                    // Folders and files of any name, and definitions much like one another.
                    let words: Vec<&String> = ctx.dict.strings.iter().filter(|s| !s.is_empty() && s.len() < 40 && !s.ends_with(".sublime-syntax") && !s.contains(['\0', '/']) && *s != "..").collect();
                    let many = if r.one_in(10) { *r.pick(&[65, 130, 260]) } else { *r.pick(&[1, 2, 3, 5, 9, 40]) };
                    for k in 0..many {
                        let mut at = folder.clone();
                        for _ in 0..*r.pick(&[0, 0, 1, 1, 2, 3, 7]) {
                            let odd = [".syntaxes", ".git", "Packages", "User", "node_modules", "a b", "é", "x.sublime-package", "disabled", "old~", "-", "sublime-syntax"];
                            at = at.join(if !words.is_empty() && r.chance(30) { r.pick(&words).to_string() } else { r.pick(&odd).to_string() });
                        }
                        let stem = if !words.is_empty() && r.chance(20) { r.pick(&words).to_string() } else { r.pick(&["own", ".own", "Own Language", "own.2", "é", "README", "_own", "own~"]).to_string() };
                        let file = at.join(if k < 40 { format!("{}.sublime-syntax", stem) } else { format!("{} {}.sublime-syntax", stem, k) });
                        if fs::create_dir_all(&at).is_err() || file.exists() {
                            continue;
                        }
                        let name = r.pick(&["Own", "Own", "Rust", "Plain Text", "Other", "own"]).to_string();
                        let scope = *r.pick(&["source.own", "source.own", "source.rust", "text.plain", "source.other"]);
                        let hidden = *r.pick(&["", "", "hidden: true\n", "hidden: false\n"]);
                        let extensions: Vec<String> = (0..r.below(3)).map(|_| r.pick(&["own", "rs", "two", "Makefile", "o.w.n"]).to_string()).collect();
                        let text = format!(
                            "%YAML 1.2\n---\nname: {}\n{}file_extensions: [{}]\nscope: {}\ncontexts:\n  main:\n    - match: x\n      scope: x.own\n",
                            name,
                            hidden,
                            extensions.join(", "),
                            scope
                        );
                        if fs::write(&file, text).is_ok() {
                            ctx.say(|| format!("{:?} defines {} {:?}", file.strip_prefix(&folder).unwrap(), name, extensions));
                            written.push((name, extensions));
                        }
                    }
                    fs::create_dir_all(&folder).expect("scratch");
                    Some(folder.clone())
                }
            };
            let before = tree(&dir);
            ctx.say(|| format!("in {:?}: Workspace::new({:?}, {:?})", cwd, way, given));
            // Paths where nothing is.
            if r.chance(40) {
                let ways = [dir.join("missing"), dir.join("dangling"), dir.join("loop"), PathBuf::new(), root.join("sub/missing/.."), PathBuf::from("a\0b")];
                let none = r.pick(&ways);
                if guard("Workspace::new", || Workspace::new(none, None).is_ok())? {
                    return Err(format!("a workspace is created for {:?}, where nothing is", none));
                }
                refused += 1;
                compare(&before, &tree(&dir), None, None).map_err(|e| format!("failing to create a workspace: {}", e))?;
            }
            let ws = guard("Workspace::new", || Workspace::new(&way, given.as_deref()))?;
            compare(&before, &tree(&dir), None, None).map_err(|e| format!("creating a workspace: {}", e))?;
            if std::env::current_dir().expect("cwd") != cwd {
                return Err("creating a workspace changed the current directory".into());
            }
            sig = mix2(sig, hash_str(&format!("{:?} {:?} {:?}", cwd.strip_prefix(&dir), way.strip_prefix(&dir), given.is_some())));
            if bad {
                refused += 1;
                if ws.is_ok() {
                    return Err(format!("a workspace is created in spite of a missing or broken folder of syntaxes, {:?}", given));
                }
                continue;
            }
            let mut ws = ws.map_err(|e| format!("Workspace::new({:?}, {:?}): {}", way, given, e))?;
            made += 1;
            user += !names.is_empty() as u64;
            if own && r.chance(50) {
                std::env::set_current_dir(&dir).expect("cwd");
            }
            if ws.path != expected {
                return Err(format!("the path of the workspace created for {:?} is {:?}, not {:?}", way, ws.path, expected));
            }
            let all: BTreeSet<(String, Vec<String>)> = ws.syntax_set.syntaxes().iter().map(|s| (s.name.clone(), s.file_extensions.clone())).collect();
            if let Some(m) = bundled.0.iter().find(|x| !all.contains(x)) {
                return Err(format!("the workspace's set lacks the bundled syntax {:?}", m));
            }
            for n in &names {
                if !all.iter().any(|x| x.0 == *n) {
                    return Err(format!("the workspace's set lacks the user's syntax {}", n));
                }
            }
            if let Some(w) = written.iter().find(|w| !all.contains(w)) {
                return Err(format!("the workspace's set lacks the user's syntax {:?}", w));
            }
            if !written.is_empty() {
                let count = |n: &str| ws.syntax_set.syntaxes().iter().filter(|s| s.name == n).count();
                for n in ["Own", "Other", "own"] {
                    let k = written.iter().filter(|w| w.0 == n).count();
                    if count(n) != k {
                        return Err(format!("{} definitions of {} were given, but the workspace's set holds {}", k, n, count(n)));
                    }
                }
                if let Some(x) = all.difference(&bundled.0).find(|x| !written.contains(x)) {
                    return Err(format!("the workspace's set holds something else: {:?}", x));
                }
                user += 1;
            } else if names.is_empty() && all != bundled.0 {
                return Err(format!("the workspace's set holds something else: {:?}", all.difference(&bundled.0).next()));
            }
            let empty = |ws: &mut Workspace, when: &str| -> Result<(), String> {
                if ws.current_buffer.is_some() || ws.current_buffer_index().is_some() || ws.current_buffer_path().is_some() || !ws.buffer_paths().is_empty() {
                    return Err(format!("{}, the workspace isn't empty: {:?}", when, ws.buffer_paths()));
                }
                match ws.current_buffer_tokens() {
                    Err(e) if matches!(e.kind(), ErrorKind::EmptyWorkspace) => {}
                    Err(e) => return Err(format!("{}, asking for tokens fails with {}", when, e)),
                    Ok(_) => return Err(format!("{}, there are tokens", when)),
                }
                match ws.update_current_syntax() {
                    Err(e) if matches!(e.kind(), ErrorKind::EmptyWorkspace) => {}
                    Err(e) => return Err(format!("{}, updating the syntax fails with {}", when, e)),
                    Ok(_) => return Err(format!("{}, updating the syntax succeeds", when)),
                }
                Ok(())
            };
            guard("a new workspace", || empty(&mut ws, "when new"))??;
            for _ in 0..r.below(4) {
                guard("on an empty workspace", || match r.below(3) {
                    0 => ws.next_buffer(),
                    1 => ws.previous_buffer(),
                    _ => ws.close_current_buffer(),
                })?;
            }
            guard("an empty workspace", || empty(&mut ws, "after closing or moving with nothing open"))??;
            // It works.
            guard("add_buffer", || ws.add_buffer(Buffer::new()))?;
            if ws.current_buffer_index() != Some(0) || ws.current_buffer.as_ref().map_or(true, |b| b.id.is_none() || b.data() != "") {
                return Err("the first buffer added to a new workspace isn't current, or has no id".into());
            }
            let plain = ws.current_buffer.as_ref().and_then(|b| b.syntax_definition.as_ref()).map(|s| s.name.clone());
            if plain.as_deref() != Some("Plain Text") {
                return Err(format!("the first buffer added to a new workspace has the syntax {:?}", plain));
            }
            guard("close_current_buffer", || ws.close_current_buffer())?;
            guard("an emptied workspace", || empty(&mut ws, "after closing the only buffer"))??;
            drop(ws);
            compare(&before, &tree(&dir), None, None).map_err(|e| format!("using an empty workspace: {}", e))?;
        }
        Ok(())
    })();
    drop(home);
    ctx.add("workspaces created", made);
    ctx.add("workspaces with user syntaxes", user);
    ctx.add("workspaces refused", refused);
    ctx.add("relative paths", relative);
    let _ = fs::remove_dir_all(&dir);
    Outcome { verdict, steps: 0, signature: sig, nontrivial: made > 0 }
}
