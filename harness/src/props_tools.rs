//! The tools, elm-parser-dump and elm-parser-check, run as a user runs them.
use std::collections::BTreeMap;
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::{symlink, PermissionsExt};
use std::path::{Path, PathBuf};

use crate::dbg;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::mutate::*;
use crate::props_text::*;
use crate::sys::*;

/// A folder for one case, that ceases to exist with it.
pub struct Scratch {
    pub root: PathBuf,
    pub log: PathBuf,
    n: usize,
}

impl Scratch {
    pub fn new(env: &Env) -> std::io::Result<Scratch> {
        let base = env.shared.scratch.join(format!("t{}", env.thread));
        let _ = std::fs::remove_dir_all(&base);
        let root = base.join("here");
        let log = base.join("log");
        std::fs::create_dir_all(&root)?;
        std::fs::create_dir_all(&log)?;
        std::fs::create_dir_all(root.join("home"))?;
        Ok(Scratch { root, log, n: 0 })
    }

    pub fn name(&mut self) -> usize {
        self.n += 1;
        self.n
    }

    /// Hands everything to the user the tools run as.
    pub fn hand_over(&self) {
        fn go(p: &Path) {
            let _ = std::os::unix::fs::lchown(p, Some(NOBODY), Some(NOBODY));
            let md = std::fs::symlink_metadata(p);
            if md.map(|m| m.is_dir()).unwrap_or(false) {
                if let Ok(d) = std::fs::read_dir(p) {
                    for e in d.flatten() {
                        go(&e.path());
                    }
                }
            }
        }
        if is_root() {
            go(&self.root);
        }
    }

    pub fn tool(&self, env: &Env, name: &str) -> Tool {
        Tool {
            bin: env.shared.bins.join(name),
            cwd: self.root.clone(),
            log: self.log.clone(),
            env: vec![
                ("HOME".to_string(), self.root.join("home").display().to_string()),
                ("TMPDIR".to_string(), self.root.join("home").display().to_string()),
                ("PATH".to_string(), "/usr/bin:/bin".to_string()),
            ],
            sealed: true,
        }
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        if let Some(b) = self.root.parent() {
            // folders made unreadable are no obstacle to root, but may be to others
            let _ = std::fs::remove_dir_all(b);
        }
    }
}

fn os(s: &str) -> OsString {
    OsString::from(s)
}

/// Runs a tool. None if it could not be run or did not end in time, which decides nothing.
pub fn ran(env: &mut Env, t: &Tool, args: &[OsString]) -> Option<Ran> {
    env.evaluated();
    env.count("runs of a tool", 1);
    match t.run(args) {
        Ok(r) if r.timed_out => {
            env.inconclusive(&format!("{:?} {:?} did not end in time", t.bin, args));
            None
        }
        Ok(r) => Some(r),
        Err(e) => {
            env.inconclusive(&format!("{:?} could not be run: {}", t.bin, e));
            None
        }
    }
}

/// A text of the kind that files hold: mostly whole modules, often damaged ones.
pub fn file_text(env: &mut Env) -> String {
    let t = plain_file_text(env);
    match env.r.below(100) {
        0..=80 => return t,
        // another system's line ends, or tabs
        81..=84 => return t.replace('\n', "\r\n"),
        85 => return t.replace("    ", "\t"),
        86 => return t.replace('\n', " \n"),
        _ => {}
    }
    // what a tool might think is no part of the content
    const EDGE: &[&str] = &["\u{feff}", "\t", "\u{b}", "\u{c}", "\r", "\r\n", "\u{a0}", "\u{2028}", "\u{85}", "\u{3000}", "\u{0}", "\u{1a}", "\u{200b}", " ", "\n", "\n\n\n", "\n ", "#!/usr/bin/elm\n", "\u{4}", ";"];
    let mut pre = String::new();
    let mut post = String::new();
    for _ in 0..env.r.range(1, 2) {
        if env.r.pct(40) {
            pre.push_str(env.r.pick(EDGE));
        } else {
            post.push_str(env.r.pick(EDGE));
        }
    }
    env.count("texts with something at their ends", 1);
    format!("{}{}{}", pre, t, post)
}

/// The text with something in it that is not UTF-8.
fn spoilt(env: &mut Env, text: &str) -> Vec<u8> {
    const BAD: &[&[u8]] = &[
        b"\xff", b"\xfe", b"\x80", b"\xbf", b"\xc0\x80", b"\xc1\xbf", b"\xc3", b"\xe6\x97", b"\xe2\x80", b"\xf0\x9f\x98", b"\xf0\x9f", b"\xe0\x80\x80", b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xf4\x90\x80\x80", b"\xf8\x88\x80\x80\x80", b"\xff\xfe",
    ];
    let mut v = text.to_string().into_bytes();
    if env.r.pct(6) {
        // another encoding
        let wide = text.encode_utf16();
        v = vec![0xff, 0xfe];
        for u in wide {
            v.extend(u.to_le_bytes());
        }
        return v;
    }
    let bad = *env.r.pick(BAD);
    let i = match env.r.below(4) {
        0 => v.len(),
        1 => 0,
        _ => env.r.below(v.len() + 1),
    };
    let i = boundary(text, i);
    let tail = v.split_off(i);
    v.extend_from_slice(bad);
    v.extend(tail);
    debug_assert!(std::str::from_utf8(&v).is_err());
    v
}

fn plain_file_text(env: &mut Env) -> String {
    match env.r.below(20) {
        0..=8 => {
            let m = sized_module(env, 4, 3, 8);
            spell(env, &m).out
        }
        9..=12 => {
            let m = sized_module(env, 3, 3, 8);
            let p = spell(env, &m);
            let c = env.r.below(MALFORMED_CLASSES);
            match malformed(&p, c, &mut env.r) {
                Some(t) => t.0,
                None => p.out,
            }
        }
        13..=14 => {
            let m = sized_module(env, 3, 3, 8);
            let p = spell(env, &m);
            mutate(&p.out, "f = 1\n", &mut env.r)
        }
        15 => near_sentence(&mut env.r),
        16 => {
            let mut t = soup(&mut env.r);
            let i = boundary(&t, env.r.below(t.len() + 1));
            t.insert_str(i, env.r.pick(ODD));
            t
        }
        17 => env.r.pick(&["", "\n", " ", "f = 1", "\u{feff}f = 1\n", "f = 1\r\n", "f = \"{:?} parsed successfully\"\n", "-- failed to parse\n", "[]", "Error(", "f = 1\n\n\n\n", "\u{0}", "f = '\u{0}'\n", "-- \u{1b}[31m\n"]).to_string(),
        18 => {
            let m = sized_module(env, 2, 3, 8);
            let p = spell(env, &m);
            p.out.trim_end().to_string()
        }
        _ => {
            // a long one
            let mut t = String::new();
            let n = env.r.range(5, 40);
            for _ in 0..n {
                let m = sized_module(env, 3, 2, 8);
                t.push_str(&spell(env, &m).out);
                t.push('\n');
            }
            if env.r.pct(30) {
                t.push_str("f = (\n");
            }
            t
        }
    }
}

/// A text whose tree takes megabytes to show.
fn huge_text(env: &mut Env) -> String {
    env.count("texts with trees of megabytes", 1);
    let n = env.r.range(7000, 14000);
    let end = *env.r.pick(&["", "\ng = )\n", "\n-- end"]);
    let t = match env.r.below(4) {
        0 => format!("f = [ {}a ]\n", "a, ".repeat(n)),
        1 => "f = a\n\n".repeat(n / 2),
        2 => "-- a comment\n".repeat(n),
        _ => format!("f = \"{}\"\n", "x é ".repeat(n * 40)),
    };
    format!("{}{}", t, end)
}

const DIRS: &[&str] = &["src", "a", "b c", ".hidden", "elm-stuff", "node_modules", "tests", "x.elm", "É", "日本", "-q", "a'b", "a\"b", "...", "Main", "*", "%s", "{}", "target", ".git", "0", "vendor", "Ui.elm.d"];
const STEMS: &[&str] = &["Main", "main", "A.B", "a b", ".Main", "é", "日本", "-q", "--quiet", "a'b", "a\"b", "a\\b", "x\ny", "{:?}", "%s", "test_", "Main.elm", "Foo.elmx", "*", "?", " ", "elm", "parsed successfully", "Test", "_", "~", "#x#", "Main~"];
/// Names of files that are none of the tool's business.
const OTHERS: &[&str] = &["Main.elmx", "Main.ELM", "Main.elm~", "Mainelm", "elm", "Main.elm.bak", "README.md", "elm.json", "Main.Elm", "Main.elm ", "x.el", "elm.", "a.elm.", "Main.elm-old", "noextension", ".gitignore", ".ignore", ".elmignore", "elm-package.json", "package.json", "README", "CVS", ".nomedia"];

fn elm_name(env: &mut Env, s: &mut Scratch) -> OsString {
    let mut n = if env.r.pct(50) { env.r.pick(STEMS).to_string() } else { format!("M{}", s.name()) };
    if env.r.pct(20) {
        n = format!("{}{}", n, s.name());
    }
    let mut v = n.into_bytes();
    if env.r.pct(3) {
        let k = env.r.range(60, 240);
        v.resize(k.max(v.len()), b'n');
    }
    if env.r.pct(5) && v.len() < 240 {
        v.extend([0xff, 0xfe]);
    }
    v.extend(b".elm");
    OsString::from_vec(v)
}

/// The words elm-parser-dump has for a file that parses and for one that does not, as seen.
fn verdicts(env: &mut Env, s: &Scratch, t: &Tool) -> Option<(String, String)> {
    let mut v = vec![];
    for (name, text) in [("good.elm", "f = 1\n"), ("bad.elm", "f = (\n")] {
        let p = s.root.join("home").join(name);
        std::fs::write(&p, text).ok()?;
        let _ = std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o644));
        let r = ran(env, t, &[os("-q"), p.clone().into_os_string()])?;
        let _ = std::fs::remove_file(&p);
        let o = r.text();
        let shown = format!("{:?}", p);
        let line = o.strip_suffix('\n').unwrap_or(&o);
        if r.code != Some(0) || line.contains('\n') || !line.starts_with(&shown) || line.len() == shown.len() {
            env.violate("with -q, the tool does not print one line of the path and the verdict", text, &format!("{} and a verdict", shown), &format!("{}; {}", o, r.ended()));
            return None;
        }
        v.push(line[shown.len()..].to_string());
    }
    if v[0] == v[1] {
        env.violate("with -q, a file that parses and one that does not are reported alike", "f = 1\n", "different verdicts", &v[0]);
        return None;
    }
    Some((v[0].clone(), v[1].clone()))
}

/// What the parser makes of a text: whether it is accepted, and what a tool is to show.
fn expected(env: &mut Env, text: &str) -> Option<(bool, dbg::Node)> {
    let o = env.outcome(text)?;
    match dbg::shown(&o) {
        Ok(x) => Some(x),
        Err(e) => {
            env.inconclusive(&format!("unreadable result: {}", e));
            None
        }
    }
}

fn cut(s: &str) -> String {
    s.chars().take(2000).collect()
}

fn check_full(env: &mut Env, text: &str, how: &str, r: &Ran, want: &(bool, dbg::Node)) -> bool {
    let o = match String::from_utf8(r.stdout.clone()) {
        Ok(o) => o,
        Err(_) => {
            env.violate(&format!("{}: the output is not UTF-8", how), text, &cut(&format!("{:?}", want.1)), &cut(&r.text()));
            return false;
        }
    };
    if r.signal.is_some() || (want.0 && r.code != Some(0)) {
        env.violate(&format!("{}: the tool ended with {}", how, r.ended()), text, &cut(&format!("{:?}", want.1)), &cut(&format!("{}\n{}", o, String::from_utf8_lossy(&r.stderr))));
        return false;
    }
    match dbg::read(&o) {
        Ok(n) if n == want.1 => true,
        Ok(_) => {
            env.violate(&format!("{}: the output is not the result of parsing the file", how), text, &cut(&format!("{:?}", want.1)), &cut(&o));
            false
        }
        Err(e) => {
            env.violate(&format!("{}: the output is not the result of parsing the file and nothing else ({})", how, e), text, &cut(&format!("{:?}", want.1)), &cut(&o));
            false
        }
    }
}

fn check_quiet(env: &mut Env, text: &str, how: &str, r: &Ran, path: &OsStr, good: bool, words: &(String, String)) {
    let want = format!("{:?}{}\n", Path::new(path), if good { &words.0 } else { &words.1 });
    let o = r.text();
    if o != want || r.signal.is_some() || (good && r.code != Some(0)) {
        env.violate(&format!("{}: the quiet output is not the path and the verdict on it ({})", how, r.ended()), text, &want, &cut(&o));
    }
}

// C19

pub fn c19_files(env: &mut Env, _: u64) {
    let mut s = match Scratch::new(env) {
        Ok(s) => s,
        Err(e) => return env.inconclusive(&format!("no scratch folder: {}", e)),
    };
    s.hand_over();
    let t = s.tool(env, "elm-parser-dump");
    let words = match verdicts(env, &s, &t) {
        Some(w) => w,
        None => return,
    };
    for _ in 0..4 {
        let text = if env.r.below(200) == 0 { huge_text(env) } else { file_text(env) };
        let want = match expected(env, &text) {
            Some(w) => w,
            None => return,
        };
        // where it lies and how it is called
        let mut name = elm_name(env, &mut s);
        if env.r.pct(20) {
            name = os(*env.r.pick(&["Main", "Main.txt", "x", "Main.ELM", "Main.elm.bak", ".elm", "a.b.c"]));
        }
        if name.to_str().is_none() {
            name = os("Main.elm");
        }
        let dir = if env.r.pct(50) { PathBuf::new() } else { PathBuf::from(*env.r.pick(DIRS)) };
        let _ = std::fs::create_dir_all(s.root.join(&dir));
        let rel = dir.join(&name);
        let full = s.root.join(&rel);
        if full.is_dir() || std::fs::write(&full, &text).is_err() {
            continue;
        }
        s.hand_over();
        let mut path: OsString = match env.r.below(4) {
            0 => full.clone().into_os_string(),
            1 => Path::new(".").join(&rel).into_os_string(),
            2 => Path::new("./home/..").join(&rel).into_os_string(),
            _ => rel.clone().into_os_string(),
        };
        let mut how = "a file".to_string();
        if env.r.pct(15) {
            let l = s.root.join(format!("link{}.elm", s.n));
            s.name();
            if symlink(&full, &l).is_ok() {
                path = l.into_os_string();
                how = "a link to a file".to_string();
            }
        }
        if path.as_bytes().starts_with(b"-") {
            path = Path::new(".").join(&path).into_os_string();
        }
        if env.r.pct(15) {
            // other spellings of the same path
            let mut v = vec![];
            for (k, c) in path.as_bytes().iter().enumerate() {
                v.push(*c);
                if *c == b'/' && k > 0 && env.r.pct(50) {
                    v.extend_from_slice(*env.r.pick(&[&b"/"[..], b"./", b".//", b"/./"]));
                }
            }
            path = OsString::from_vec(v);
        }
        env.count(if want.0 { "files that parse" } else { "files that do not parse" }, 1);
        env.nontrivial(&text);
        env.sample(&text);
        if let Some(r) = ran(env, &t, &[path.clone()]) {
            check_full(env, &text, &how, &r, &want);
        }
        let flag = os(*env.r.pick(&["-q", "--quiet"]));
        let args = if env.r.pct(50) { [flag, path.clone()] } else { [path.clone(), flag] };
        if let Some(r) = ran(env, &t, &args) {
            check_quiet(env, &text, &how, &r, &path, want.0, &words);
        }
        let _ = std::fs::remove_file(&full);
    }
}

// C20

struct Plan {
    /// Regular files with the extension elm: path relative to the folder, text, readable.
    files: Vec<(PathBuf, Vec<u8>, bool)>,
    /// Paths that may or may not be reported: links, and what cannot be opened.
    maybe: Vec<PathBuf>,
    /// Named pipes and sockets.
    pipes: usize,
    others: usize,
    depth: usize,
}

fn build_tree(env: &mut Env, s: &mut Scratch, top: &Path, texts: &mut Vec<String>) -> Plan {
    let mut plan = Plan { files: vec![], maybe: vec![], pipes: 0, others: 0, depth: 0 };
    let full_top = s.root.join(top);
    let _ = std::fs::create_dir_all(&full_top);
    let mut dirs = vec![PathBuf::new()];
    let n = env.r.range(0, 8);
    for _ in 0..n {
        let at = env.r.pick(&dirs).clone();
        let mut d = at.join(env.r.pick(DIRS));
        if env.r.pct(5) {
            d = at.join(OsString::from_vec(vec![b'd', 0xff]));
        }
        if std::fs::create_dir_all(full_top.join(&d)).is_ok() {
            dirs.push(d);
        }
    }
    if env.r.pct(30) {
        let mut d = PathBuf::new();
        let deep = *env.r.pick(&[5, 12, 12, 30, 30, 60, 60, 130, 260]);
        // few long names or many short ones
        let long = env.r.pct(20);
        for k in 0..if long { env.r.range(2, 12) } else { deep } {
            d = d.join(if long { "long".repeat(env.r.range(20, 60)) } else { (if k % 7 == 3 { "d.elm" } else { "d" }).to_string() });
        }
        if std::fs::create_dir_all(full_top.join(&d)).is_ok() {
            dirs.push(d.clone());
            dirs.push(d);
        }
    }
    let crowd = env.r.pct(2);
    let many = if crowd { env.r.range(250, 1100) } else if env.r.pct(10) { env.r.range(30, 150) } else { env.r.range(0, 14) };
    // all of them in one folder
    let one = if env.r.pct(20) { Some(env.r.pick(&dirs).clone()) } else { None };
    for k in 0..many {
        let at = match one {
            Some(ref d) => d.clone(),
            None => env.r.pick(&dirs).clone(),
        };
        let mut p = at.join(elm_name(env, s));
        if full_top.join(&p).exists() {
            p = at.join(format!("N{}.elm", s.name()));
        }
        let text: Vec<u8> = if crowd {
            env.r.pick(&["f = 1\n", "f = (\n", "", "type A = B\n", "-- a\n"]).to_string().into_bytes()
        } else if env.r.pct(6) {
            let t = file_text(env);
            spoilt(env, &t)
        } else if (k > 10 || env.r.pct(6)) && !texts.is_empty() {
            env.r.pick(texts).clone().into_bytes()
        } else if env.r.pct(4) {
            vec![]
        } else {
            let t = file_text(env);
            texts.push(t.clone());
            t.into_bytes()
        };
        if std::fs::write(full_top.join(&p), &text).is_err() {
            continue;
        }
        let mut readable = true;
        let model = plan.files.iter().rev().find(|f| f.2).map(|f| (f.0.clone(), f.1.clone()));
        if let (Some(m), true) = (model, env.r.pct(4)) {
            // the same file under a second name
            let _ = std::fs::remove_file(full_top.join(&p));
            if std::fs::hard_link(full_top.join(&m.0), full_top.join(&p)).is_ok() {
                plan.depth = plan.depth.max(p.components().count());
                plan.files.push((p, m.1, true));
            }
            continue;
        }
        if env.r.pct(6) && is_root() {
            let _ = std::fs::set_permissions(full_top.join(&p), std::fs::Permissions::from_mode(0));
            readable = false;
        }
        plan.depth = plan.depth.max(p.components().count());
        plan.files.push((p, text, readable));
    }
    let n = env.r.range(0, 6);
    for _ in 0..n {
        let at = env.r.pick(&dirs).clone();
        let p = at.join(env.r.pick(OTHERS));
        if !full_top.join(&p).exists() {
            let text = if env.r.pct(40) { env.r.pick(&["*", "*.elm\n", "/\n", "{}", "{ \"source-directories\": [ \".\" ] }\n", "**\n!keep\n"]).to_string() } else { file_text(env) };
            if std::fs::write(full_top.join(&p), text).is_ok() {
                plan.others += 1;
            }
        }
    }
    // what has the name of a file and is none
    if env.r.pct(15) {
        for _ in 0..env.r.range(1, 2) {
            let at = env.r.pick(&dirs).clone();
            let p = full_top.join(at.join(format!("pipe{}.elm", s.name())));
            let made = if env.r.pct(70) {
                fifo(&p)
            } else {
                std::os::unix::net::UnixListener::bind(&p).is_ok()
            };
            if made {
                plan.pipes += 1;
            }
        }
    }
    // links: to files and folders, to nothing, in circles
    let n = env.r.below(3);
    for _ in 0..n {
        let at = env.r.pick(&dirs).clone();
        let p = at.join(format!("l{}.elm", s.name()));
        let to: PathBuf = match env.r.below(4) {
            0 => PathBuf::from("nowhere"),
            1 => full_top.clone(),
            2 => PathBuf::from("."),
            _ => match plan.files.first() {
                Some(f) => full_top.join(&f.0),
                None => PathBuf::from("gone.elm"),
            },
        };
        if symlink(&to, full_top.join(&p)).is_ok() {
            plan.maybe.push(p);
        }
    }
    // a folder that cannot be entered
    s.hand_over();
    if is_root() && env.r.pct(25) {
        let p = PathBuf::from(format!("closed{}", s.name()));
        let f = full_top.join(&p);
        if std::fs::create_dir(&f).is_ok() {
            let _ = std::fs::write(f.join("In.elm"), "f = 1\n");
            let _ = std::os::unix::fs::chown(&f, Some(NOBODY), Some(NOBODY));
            let _ = std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0));
            plan.maybe.push(p.clone());
            plan.maybe.push(p.join("In.elm"));
        }
    }
    plan
}

/// Pieces of the output: lines begin with the debug form of a path.
fn strip_path<'a>(o: &'a str, shown: &str) -> Option<&'a str> {
    o.strip_prefix(shown)
}

pub fn c20_folders(env: &mut Env, _: u64) {
    let mut s = match Scratch::new(env) {
        Ok(s) => s,
        Err(e) => return env.inconclusive(&format!("no scratch folder: {}", e)),
    };
    s.hand_over();
    let t = s.tool(env, "elm-parser-dump");
    let words = match verdicts(env, &s, &t) {
        Some(w) => w,
        None => return,
    };
    let mut texts = vec![];
    let top = PathBuf::from(*env.r.pick(&["top", "my project", "x.elm", ".dot", "é", "a/b/c"]));
    let plan = build_tree(env, &mut s, &top, &mut texts);
    let arg: PathBuf = match env.r.below(4) {
        0 => s.root.join(&top),
        1 => Path::new(".").join(&top),
        2 => PathBuf::from(format!("{}/", top.display())),
        _ => top.clone(),
    };
    let mut listing = format!("folder {:?}\n", arg);
    for f in &plan.files {
        listing.push_str(&format!("  {:?}{}{}\n", f.0, if f.2 { "" } else { " (unreadable)" }, if std::str::from_utf8(&f.1).is_ok() { "" } else { " (not UTF-8)" }));
    }
    for f in &plan.maybe {
        listing.push_str(&format!("  {:?} (link or closed)\n", f));
    }
    if plan.pipes > 0 {
        listing.push_str(&format!("  and {} named pipes or sockets, pipe*.elm\n", plan.pipes));
        env.count("named pipes and sockets under folders", plan.pipes as u64);
    }
    env.nontrivial(&listing);
    env.sample(&listing);
    env.count("elm files under folders", plan.files.len() as u64);
    env.count("other files under folders", plan.others as u64);
    env.max("depth of a file", plan.depth as u64);

    // what each file is to be reported as
    let mut wants: Vec<Option<(bool, dbg::Node)>> = vec![];
    for f in &plan.files {
        match std::str::from_utf8(&f.1) {
            Ok(x) if f.2 => match expected(env, x) {
                Some(w) => wants.push(Some(w)),
                None => return,
            },
            _ => {
                env.count("unreadable files under folders", 1);
                wants.push(None)
            }
        }
    }

    // quiet: a line for every file
    let args = [os("-q"), arg.clone().into_os_string()];
    let r = match t.run(&args) {
        Ok(r) if !r.timed_out => {
            env.evaluated();
            env.count("runs of a tool", 1);
            r
        }
        // waiting for what a pipe never says, or only slow?
        first => match (first.is_ok() && plan.pipes > 0, ran(env, &t, &args)) {
            (_, Some(r)) => r,
            (true, None) => {
                env.violate("the tool does not come to an end on a folder with a named pipe or a socket in it", &listing, "a report on every file", "no end");
                return;
            }
            _ => return,
        },
    };
    let o = r.text();
    if r.signal.is_some() || r.code != Some(0) {
        env.violate(&format!("the tool ended with {} on a folder", r.ended()), &listing, "a report on every file", &cut(&format!("{}\n{}", o, String::from_utf8_lossy(&r.stderr))));
        return;
    }
    let mut seen: BTreeMap<PathBuf, usize> = BTreeMap::new();
    let known: Vec<(String, usize)> = plan.files.iter().enumerate().map(|(i, f)| (format!("{:?}", arg.join(&f.0)), i)).collect();
    for line in o.lines() {
        let mut ok = false;
        for (shown, i) in &known {
            if let Some(rest) = strip_path(line, shown) {
                *seen.entry(plan.files[*i].0.clone()).or_insert(0) += 1;
                match &wants[*i] {
                    Some(w) => {
                        let word = if w.0 { &words.0 } else { &words.1 };
                        if rest != word {
                            let source = String::from_utf8_lossy(&plan.files[*i].1).to_string();
                            env.violate(&format!("the verdict on a file under a folder is not its own\n{}", listing), &source, word, line);
                            return;
                        }
                    }
                    None => {
                        if rest == words.0 || rest == words.1 {
                            env.violate("a verdict on a file that cannot be read", &listing, "no verdict", line);
                            return;
                        }
                    }
                }
                ok = true;
                break;
            }
        }
        if !ok {
            let verdict = line.ends_with(&words.0) || line.ends_with(&words.1);
            let allowed = plan.maybe.iter().any(|m| line.contains(&format!("{:?}", arg.join(m))) || m.to_str().map(|x| line.contains(x)).unwrap_or(false));
            if verdict && !allowed {
                env.violate("a report on something that is no elm file under the folder", &listing, "reports on the elm files only", line);
                return;
            }
            if verdict {
                env.count("links reported on", 1);
            }
        }
    }
    for (i, f) in plan.files.iter().enumerate() {
        let n = seen.get(&f.0).cloned().unwrap_or(0);
        env.count("files looked for in the report", 1);
        if (wants[i].is_some() && n != 1) || n > 1 {
            env.violate(&format!("a file under a folder is reported on {} times: {:?}", n, f.0), &listing, "once", &cut(&o));
            return;
        }
    }

    // in full: the results of the files, one after the other, in any order
    if env.r.pct(60) {
        let r = match ran(env, &t, &[arg.clone().into_os_string()]) {
            Some(r) => r,
            None => return,
        };
        let o = r.text();
        if r.signal.is_some() || r.code != Some(0) {
            env.violate(&format!("the tool ended with {} on a folder", r.ended()), &listing, "a report on every file", &cut(&format!("{}\n{}", o, String::from_utf8_lossy(&r.stderr))));
            return;
        }
        let mut left: Vec<&dbg::Node> = wants.iter().flatten().map(|w| &w.1).collect();
        let mut rest = &o[..];
        let mut read = 0;
        loop {
            rest = rest.trim_start();
            if rest.is_empty() {
                break;
            }
            match dbg::read_some(rest) {
                Ok((n, used)) if matches!(n, dbg::Node::List(_)) || rest.starts_with("Error(") || rest.starts_with("Failure(") => {
                    rest = &rest[used..];
                    read += 1;
                    match left.iter().position(|w| **w == n) {
                        Some(k) => {
                            left.swap_remove(k);
                        }
                        None if !plan.maybe.is_empty() => {}
                        None => {
                            env.violate("the full report on a folder holds a result that is none of its files'", &listing, "the results of the files", &cut(&format!("{:?}", n)));
                            return;
                        }
                    }
                }
                _ => {
                    // a line about something that could not be read
                    let end = rest.find('\n').map(|k| k + 1).unwrap_or(rest.len());
                    let troubled = !plan.maybe.is_empty() || plan.pipes > 0 || wants.iter().any(|w| w.is_none());
                    if !troubled {
                        env.violate("the full report on a folder holds more than results", &listing, "results", &cut(rest));
                        return;
                    }
                    rest = &rest[end..];
                }
            }
        }
        env.count("results read from full reports", read);
        if !left.is_empty() {
            env.violate("the full report on a folder lacks the result of a file", &listing, &cut(&format!("{:?}", left[0])), &cut(&o));
        }
    }
}

// C21

fn imported(m: &[Statement]) -> Vec<String> {
    let mut v = vec![];
    for s in m {
        if let Statement::ImportStatement(_, _, Some(ExportSet::SubsetExport(l))) = s {
            for e in l {
                if let ExportSet::FunctionExport(n) = e {
                    v.push(n.clone());
                }
            }
        }
    }
    v
}

fn imports_module(env: &mut Env) -> Vec<Statement> {
    let cfg = Cfg { depth: 2, width: env.r.range(1, 6), fuel: 6, tricky: 30, wild_literals: false, ..Cfg::default() };
    let mut g = Gen::new(&mut env.r, cfg);
    let mut m = vec![];
    if g.r.pct(70) {
        m.push(g.header());
    }
    let n = g.r.range(0, 8);
    for _ in 0..n {
        let s = g.import();
        m.push(s);
        if g.r.pct(15) {
            let c = g.comment();
            m.push(c);
        }
        if g.r.pct(25) {
            // the same names again
            let again = m.iter().rev().find(|s| matches!(s, Statement::ImportStatement(..))).cloned();
            if let Some(Statement::ImportStatement(_, _, e)) = again {
                let q = g.qualified();
                m.push(Statement::ImportStatement(q, None, e));
            }
        }
    }
    let n = g.r.range(0, 4);
    for _ in 0..n {
        g.fuel = 6;
        let s = g.statement(2);
        m.push(s);
    }
    if g.r.pct(20) {
        // imports further down are imports too
        let s = g.import();
        m.push(s);
    }
    if m.is_empty() {
        let s = g.import();
        m.push(s);
    }
    m
}

pub fn c21_lists(env: &mut Env, _: u64) {
    let mut s = match Scratch::new(env) {
        Ok(s) => s,
        Err(e) => return env.inconclusive(&format!("no scratch folder: {}", e)),
    };
    for _ in 0..4 {
        let m = imports_module(env);
        let p = spell(env, &m);
        let mut text = p.out.clone();
        if env.r.pct(25) {
            let c = env.r.below(MALFORMED_CLASSES);
            if let Some(t) = malformed(&p, c, &mut env.r) {
                text = t.0;
            }
        } else if env.r.pct(20) {
            text = mutate(&text, "import A exposing (b, (+), C(..), D(E, F))\n", &mut env.r);
        }
        let o = match env.outcome(&text) {
            Some(o) => o,
            None => return,
        };
        let (good, node) = match dbg::shown(&o) {
            Ok(x) => x,
            Err(e) => return env.inconclusive(&e),
        };
        let want = if good {
            let tree = match dbg::outcome(&o) {
                Ok(dbg::Out::Accepted(v)) => v,
                _ => return,
            };
            // what was spelled, if it was not tampered with
            let v = if text == p.out { imported(&m) } else { imported(&tree) };
            env.count("names imported", v.len() as u64);
            env.count(if text == p.out { "files that parse" } else { "files that still parse" }, 1);
            dbg::Node::List(v.into_iter().map(dbg::Node::Str).collect())
        } else {
            if text == p.out {
                env.violate("a well-formed module was rejected", &text, &accepted(&m), &o);
                return;
            }
            env.count("files that do not parse", 1);
            node
        };
        let k = s.name();
        let path = s.root.join(format!("I{}.elm", k));
        if std::fs::write(&path, &text).is_err() {
            continue;
        }
        s.hand_over();
        env.nontrivial(&text);
        env.sample(&text);
        let t = s.tool(env, "elm-parser-check");
        if let Some(r) = ran(env, &t, &[path.into_os_string()]) {
            check_full(env, &text, "elm-parser-check", &r, &(good, want));
        }
    }
}

// C22

pub fn c22_reads(env: &mut Env, case: u64) {
    let mut s = match Scratch::new(env) {
        Ok(s) => s,
        Err(e) => return env.inconclusive(&format!("no scratch folder: {}", e)),
    };
    let mut texts = vec![];
    let top = PathBuf::from("top");
    let plan = build_tree(env, &mut s, &top, &mut texts);
    let text = file_text(env);
    let _ = std::fs::write(s.root.join("One.elm"), &text);
    let _ = std::fs::write(s.root.join("home").join("Else.elm"), &text);
    let _ = std::fs::write(s.root.join("Bytes.elm"), b"f = \"\xff\"\n");
    let v = spoilt(env, &text);
    let _ = std::fs::write(s.root.join("Bytes2.elm"), &v);
    let _ = std::fs::write(s.root.join("Closed.elm"), "f = 1\n");
    let _ = symlink("nowhere", s.root.join("Dangling.elm"));
    let _ = symlink("Loop.elm", s.root.join("Loop.elm"));
    s.hand_over();
    let _ = std::fs::set_permissions(s.root.join("Closed.elm"), std::fs::Permissions::from_mode(0));
    let one = os("One.elm");
    let mut opens: Vec<(&str, Vec<OsString>, bool)> = vec![
        ("elm-parser-dump", vec![one.clone()], true),
        ("elm-parser-dump", vec![os("-q"), one.clone()], true),
        ("elm-parser-dump", vec![os("top")], true),
        ("elm-parser-dump", vec![os("top"), os("--quiet")], true),
        ("elm-parser-dump", vec![os(".")], true),
        ("elm-parser-check", vec![one.clone()], true),
        ("elm-parser-dump", vec![], true),
        ("elm-parser-dump", vec![os("--help")], true),
        ("elm-parser-dump", vec![os("--version")], true),
        ("elm-parser-dump", vec![os("--nonsense"), one.clone()], true),
        ("elm-parser-check", vec![], true),
    ];
    for p in ["None.elm", "no/where/None.elm", "One.elm/x", "Dangling.elm", "Loop.elm", "Bytes.elm", "Bytes2.elm", "", "top/none.elm", "None",
        // much like a file that is there
        "One", "One.el", "One.elm ", " One.elm", "One.elm.", "one.elm", "ONE.ELM", "One.Elm", "One.elm/", "One.elm/.", "One.elm\n", "\"One.elm\"", "'One.elm'", "~/Else.elm", "Else.elm", "Else", "file:One.elm", "file://One.elm", "One.*",
        "*.elm", "On?.elm", "One.elm:1", "One.elm,Bytes.elm", "$HOME/Else.elm", "-", "/One.elm", "../One.elm", "One\\.elm", "One..elm", "One.elm.elm", "@One.elm", "./one.elm", "top/One.elm", "tops", "to"] {
        for (tool, quiet) in [("elm-parser-dump", false), ("elm-parser-dump", true), ("elm-parser-check", false)] {
            let mut a = vec![];
            if quiet {
                a.push(os("-q"));
            }
            a.push(os(p));
            opens.push((tool, a, false));
        }
    }
    if is_root() {
        opens.push(("elm-parser-dump", vec![os("Closed.elm")], false));
        opens.push(("elm-parser-check", vec![os("Closed.elm")], false));
    }
    let k = opens.len();
    let take = 8;
    let words = {
        let t = s.tool(env, "elm-parser-dump");
        match verdicts(env, &s, &t) {
            Some(w) => w,
            None => return,
        }
    };
    for j in 0..take {
        let (tool, args, can) = opens[(case as usize * take + j) % k].clone();
        let t = s.tool(env, tool);
        let how = format!("{} {:?}", tool, args);
        let listing = format!("{}\nOne.elm:\n{}\nfiles under top: {:?}", how, text, plan.files.iter().map(|f| &f.0).collect::<Vec<_>>());
        let before = snapshot(&s.root);
        let a = match ran(env, &t, &args) {
            Some(r) => r,
            None => return,
        };
        let after = snapshot(&s.root);
        env.count("files watched", before.len() as u64);
        env.nontrivial(&format!("{} {}", how, hash(&text)));
        if a.signal == Some(SIGSYS) {
            env.violate("the tool asked the system for a change to files", &listing, "only reading", &a.ended());
            return;
        }
        if let Some(d) = difference(&before, &after) {
            env.violate(&format!("the tool changed files: {}", d), &listing, "no change", &d);
            return;
        }
        if j % 2 == 0 {
            // elsewhere in time and surroundings, the same
            let mut t2 = t.clone();
            if env.r.pct(50) {
                t2.env = vec![("LANG".to_string(), "tr_TR.UTF-8".to_string()), ("LC_ALL".to_string(), "C".to_string()), ("RUST_BACKTRACE".to_string(), "0".to_string()), ("QUIET".to_string(), "1".to_string())];
            }
            let b = match ran(env, &t2, &args) {
                Some(r) => r,
                None => return,
            };
            env.count("runs compared", 1);
            if a.stdout != b.stdout || a.code != b.code || a.signal != b.signal {
                env.violate("a second run on the same files gave another output", &listing, &cut(&format!("{} {}", a.ended(), a.text())), &cut(&format!("{} {}", b.ended(), b.text())));
                return;
            }
        }
        env.sample(&listing);
        if can {
            continue;
        }
        env.count("paths that cannot be opened", 1);
        let o = a.text();
        let verdict = o.contains(words.0.trim()) || o.contains(words.1.trim());
        let result = matches!(dbg::read_some(o.trim_start()), Ok((n, _)) if matches!(n, dbg::Node::List(_)) || o.trim_start().starts_with("Error("));
        if a.code == Some(0) || a.code.is_none() || verdict || result {
            env.violate("the tool does not fail on what it cannot open or read", &listing, "a failure status and no tree, list or verdict", &cut(&format!("{}\n{}", a.ended(), o)));
            return;
        }
    }
}

// C01, in the tools

/// Many texts in one run over a folder, in the debug build.
pub fn c01_tools(env: &mut Env, case: u64) {
    let mut s = match Scratch::new(env) {
        Ok(s) => s,
        Err(e) => return env.inconclusive(&format!("no scratch folder: {}", e)),
    };
    let _ = std::fs::create_dir_all(s.root.join("top"));
    let mut texts = vec![];
    for k in 0..60 {
        let t = match k % 4 {
            0 => file_text(env),
            1 => odd_text(env, case + k),
            2 => {
                let m = sized_module(env, 2, 4, 20);
                let mut t = spell(env, &m).out;
                let n = env.r.range(1, 5);
                for _ in 0..n {
                    t = mutate(&t, "f = { a | b = 1 }\n", &mut env.r);
                }
                t
            }
            _ => {
                let n = env.r.range(20, 120);
                nested_text(env, (case * 60 + k) as usize, n)
            }
        };
        let p = s.root.join("top").join(format!("T{}.elm", s.name()));
        let _ = std::fs::write(&p, &t);
        env.nontrivial(&t);
        texts.push((p, t));
    }
    s.hand_over();
    let t = s.tool(env, "elm-parser-dump");
    let quiet = env.r.pct(50);
    let mut args = vec![os("top")];
    if quiet {
        args.insert(0, os("-q"));
    }
    let r = match ran(env, &t, &args) {
        Some(r) => r,
        None => return,
    };
    env.count("texts given to the tools", texts.len() as u64);
    if r.code == Some(0) && (!quiet || r.text().lines().count() == texts.len()) {
        return;
    }
    // which one was it?
    for (p, x) in &texts {
        let mut a = vec![p.clone().into_os_string()];
        if quiet {
            a.push(os("-q"));
        }
        if let Some(r) = ran(env, &t, &a) {
            if r.code != Some(0) {
                env.violate(&format!("elm-parser-dump ended with {}", r.ended()), x, "a tree or an error", &cut(&String::from_utf8_lossy(&r.stderr)));
                return;
            }
        }
    }
    env.violate(&format!("elm-parser-dump ended with {} on a folder of texts, each of which it reads alone", r.ended()), &cut(&texts.iter().map(|t| t.1.clone()).collect::<Vec<_>>().join("\n=====\n")), "a report on each", &cut(&String::from_utf8_lossy(&r.stderr)));
}

/// The inputs of the known findings.
pub fn c01_known_all(env: &mut Env, case: u64) {
    if case > 0 {
        return;
    }
    for k in known_findings(&env.shared.verif, "C01") {
        let text = match probe(&k.input) {
            Some(t) => t,
            None => return env.inconclusive(&format!("unknown input in the known findings: {}", k.input)),
        };
        let s = match Scratch::new(env) {
            Ok(s) => s,
            Err(e) => return env.inconclusive(&format!("no scratch folder: {}", e)),
        };
        let p = s.root.join("Known.elm");
        let _ = std::fs::write(&p, &text);
        s.hand_over();
        let t = s.tool(env, "elm-parser-dump");
        if let Some(r) = ran(env, &t, &[os("-q"), p.into_os_string()]) {
            env.count("inputs of known findings", 1);
            if r.code != Some(0) {
                env.known_finding(&format!("{}: {} ({})", k.input, k.what, r.ended()));
            }
        }
    }
}

/// `part * n`: a text of n parts, as named in the known-findings file.
pub fn probe(name: &str) -> Option<String> {
    let (kind, n) = name.rsplit_once(' ')?;
    let n: usize = n.parse().ok()?;
    Some(match kind {
        "nested lists" => format!("f = {}{}\n", "[".repeat(n), "]".repeat(n)),
        "nested parentheses" => format!("f = {}a{}\n", "(".repeat(n), ")".repeat(n)),
        "operators in a chain" => format!("f = a{}\n", " + a".repeat(n)),
        "unclosed lists" => format!("f = {}\n", "[".repeat(n)),
        _ => return None,
    })
}

// C18, in processes of its own

/// A process of its own parses the texts while it cannot talk to the system, and in other
/// surroundings than this one.
pub fn c18_sealed(env: &mut Env, _: u64) {
    let s = match Scratch::new(env) {
        Ok(s) => s,
        Err(e) => return env.inconclusive(&format!("no scratch folder: {}", e)),
    };
    let mut texts = vec![];
    let mut wants = vec![];
    for _ in 0..40 {
        let t = file_text(env);
        let o = match env.outcome(&t) {
            Some(o) => o,
            None => return,
        };
        env.nontrivial(&t);
        wants.push(hash(&o[..]));
        texts.push(t);
    }
    let file = s.root.join("texts");
    if write_texts(&file, &texts).is_err() {
        return;
    }
    let me = env.shared.me.clone();
    let odd = env.r.pct(50);
    s.hand_over();
    let mut t = s.tool(env, "none");
    t.bin = me;
    t.sealed = false;
    if odd {
        t.cwd = PathBuf::from("/");
        t.env = vec![("LANG".to_string(), "tr_TR.UTF-8".to_string()), ("TZ".to_string(), "Asia/Kathmandu".to_string()), ("ELM_PARSER".to_string(), "1".to_string())];
    }
    let r = match ran(env, &t, &[os("sealed"), file.into_os_string()]) {
        Some(r) => r,
        None => return,
    };
    let o = r.text();
    let mut lines = o.lines();
    let head = lines.next().unwrap_or("");
    if head == "unsealed" {
        env.count("processes that could not be sealed", 1);
    } else if head == "sealed" {
        env.count("sealed processes", 1);
    } else {
        env.inconclusive(&format!("the sealed process said {:?}, {}", cut(&o), r.ended()));
        return;
    }
    let mut n = 0;
    for l in lines {
        if r.code == Some(TRAPPED) && l.starts_with("call ") {
            break;
        }
        let mut w = l.split(' ');
        let (k, h) = (w.next().and_then(|x| x.parse::<usize>().ok()), w.next().and_then(|x| u64::from_str_radix(x, 16).ok()));
        match (k, h) {
            (Some(k), Some(h)) if k == n && k < texts.len() => {
                if wants[k] != h {
                    env.violate("parsing a text in another process gave another result", &texts[k], &format!("hash {:x}", wants[k]), &format!("hash {:x}", h));
                    return;
                }
                n += 1;
            }
            _ => {
                env.violate("parsing wrote to standard output", &texts.get(n).cloned().unwrap_or_default(), "nothing written", &cut(&o));
                return;
            }
        }
        env.count("texts parsed in other processes", 1);
    }
    if n < texts.len() {
        if r.code == Some(TRAPPED) {
            env.violate("parsing asked for something other than its text and memory", &texts[n], "no reading and no writing", &format!("system {}", o.lines().last().unwrap_or("")));
        } else {
            env.violate(&format!("parsing in another process ended with {}", r.ended()), &texts[n], "a tree or an error", &cut(&String::from_utf8_lossy(&r.stderr)));
        }
        return;
    }
    if !r.stderr.is_empty() {
        env.violate("parsing wrote to standard error", &texts[0], "nothing written", &cut(&String::from_utf8_lossy(&r.stderr)));
    }
}

/// `mon sealed FILE`
pub fn sealed(file: &str) {
    keep_memory();
    let texts = read_texts(file);
    on_big_stack(move || {
        // what is set up once is set up now
        let _ = elm_parser::verif::parse("module A exposing (..)\nf = \"a\" ++ 'b' ++ 1.5 -- c\n");
        let _ = hash("");
        let mut line = String::with_capacity(100);
        // starting a first thread looks up how large its stack shall be
        let _ = std::thread::spawn(|| ()).join();
        let ok = hide_surroundings() && seal(1);
        write_fd(if ok { "sealed\n" } else { "unsealed\n" });
        for (k, t) in texts.iter().enumerate() {
            let o = elm_parser::verif::parse(t);
            line.clear();
            line.push_str(&format!("{} {:x}\n", k, hash(&o[..])));
            write_fd(&line);
        }
        exit_now(0);
    });
}

fn read_texts(file: &str) -> Vec<String> {
    let b = std::fs::read(file).expect("texts");
    let mut texts = vec![];
    let mut i = 0;
    while i + 8 <= b.len() {
        let n = u64::from_le_bytes(b[i..i + 8].try_into().unwrap()) as usize;
        texts.push(String::from_utf8(b[i + 8..i + 8 + n].to_vec()).expect("text"));
        i += 8 + n;
    }
    texts
}

fn write_texts(file: &Path, texts: &[String]) -> std::io::Result<()> {
    let mut b = vec![];
    for t in texts {
        b.extend((t.len() as u64).to_le_bytes());
        b.extend(t.as_bytes());
    }
    std::fs::write(file, b)
}

/// `mon batch FILE THREADS`: parses the texts, each in all threads, and prints their hashes as
/// the first thread sees them. For builds with a sanitizer.
pub fn batch(file: &str, threads: usize) {
    let texts = std::sync::Arc::new(read_texts(file));
    let barrier = std::sync::Arc::new(std::sync::Barrier::new(threads));
    let hs: Vec<_> = (0..threads)
        .map(|k| {
            let (texts, barrier) = (texts.clone(), barrier.clone());
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn(move || {
                    barrier.wait();
                    let mut v = vec![];
                    for (i, t) in texts.iter().enumerate() {
                        if threads == 1 {
                            write_fd(&format!("{} ", i));
                        }
                        let o = std::panic::catch_unwind(|| elm_parser::verif::parse(t)).unwrap_or_else(|_| "panic".to_string());
                        let h = dbg::digest(&o);
                        if threads == 1 {
                            write_fd(&format!("{:x}\n", h));
                        }
                        v.push(h);
                        let _ = k;
                    }
                    v
                })
                .unwrap()
        })
        .collect();
    let all: Vec<Vec<u64>> = hs.into_iter().map(|h| h.join().unwrap()).collect();
    if threads > 1 {
        for i in 0..texts.len() {
            let same = all.iter().all(|v| v[i] == all[0][i]);
            write_fd(&format!("{} {}\n", i, if same { format!("{:x}", all[0][i]) } else { "differ".to_string() }));
        }
    }
}

/// Parses texts in a build with a sanitizer, which ends the process when it finds anything.
fn sanitized(env: &mut Env, bin: &Path, texts: &[String], threads: usize, what: &str) {
    let mut wants = vec![];
    for t in texts {
        match env.outcome(t) {
            Some(o) => wants.push(dbg::digest(&o)),
            None => return,
        }
        env.nontrivial(t);
    }
    let s = match Scratch::new(env) {
        Ok(s) => s,
        Err(e) => return env.inconclusive(&format!("no scratch folder: {}", e)),
    };
    let file = s.root.join("texts");
    if write_texts(&file, texts).is_err() {
        return;
    }
    s.hand_over();
    let mut t = s.tool(env, "none");
    t.bin = bin.to_path_buf();
    t.sealed = false;
    t.env.push(("ASAN_OPTIONS".to_string(), "detect_leaks=0:halt_on_error=1:exitcode=99:detect_stack_use_after_return=0".to_string()));
    t.env.push(("TSAN_OPTIONS".to_string(), "halt_on_error=1:exitcode=99".to_string()));
    let r = match ran(env, &t, &[os("batch"), file.into_os_string(), os(&threads.to_string())]) {
        Some(r) => r,
        None => return,
    };
    let o = r.text();
    let err = String::from_utf8_lossy(&r.stderr).to_string();
    let n = o.lines().filter(|l| l.split(' ').count() == 2 && !l.ends_with(' ')).count();
    let at = texts.get(n).cloned().unwrap_or_default();
    let all = if threads == 1 { at.clone() } else { texts.join("\n=====\n") };
    if err.contains("Sanitizer") && r.code == Some(99) {
        env.violate(&format!("{} reports a fault while parsing", what), &all, "no report", &cut(&err));
        return;
    }
    if r.code != Some(0) {
        if r.signal.is_some() {
            env.violate(&format!("parsing in a build with {} ended with {}", what, r.ended()), &all, "a tree or an error", &cut(&err));
        } else {
            env.inconclusive(&format!("the build with {} ended with {}: {}", what, r.ended(), cut(&err)));
        }
        return;
    }
    for (k, l) in o.lines().enumerate() {
        if k >= wants.len() || l != format!("{} {:x}", k, wants[k]) {
            env.violate(&format!("parsing in a build with {} gave another result", what), &texts[k.min(texts.len() - 1)], &format!("{:x}", wants.get(k).cloned().unwrap_or(0)), l);
            return;
        }
    }
    env.count(&format!("texts parsed with {}", what), n as u64 * threads as u64);
    env.count(&format!("processes with {}", what), 1);
}

pub fn c01_sanitized(env: &mut Env, case: u64) {
    let mut texts = vec![];
    for k in 0..80 {
        let t = match k % 4 {
            0 => file_text(env),
            1 | 2 => odd_text(env, case * 80 + k),
            _ => {
                let n = env.r.range(20, 60);
                nested_text(env, (case * 80 + k) as usize, n)
            }
        };
        texts.push(t);
    }
    let bin = env.shared.asan.clone();
    sanitized(env, &bin, &texts, 1, "AddressSanitizer");
}

pub fn c18_raced(env: &mut Env, _: u64) {
    let mut texts = vec![];
    for _ in 0..12 {
        let m = sized_module(env, 3, 3, 8);
        let mut t = spell(env, &m).out;
        if env.r.pct(30) {
            t = mutate(&t, "f = 1\n", &mut env.r);
        }
        texts.push(t);
    }
    let bin = env.shared.tsan.clone();
    sanitized(env, &bin, &texts, 8, "ThreadSanitizer");
}
