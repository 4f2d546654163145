//! Properties decided on texts rather than trees: what is accepted must be derivable, what is
//! damaged must be rejected, and errors must point to the right place.
use crate::dbg::{self, Out};
use crate::derive::D;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::mutate::*;
use crate::print::*;
use crate::props_tree::demand;
use crate::rng::Rng;

pub fn sized_module(env: &mut Env, most: usize, depth: usize, fuel: usize) -> Vec<Statement> {
    let d = env.r.range(1, depth);
    let cfg = Cfg { depth: d, width: env.r.range(1, 4), fuel, w: *env.r.pick(&[[3, 3, 3, 3, 3], [3, 2, 2, 2, 8], [3, 2, 2, 8, 2], [3, 4, 6, 2, 2]]), tricky: *env.r.pick(&[0, 10, 30]), wild_literals: env.r.pct(30) };
    let mut g = Gen::new(&mut env.r, cfg);
    let n = g.r.range(1, most);
    if g.r.pct(25) {
        return g.module(n, d);
    }
    (0..n)
        .map(|_| {
            g.fuel = fuel;
            g.statement(d)
        })
        .collect()
}

pub fn spell(env: &mut Env, m: &[Statement]) -> Printer {
    let st = Style::random(&mut env.r);
    print(m, Rng::new(env.r.next(), 79, 0), st)
}

/// What became of a text. A report that cannot be read is a violation.
pub fn outcome_of(env: &mut Env, src: &str) -> Option<Out> {
    let s = env.outcome(src)?;
    match dbg::outcome(&s) {
        Ok(o) => Some(o),
        Err(e) => {
            env.violate(&format!("the result is neither a complete tree nor a located error: {}", e), src, "Ok((\"\", tree)) or Err(Error(rest))", &s);
            None
        }
    }
}

/// If the text is accepted, its tree must be a reading of it.
fn derivable(env: &mut Env, src: &str, layout: bool) -> bool {
    match outcome_of(env, src) {
        Some(Out::Accepted(v)) => {
            let mut d = D::new(src, layout);
            let why = d.module(&v);
            env.count("derivation steps", d.steps as u64);
            env.count("declarations in accepted texts", v.len() as u64);
            if let Some(why) = why {
                env.violate(&why, src, "a tree that the text is a spelling of", &format!("{:?}", v));
            }
            true
        }
        Some(Out::Rejected(..)) => {
            env.count("rejected", 1);
            false
        }
        None => false,
    }
}

// C03

pub fn c03_printed(env: &mut Env, _: u64) {
    let m = sized_module(env, 4, 5, 40);
    let p = spell(env, &m);
    if derivable(env, &p.out, false) {
        env.nontrivial(&p.out);
        env.count("accepted", 1);
    } else {
        env.violate("a well-formed module was rejected", &p.out, &accepted(&m), "an error");
    }
    env.sample(&p.out);
}

pub fn c03_mutated(env: &mut Env, _: u64) {
    let m = sized_module(env, 3, 4, 15);
    let p = spell(env, &m);
    let m2 = sized_module(env, 1, 3, 10);
    let other = spell(env, &m2).out;
    for _ in 0..8 {
        let n = *env.r.pick(&[1, 1, 1, 2, 3]);
        let mut t = p.out.clone();
        for _ in 0..n {
            t = mutate(&t, &other, &mut env.r);
        }
        if derivable(env, &t, false) {
            env.count("accepted", 1);
            env.nontrivial(&t);
            env.sample(&t);
        }
    }
}

pub fn c03_soup(env: &mut Env, _: u64) {
    for _ in 0..8 {
        let mut t = if env.r.pct(50) { soup(&mut env.r) } else { near_sentence(&mut env.r) };
        if env.r.pct(25) {
            let other = near_sentence(&mut env.r);
            t = mutate(&t, &other, &mut env.r);
        }
        if derivable(env, &t, false) {
            env.count("accepted", 1);
            env.nontrivial(&t);
            env.sample(&t);
        }
    }
}

// C07

fn line_start(s: &str, i: usize) -> usize {
    s[..i].rfind('\n').map(|k| k + 1).unwrap_or(0)
}

fn block_heavy(env: &mut Env, fuel: usize) -> Vec<Statement> {
    let d = env.r.range(2, 5);
    let cfg = Cfg { depth: d, width: env.r.range(2, 4), fuel, w: [2, 1, 1, 1, 9], tricky: 10, wild_literals: false };
    let mut g = Gen::new(&mut env.r, cfg);
    let n = if g.r.pct(60) { 1 } else { g.r.range(2, 3) };
    (0..n)
        .map(|_| {
            g.fuel = fuel;
            let e = g.block(d);
            let name = g.lower();
            function(&name, vec![], e)
        })
        .collect()
}

pub fn c07_moved(env: &mut Env, _: u64) {
    let fuel = *env.r.pick(&[6, 8, 12, 12, 20]);
    let m = block_heavy(env, fuel);
    let st = Style { nl: *env.r.pick(&[0, 10, 30]), ..Style::random(&mut env.r) };
    let p = print(&m, Rng::new(env.r.next(), 79, 0), st);
    // the text as it is
    match env.outcome(&p.out) {
        Some(o) if o == accepted(&m) => env.count("well-placed texts", 1),
        Some(o) => {
            env.violate("a well-placed text was not read as its layout says", &p.out, &accepted(&m), &o);
            return;
        }
        None => return,
    }
    let movable: Vec<Line> = p.lines.iter().filter(|l| l.of > 1).cloned().collect();
    if movable.is_empty() {
        return;
    }
    for _ in 0..6 {
        let l = *env.r.pick(&movable);
        let mut taken: Vec<usize> = p.lines.iter().filter(|x| x.st == l.st).map(|x| x.col).collect();
        taken.extend(p.inline_cols.iter().filter(|x| x.0 == l.st).map(|x| x.1));
        let mut free: Vec<usize> = (1..l.col + 9).filter(|c| !taken.contains(c)).collect();
        if env.r.pct(5) {
            // as far off as a column that is kept in one byte, or two, would not tell
            let far = *env.r.pick(&[128, 256, 256, 256, 512, 1024, 65536]);
            free = [l.col + far, l.col.wrapping_sub(far)].iter().cloned().filter(|c| *c > 0 && *c < 70000 && !taken.contains(c)).collect();
        }
        if free.is_empty() {
            continue;
        }
        let near: Vec<usize> = free.iter().cloned().filter(|c| (*c as i64 - l.col as i64).abs() <= 2).collect();
        let c = if !near.is_empty() && env.r.pct(60) { *env.r.pick(&near) } else { *env.r.pick(&free) };
        let ls = line_start(&p.out, l.start);
        let region = &p.out[l.start..l.end];
        // no line of it must come to stand where lines of a block are
        let outside: Vec<usize> = p.lines.iter().filter(|x| x.st == l.st && !(x.start > l.start && x.start < l.end)).map(|x| x.col).collect();
        let mut whole = env.r.pct(50) && !region.contains('"') && !region.contains("{-");
        let mut clear_whole = true;
        let mut clear_first = true;
        let mut at = l.start;
        for (i, line) in region.split('\n').enumerate() {
            let ind = line.len() - line.trim_start_matches(' ').len();
            if i > 0 && line.len() > ind {
                let col = ind + c;
                clear_whole &= col >= l.col && !outside.contains(&(col - l.col));
                let of_block = p.lines.iter().any(|x| x.start == at + ind);
                clear_first &= of_block || !taken.contains(&ind);
            }
            at += line.len() + 1;
        }
        if whole && !clear_whole {
            whole = false;
        }
        if !whole && !clear_first {
            continue;
        }
        let mut t = String::new();
        t.push_str(&p.out[..ls]);
        t.push_str(&" ".repeat(c));
        if whole {
            let delta = c as i64 - l.col as i64;
            for (i, line) in region.split('\n').enumerate() {
                if i == 0 {
                    t.push_str(line);
                } else {
                    t.push('\n');
                    let ind = line.len() - line.trim_start_matches(' ').len();
                    t.push_str(&" ".repeat((ind as i64 + delta).max(0) as usize));
                    t.push_str(&line[ind..]);
                }
            }
            env.count("entries and branches moved as a whole", 1);
        } else {
            t.push_str(region);
            env.count("first lines moved", 1);
        }
        t.push_str(&p.out[l.end..]);
        if c > l.col {
            env.count("moved right", 1);
        } else {
            env.count("moved left", 1);
        }
        env.count(if l.is_case { "branches moved" } else { "let entries moved" }, 1);
        env.nontrivial(&t);
        env.sample(&t);
        match outcome_of(env, &t) {
            Some(Out::Accepted(v)) => env.violate(
                &format!(
                    "a {} moved from column {} to column {} was accepted",
                    if l.is_case { "case branch" } else { "let entry" },
                    l.col,
                    c
                ),
                &t,
                &format!("an error; well placed:\n{}", p.out),
                &format!("{:?}", v),
            ),
            _ => {}
        }
    }
}

/// Operators and arrows that stand left of what they would continue.
pub fn c06_extents(env: &mut Env, _: u64) {
    let d = env.r.range(2, 5);
    let cfg = Cfg { depth: d, width: env.r.range(2, 3), fuel: 14, w: [2, 1, 6, 1, 7], tricky: 10, wild_literals: false };
    let m = {
        let mut g = Gen::new(&mut env.r, cfg);
        let e = g.block(d);
        let name = g.lower();
        vec![function(&name, vec![], e)]
    };
    let st = Style { nl: *env.r.pick(&[30, 50, 80]), ..Style::random(&mut env.r) };
    let p = print(&m, Rng::new(env.r.next(), 83, 0), st);
    let heads: Vec<(usize, usize, usize)> = p.heads.iter().filter(|h| h.1 > 0).cloned().collect();
    if heads.is_empty() {
        return;
    }
    match env.outcome(&p.out) {
        Some(o) if o == accepted(&m) => env.count("well-placed texts", 1),
        Some(o) => {
            env.violate("a well-placed text was not read as its layout says", &p.out, &accepted(&m), &o);
            return;
        }
        None => return,
    }
    for _ in 0..4 {
        let (at, min, _) = *env.r.pick(&heads);
        let c = match env.r.below(3) {
            0 => min - 1,
            1 => min - env.r.range(1, min.min(4)),
            _ => env.r.below(min),
        };
        let ls = line_start(&p.out, at);
        let t = format!("{}{}{}", &p.out[..ls], " ".repeat(c), &p.out[at..]);
        env.count("operators and arrows moved left", 1);
        env.nontrivial(&t);
        env.sample(&t);
        match outcome_of(env, &t) {
            Some(Out::Accepted(v)) => env.violate(&format!("an operator or arrow at column {}, left of column {} where what it continues stands, was accepted", c, min), &t, &format!("an error; well placed:\n{}", p.out), &format!("{:?}", v)),
            _ => {}
        }
    }
}

/// Definitions in another column than their signature.
pub fn c07_signatures(env: &mut Env, _: u64) {
    let d = env.r.range(2, 4);
    let cfg = Cfg { depth: d, width: env.r.range(2, 4), fuel: 12, w: [2, 1, 1, 1, 9], tricky: 10, wild_literals: false };
    let m = {
        let mut g = Gen::new(&mut env.r, cfg);
        (0..2)
            .map(|_| {
                g.fuel = 12;
                if g.r.pct(50) {
                    let e = g.block(d);
                    let name = g.lower();
                    function(&name, vec![], e)
                } else {
                    Statement::Function(g.function(d, true))
                }
            })
            .collect::<Vec<_>>()
    };
    let p = spell(env, &m);
    for _ in 0..4 {
        if p.defs.is_empty() {
            return;
        }
        let l = *env.r.pick(&p.defs);
        let mut taken: Vec<usize> = p.lines.iter().filter(|x| x.st == l.st).map(|x| x.col).collect();
        taken.extend(p.inline_cols.iter().filter(|x| x.0 == l.st).map(|x| x.1));
        taken.push(l.col);
        let c = match env.r.below(4) {
            0 => l.col + 1,
            1 => l.col.saturating_sub(1),
            2 => l.col + *env.r.pick(&[2, 3, 4, 8, 128, 256, 512]),
            _ => env.r.range(0, l.col + 4),
        };
        if taken.contains(&c) || (c == 0 && l.col > 0) {
            continue;
        }
        let ls = line_start(&p.out, l.start);
        let t = format!("{}{}{}", &p.out[..ls], " ".repeat(c), &p.out[l.start..]);
        env.count(if l.col == 0 { "definitions moved at top level" } else { "definitions moved in a let" }, 1);
        env.nontrivial(&t);
        env.sample(&t);
        match outcome_of(env, &t) {
            Some(Out::Accepted(v)) => env.violate(&format!("a definition moved from column {} of its signature to column {} was accepted", l.col, c), &t, &format!("an error; well placed:\n{}", p.out), &format!("{:?}", v)),
            _ => {}
        }
    }
}

/// Whatever is accepted after lines have been moved about must have its blocks aligned.
pub fn c07_aligned(env: &mut Env, _: u64) {
    let m = block_heavy(env, 15);
    let p = spell(env, &m);
    for _ in 0..8 {
        let mut t = p.out.clone();
        let k = env.r.range(1, 3);
        for _ in 0..k {
            t = reindent_some(&t, &mut env.r);
        }
        if derivable(env, &t, true) {
            env.count("accepted", 1);
            env.nontrivial(&t);
            env.sample(&t);
        }
    }
}

// C15

/// Deletes, inserts or replaces tokens so that the text is certainly malformed.
pub fn malformed(p: &Printer, class: usize, r: &mut Rng) -> Option<(String, &'static str)> {
    let s = &p.out;
    let code: Vec<usize> = (0..p.toks.len()).filter(|&i| !matches!(p.toks[i].k, K::Comment | K::BlockComment | K::Inner)).collect();
    if code.is_empty() {
        return None;
    }
    let txt = |i: usize| &s[p.toks[i].start..p.toks[i].end];
    let put = |i: usize, w: &str| {
        let t = p.toks[i];
        format!("{}{}{}", &s[..t.start], w, &s[t.end..])
    };
    let before = |i: usize, w: &str| {
        let t = p.toks[i];
        format!("{}{}{}", &s[..t.start], w, &s[t.start..])
    };
    let of_kind = |ks: &[K]| -> Vec<usize> { code.iter().cloned().filter(|&i| ks.contains(&p.toks[i].k)).collect() };
    fn pick(r: &mut Rng, v: &[usize]) -> Option<usize> {
        if v.is_empty() {
            None
        } else {
            Some(*r.pick(v))
        }
    }
    // is it the first token of its declaration (or of the definition under a signature)?
    let first = |i: usize| {
        let a = p.toks[i].start;
        a == 0 || s.as_bytes()[a - 1] == b'\n' || i == 0 || p.toks[i - 1].st != p.toks[i].st
    };
    let kind = |i: usize| p.toks.get(i).map(|t| t.k);
    // token `i` stands between brackets as the name of an operator
    let op_name = |i: usize| i > 0 && kind(i - 1) == Some(K::Open) && kind(i + 1) == Some(K::Close) && matches!(kind(i), Some(K::Op) | Some(K::Comma));
    match class {
        0 => {
            let i = pick(r, &of_kind(&[K::Open, K::Close]))?;
            Some((put(i, " "), "bracket removed"))
        }
        1 => {
            let i = pick(r, &code)?;
            let b = *r.pick(&["(", ")", "[", "]", "{", "}"]);
            if r.pct(40) {
                // right at a token, of brackets above all
                let near = of_kind(&[K::Open, K::Close]);
                let i = if !near.is_empty() && r.pct(70) { *r.pick(&near) } else { i };
                let at = if r.pct(50) { p.toks[i].start } else { p.toks[i].end };
                if s[at..].starts_with('-') || s[..at].ends_with(|c| c == '{' || c == '\'') {
                    return None;
                }
                return Some((format!("{}{}{}", &s[..at], b, &s[at..]), "bracket added"));
            }
            Some((before(i, &format!(" {} ", b)), "bracket added"))
        }
        2 => {
            let i = pick(r, &of_kind(&[K::Open, K::Close]))?;
            let all = if kind(i) == Some(K::Open) { ["(", "[", "{"] } else { [")", "]", "}"] };
            let w: Vec<&str> = all.iter().cloned().filter(|x| *x != txt(i)).collect();
            // "{-" would open a comment
            let w = *r.pick(&w);
            Some((put(i, &format!("{} ", w)), "bracket of another kind"))
        }
        3 => {
            let v: Vec<usize> = of_kind(&[K::Text])
                .into_iter()
                .filter(|&i| {
                    let t = txt(i).trim_matches('"');
                    !t.contains('"') && !t.ends_with('\\') && !s[p.toks[i].end..].contains('"')
                })
                .collect();
            let i = pick(r, &v)?;
            let t = txt(i);
            let k = if t.starts_with("\"\"\"") && t.len() > 3 { r.range(1, 3) } else { 1 };
            Some((put(i, &t[..t.len() - k]), "string left open"))
        }
        4 => {
            let v: Vec<usize> = of_kind(&[K::Char]).into_iter().filter(|&i| !s[p.toks[i].end..].contains('\'')).collect();
            let i = pick(r, &v)?;
            let t = txt(i);
            Some((put(i, &t[..t.len() - 1]), "character left open"))
        }
        5 => {
            let v: Vec<usize> = (0..p.toks.len()).filter(|&i| kind(i) == Some(K::BlockComment) && !s[p.toks[i].end..].contains("-}")).collect();
            if !v.is_empty() && r.pct(70) {
                let i = *r.pick(&v);
                let t = txt(i);
                return Some((put(i, &t[..t.len() - 2]), "block comment left open"));
            }
            let v: Vec<usize> = code.iter().cloned().filter(|&i| first(i) && !s[p.toks[i].start..].contains("-}")).collect();
            let i = pick(r, &v)?;
            Some((before(i, "{- "), "block comment left open"))
        }
        6 => {
            let v: Vec<usize> = of_kind(&[K::Kw])
                .into_iter()
                .filter(|&i| match txt(i) {
                    "alias" | "port" => false,
                    "as" => txt_of_first(p, p.toks[i].st) == "import",
                    "effect" => true,
                    _ => true,
                })
                .collect();
            let i = pick(r, &v)?;
            if first(i) {
                // what follows must not become part of the declaration before it
                let rest = s[p.toks[i].end..].trim_start_matches(' ');
                if txt(i) == "port" {
                    let next = p.toks.iter().position(|t| t.st > p.toks[i].st);
                    if next.map_or(false, |n| txt(n) == "(" || p.toks.get(i + 1).map_or(true, |_| txt(n) == txt(i + 1))) {
                        return None;
                    }
                }
                if rest.starts_with('\n') || rest.starts_with("--") || rest.starts_with("(") {
                    return None;
                }
                return Some((format!("{}{}", &s[..p.toks[i].start], rest), "keyword removed"));
            }
            Some((put(i, " "), "keyword removed"))
        }
        7 => {
            let i = pick(r, &code)?;
            let w = *r.pick(&["if", "then", "else", "case", "of", "let", "in"]);
            Some((before(i, &format!(" {} ", w)), "keyword without partner"))
        }
        8 => {
            let i = pick(r, &of_kind(&[K::Eq]))?;
            Some((put(i, " "), "equals sign removed"))
        }
        9 => {
            let i = pick(r, &of_kind(&[K::Arrow]))?;
            Some((put(i, " "), "arrow removed"))
        }
        10 => {
            let i = pick(r, &of_kind(&[K::Colon]))?;
            Some((put(i, " "), "colon removed"))
        }
        11 => {
            // an operator with nothing on its right
            let v: Vec<usize> = code
                .iter()
                .cloned()
                .filter(|&i| {
                    i > 0
                        && match kind(i) {
                            Some(K::Close) => kind(i - 1) != Some(K::Open),
                            Some(K::Comma) => !op_name(i),
                            Some(K::Kw) => matches!(txt(i), "then" | "else" | "of" | "in"),
                            _ => false,
                        }
                })
                .collect();
            let op = *r.pick(&["+", "*", "::", "|>", "<|", "&&", "-", "++", "=="]);
            if v.is_empty() || r.pct(10) {
                if matches!(p.toks.last()?.k, K::Comment | K::BlockComment | K::Inner) {
                    return None;
                }
                return Some((format!("{} {}\n", s.trim_end(), op), "operator without right operand"));
            }
            let i = *r.pick(&v);
            Some((before(i, &format!(" {} ", op)), "operator without right operand"))
        }
        12 => {
            // an operator with nothing on its left
            let op = *r.pick(&["*", "::", "|>", "<|", "&&", "++", "=="]);
            let v: Vec<usize> = code
                .iter()
                .cloned()
                .filter(|&i| match kind(i) {
                    Some(K::Open) => kind(i + 1) != Some(K::Close),
                    Some(K::Comma) => !op_name(i),
                    Some(K::Eq) | Some(K::Arrow) | Some(K::TypeArrow) | Some(K::Colon) => true,
                    Some(K::Op) => !op_name(i) && txt(i) != "..",
                    Some(K::Kw) => matches!(txt(i), "then" | "else" | "if" | "case" | "of" | "let" | "in"),
                    _ => false,
                })
                .collect();
            let i = pick(r, &v)?;
            Some((put(i, &format!("{} {} ", txt(i), op)), "operator without left operand"))
        }
        13 => {
            let v: Vec<usize> = code
                .iter()
                .cloned()
                .filter(|&i| match kind(i) {
                    Some(K::Open) => !(txt(i) == "(" && kind(i + 1) == Some(K::Close)) && !(kind(i + 1) == Some(K::Comma)),
                    Some(K::Comma) => !op_name(i),
                    _ => false,
                })
                .collect();
            let i = pick(r, &v)?;
            Some((put(i, &format!("{}{}, ", txt(i), if r.pct(50) { " " } else { "" })), "comma with nothing before it"))
        }
        14 => {
            let v: Vec<usize> = code
                .iter()
                .cloned()
                .filter(|&i| kind(i) == Some(K::Close) && i > 0 && !(txt(i) == ")" && kind(i - 1) == Some(K::Open)) && !op_name(i - 1))
                .collect();
            let i = pick(r, &v)?;
            Some((before(i, if r.pct(50) { " , " } else { "," }), "comma with nothing after it"))
        }
        15 => {
            const G: &[&str] = &[
                ")", "]", "}", ",", ";", "1", "-1", "1.5", "\"abc\"", "'a'", "Foo", "foo", "foo bar", "foo bar baz", "(a, b)", "[ a ]", "{ a = b }", "()", "if a then b else c", "let x = 1 in x",
                "case a of A -> b", "\\x -> x", "foo :", "foo : Int", "1 = 2", "\"x\" = 3", "Foo = 1", "Foo a = 1", "foo.bar = 1", "import foo", "import", "type", "type alias", "type foo = A", "type Foo", "type Foo =",
                "type alias Foo", "type alias foo = A", "module", "module foo exposing (..)", "module Foo", "where", "exposing (..)", "as", "alias A = B", "in", "then", "else", "of", "let", "`", "é = 1", "foo =", "foo x =", "infix", "infix +",
                "infixl 5", "(+)", "(+) a b", "(a + b) = 1", "( ) = 1", "{-", "-}", "a b c = ", "foo = (", "foo = )", "foo = [ 1", "foo = if a then b", "foo = case a of", "foo = let a = 1", "foo = \\a", "port foo", "port Foo : Int", "port foo :", "effect", "effect module", "foo = bar)", "foo = 1 +", "foo = + +",
                "foo = a = b", "foo = a : b", "foo = a, b", "foo = 'ab'", "foo = ''", "foo = \"abc", "foo = 1 |", "foo = a..b", "foo = a.", "foo = .A", "foo = a then", "foo ( = 1", "type A = b", "type A = A.B", "type A Int = B", "foo = {a = }", "foo = {= 1}", "foo = [1 2,]", "foo = @", "foo = `a`", "foo = ?", "foo = #",
                "\u{1a}", "\u{0}", "\u{7f}", "\u{feff}", "\u{a0}", "\u{200b}", "\u{b}", "\u{c}", "\u{1b}", "\u{8}", "\u{85}", "\u{2028}", "\u{3000}", "\u{fffd}", "#", "//", "/*", "%", "#!", "--\u{0}\n\u{0}", "$", "?", "!", "~", "@", "^", "&", "*", "|", "\\", "/", ":", ".", "..", "=", "<", ">", "->", "<-", "=>", "|]", "'", "_ ;", "0", "0x", "1e5",
            ];
            let g = *r.pick(G);
            // a quote or bracket that is closed further down would not be a fault of this line
            if (g.contains('"') && g.matches('"').count() % 2 == 1 && s.contains('"')) || (g == "{-" && s.contains("-}")) {
                return None;
            }
            let v: Vec<usize> = (0..p.toks.len()).filter(|&i| p.toks[i].start == 0 || (s.as_bytes()[p.toks[i].start - 1] == b'\n' && (i == 0 || p.toks[i - 1].st != p.toks[i].st))).collect();
            // an operator may stand alone between two operands, the second of which is the next line
            let operator = g.ends_with(|c: char| c.is_ascii() && crate::derive::is_op_char(c as u8));
            if v.is_empty() || operator || r.pct(25) {
                return Some((format!("{}\n{}{}", s, g, if r.pct(50) { "\n" } else { "" }), "not a declaration"));
            }
            let i = *r.pick(&v);
            // foo : Int and the like must not meet a definition of foo
            if g == "foo : Int" && s[p.toks[i].start..].starts_with("foo") {
                return None;
            }
            // an operand on its own line may only be put where no definition of an operator follows
            Some((format!("{}{}\n{}", &s[..p.toks[i].start], g, &s[p.toks[i].start..]), "not a declaration"))
        }
        16 => {
            let v: Vec<usize> = of_kind(&[K::Lower]).into_iter().filter(|&i| !first(i)).collect();
            let i = pick(r, &v)?;
            let w = *r.pick(&["module", "where", "exposing", "type", "alias", "port", "if", "then", "else", "let", "in", "case", "of"]);
            Some((put(i, w), "reserved word as a name"))
        }
        17 => {
            // cut where something is open
            let mut cuts = vec![];
            let mut depth = 0i32;
            for &i in &code {
                match kind(i) {
                    Some(K::Open) => depth += 1,
                    Some(K::Close) => depth -= 1,
                    Some(K::Kw) => match txt(i) {
                        _ => cuts.push(i),
                    },
                    Some(K::Eq) | Some(K::Arrow) | Some(K::Colon) | Some(K::TypeArrow) => cuts.push(i),
                    _ => {}
                }
                if depth > 0 {
                    cuts.push(i);
                }
            }
            let i = pick(r, &cuts)?;
            let e = p.toks[i].end;
            Some((format!("{}{}", &s[..e], if r.pct(50) { "\n" } else { "" }), "cut off"))
        }
        18 => {
            // the whole operand between two delimiters
            let v: Vec<usize> = code
                .iter()
                .cloned()
                .filter(|&i| {
                    i > 0
                        && matches!(kind(i), Some(K::Lower) | Some(K::Upper) | Some(K::Number) | Some(K::Text) | Some(K::Char))
                        && p.toks[i - 1].st == p.toks[i].st
                        && match kind(i - 1) {
                            Some(K::Eq) | Some(K::Arrow) | Some(K::TypeArrow) | Some(K::Colon) | Some(K::Bar) => true,
                            Some(K::Comma) => !op_name(i - 1),
                            Some(K::Op) => !op_name(i - 1),
                            Some(K::Kw) => matches!(txt(i - 1), "if" | "then" | "else" | "case" | "of" | "let" | "in" | "as" | "import" | "module"),
                            _ => false,
                        }
                        && match p.toks.get(i + 1) {
                            None => true,
                            // what follows must not be able to take its place
                            Some(t) if t.st != p.toks[i].st => kind(i - 1) == Some(K::Eq) || (!matches!(kind(i - 1), Some(K::Kw)) && matches!(txt(i + 1), "type" | "import")),
                            Some(t) => match t.k {
                                K::Close | K::Comma | K::Eq | K::Colon | K::Arrow | K::TypeArrow | K::Bar => true,
                                K::Op => !op_name(i + 1),
                                K::Kw => matches!(txt(i + 1), "then" | "else" | "of" | "in" | "exposing" | "where"),
                                _ => false,
                            },
                        }
                })
                .collect();
            let i = pick(r, &v)?;
            let (before, after) = (s[..p.toks[i].start].trim_end_matches(' '), s[p.toks[i].end..].trim_start_matches(' '));
            let t = match r.below(3) {
                0 if !before.ends_with('\n') && !after.is_empty() => format!("{} {}", before, after),
                _ => put(i, " "),
            };
            Some((t, "operand or name removed"))
        }
        21 => {
            // brackets that must hold something, and a let, with nothing in them
            let mut open: Vec<usize> = vec![];
            let mut bar: Vec<(usize, usize)> = vec![];
            let mut lets: Vec<(usize, usize)> = vec![];
            let mut v: Vec<(usize, usize)> = vec![];
            for (k, &i) in code.iter().enumerate() {
                match kind(i) {
                    Some(K::Open) => {
                        open.push(i);
                        // of an exposing list, or of the constructors in one
                        let from = if k == 0 { None } else { kind(code[k - 1]).map(|x| (x, code[k - 1])) };
                        match from {
                            Some((K::Kw, j)) if txt(j) == "exposing" => bar.push((open.len(), i)),
                            Some((K::Upper, _)) if txt(i) == "(" && code[..k].iter().any(|&j| p.toks[j].st == p.toks[i].st && kind(j) == Some(K::Kw) && txt(j) == "exposing") => bar.push((open.len(), i)),
                            _ => {}
                        }
                    }
                    // the fields of an update or of an extensible record
                    Some(K::Bar) if open.last().map_or(false, |&o| txt(o) == "{") => bar.push((open.len(), i)),
                    Some(K::Close) => {
                        while bar.last().map_or(false, |b| b.0 >= open.len()) {
                            let b = bar.pop().unwrap();
                            v.push((b.1, i));
                        }
                        open.pop();
                    }
                    Some(K::Kw) if txt(i) == "let" => lets.push((i, i)),
                    Some(K::Kw) if txt(i) == "in" => {
                        if let Some(l) = lets.pop() {
                            v.push((l.0, i));
                        }
                    }
                    _ => {}
                }
            }
            if v.is_empty() {
                return None;
            }
            let (a, b) = *r.pick(&v);
            let between = *r.pick(&[" ", " ", "  ", "\n    ", "\n            ", " -- c\n        "]);
            let between = if r.pct(30) && txt(a) != "let" { "" } else { between };
            Some((format!("{}{}{}", &s[..p.toks[a].end], between, &s[p.toks[b].start..]), "nothing where something must be"))
        }
        20 => {
            // a signature and a definition of names that are not quite the same
            let mut open: Vec<&str> = vec![];
            let mut v = vec![];
            for (k, &i) in code.iter().enumerate() {
                match kind(i) {
                    Some(K::Open) => open.push(txt(i)),
                    Some(K::Close) => {
                        open.pop();
                    }
                    Some(K::Colon) if open.last() != Some(&"{") && k > 0 && txt_of_first(p, p.toks[i].st) != "port" => {
                        if kind(code[k - 1]) == Some(K::Lower) {
                            v.push(code[k - 1]);
                        } else if k > 2 && kind(code[k - 1]) == Some(K::Close) && kind(code[k - 2]) == Some(K::Op) {
                            v.push(code[k - 2]);
                        }
                    }
                    _ => {}
                }
            }
            let i = pick(r, &v)?;
            let n = txt(i);
            let w = if kind(i) == Some(K::Op) { another_op(n, r) } else { another_name(n, r) };
            if w == n {
                return None;
            }
            Some((put(i, &w), "signature of another name"))
        }
        _ => {
            // a delimiter twice, inside brackets
            let mut depth = 0i32;
            let mut v = vec![];
            for &i in &code {
                match kind(i) {
                    Some(K::Open) => depth += 1,
                    Some(K::Close) => depth -= 1,
                    Some(K::Eq) | Some(K::Arrow) | Some(K::TypeArrow) | Some(K::Colon) | Some(K::Bar) if depth > 0 => v.push(i),
                    Some(K::Op) if depth > 0 && !op_name(i) && txt(i) != ".." => v.push(i),
                    _ => {}
                }
            }
            let i = pick(r, &v)?;
            Some((put(i, &format!("{} {} ", txt(i), txt(i))), "delimiter doubled"))
        }
    }
}

pub const MALFORMED_CLASSES: usize = 22;

/// A name not far from this one.
fn another_name(n: &str, r: &mut Rng) -> String {
    let b: Vec<char> = n.chars().collect();
    let k = b.len();
    let c = *r.pick(&['a', 'b', 'e', 'x', 'z', 'A', 'Z', '0', '1', '9', '_']);
    let flip = |c: char| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else if c.is_ascii_uppercase() { c.to_ascii_lowercase() } else { '_' };
    let mut w = b.clone();
    match r.below(10) {
        0 if k > 1 => {
            w.remove(k - 1);
        }
        1 if k > 1 => {
            w.remove(0);
        }
        2 => w.push(c),
        3 => w.insert(0, 'a'),
        4 => w.push(b[k - 1]),
        5 if k > 1 => w[k - 1] = flip(b[k - 1]),
        6 if k > 1 => w[k - 1] = c,
        7 if k > 2 => w.swap(k - 2, k - 1),
        8 if k > 1 => {
            let i = r.range(1, k - 1);
            w.insert(i, c)
        }
        9 if k > 2 => w.truncate(r.range(1, k - 1)),
        _ => w[0] = if b[0] == 'q' { 'p' } else { 'q' },
    }
    w.into_iter().collect()
}

fn another_op(n: &str, r: &mut Rng) -> String {
    let mut w = n.to_string();
    match r.below(4) {
        0 if w.len() > 1 => {
            w.pop();
        }
        1 => w.push(*r.pick(&['+', '<', '>', '*', '&'])),
        2 => w.insert(0, *r.pick(&['+', '<', '>', '*', '&'])),
        _ => {
            w.pop();
            w.push(*r.pick(&['+', '<', '>', '*', '&', '!']));
        }
    }
    w
}

/// Small edits at brackets, names, keywords and delimiters. What is accepted all the same must be a
/// spelling of the tree that comes back.
pub fn c15_edited(env: &mut Env, _: u64) {
    let m = sized_module(env, 2, 4, 12);
    let p = spell(env, &m);
    for _ in 0..10 {
        let mut t = p.out.clone();
        let n = *env.r.pick(&[1, 1, 1, 2, 3]);
        for _ in 0..n {
            let toks = lex(&t);
            if toks.is_empty() {
                break;
            }
            let brackets: Vec<(usize, usize)> = toks.iter().cloned().filter(|k| "()[]{}".contains(&t[k.0..k.1])).collect();
            let names: Vec<(usize, usize)> = toks.iter().cloned().filter(|k| t[k.0..k.1].starts_with(|c: char| c.is_ascii_alphabetic())).collect();
            let k = match env.r.below(5) {
                0 | 1 if !brackets.is_empty() => *env.r.pick(&brackets),
                2 | 3 if !names.is_empty() => *env.r.pick(&names),
                _ => *env.r.pick(&toks),
            };
            let w = t[k.0..k.1].to_string();
            let name = w.starts_with(|c: char| c.is_ascii_lowercase());
            match env.r.below(9) {
                0 => t.replace_range(k.0..k.1, ""),
                1 => t.insert_str(k.1, &w),
                2 => {
                    let b = *env.r.pick(&["(", ")", "[", "]", "{", "}", ",", "=", ":", "|", "->", ".", "_", "\\"]);
                    t.insert_str(if env.r.pct(50) { k.0 } else { k.1 }, b)
                }
                3 => {
                    let b = *env.r.pick(&["(", ")", "[", "]", "{", "}", ",", "=", ":", "|", "->", ".", "_", "\\"]);
                    t.replace_range(k.0..k.1, b)
                }
                4 if name => {
                    let w = another_name(&w, &mut env.r);
                    t.replace_range(k.0..k.1, &w)
                }
                5 if name => {
                    let w = *env.r.pick(RESERVED);
                    t.replace_range(k.0..k.1, w)
                }
                6 => {
                    let w = *env.r.pick(VOCABULARY);
                    t.replace_range(k.0..k.1, w)
                }
                7 => {
                    // two tokens against each other
                    let e = k.1 + (t[k.1..].len() - t[k.1..].trim_start().len());
                    t.replace_range(k.1..e, "")
                }
                _ => {
                    let c = *env.r.pick(&toks);
                    let w = t[c.0..c.1].to_string();
                    t.replace_range(k.0..k.1, &w)
                }
            }
        }
        if derivable(env, &t, true) {
            env.count("accepted", 1);
            env.nontrivial(&t);
            env.sample(&t);
        }
    }
}

fn txt_of_first(p: &Printer, st: usize) -> &str {
    p.toks.iter().find(|t| t.st == st).map(|t| &p.out[t.start..t.end]).unwrap_or("")
}

pub fn c15_damaged(env: &mut Env, case: u64) {
    let m = sized_module(env, 3, 4, 20);
    let p = spell(env, &m);
    for k in 0..4 {
        let class = (case as usize * 4 + k) % MALFORMED_CLASSES;
        for _ in 0..4 {
            let t = match malformed(&p, class, &mut env.r) {
                Some(t) => t,
                None => continue,
            };
            env.count(t.1, 1);
            env.nontrivial(&t.0);
            env.sample(&t.0);
            reject(env, &t.0, t.1, &p.out);
        }
    }
}

pub fn reject(env: &mut Env, text: &str, why: &str, from: &str) {
    match outcome_of(env, text) {
        Some(Out::Accepted(v)) => {
            let _ = from;
            env.violate(&format!("a malformed text was accepted ({})", why), text, "an error", &format!("{:?}", v));
        }
        _ => {}
    }
}

// C16, the names that are none

pub fn c16_not_names(env: &mut Env, case: u64) {
    let (w, f) = NAME_PLACES[case as usize % NAME_PLACES.len()];
    let good = |r: &mut Rng| -> String {
        let mut g = Gen::new(r, Cfg { tricky: 30, ..Cfg::default() });
        match w {
            W::Lower | W::Word => {
                if g.r.pct(50) {
                    g.near_reserved()
                } else {
                    g.lower()
                }
            }
            W::Upper => g.upper(),
            W::Op => g.op(),
        }
    };
    // one that is fine
    let n = good(&mut env.r);
    let t = f.replace('@', &n);
    match outcome_of(env, &t) {
        Some(Out::Accepted(_)) => env.count("good names", 1),
        Some(Out::Rejected(..)) => env.violate("a name was rejected", &t, "a tree", "an error"),
        None => return,
    }
    env.nontrivial(&t);
    let bad: Vec<String> = match w {
        W::Lower => {
            let mut v: Vec<String> = RESERVED.iter().map(|s| s.to_string()).collect();
            v.extend(["A", "Foo", "Int", "E1", "1a", "9", "é", "éa", "日本", "a-b", "a'", "a!", "$a", "@a", "ñ1", "a.B", "++", "ǆ"].iter().map(|s| s.to_string()));
            v
        }
        W::Upper => {
            let mut v: Vec<String> = RESERVED.iter().map(|s| s.to_string()).collect();
            v.extend(["a", "foo", "int", "_", "_A", "1A", "É", "Éa", "A-b", "A'", "Ａ", "++", "Ǆ"].iter().map(|s| s.to_string()));
            v
        }
        W::Op => {
            let mut v: Vec<String> = RESERVED_OPS.iter().map(|s| s.to_string()).collect();
            v.extend(["A", "(", "+ +", "`a`", "+a", "×", "→", "≤", "+;"].iter().map(|s| s.to_string()));
            v.extend(RESERVED.iter().map(|s| s.to_string()));
            v
        }
        // an upper-case name is no mistake there, but a reserved word is
        W::Word => RESERVED.iter().map(|s| s.to_string()).collect(),
    };
    for _ in 0..6 {
        let b = env.r.pick(&bad).clone();
        // other things that can stand there: a constructor pattern, an argument, a comment,
        // an operator named, a port
        let upper = b.starts_with(|c: char| c.is_ascii_uppercase());
        let possible = match w {
            W::Lower => (upper && f.contains("let") && !f.contains("@ :") && !f.contains("@ x")) || (f == "f = (.@)\n" && b == "++") || (b == "port" && f == "@ x = 0\n"),
            W::Upper => false,
            W::Word => b == "as" && f.ends_with(" @ a\n"),
            W::Op => (b == "as" && f.contains(" @ ")) || (upper && f.starts_with("f =") && !f.contains("let")) || (b == "--" && f.contains(" @ ")),
        };
        if possible {
            continue;
        }
        let t = f.replace('@', &b);
        env.count("impossible names", 1);
        env.nontrivial(&t);
        env.sample(&t);
        match outcome_of(env, &t) {
            Some(Out::Accepted(v)) => env.violate(&format!("{:?} was accepted as a name", b), &t, "an error", &format!("{:?}", v)),
            _ => {}
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum W {
    Lower,
    Upper,
    Op,
    /// A name of either case.
    Word,
}

/// Places of names, `@`, in otherwise well-formed texts where nothing else could stand.
pub const NAME_PLACES: &[(W, &str)] = &[
    (W::Lower, "@ = 0\n"),
    (W::Lower, "@ x = 0\n"),
    (W::Lower, "@ : A\n@ = 0\n"),
    (W::Lower, "f = { @ = 0 }\n"),
    (W::Lower, "f = { a = 0, @ = 1 }\n"),
    (W::Lower, "f = { r | @ = 0 }\n"),
    (W::Lower, "f = { @ | a = 0 }\n"),
    (W::Lower, "f = (.@)\n"),
    (W::Lower, "f { @ } = 0\n"),
    (W::Lower, "f { a, @ } = 0\n"),
    (W::Lower, "f =\n  let\n    @ = 0\n  in\n    1\n"),
    (W::Lower, "f =\n  let\n    a = 1\n    @ x = 0\n  in\n    1\n"),
    (W::Lower, "f =\n  let\n    @ : A\n    @ = 0\n  in\n    1\n"),
    (W::Lower, "f = let @ = 0 in 1\n"),
    (W::Lower, "type alias A = { @ : B }\n"),
    (W::Lower, "type alias A = { b : C, @ : B }\n"),
    (W::Lower, "type alias A a = { @ | b : B }\n"),
    (W::Lower, "type A @ = B\n"),
    (W::Lower, "type A a @ = B\n"),
    (W::Lower, "type alias A @ = B\n"),
    (W::Lower, "port @ : A\n"),
    (W::Lower, "port @ = 0\n"),
    (W::Lower, "port f @ = 0\n"),
    (W::Upper, "module @ exposing (..)\n"),
    (W::Upper, "module A.@ exposing (..)\n"),
    (W::Upper, "module @.A exposing (..)\n"),
    (W::Upper, "port module @ exposing (..)\n"),
    (W::Upper, "effect module @ where { command = A } exposing (..)\n"),
    (W::Upper, "effect module A where { command = @ } exposing (..)\n"),
    (W::Upper, "import @\n"),
    (W::Upper, "import A.@\n"),
    (W::Upper, "import @.A\n"),
    (W::Upper, "import A as @\n"),
    (W::Upper, "import A as @ exposing (..)\n"),
    (W::Upper, "import A exposing (@(..))\n"),
    (W::Upper, "import A exposing (B(@))\n"),
    (W::Upper, "import A exposing (B(C, @))\n"),
    (W::Upper, "type @ = A\n"),
    (W::Upper, "type A = @\n"),
    (W::Upper, "type A = B | @\n"),
    (W::Upper, "type A = B | @ c\n"),
    (W::Upper, "type alias @ = A\n"),
    (W::Upper, "type alias @ a = A\n"),
    (W::Op, "f = a @ b\n"),
    (W::Op, "f = a + b @ c\n"),
    (W::Op, "f = g (@) a\n"),
    (W::Op, "(@) a b = 0\n"),
    (W::Op, "(@) : A\n(@) = 0\n"),
    (W::Op, "f =\n  let\n    (@) a b = 0\n  in\n    1\n"),
    (W::Op, "infixl 5 @\n"),
    (W::Op, "infix 5 @\n"),
    (W::Op, "module A exposing (f, (@))\n"),
    (W::Op, "import A exposing ((@))\n"),
    (W::Op, "f = (a @ b)\n"),
    (W::Op, "f = [ a @ b ]\n"),
    (W::Op, "f = if a @ b then c else d\n"),
    (W::Word, "f = @\n"),
    (W::Word, "f = (@)\n"),
    (W::Word, "f = [ @ ]\n"),
    (W::Word, "f = [ a, @ ]\n"),
    (W::Word, "f = (a, @)\n"),
    (W::Word, "f = a + @\n"),
    (W::Word, "f = @ + a\n"),
    (W::Word, "f = @ a\n"),
    (W::Word, "f = g a @\n"),
    (W::Word, "f = g @ a\n"),
    (W::Word, "f = { a = @ }\n"),
    (W::Word, "f = { r | a = @ }\n"),
    (W::Word, "f = a.@\n"),
    (W::Word, "f = (a).@\n"),
    (W::Word, "f = A.b.@\n"),
    (W::Word, "f = A.@\n"),
    (W::Word, "f = g a.@\n"),
    (W::Word, "f = a.@.b\n"),
    (W::Word, "f = \\@ -> 0\n"),
    (W::Word, "f = \\a @ -> 0\n"),
    (W::Word, "f @ = 0\n"),
    (W::Word, "f a @ = 0\n"),
    (W::Word, "f (A @) = 0\n"),
    (W::Word, "f (a, @) = 0\n"),
    (W::Word, "f [ @ ] = 0\n"),
    (W::Word, "f =\n  case a of\n    @ -> 0\n"),
    (W::Word, "f =\n  case a of\n    b -> 0\n    @ -> 0\n"),
    (W::Word, "f =\n  case @ of\n    b -> 0\n"),
    (W::Word, "f =\n  case a of\n    b :: @ -> 0\n"),
    (W::Word, "f =\n  case a of\n    (b as @) -> 0\n"),
    (W::Word, "f = if @ then a else b\n"),
    (W::Word, "f = if a then @ else b\n"),
    (W::Word, "f = if a then b else @\n"),
    (W::Word, "f =\n  let\n    (a, @) = b\n  in\n    a\n"),
    (W::Word, "f =\n  let\n    a = @\n  in\n    a\n"),
    (W::Word, "f =\n  let\n    a = b\n  in\n    @\n"),
    (W::Word, "f : @\nf = 0\n"),
    (W::Word, "f : A @\nf = 0\n"),
    (W::Word, "f : a -> @\nf = 0\n"),
    (W::Word, "f : (a, @)\nf = 0\n"),
    (W::Word, "f : { a : @ }\nf = 0\n"),
    (W::Word, "type A = B @\n"),
    (W::Word, "type A = B C @\n"),
    (W::Word, "type alias A = @\n"),
    (W::Word, "type alias A = B @\n"),
    (W::Word, "port f : @\n"),
    (W::Word, "port f = @\n"),
    (W::Word, "import A exposing (@)\n"),
    (W::Word, "import A exposing (b, @)\n"),
    (W::Word, "module A exposing (@)\n"),
    (W::Word, "module A exposing (b, @)\n"),
    (W::Word, "port module A exposing (@)\n"),
    (W::Word, "effect module A where { @ = B } exposing (..)\n"),
    (W::Word, "effect module A where { command = B } exposing (@)\n"),
    (W::Word, "infixr 5 @\n"),
];

// C17

fn check_error(env: &mut Env, t: &str, rest: &str) {
    env.count("errors", 1);
    env.nontrivial(t);
    if !t.ends_with(rest) {
        env.violate("the remainder of the error is not the end of the text", t, "an end of the text", rest);
        return;
    }
    let before = &t[..t.len() - rest.len()];
    if !before.trim_matches(|c| c == ' ' || c == '\n' || c == '\t' || c == '\r').is_empty() {
        env.count("errors after the first declaration", 1);
        match outcome_of(env, before) {
            Some(Out::Accepted(_)) => {}
            Some(Out::Rejected(r, _)) => env.violate("what precedes the remainder of the error is not accepted by itself", t, &format!("{:?} accepted", before), &format!("remainder {:?}; alone, remainder {:?}", rest, r)),
            None => {}
        }
    }
    // a declaration is looked for after white space only
    if !before.is_empty() && !before.ends_with(|c| c == ' ' || c == '\n' || c == '\t' || c == '\r') {
        env.count("errors in the middle of a line", 1);
        return;
    }
    match outcome_of(env, rest) {
        Some(Out::Rejected(r, _)) if r == rest => {}
        Some(Out::Rejected(r, _)) => env.violate("parsing does not stop at once at the remainder of the error", t, rest, &r),
        Some(Out::Accepted(v)) => env.violate("the remainder of the error is itself accepted", t, "an error", &format!("{:?} for {:?}", v, rest)),
        None => {}
    }
}

pub fn c17_remainder(env: &mut Env, case: u64) {
    let m = sized_module(env, 4, 4, 12);
    let p = spell(env, &m);
    let m2 = sized_module(env, 1, 3, 8);
    let other = spell(env, &m2).out;
    for k in 0..4 {
        let t = match k {
            0 => match malformed(&p, case as usize % MALFORMED_CLASSES, &mut env.r) {
                Some(t) => t.0,
                None => continue,
            },
            1 if env.r.pct(30) => near_sentence(&mut env.r),
            _ => {
                let n = *env.r.pick(&[1, 1, 2]);
                let mut t = p.out.clone();
                for _ in 0..n {
                    t = mutate(&t, &other, &mut env.r);
                }
                t
            }
        };
        if let Some(Out::Rejected(rest, _)) = outcome_of(env, &t) {
            check_error(env, &t, &rest);
            env.sample(&t);
        }
    }
}

/// Declarations that cannot be parsed from their start, whatever follows on later lines. `E` stands
/// for an expression, `T` for a type.
const FAULTS: &[&str] = &[
    "f = ( E", "f = [ E", "f = [ E, E", "f = { a = E", "f = { r | a = E", "f = if E then E", "f = if E", "f = case E of", "f = case E", "f = let x = E", "f =\n  let\n    x = E\n    y = E", "f = \\x E", "f = ", "f =", "f x =", "f E", "f x y", "f",
    "f : T", "(+) : T", "f :", "f : T\ng = E", "Foo = E", "Foo", "Foo bar = E", "type", "type A", "type A =", "type a = A", "type alias A", "type alias A =", "type alias a = T", "import", "import a", "import a.B", "module", "module A", "module a exposing (..)",
    "module A exposing ()", "module A exposing (a", "port", "port f", "port f :", "port f =", "port A : T", "infixl", "infixl +", "infix 5", "infixr a", "effect module A exposing (..)", "effect", ")", "]", "}", ",", "123", "\"s\"", "'c'", "(a, b) = E", "[ a ] = E", "1 = E", "\\x -> E", "if = E", "let = E",
    "case x = E", "then = E", "of x = E", "in = E", "exposing = E", "alias A = T", "as = E", "where = E", "`", ";", "é = E", "f = (E]", "f = [E)", "f = {a = E]", "f = (E, )", "f = [, E]", "f = if E else E", "f = ( E + )", "f = [ E | E ]", "f ( = E", "f ) = E", "f = .", "f = |", "f = )", "f = then",
    "f = = E", "f -> E", "f, g = E", "f.g = E", "(f) = E", "( + ) = E", "f = let in E", "f = case of", "f = { = E }", "f = { a E }", "f = { a : E }", "f = \\ -> E", "f = if then E else E", "f = @@@E)", "f = `E`",
];

pub fn c17_planted(env: &mut Env, _: u64) {
    let head = sized_module(env, 4, 3, 10);
    let tail = sized_module(env, 3, 3, 8);
    let a = spell(env, &head);
    let b = spell(env, &tail);
    let mut fault = String::new();
    let shape = *env.r.pick(FAULTS);
    for c in shape.chars() {
        if c == 'E' || c == 'T' {
            let d = env.r.below(3);
            let cfg = Cfg { depth: d, width: 3, fuel: 6, tricky: 10, wild_literals: false, ..Cfg::default() };
            let mut st = Style::flat();
            st.inline = 100;
            let mut p = Printer::new(Rng::new(env.r.next(), 79, 0), st);
            let mut g = Gen::new(&mut env.r, cfg);
            let cx = Cx { ind: 0, m: 1, flat: true, pat: false };
            if c == 'E' {
                // what could be taken for arguments of a definition is no fault there
                let e = g.expr(d);
                p.expr(&e, P::Term, cx);
            } else {
                let t = g.type_(d);
                p.ty(&t, crate::print::T::Any, cx);
            }
            fault.push_str(&p.out);
        } else {
            fault.push(c);
        }
    }
    let with_head = env.r.pct(80);
    let mut t = String::new();
    if with_head {
        t.push_str(&a.out);
        if !t.ends_with('\n') {
            t.push('\n');
        }
        let k = env.r.below(3);
        t.push_str(&"\n".repeat(k));
    } else {
        let k = env.r.below(3);
        t.push_str(&"\n".repeat(k));
    }
    let at = t.len();
    t.push_str(&fault);
    t.push('\n');
    // a signature is no fault above the definition of its name
    let met = fault.contains(" :") && b.out.split('\n').any(|l| l.trim_start().starts_with(if fault.starts_with("f") { "f" } else { "(" }));
    if env.r.pct(70) && !met {
        let k = env.r.below(3);
        t.push_str(&"\n".repeat(k));
        t.push_str(&b.out);
    }
    env.count("planted faults", 1);
    env.nontrivial(&t);
    env.sample(&t);
    match outcome_of(env, &t) {
        Some(Out::Rejected(rest, _)) => {
            if rest != t[at..] {
                env.violate(&format!("the remainder of the error does not begin with the declaration that cannot be parsed ({:?})", fault), &t, &t[at..], &rest);
            } else {
                check_error(env, &t, &rest);
            }
        }
        Some(Out::Accepted(v)) => env.violate("a text with a declaration that cannot be parsed was accepted", &t, &t[at..], &format!("{:?}", v)),
        None => {}
    }
}

// C02

/// What a parse may cost at size `n` when it cost `e0` at size `n0`.
fn allowed(e0: u64, n0: usize, n: usize) -> u64 {
    let q = n as f64 / n0 as f64;
    (3.0 * e0 as f64 * q * q) as u64 + 2000
}

struct Growth {
    base: Option<(usize, u64)>,
    ok: bool,
    steps: u64,
}

impl Growth {
    fn new() -> Growth {
        Growth { base: None, ok: true, steps: 0 }
    }
    /// Parses the text of size `n`; false when it is not worth going on.
    fn step(&mut self, env: &mut Env, n: usize, text: &str, what: &str) -> bool {
        env.limit = match self.base {
            Some((n0, e0)) => allowed(e0, n0, n).max(200_000) * 4,
            None => 20_000_000,
        };
        let r = env.outcome(text);
        env.limit = CASE_LIMIT;
        if r.is_none() {
            return false;
        }
        let e = env.effort;
        self.steps += 1;
        env.max("effort of one parse", e);
        env.max("length of a text", text.len() as u64);
        match self.base {
            None => self.base = Some((n, e.max(50))),
            Some((n0, e0)) => {
                let a = allowed(e0, n0, n);
                env.max("per mille of the allowed effort", e * 1000 / a.max(1));
                if e > a {
                    self.ok = false;
                    env.violate(
                        &format!("the effort of parsing grows too fast: {} allocations at size {}, {} at size {} ({})", e0, n0, e, n, what),
                        text,
                        &format!("at most {}", a),
                        &e.to_string(),
                    );
                    return false;
                }
            }
        }
        true
    }
}

/// A place in an expression: the way down to it.
fn hole(e: &Expression, with: &Expression, r: &mut Rng) -> Expression {
    use Expression::*;
    let b = |e: Expression| Box::new(e);
    match e {
        List(v) | Tuple(v) if !v.is_empty() => {
            let i = r.below(v.len());
            let mut w = v.clone();
            w[i] = hole(&v[i], with, r);
            if matches!(e, List(_)) {
                List(w)
            } else {
                Tuple(w)
            }
        }
        Record(f) if !f.is_empty() => {
            let i = r.below(f.len());
            let mut w = f.clone();
            w[i].1 = hole(&f[i].1, with, r);
            Record(w)
        }
        RecordUpdate(n, f) if !f.is_empty() => {
            let i = r.below(f.len());
            let mut w = f.clone();
            w[i].1 = hole(&f[i].1, with, r);
            RecordUpdate(n.clone(), w)
        }
        If(x, y, z) => match r.below(3) {
            0 => If(b(hole(x, with, r)), y.clone(), z.clone()),
            1 => If(x.clone(), b(hole(y, with, r)), z.clone()),
            _ => If(x.clone(), y.clone(), b(hole(z, with, r))),
        },
        Application(x, y) => {
            if r.pct(30) {
                Application(b(hole(x, with, r)), y.clone())
            } else {
                Application(x.clone(), b(hole(y, with, r)))
            }
        }
        BinOp(o, x, y) => {
            if r.pct(50) {
                BinOp(o.clone(), b(hole(x, with, r)), y.clone())
            } else {
                BinOp(o.clone(), x.clone(), b(hole(y, with, r)))
            }
        }
        Lambda(a, x) => Lambda(a.clone(), b(hole(x, with, r))),
        Case(x, bs) => {
            if r.pct(30) {
                Case(b(hole(x, with, r)), bs.clone())
            } else {
                let i = r.below(bs.len());
                let mut w = bs.clone();
                w[i].1 = hole(&bs[i].1, with, r);
                Case(x.clone(), w)
            }
        }
        Let(es, x) => {
            if r.pct(40) {
                Let(es.clone(), b(hole(x, with, r)))
            } else {
                let i = r.below(es.len());
                let mut w = es.clone();
                match &mut w[i] {
                    LetEntry::LetBinding(_, y) => *y = hole(&y.clone(), with, r),
                    LetEntry::LetFunction(f) => f.definition.body = hole(&f.definition.body.clone(), with, r),
                }
                Let(w, x.clone())
            }
        }
        _ => with.clone(),
    }
}

fn type_hole(t: &Type, with: &Type, r: &mut Rng) -> Type {
    let b = |t: Type| Box::new(t);
    match t {
        Type::TypeConstructor(n, v) if !v.is_empty() => {
            let i = r.below(v.len());
            let mut w = v.clone();
            w[i] = type_hole(&v[i], with, r);
            Type::TypeConstructor(n.clone(), w)
        }
        Type::TypeTuple(v) if !v.is_empty() => {
            let i = r.below(v.len());
            let mut w = v.clone();
            w[i] = type_hole(&v[i], with, r);
            Type::TypeTuple(w)
        }
        Type::TypeRecord(f) if !f.is_empty() => {
            let i = r.below(f.len());
            let mut w = f.clone();
            w[i].1 = type_hole(&f[i].1, with, r);
            Type::TypeRecord(w)
        }
        Type::TypeRecordConstructor(n, f) if !f.is_empty() => {
            let i = r.below(f.len());
            let mut w = f.clone();
            w[i].1 = type_hole(&f[i].1, with, r);
            Type::TypeRecordConstructor(n.clone(), w)
        }
        Type::TypeApplication(x, y) => {
            if r.pct(50) {
                Type::TypeApplication(b(type_hole(x, with, r)), y.clone())
            } else {
                Type::TypeApplication(x.clone(), b(type_hole(y, with, r)))
            }
        }
        _ => with.clone(),
    }
}

fn pattern_hole(e: &Expression, with: &Expression, r: &mut Rng) -> Expression {
    hole(e, with, r)
}

/// The text, damaged at a point that does not depend on the size: none, at the core, or at the end.
fn damage(text: &str, kind: usize) -> String {
    match kind {
        0 => text.to_string(),
        1 => text.replacen("qqq", "=", 1),
        2 => text.replacen("qqq", "then", 1),
        3 => text.replacen("qqq", "(qqq", 1),
        4 => text.replacen("qqq", "qqq)", 1),
        5 => text.replacen("qqq", "\"qqq", 1),
        6 => format!("{} )\n", text.trim_end()),
        7 => format!("{}\n\n= bad\n", text.trim_end()),
        8 => {
            let t = text.trim_end();
            t[..t.len() - 1].to_string()
        }
        9 => text.replacen("qqq", "qqq ,", 1),
        10 => text.replacen("qqq", "in", 1),
        11 => text.replacen("qqq", "qqq -> qqq", 1),
        12 => text.replacen("qqq", "qqq | qqq", 1),
        _ => {
            // cut after the core
            match text.find("qqq") {
                Some(i) => text[..i + 3].to_string(),
                None => text.to_string(),
            }
        }
    }
}

const DAMAGES: usize = 14;

/// Random contexts nested in themselves, deeper and deeper.
pub fn c02_nested(env: &mut Env, case: u64) {
    let what = case % 4;
    let k = env.r.range(1, 3);
    let cfg = Cfg { depth: 3, width: 2, fuel: 6, tricky: 0, wild_literals: false, w: *env.r.pick(&[[3, 3, 3, 3, 3], [1, 2, 2, 6, 2], [1, 1, 1, 2, 6], [1, 4, 4, 2, 2]]) };
    let kind = if env.r.pct(35) { 0 } else { env.r.range(1, DAMAGES - 1) };
    let mut st = Style::random(&mut env.r);
    st.comment = 0;
    st.blank = 0;
    if st.nl > 15 {
        st.nl = 15;
    }
    st.parens = *env.r.pick(&[0, 0, 0, 20]);
    let mut g = Gen::new(&mut env.r, cfg);
    let mut ctx: Vec<Expression> = vec![];
    let mut tctx: Vec<Type> = vec![];
    for _ in 0..k {
        g.fuel = 4;
        let d = g.r.range(1, 2);
        match what {
            0 | 1 => ctx.push(if g.r.pct(50) { g.expr(d) } else { g.block(d) }),
            2 => tctx.push(g.type_(d)),
            _ => ctx.push(g.pattern(d)),
        }
    }
    let salt = g.r.next();
    let mut grow = Growth::new();
    let core = var("qqq");
    let tcore = Type::TypeVariable("qqq".into());
    let sizes: &[usize] = if env.thorough() { &[3, 4, 6, 9, 13, 18, 26, 36, 50, 64] } else { &[3, 4, 6, 9, 13, 18, 26] };
    for &n in sizes {
        let (m, label): (Vec<Statement>, &str) = match what {
            2 => {
                let mut t = tcore.clone();
                for i in 0..n * tctx.len() {
                    // the same hole every time
                    let j = i % tctx.len();
                    let mut hr = Rng::new(salt, 1, j as u64);
                    t = type_hole(&tctx[j], &t, &mut hr);
                }
                (vec![Statement::PortTypeDeclaration("f".into(), t)], "types")
            }
            _ => {
                let mut e = core.clone();
                for i in 0..n * ctx.len() {
                    let j = i % ctx.len();
                    let mut hr = Rng::new(salt, 1, j as u64);
                    e = if what == 3 { pattern_hole(&ctx[j], &e, &mut hr) } else { hole(&ctx[j], &e, &mut hr) };
                }
                if what == 3 {
                    (vec![function("f", vec![], Expression::Case(Box::new(var("x")), vec![(e, var("y"))]))], "patterns")
                } else {
                    (vec![function("f", vec![], e)], "expressions")
                }
            }
        };
        let p = print(&m, Rng::new(salt, 2, 0), st.clone());
        let text = damage(&p.out, kind);
        if text.len() > 200_000 {
            break;
        }
        env.count("texts of growing size", 1);
        env.nontrivial(&text);
        env.max("nesting", (n * ctx.len().max(tctx.len())) as u64);
        if n == 3 {
            env.sample(&text);
        }
        // size: how often it is nested, or the length where indentation makes it grow faster
        let len_ratio = text.len();
        if !grow_step(&mut grow, env, n, len_ratio, &text, label) {
            break;
        }
    }
}

fn grow_step(g: &mut Growth, env: &mut Env, n: usize, _len: usize, text: &str, label: &str) -> bool {
    g.step(env, n, text, label)
}

/// Long texts: one construct with more and more parts.
pub fn c02_long(env: &mut Env, case: u64) {
    let fam = case as usize % LONG.len();
    let (name, pre, part, sep, post) = LONG[fam];
    let kind = if env.r.pct(40) { 0 } else { env.r.range(1, DAMAGES - 1) };
    let mut grow = Growth::new();
    let sizes: &[usize] = if env.thorough() { &[8, 16, 32, 64, 128, 256, 512, 1024] } else { &[8, 16, 32, 64, 128, 256] };
    let mid = env.r.pct(50);
    for &n in sizes {
        let mut t = pre.to_string();
        for i in 0..n {
            if i > 0 {
                t.push_str(sep);
            }
            let last = if mid { i == n / 2 } else { i + 1 == n };
            t.push_str(&part.replace("@", if last { "qqq" } else { "ab" }).replace("#", &(i % 1000).to_string()));
        }
        t.push_str(post);
        let text = damage(&t, kind);
        env.count(&format!("long: {}", name), 1);
        env.nontrivial(&text);
        if !grow.step(env, n, &text, name) {
            break;
        }
    }
}

const LONG: &[(&str, &str, &str, &str, &str)] = &[
    ("list", "f = [ ", "@", ", ", " ]\n"),
    ("list on lines", "f =\n    [ ", "@ 1", "\n    , ", "\n    ]\n"),
    ("tuple", "f = (", "@", ", ", ")\n"),
    ("application", "f = g ", "@", " ", "\n"),
    ("operators", "f = ", "@", " + ", "\n"),
    ("operators on lines", "f =\n    ", "@ a", "\n        |> ", "\n"),
    ("record", "f = { ", "a# = @", ", ", " }\n"),
    ("record update", "f = { r | ", "a# = @", ", ", " }\n"),
    ("let entries", "f =\n  let\n    ", "a# = @", "\n    ", "\n  in\n    a\n"),
    ("let functions", "f =\n  let\n    ", "a# : Int -> Int\n    a# x = @ x", "\n    ", "\n  in\n    a\n"),
    ("branches", "f =\n  case x of\n    ", "A# -> @", "\n    ", "\n"),
    ("arguments", "f ", "@", " ", " = 1\n"),
    ("lambda arguments", "f = \\", "@", " ", " -> 1\n"),
    ("else if", "f =\n  ", "if a# then @", "\n  else ", "\n  else b\n"),
    ("definitions", "", "f# = @", "\n\n", "\n"),
    ("definitions with signatures", "", "f# : A -> B\nf# a = @", "\n\n", "\n"),
    ("imports", "", "import A#.B as C exposing (@)", "\n", "\n"),
    ("import list", "import A exposing (", "@", ", ", ")\n"),
    ("module list", "module A exposing (", "@", ", ", ")\n"),
    ("constructors", "type A = ", "B# @", " | ", "\n"),
    ("constructors on lines", "type A\n    = ", "B# @", "\n    | ", "\n"),
    ("arrows", "f : ", "@", " -> ", "\nf = 1\n"),
    ("type arguments", "port f : A ", "@", " ", "\n"),
    ("type record", "type alias A = { ", "a# : @", ", ", " }\n"),
    ("type tuple", "port f : (", "@", ", ", ")\n"),
    ("comments", "", "-- @ #", "\n", "\n"),
    ("block comments", "", "{- @ # -}", "\n", "\n"),
    ("nested comments", "{-", " {- @ ", "", " -}\n"),
    ("comments in a list", "f =\n    [ ", "@ -- c#", "\n    , ", "\n    ]\n"),
    ("comment lines", "f =\n    [ ", "@", "\n    -- c\n    -- d\n    , ", "\n    ]\n"),
    ("blank lines", "f =\n    [ ", "@", "\n\n\n\n    , ", "\n    ]\n"),
    ("blank lines between", "f = 1", "", "\n", "\ng = qqq\n"),
    ("spaces", "f =", "", "      ", "      qqq\n"),
    ("string", "f = \"", "@ ", "", "\"\n"),
    ("escapes", "f = \"", "\\n\\\" ", "", "\" qqq\n"),
    ("triple string", "f = \"\"\"", "@ \" \n", "", "\"\"\"\n"),
    ("accesses", "f = a", ".@", "", "\n"),
    ("qualified", "f = ", "A#", ".", ".qqq\n"),
    ("long name", "f = qqq", "abc", "", "\n"),
    ("digits", "f = qqq ", "123", "", "\n"),
    ("operator characters", "f = qqq ", "+-*", "", " b\n"),
    ("ports", "", "port p# : A -> @", "\n", "\n"),
    ("infixes", "", "infixl 5 <#>", "\n", "\nf = qqq\n"),
    ("open brackets", "f = qqq ", "(", "", "\n"),
    ("open square brackets", "f = qqq ", "[", "", "\n"),
    ("open braces", "f = ", "{ a = ", "", "qqq\n"),
    ("open types", "port f : ", "(", "", "qqq\n"),
    ("open type braces", "port f : ", "{ a : ", "", "qqq\n"),
    ("open lets", "f = ", "let a = ", "", "qqq\n"),
    ("open ifs", "f = ", "if ", "", "qqq\n"),
    ("open cases", "f = ", "case ", "", "qqq\n"),
    ("open lambdas", "f = ", "\\a -> ", "", "qqq\n"),
    ("open updates", "f = ", "{ r | a = ", "", "qqq\n"),
    ("open patterns", "f = case x of ", "(A ", "", "qqq\n"),
    ("open comments", "", "{- ", "", "qqq\n"),
    ("open applications", "f = ", "g (h ", "", "qqq\n"),
    ("open argument patterns", "f ", "(", "", "qqq = 1\n"),
    ("open let patterns", "f = let ", "(a, ", "", "qqq = 1 in a\n"),
    ("open lambda patterns", "f = \\", "(a, ", "", "qqq -> a\n"),
    ("quotes", "f = ", "'a' ", "", "qqq\n"),
    ("minus signs", "f = qqq ", "- ", "", "1\n"),
    ("dots", "f = qqq ", ".a ", "", "\n"),
];

/// The effort of arbitrary texts is bounded by their length.
pub fn c02_any(env: &mut Env, _: u64) {
    let m = sized_module(env, 4, 6, 60);
    let p = spell(env, &m);
    let m2 = sized_module(env, 1, 3, 10);
    let other = spell(env, &m2).out;
    for k in 0..4 {
        let mut t = p.out.clone();
        for _ in 0..k {
            t = mutate(&t, &other, &mut env.r);
        }
        let n = t.len() as u64 + 20;
        env.limit = n * PER_BYTE * 4 + 1_000_000;
        let r = env.outcome(&t);
        env.limit = CASE_LIMIT;
        if r.is_none() {
            return;
        }
        env.nontrivial(&t);
        env.max("allocations per byte", env.effort / n);
        if env.effort > n * PER_BYTE {
            let e = env.effort;
            env.violate("parsing takes far more effort than any text of this length should", &t, &format!("at most {} allocations", n * PER_BYTE), &e.to_string());
        }
    }
}

/// Ten times what has been seen of the program as it is.
pub const PER_BYTE: u64 = 2000;

// C01

pub fn c01_damaged(env: &mut Env, _: u64) {
    let m = sized_module(env, 4, 5, 30);
    let p = spell(env, &m);
    let m2 = sized_module(env, 1, 3, 10);
    let other = spell(env, &m2).out;
    for _ in 0..8 {
        let n = *env.r.pick(&[1, 2, 3, 5, 8]);
        let mut t = p.out.clone();
        for _ in 0..n {
            t = if env.r.pct(25) {
                let i = boundary(&t, env.r.below(t.len() + 1));
                let mut u = t.clone();
                u.insert_str(i, env.r.pick(ODD));
                u
            } else {
                mutate(&t, &other, &mut env.r)
            };
        }
        settle(env, &t);
    }
}

fn settle(env: &mut Env, t: &str) {
    env.nontrivial(t);
    match outcome_of(env, t) {
        Some(Out::Accepted(_)) => env.count("accepted", 1),
        Some(Out::Rejected(..)) => env.count("rejected", 1),
        None => env.count("neither", 1),
    }
    if t.is_ascii() {
        env.count("ASCII texts", 1);
    } else {
        env.count("texts beyond ASCII", 1);
    }
    env.max("length of a text", t.len() as u64);
}

pub fn c01_unicode(env: &mut Env, case: u64) {
    let t = odd_text(env, case);
    settle(env, &t);
    env.sample(&t);
}

pub fn odd_text(env: &mut Env, case: u64) -> String {
    let mut t = String::new();
    match case % 6 {
        0 => {
            // any characters at all
            let n = env.r.range(0, 60);
            for _ in 0..n {
                let hi = *env.r.pick(&[0x80u64, 0x100, 0x800, 0x3000, 0x1_0000, 0x11_0000]);
                if let Some(c) = char::from_u32((env.r.next() % hi) as u32) {
                    t.push(c);
                }
            }
        }
        1 => t = soup(&mut env.r),
        2 => {
            t = soup(&mut env.r);
            for _ in 0..env.r.range(1, 5) {
                let i = boundary(&t, env.r.below(t.len() + 1));
                t.insert_str(i, env.r.pick(ODD));
            }
        }
        3 => {
            // odd text in the places that hold text
            let mut piece = String::new();
            for _ in 0..env.r.range(1, 4) {
                if env.r.pct(50) {
                    piece.push_str(env.r.pick(ODD));
                } else if let Some(c) = char::from_u32((env.r.next() % 0x11_0000) as u32) {
                    piece.push(c);
                }
            }
            let f = *env.r.pick(&[
                "f = \"@\"\n", "f = '@'\n", "f = \"\"\"@\"\"\"\n", "-- @\n", "{- @ -}\n", "f = 1 -- @\n", "f = [ a -- @\n , b ]\n", "@ = 1\n", "f @ = 1\n", "f = @\n", "f = a @ b\n", "type A@ = B\n", "import @\n", "f = '\\@'\n", "f = '\\x@'\n", "f = '\\x4@'\n", "f = '\\u@'\n", "f = \"\\x@\"\n", "f = \"\\u{@}\"\n", "f = 'a@'\n", "infixl 5@ +\n", "infixl 5 @\n", "f = `@`\n", "f = \"\\@\"\n", "f = '\\u{@}'\n",
                "f : @\nf = 1\n", "f = { @ = 1 }\n", "f = .@\n", "f = 1@\n", "f = 0x@\n", "f = 1e@\n", "f = a.@\n", "@", "f = 1\n@", "@\nf = 1", "module @ exposing (..)\n", "f =@1\n", "f =\n@1\n", "f = [@]\n", "f = (@)\n", "infixl @ +\n",
            ]);
            t = f.replace('@', &piece);
        }
        4 => {
            // escapes and numbers at their limits
            const X: &[&str] = &[
                "f = '\\u{0}'", "f = '\\u{10FFFF}'", "f = '\\u{110000}'", "f = '\\u{D800}'", "f = '\\u{DFFF}'", "f = '\\u{}'", "f = '\\u{FFFFFFFF}'", "f = '\\u{FFFFFFFFFFFFFFFFFFFF}'", "f = '\\u'", "f = '\\u{'", "f = '\\x'", "f = '\\x0'", "f = '\\x00'", "f = '\\xFF'", "f = '\\xGG'", "f = '\\x100'", "f = '\\",
                "f = '", "f = '''", "f = ''", "f = '\\''", "f = '\\\\'", "f = \"\\", "f = \"", "f = \"\"\"", "f = \"\"\"\"", "f = \"\"\"\"\"", "f = 0x", "f = 0xG", "f = 1.", "f = 1.e5", "f = 1e", "f = 1e+", "f = -", "f = +", "f = --", "f = -.5", "f = 1..2", "infixl 99999999999999999999999 +", "infixl -1 +", "infixl 9223372036854775807 +", "infixl 9223372036854775808 +",
                "infixl 0x1 +", "f = 00000000000000000000000", "f = 123456789012345678901234567890123456789012345678901234567890", "f = 1e999999999999", "f = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF", "{-", "-}", "{--}", "{-}", "{-{-}", "{- -", "--", "-", "", " ", "\n", "\n\n", "\t", "\r\n", "\u{feff}", "\u{feff}f = 1", "f = 1\r\n", "f = 1\r\ng = 2\r\n", "f\t=\t1", "f = '\u{1F600}'", "f = 'e\u{301}'",
                "f = (,,,,,,,,,,)", "f = (,", "f = ((((", "f = ))))", "f = \\", "f = \\\\", "f = \\x", "f = .", "f = ..", "f = a.", "f = A.", "f = a..b", "f = .a.b", "f = a .b", "_ = _", "f _ = _",
            ];
            t = env.r.pick(X).to_string();
            if env.r.pct(50) {
                t.push('\n');
            }
            if env.r.pct(30) {
                t = mutate(&t, "f = 1\n", &mut env.r);
            }
        }
        _ => {
            let n = env.r.range(1, 4);
            for _ in 0..n {
                t.push_str(&near_sentence(&mut env.r));
            }
            t = mutate(&t, "g = { a | b = c }\n", &mut env.r);
        }
    }
    if env.r.pct(8) {
        t = t.replace('\n', "\r\n");
    }
    t
}

/// Every kind of construct, briefly.
pub const BANK: &[&str] = &[
    "module A exposing (..)\n", "module A.B exposing (a, B, C(..), D(E, F), (+))\n", "port module A exposing (a)\n", "effect module A where { command = B, subscription = C } exposing (..)\n", "import A\n", "import A.B as C exposing (d)\n", "import A exposing (B(..))\n", "type A = B\n", "type A b = C b | D (E F) { g : H }\n",
    "type A\n    = B\n    | C\n", "type alias A = B\n", "type alias A b =\n    { c : d, e : f }\n", "type alias A = { b | c : D }\n", "type alias A = (B, C, ())\n", "f : A -> (b -> C) -> D.E f\nf = g\n", "infixl 5 +++\n", "infix 4 `f`\n", "infixr 0 <|\n", "port f : A -> Cmd b\n", "port f = g\n", "f = 1\n", "f = -1\n", "f = 0xfF\n", "f = 1.5\n",
    "f = 1.5e-3\n", "f = 1e10\n", "f = 'a'\n", "f = '\\n'\n", "f = '\\''\n", "f = '\\\\'\n", "f = '\\x41'\n", "f = '\\u{1F600}'\n", "f = '\\0'\n", "f = \"a\"\n", "f = \"\\\"\"\n", "f = \"\\\\\"\n", "f = \"\\x41\\u{41}\"\n", "f = \"\"\n", "f = \"\"\"a\"\"\"\n", "f = \"\"\"\n\"\"\"\n", "f = \"\"\"a\\\"\"\"\"\n", "f = ()\n", "f = (a)\n",
    "f = (a, b)\n", "f = []\n", "f = [ a, b ]\n", "f = {}\n", "f = { a = b, c = d }\n", "f = { a | b = c }\n", "f = { a, b }\n", "f = a.b.c\n", "f = A.B.c\n", "f = .a\n", "f = (a b).c\n", "f = (,)\n", "f = (,,)\n", "f = (+)\n", "f = a + b :: c\n", "f = a b (c d)\n", "f = \\a b -> c\n", "f = \\(a, b) { c } _ -> d\n",
    "f = if a then b else c\n", "f =\n    if a then\n        b\n    else if c then\n        d\n    else\n        e\n", "f = case a of B -> c\n", "f =\n    case a of\n        B c ->\n            d\n\n        _ ->\n            e\n", "f = let a = b in c\n", "f =\n    let\n        a : B\n        a c =\n            d\n\n        (e, g) =\n            h\n    in\n        i\n",
    "f a (B c) [] { d } (e, _) = g\n", "(+++) a b = c\n", "f (a :: b) (c as d) = e\n", "-- a\n", "{- a -}\n", "{-| a {- b -} -}\n", "f = a -- b\n", "f = a\n-- b\ng = c\n", "f =\n    -- a\n    b\n", "f = a\n    |> b c\n    |> d\n", "f = -a\n", "f = `a`\n", "f = a `b` c\n",
];
const HOLES: &[&str] = &["\u{e9}", "\u{65e5}", "\u{1f600}", "\u{301}", "\u{0}", "\t", "\r", "\"", "'", "\\", "-", "{", "}", "(", ")", "[", "]", ",", ".", " ", "\n", "\n ", "0", "9", "a", "A", "_", "=", ":", "|", "`", "\u{a0}", "\u{feff}", "\u{130}", "\u{df}", "\u{661}", "--", "{-", "-}", "\"\"\"", "\u{2028}"];

/// Every place of every sentence of the bank with something put in or in its stead.
pub fn c01_holes(env: &mut Env, case: u64) {
    let s = BANK[case as usize % BANK.len()];
    let shift = env.r.below(HOLES.len());
    let rounds = HOLES.len();
    for (i, c) in s.char_indices() {
        for k in 0..rounds {
            let h = HOLES[(k + shift) % rounds];
            // one of the two at random, both for what takes several bytes
            let both = !h.is_ascii();
            let first = env.r.pct(50);
            if both || first {
                settle(env, &format!("{}{}{}", &s[..i], h, &s[i..]));
            }
            if both || !first {
                settle(env, &format!("{}{}{}", &s[..i], h, &s[i + c.len_utf8()..]));
            }
        }
    }
    env.count("sentences with every hole", 1);
}

/// Long texts, in bytes and in characters, in all places that hold text, about the lengths at which
/// something kept in a byte, a fixed buffer or a cut message would give way.
pub fn c01_long(env: &mut Env, case: u64) {
    const F: &[&str] = &[
        "-- @\n", "{- @ -}\n", "{-| @ -}\nf = 1\n", "f = 1 -- @\n", "f = 1\n-- @", "f = \"@\"\n", "f = \"\"\"@\"\"\"\n", "f = [ a -- @\n , b ]\n", "f =\n    let\n        -- @\n        a = 1\n    in\n        a\n", "f = \"@\n", "f = \"\"\"@\n", "{- @\n", "f = '@'\n", "f = @\n", "@\n", "f = 1\n@\n", "@f = 1\n",
        "f = a @ b\n", "f@ = 1\n", "f : @\nf = 1\n", "type A = B@\n", "import A@\n", "module A@ exposing (..)\n", "f = 1@\n", "f = 0x@\n", "f = .a@\n", "f = '\\u{@}'\n", "infixl 5 @\n", "port f@ : A\n", "f = { a@ = 1 }\n", "f = \\a@ -> b\n", "f =@1\n", "@", "f = \"\\@\"\n", "f\n = 1\n@",
    ];
    const U: &[&str] = &["é", "日", "😀", "e\u{301}", "\u{a0}", "a", "A", "7", " ", "+", "\n", "\u{0}", "\t", "\\", "é-", "-", "{-", "\"", "'", "\\\"", "ab ", "é\n", "é\n  ", "\r\n", "-- é\n"];
    let f = F[case as usize % F.len()];
    let u = *env.r.pick(U);
    let long = env.r.pct(6);
    let near = if long { *env.r.pick(&[4096usize, 8192, 32768, 65536]) } else { *env.r.pick(&[16usize, 20, 24, 32, 40, 48, 50, 60, 64, 72, 80, 100, 120, 127, 128, 160, 200, 255, 256, 300, 500, 512, 1000, 1024]) };
    let k = if env.r.pct(50) { near / u.len() + 1 } else { near };
    let k = (k + env.r.below(5)).saturating_sub(2).min(70000 / u.len());
    let shift = env.r.below(9);
    let mut piece = "x".repeat(shift);
    if env.r.pct(50) {
        // one odd character at the place in question
        piece = "x".repeat((near + env.r.below(8)).saturating_sub(4));
        piece.push_str(u);
        piece.push_str(&"y".repeat(env.r.below(8)));
    } else {
        piece.push_str(&u.repeat(k));
    }
    let t = f.replace('@', &piece);
    settle(env, &t);
    env.max("bytes in one piece", piece.len() as u64);
}

/// Every start of a text, and every text with one character missing.
pub fn c01_cut(env: &mut Env, _: u64) {
    let m = sized_module(env, 2, 3, 10);
    let p = spell(env, &m);
    let t: String = p.out.chars().take(300).collect();
    let cuts: Vec<usize> = t.char_indices().map(|c| c.0).collect();
    for &i in &cuts {
        if env.r.pct(50) {
            settle(env, &t[..i]);
        } else {
            let e = boundary(&t, i + 1);
            settle(env, &format!("{}{}", &t[..i], &t[e..]));
        }
    }
}

/// Deep nesting, within the stack that threads here have.
pub fn c01_deep(env: &mut Env, case: u64) {
    let n = env.r.range(20, 200);
    let t = nested_text(env, case as usize, n);
    settle(env, &t);
}

pub fn nested_text(env: &mut Env, case: usize, n: usize) -> String {
    let (name, pre, part, sep, post) = LONG[case % LONG.len()];
    let mut t = pre.to_string();
    for i in 0..n {
        if i > 0 {
            t.push_str(sep);
        }
        t.push_str(&part.replace("@", "ab").replace("#", &i.to_string()));
    }
    let k = env.r.below(DAMAGES);
    t.push_str(post);
    env.count(&format!("deep or long: {}", name), 1);
    damage(&t, k)
}

// C18

/// The same text again and again, among others, from a buffer used before, and as part of a history.
pub fn c18_history(env: &mut Env, _: u64) {
    let n = env.r.range(3, 8);
    let mut texts = vec![];
    for _ in 0..n {
        let m = sized_module(env, 3, 4, 15);
        let p = spell(env, &m);
        let mut t = p.out;
        match env.r.below(4) {
            0 => t = mutate(&t, "f = 1\n", &mut env.r),
            1 => t = near_sentence(&mut env.r),
            _ => {}
        }
        texts.push(t);
    }
    // texts that differ in little: one character, the same length, the same ends
    for k in 0..n {
        let t = texts[k].clone();
        let v: Vec<(usize, char)> = t.char_indices().filter(|c| c.1.is_ascii_alphanumeric()).collect();
        if v.is_empty() {
            continue;
        }
        for _ in 0..2 {
            let (i, c) = *env.r.pick(&v);
            let mut u = t.clone();
            let d = if c.is_ascii_digit() { (b'0' + env.r.below(10) as u8) as char } else { (if c.is_ascii_lowercase() { b'a' } else { b'A' } + env.r.below(26) as u8) as char };
            u.replace_range(i..i + 1, &d.to_string());
            texts.push(u);
        }
    }
    let mut first: Vec<Option<String>> = vec![None; texts.len()];
    let mut buf = String::with_capacity(texts.iter().map(|t| t.len()).max().unwrap_or(0) + 64);
    let rounds = texts.len() * 4;
    for round in 0..rounds {
        let k = if round < texts.len() { round } else { env.r.below(texts.len()) };
        let t = texts[k].clone();
        let got = match env.r.below(3) {
            // always the same buffer, so the same address
            0 => {
                buf.clear();
                buf.push_str(&t);
                env.outcome(&buf)
            }
            // the middle of a longer text
            1 => {
                let long = format!("{}{}{}", "x = 1 -- ", t, "zzz");
                env.outcome(&long[9..9 + t.len()])
            }
            _ => env.outcome(&t),
        };
        let got = match got {
            Some(g) => g,
            None => return,
        };
        env.count("parses in a history", 1);
        match &first[k] {
            None => first[k] = Some(got),
            Some(f) => {
                env.count("repetitions compared", 1);
                if *f != got {
                    env.violate("parsing a text again gave another result", &t, f, &got);
                    return;
                }
            }
        }
    }
    for t in &texts {
        env.nontrivial(t);
    }
    env.sample(&texts[0]);
}

/// Many texts that are given up in the midst of something, and then the first ones again.
pub fn c18_wear(env: &mut Env, case: u64) {
    let mut texts = vec![];
    for _ in 0..6 {
        let m = sized_module(env, 3, 4, 15);
        texts.push(spell(env, &m).out);
    }
    texts.push(env.r.pick(BANK).to_string());
    texts.push(near_sentence(&mut env.r));
    texts.push(nested_text(env, case as usize, 12));
    let first: Vec<Option<String>> = texts.iter().map(|t| env.outcome(t)).collect();
    let open = ["(", "[ ", "{ a = ", "{ r | a = ", "let a = ", "if ", "case ", "\\a -> ", "(A ", "f (", "( a, ", "if a then ", "if a then b else ", "case a of b -> ", "let\n  a = ", "a + ", "{- ", "'", "\"", "\"\"\"", "case a of\n   B -> ", "let a = b in "];
    let kind = *env.r.pick(&open);
    let types = env.r.pct(20);
    let mut opened = 0;
    let n = *env.r.pick(&[50, 150, 700]);
    for i in 0..n {
        let depth = env.r.range(20, 100);
        let one = if env.r.pct(70) { kind } else { *env.r.pick(&open) };
        let mut t = if types { format!("port f{} : {}", i, "( a -> ".repeat(depth)) } else { format!("f{} = {}", i, one.repeat(depth)) };
        if env.r.pct(20) {
            t.push_str("x\n");
        }
        if env.r.pct(10) {
            t = texts[env.r.below(6)].clone();
            let e = boundary(&t, env.r.below(t.len() + 1));
            t.truncate(e);
        }
        if env.outcome(&t).is_none() {
            return;
        }
        opened += depth as u64;
    }
    env.count("constructs left open before a repetition", opened);
    for (t, f) in texts.iter().zip(first) {
        env.nontrivial(t);
        if let (Some(f), Some(g)) = (f, env.outcome(t)) {
            env.count("repetitions compared", 1);
            if f != g {
                env.violate("parsing a text again gave another result", t, &f, &g);
                return;
            }
        }
    }
}

/// One text many times in a row.
pub fn c18_repeat(env: &mut Env, case: u64) {
    let t = if case % 2 == 0 {
        near_sentence(&mut env.r)
    } else {
        let m = sized_module(env, 1, 2, 5);
        spell(env, &m).out
    };
    let f = match env.outcome(&t) {
        Some(f) => f,
        None => return,
    };
    env.nontrivial(&t);
    for _ in 0..300 {
        let g = match env.outcome(&t) {
            Some(g) => g,
            None => return,
        };
        env.count("repetitions compared", 1);
        if g != f {
            env.violate("parsing a text again gave another result", &t, &f, &g);
            return;
        }
    }
}

/// A text with something of every kind in it, over and over: whatever is counted in this process is
/// counted past every limit that a counter is likely to have.
pub fn c18_often(env: &mut Env, case: u64) {
    let mut t = String::from("-- a comment \n{- another  -}\n");
    match case % 8 {
        0 => (0..25).for_each(|i| t.push_str(&format!("--  line {} \n{{-  block {} -}}\n", i, i))),
        1 => (0..12).for_each(|i| t.push_str(&format!("import A{}.B as C{} exposing (d, E(F, G), (+), H(..))\n", i, i))),
        2 => (0..6).for_each(|i| t.push_str(&format!("type alias A{} b = {{ c : ( b, D -> e, {{ b | f : () }} ) }}\ntype G{} = H | I (J k) L\n", i, i))),
        3 => (0..10).for_each(|i| t.push_str(&format!("f{} = [ \"a \\\" b\", \"\"\" c \"\"\" ]\ng{} = ( '\\n', 'x', -{}, 1.5e3, 0xFF )\n", i, i, i))),
        4 => (0..4).for_each(|i| t.push_str(&format!("f{} : A -> B\nf{} a _ =\n    let\n        c : D\n        c = a.e.f\n    in\n    case c of\n        G h ->\n            if h then {{ a | i = .j }} else k ++ l\n\n        _ ->\n            \\m -> n o\n", i, i))),
        5 => (0..8).for_each(|i| t.push_str(&format!("port p{} : A -> Cmd b\ninfixl {} +++\ninfix 4 ===\nf{} = a + b * c - (d) ^ e\n", i, i, i))),
        _ => {
            let m = sized_module(env, 3, 4, 15);
            t.push_str(&spell(env, &m).out);
        }
    }
    let f = match env.outcome(&t) {
        Some(f) => f,
        None => return,
    };
    env.nontrivial(&t);
    // by effort, so that a large text is not parsed more often than a small one of as many parts
    let times = (env.r.range(70_000, 75_000) as u64 / 12).min(40_000_000 / (env.effort + 1)).max(100);
    for _ in 0..times {
        let g = match env.outcome(&t) {
            Some(g) => g,
            None => return,
        };
        if g != f {
            env.violate("parsing a text again gave another result", &t, &f, &g);
            return;
        }
    }
    env.count("repetitions compared", times);
    env.count("statements parsed again and again", times * t.lines().count() as u64);
}

/// The same texts from many threads at once, against their results one at a time.
pub fn c18_threads(env: &mut Env, _: u64) {
    let mut texts = vec![];
    for _ in 0..12 {
        let m = sized_module(env, 3, 4, 15);
        let t = spell(env, &m).out;
        texts.push(if env.r.pct(30) { mutate(&t, "f = 1\n", &mut env.r) } else { t });
    }
    let mut alone = vec![];
    for t in &texts {
        match env.outcome(t) {
            Some(o) => alone.push(o),
            None => return,
        }
        env.nontrivial(t);
    }
    let texts = std::sync::Arc::new(texts);
    let alone = std::sync::Arc::new(alone);
    let n = 8;
    let barrier = std::sync::Arc::new(std::sync::Barrier::new(n));
    let mut hs = vec![];
    for k in 0..n {
        let (texts, alone, barrier) = (texts.clone(), alone.clone(), barrier.clone());
        let mut r = Rng::new(env.r.next(), 5, k as u64);
        hs.push(
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn(move || {
                    barrier.wait();
                    let mut bad = vec![];
                    for _ in 0..40 {
                        let i = r.below(texts.len());
                        let g = std::panic::catch_unwind(|| elm_parser::verif::parse(&texts[i])).unwrap_or_else(|_| "panic".to_string());
                        if g != alone[i] {
                            bad.push((i, g));
                            break;
                        }
                    }
                    bad
                })
                .unwrap(),
        );
    }
    for h in hs {
        for (i, g) in h.join().unwrap() {
            env.violate("parsing a text while other threads parse gave another result", &texts[i], &alone[i], &g);
        }
        env.count("parses from eight threads at once", 40);
    }
}

/// Trees again, from texts with everything in them: for the checks that only need many texts.
pub fn whole_modules(env: &mut Env, _: u64) {
    let d = env.r.range(2, 5);
    let cfg = Cfg { depth: d, width: 4, fuel: 12, tricky: 10, wild_literals: true, ..Cfg::default() };
    let many = env.r.pct(12);
    let n = if many { *env.r.pick(&[100, 128, 129, 200, 256, 257, 300, 512, 520]) } else { env.r.range(20, 60) };
    let mut g = Gen::new(&mut env.r, cfg);
    let mut m = g.module(0, d);
    for _ in 0..n {
        if g.r.pct(10) && !m.is_empty() {
            // the same declaration once more, at once or some way behind
            let back = if g.r.pct(60) { 1 } else { g.r.range(1, m.len()) };
            m.push(m[m.len() - back].clone());
            continue;
        }
        g.fuel = if many { 2 } else { 12 };
        let deep = if many { 1 } else { d };
        m.push(g.statement(deep));
    }
    if many {
        env.count("modules of over 100 declarations", 1);
    }
    let st = Style::random(&mut env.r);
    demand(env, &m, st);
    env.count("declarations", m.len() as u64);
    env.nontrivial(&format!("{:?}", m));
}
