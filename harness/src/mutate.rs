//! Damages texts: edits of tokens, lines, indentation and characters, and texts made of loose tokens.
use crate::rng::Rng;

/// A rough division into tokens: words, numbers, operators, brackets, quotes.
pub fn lex(s: &str) -> Vec<(usize, usize)> {
    let b: Vec<(usize, char)> = s.char_indices().collect();
    let mut out = vec![];
    let mut i = 0;
    let at = |k: usize| if k < b.len() { b[k].0 } else { s.len() };
    while i < b.len() {
        let c = b[i].1;
        let st = i;
        if c.is_whitespace() {
            i += 1;
            continue;
        }
        if c.is_alphanumeric() || c == '_' {
            while i < b.len() && (b[i].1.is_alphanumeric() || b[i].1 == '_') {
                i += 1;
            }
        } else if c.is_ascii() && crate::derive::is_op_char(c as u8) {
            while i < b.len() && b[i].1.is_ascii() && crate::derive::is_op_char(b[i].1 as u8) {
                i += 1;
            }
        } else {
            i += 1;
        }
        out.push((at(st), at(i)));
    }
    out
}

pub const VOCABULARY: &[&str] = &[
    "(", ")", "[", "]", "{", "}", ",", "|", "=", "->", ":", "..", ".", "\\", "_", "+", "-", "*", "::", "|>", "<|", "==", "--", "{-", "-}", "\"", "\"\"\"", "'", "''",
    "if", "then", "else", "case", "of", "let", "in", "module", "import", "exposing", "as", "type", "alias", "port", "where", "effect", "infix", "infixl", "infixr",
    "a", "b", "x", "f", "foo", "A", "B", "Foo", "A.B", "A.b", "a.b", ".a", "(+)", "(,)", "()", "[]", "{}", "1", "0", "-1", "+1", "1.5", "1e5", "0x1F", "\"s\"", "\"\"", "'c'", "'\\n'",
    "'\\u{1F600}'", "'\\u{D800}'", "'\\u{110000}'", "'\\xFF'", "'\\q'", "\"\\\"", "\"\"\"t\"\"\"", "99999999999999999999", "{ r | a = 1 }", "{ a = 1 }", "( a, b )", "(..)", "-- c\n", "{- c -}", "\n", "\n  ", "\n    ", "\n\n",
    "f = 1\n", "f : A\n", "import A\n", "type A = B\n", "\n  let\n", "\n  in\n", " in ", "`", ";", "@", "$", "~", "!", "#", "?", "&&", "||", "^", "%", "<", ">", "/", "//",
];

pub const ODD: &[&str] = &[
    "\t", "\r", "\r\n", "\0", "\u{7f}", "\u{a0}", "\u{2028}", "\u{feff}", "é", "É", "ß", "日", "😀", "e\u{301}", "\u{200d}", "\u{202e}", "ǅ", "²", "Ⅷ", "٣", "𝟙", "ª", "\u{10ffff}", "\u{b}", "\u{c}", "\u{85}", "\u{1680}",
    "\u{3000}", "‘", "’", "“", "”", "\\", "\"", "'", "`",
];

pub fn boundary(s: &str, mut i: usize) -> usize {
    while i < s.len() && !s.is_char_boundary(i) {
        i += 1;
    }
    i.min(s.len())
}

fn indent_of(l: &str) -> usize {
    l.len() - l.trim_start_matches(' ').len()
}

fn reindent(l: &str, d: i64) -> String {
    let k = (indent_of(l) as i64 + d).max(0) as usize;
    format!("{}{}", " ".repeat(k), l.trim_start_matches(' '))
}

/// Changes of indentation only.
pub fn reindent_some(s: &str, r: &mut Rng) -> String {
    let mut lines: Vec<String> = s.split('\n').map(|l| l.to_string()).collect();
    let n = lines.len();
    if n < 2 {
        return s.to_string();
    }
    let i = r.range(0, n - 1);
    let d = *r.pick(&[-4i64, -3, -2, -1, 1, 2, 3, 4]);
    match r.below(4) {
        0 | 1 => lines[i] = reindent(&lines[i], d),
        2 => {
            // to the column of another line
            let j = r.below(n);
            let k = indent_of(&lines[j]) as i64 - indent_of(&lines[i]) as i64;
            lines[i] = reindent(&lines[i], k);
        }
        _ => {
            // the line and those under it
            let base = indent_of(&lines[i]);
            let mut j = i;
            while j < n && (j == i || lines[j].trim().is_empty() || indent_of(&lines[j]) > base) {
                lines[j] = reindent(&lines[j], d);
                j += 1;
            }
        }
    }
    lines.join("\n")
}

/// One random edit.
pub fn mutate(s: &str, other: &str, r: &mut Rng) -> String {
    let toks = lex(s);
    let mut out = s.to_string();
    if toks.is_empty() {
        return r.pick(VOCABULARY).to_string();
    }
    let t = *r.pick(&toks);
    match r.below(19) {
        0 => {
            out.replace_range(t.0..t.1, if r.pct(50) { " " } else { "" });
        }
        1 => {
            let w = s[t.0..t.1].to_string();
            out.insert_str(t.1, &if r.pct(70) { format!(" {}", w) } else { w });
        }
        2 => {
            let u = *r.pick(&toks);
            let (a, b) = if t.0 < u.0 { (t, u) } else { (u, t) };
            if a.0 != b.0 {
                out = format!("{}{}{}{}{}", &s[..a.0], &s[b.0..b.1], &s[a.1..b.0], &s[a.0..a.1], &s[b.1..]);
            }
        }
        3 => {
            let i = r.below(toks.len());
            if i + 1 < toks.len() {
                let (a, b) = (toks[i], toks[i + 1]);
                out = format!("{}{}{}{}{}", &s[..a.0], &s[b.0..b.1], &s[a.1..b.0], &s[a.0..a.1], &s[b.1..]);
            }
        }
        4 | 5 => {
            let w = *r.pick(VOCABULARY);
            out.replace_range(t.0..t.1, w);
        }
        6 => {
            let u = *r.pick(&toks);
            let w = s[u.0..u.1].to_string();
            out.replace_range(t.0..t.1, &w);
        }
        7 | 8 => {
            let w = *r.pick(VOCABULARY);
            out.insert_str(t.0, &if r.pct(70) { format!("{} ", w) } else { w.to_string() });
        }
        9 => {
            // join two lines
            let nl: Vec<usize> = s.match_indices('\n').map(|x| x.0).collect();
            if !nl.is_empty() {
                let i = *r.pick(&nl);
                let e = i + 1 + indent_of(&s[i + 1..].split('\n').next().unwrap_or(""));
                out.replace_range(i..e, if r.pct(80) { " " } else { "" });
            }
        }
        10 => {
            // break a line
            let sp: Vec<usize> = s.match_indices(' ').map(|x| x.0).collect();
            if !sp.is_empty() {
                let i = *r.pick(&sp);
                let k = r.below(8);
                out.replace_range(i..i + 1, &format!("\n{}", " ".repeat(k)));
            }
        }
        11 | 12 => out = reindent_some(s, r),
        13 => {
            // drop, double or move a line
            let mut lines: Vec<&str> = s.split('\n').collect();
            let i = r.below(lines.len());
            match r.below(3) {
                0 => {
                    lines.remove(i);
                }
                1 => {
                    let l = lines[i];
                    lines.insert(i, l);
                }
                _ => {
                    let l = lines.remove(i);
                    let j = r.below(lines.len() + 1);
                    lines.insert(j, l);
                }
            }
            out = lines.join("\n");
        }
        14 => {
            let i = boundary(s, r.below(s.len() + 1));
            if r.pct(70) {
                out.truncate(i);
            } else {
                out = s[i..].to_string();
            }
        }
        15 => {
            // one character
            let i = boundary(s, r.below(s.len() + 1));
            if r.pct(50) && i < s.len() {
                let e = boundary(s, i + 1);
                out.replace_range(i..e, "");
            } else {
                let c = (b' ' + r.below(95) as u8) as char;
                out.insert(i, c);
            }
        }
        16 => {
            let i = boundary(s, r.below(s.len() + 1));
            out.insert_str(i, r.pick(ODD));
        }
        17 => {
            // graft a piece of another text
            let o = lex(other);
            if !o.is_empty() {
                let a = r.below(o.len());
                let b = (a + r.range(1, 8)).min(o.len()) - 1;
                let piece = &other[o[a].0..o[b].1];
                if r.pct(50) {
                    out.insert_str(t.0, &format!("{} ", piece));
                } else {
                    out.replace_range(t.0..t.1, piece);
                }
            }
        }
        _ => {
            // squeeze or widen a space
            let sp: Vec<usize> = s.match_indices(' ').map(|x| x.0).collect();
            if !sp.is_empty() {
                let i = *r.pick(&sp);
                out.replace_range(i..i + 1, if r.pct(60) { "" } else { "   " });
            }
        }
    }
    out
}

/// Loose tokens.
pub fn soup(r: &mut Rng) -> String {
    let n = r.range(1, 25);
    let mut s = String::new();
    match r.below(6) {
        0 => s.push_str("f = "),
        1 => s.push_str("f =\n  "),
        2 => s.push_str("type A = "),
        3 => s.push_str("f : "),
        _ => {}
    }
    for _ in 0..n {
        s.push_str(*r.pick(VOCABULARY));
        match r.below(10) {
            0 => {}
            1 => s.push('\n'),
            2 => s.push_str("\n  "),
            _ => s.push(' '),
        }
    }
    s
}

/// Short sentences close to the language: one construct with random parts, many of them wrong.
pub fn near_sentence(r: &mut Rng) -> String {
    const E: &[&str] = &[
        "a", "1", "-1", "1.5", "\"s\"", "'c'", "()", "[]", "{}", "(a)", "(a, b)", "[ a, b ]", "{ a = b }", "{ r | a = b }", "a.b", "A.b", ".a", "A", "A.B", "(+)", "f a b", "a + b", "a + b * c", "\\x -> a",
        "if a then b else c", "case a of A -> b", "let a = b in c", "if", "then", "", "a b =", "=", "_", "a as b", "(a as b)", "A a b", "f (g a) [ b ]", "a <| b", "a ++ \"s\"", "((a))", "f\n    a", "a\n  + b", "[ a\n  , b\n  ]",
    ];
    const T: &[&str] = &[
        "Int", "a", "List a", "A.B c", "a -> b", "(a -> b) -> c", "()", "(a, b)", "{}", "{ a : b }", "{ a | b : c }", "(List a)", "Dict a (List b)", "", "->", "a ->", "-> a", "1", "if", "a b", "(a", "List (Maybe a) -> b",
    ];
    let e = |r: &mut Rng| r.pick(E).to_string();
    let t = |r: &mut Rng| r.pick(T).to_string();
    match r.below(24) {
        0 => format!("f = {}\n", e(r)),
        1 => format!("f {} = {}\n", e(r), e(r)),
        2 => format!("f = if {} then {} else {}\n", e(r), e(r), e(r)),
        3 => format!("f = case {} of\n  {} -> {}\n  {} -> {}\n", e(r), e(r), e(r), e(r), e(r)),
        4 => format!("f = let {} = {} in {}\n", e(r), e(r), e(r)),
        5 => format!("f =\n  let\n    {} = {}\n    {} = {}\n  in\n    {}\n", e(r), e(r), e(r), e(r), e(r)),
        6 => format!("f = ({} , {})\n", e(r), e(r)),
        7 => format!("f = [{}, {}]\n", e(r), e(r)),
        8 => format!("f = {{ a = {}, b = {} }}\n", e(r), e(r)),
        9 => format!("f = {{ a | b = {} }}\n", e(r)),
        10 => format!("f = \\{} {} -> {}\n", e(r), e(r), e(r)),
        11 => format!("f = {} {} {}\n", e(r), e(r), e(r)),
        12 => format!("f = {} + {} :: {}\n", e(r), e(r), e(r)),
        13 => format!("f : {}\nf = {}\n", t(r), e(r)),
        14 => format!("type A {} = {} | {}\n", t(r), t(r), t(r)),
        15 => format!("type alias {} = {}\n", t(r), t(r)),
        16 => format!("port f : {}\n", t(r)),
        17 => format!("port {} = {}\n", e(r), e(r)),
        18 => format!("infixl {} {}\n", e(r), r.pick(&["+", "foo", "<|", "=", ".", "--", "A", "1"])),
        19 => {
            let w = r.pick(&["", " exposing (..)", " exposing (a)", " exposing (A(..))", " exposing (A(B, C), (+))", " as B", " as B exposing (a, b)", " as b", " exposing ()", " exposing a", " exposing (a,)", " exposing"]);
            let n = r.pick(&["A", "A.B", "a", "A.b", "A .B", "", "A.", "A.B.C"]);
            format!("{} {}{}\n", r.pick(&["import", "module", "port module", "effect module"]), n, w)
        }
        20 => format!("f = {}\ng = {}\n", e(r), e(r)),
        21 => format!("-- {}\nf = {} -- {}\n", e(r), e(r), e(r)),
        22 => format!("{{- {} -}}\nf = {}\n{{- {} -}}", e(r), e(r), e(r)),
        _ => format!("f =\n    {}\n        {}\n    {}\n", e(r), e(r), e(r)),
    }
}
