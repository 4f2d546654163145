//! Spells a tree as source text in one of the many layouts that the language gives it.
//!
//! A position inside a declaration has two bounds on the column at which a new line may begin: `m`,
//! one more than the column of the innermost block line (declaration, let entry or case branch) it
//! is part of, which is the rule of the language, and `ind`, the column of the line that the
//! innermost body began on, which is the rule of this parser.
use crate::gen::{comment_forms, Cfg, Gen};
use crate::model::*;
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub struct Style {
    /// Per cent of the places for a line break that get one.
    pub nl: u32,
    /// Per cent of optional spaces left out.
    pub tight: u32,
    /// Per cent of line breaks with a comment.
    pub comment: u32,
    /// Per cent of line breaks with blank lines.
    pub blank: u32,
    /// Per cent of lines with trailing spaces.
    pub trail: u32,
    /// Per cent of nodes with redundant parentheses.
    pub parens: u32,
    /// Per cent of spaces that are more than one.
    pub wide: u32,
    /// Per cent of lines indented by more than needed.
    pub deep: u32,
    /// Per cent of single branches and entries kept on the line of `of` and `let`.
    pub inline: u32,
    /// Comments between parts are plain words.
    pub plain_comments: bool,
    /// Per cent of lines indented very far, a few times in a text.
    pub far: u32,
}

impl Style {
    pub fn flat() -> Style {
        Style { nl: 0, tight: 0, comment: 0, blank: 0, trail: 0, parens: 0, wide: 0, deep: 30, inline: 0, plain_comments: true, far: 0 }
    }
    pub fn pretty() -> Style {
        Style { nl: 25, tight: 5, comment: 4, blank: 4, trail: 2, parens: 4, wide: 3, deep: 60, inline: 10, plain_comments: false, far: 0 }
    }
    pub fn wild() -> Style {
        Style { nl: 40, tight: 35, comment: 14, blank: 14, trail: 12, parens: 12, wide: 25, deep: 40, inline: 40, plain_comments: false, far: 0 }
    }
    pub fn random(r: &mut Rng) -> Style {
        match r.below(5) {
            0 => Style::flat(),
            1 | 2 => Style::pretty(),
            3 => Style::wild(),
            _ => Style {
                nl: *r.pick(&[0, 5, 15, 30, 60]),
                tight: *r.pick(&[0, 20, 100]),
                comment: *r.pick(&[0, 0, 10, 40]),
                blank: *r.pick(&[0, 0, 10, 40]),
                trail: *r.pick(&[0, 0, 10, 40]),
                parens: *r.pick(&[0, 0, 5, 25]),
                wide: *r.pick(&[0, 10, 50]),
                deep: *r.pick(&[0, 30, 80]),
                inline: *r.pick(&[0, 30, 100]),
                plain_comments: r.pct(50),
                far: *r.pick(&[0, 0, 0, 0, 0, 20]),
            },
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    Open,
    Close,
    Comma,
    Kw,
    Arrow,
    /// The arrow of a type.
    TypeArrow,
    Eq,
    Bar,
    Colon,
    Op,
    Lower,
    Upper,
    Number,
    Text,
    Char,
    Backslash,
    Dot,
    Comment,
    BlockComment,
    /// The comments inside a declaration.
    Inner,
}

#[derive(Clone, Copy, Debug)]
pub struct Tok {
    pub start: usize,
    pub end: usize,
    pub k: K,
    /// Index of the declaration.
    pub st: usize,
}

/// A case branch or let entry that begins on its own line.
#[derive(Clone, Copy, Debug)]
pub struct Line {
    pub block: usize,
    pub index: usize,
    pub of: usize,
    /// Where its first token is.
    pub start: usize,
    pub col: usize,
    pub is_case: bool,
    /// Columns of the line before it at the same block level and of the enclosing block line.
    pub outer: usize,
    pub st: usize,
    /// Where its last token ends.
    pub end: usize,
}

#[derive(Clone, Copy)]
pub struct Cx {
    pub ind: usize,
    pub m: usize,
    pub flat: bool,
    pub pat: bool,
}

#[derive(Clone, Copy, PartialEq, PartialOrd)]
pub enum P {
    Term,
    App,
    Any,
}

pub struct Printer {
    pub out: String,
    line_start: usize,
    pub r: Rng,
    pub s: Style,
    pub toks: Vec<Tok>,
    pub lines: Vec<Line>,
    /// Definitions under a signature.
    pub defs: Vec<Line>,
    /// Operators and arrows at the start of a line: where, the column they may not be left of, and their
    /// declaration.
    pub heads: Vec<(usize, usize, usize)>,
    /// Columns of the branches and entries on the line of their `of` or `let`, with their declaration.
    pub inline_cols: Vec<(usize, usize)>,
    /// How many more lines may be indented very far.
    pub fars: usize,
    /// How many more line breaks may be followed by very many lines of nothing.
    pub gaps: usize,
    /// Start and end of each declaration.
    pub stmts: Vec<(usize, usize)>,
    blocks: usize,
    pub inner_comments: usize,
    pub line_breaks: usize,
    pub extra_parens: usize,
}

fn is_op(name: &str) -> bool {
    let c = name.chars().next().unwrap();
    !c.is_ascii_alphabetic() && c != '_'
}

impl Printer {
    pub fn new(r: Rng, s: Style) -> Printer {
        Printer {
            out: String::new(),
            line_start: 0,
            r,
            s,
            toks: vec![],
            lines: vec![],
            defs: vec![],
            heads: vec![],
            inline_cols: vec![],
            fars: 4,
            gaps: 1,
            stmts: vec![],
            blocks: 0,
            inner_comments: 0,
            line_breaks: 0,
            extra_parens: 0,
        }
    }

    /// Columns count characters here: what precedes a token on its line can be beyond ASCII.
    fn col(&self) -> usize {
        self.out[self.line_start..].chars().count()
    }

    fn raw(&mut self, s: &str) {
        for (i, c) in s.char_indices() {
            if c == '\n' {
                self.line_start = self.out.len() + i + 1;
            }
        }
        self.out.push_str(s);
    }

    fn tok(&mut self, s: &str, k: K) {
        let start = self.out.len();
        self.raw(s);
        let st = self.stmts.len();
        self.toks.push(Tok { start, end: self.out.len(), k, st });
    }

    fn kw(&mut self, s: &'static str) {
        self.tok(s, K::Kw)
    }

    fn pad(&mut self, n: usize) {
        for _ in 0..n {
            self.out.push(' ');
        }
    }

    fn sp(&mut self) {
        let n = if !self.r.pct(self.s.wide) {
            1
        } else if self.r.pct(2) {
            *self.r.pick(&[9, 17, 33, 65, 101, 129, 257])
        } else {
            self.r.range(2, 4)
        };
        self.pad(n)
    }

    fn osp(&mut self) {
        if !self.r.pct(self.s.tight) {
            self.sp()
        }
    }

    fn trail(&mut self) {
        if self.r.pct(self.s.trail) {
            let n = if self.r.pct(12) { *self.r.pick(&[8, 9, 16, 31, 40, 80, 256, 300]) } else { self.r.range(1, 3) };
            self.pad(n)
        }
    }

    fn choose_col(&mut self, min: usize) -> usize {
        if self.s.far > 0 && self.fars > 0 && self.r.pct(self.s.far) {
            self.fars -= 1;
            return min
                + match self.r.below(40) {
                    0 => 65536 - self.r.below(3),
                    1..=20 => 256 - self.r.below(3),
                    21..=30 => 128 - self.r.below(3),
                    _ => self.r.range(64, 600),
                };
        }
        if self.r.pct(self.s.deep) {
            let w = if min > 60 { 2 } else { 8 };
            min + *self.r.pick(&[1, 2, 3, 4, 4, 4, 8]).min(&w)
        } else {
            min
        }
    }

    /// Ends the line and begins another at `col`.
    fn break_to(&mut self, col: usize, comments: bool) {
        self.line_breaks += 1;
        if comments && self.r.pct(self.s.comment) {
            let n = if self.r.pct(80) { 1 } else { 2 };
            for i in 0..n {
                if i == 0 && self.r.pct(50) {
                    let k = self.r.range(1, 2);
                    self.pad(k)
                } else {
                    self.raw("\n");
                    let k = self.r.below(8);
                    self.pad(k)
                }
                let text = if self.s.plain_comments {
                    " note".to_string()
                } else {
                    Gen::new(&mut self.r, Cfg::default()).comment_line()
                };
                self.tok(&format!("--{}", text), K::Inner);
                self.inner_comments += 1;
            }
        } else {
            self.trail();
        }
        self.raw("\n");
        if self.gaps > 0 && (self.s.blank > 0 || self.s.comment > 0) && self.r.pct(1) {
            self.gaps -= 1;
            self.gap(comments);
        }
        while self.r.pct(self.s.blank) {
            self.trail();
            self.raw("\n");
        }
        self.pad(col)
    }

    /// Very many lines that hold nothing or a comment.
    fn gap(&mut self, comments: bool) {
        let n = *self.r.pick(&[17, 33, 65, 101, 129, 257, 300]) - self.r.below(3);
        let notes = comments && self.s.comment > 0;
        let share = match (notes, self.s.blank > 0) {
            (true, true) => *self.r.pick(&[0, 50, 100]),
            (true, false) => 100,
            _ => 0,
        };
        for _ in 0..n {
            if self.r.pct(share) {
                let k = self.r.below(8);
                self.pad(k);
                self.tok("-- note", K::Inner);
                self.inner_comments += 1;
            } else {
                self.trail();
            }
            self.raw("\n");
        }
    }

    /// White space that must be there. Gives the parser's new indentation.
    fn ws(&mut self, min: usize, cx: Cx) -> usize {
        let min = min.max(cx.m);
        if !cx.flat && self.r.pct(self.s.nl) {
            let c = self.choose_col(min);
            self.break_to(c, true);
            c
        } else {
            self.sp();
            cx.ind
        }
    }

    fn gte(&mut self, cx: Cx) -> usize {
        self.ws(cx.ind, cx)
    }

    fn gt(&mut self, cx: Cx) -> usize {
        self.ws(cx.ind + 1, cx)
    }

    /// White space that need not be there.
    fn ows(&mut self, cx: Cx) {
        if self.r.pct(self.s.tight) {
            return;
        }
        self.gte(cx);
    }

    /// White space at any column the language allows.
    fn mws(&mut self, cx: Cx, optional: bool) {
        if optional && self.r.pct(self.s.tight) {
            return;
        }
        if !cx.flat && self.r.pct(self.s.nl) {
            let c = self.choose_col(cx.m);
            self.break_to(c, true);
        } else {
            self.sp()
        }
    }

    // Expressions

    fn name(&mut self, n: &str) {
        if is_op(n) {
            self.tok("(", K::Open);
            let k = if n.starts_with(',') { K::Comma } else { K::Op };
            self.tok(n, k);
            self.tok(")", K::Close);
        } else {
            self.tok(n, if n.starts_with(|c: char| c.is_ascii_uppercase()) { K::Upper } else { K::Lower })
        }
    }

    fn dotted(&mut self, v: &[String]) {
        for (i, n) in v.iter().enumerate() {
            if i > 0 {
                self.tok(".", K::Dot);
            }
            self.name(n);
        }
    }

    pub fn string_forms(s: &str) -> (bool, bool) {
        let mut single = true;
        let mut triple = true;
        let b: Vec<char> = s.chars().collect();
        let mut i = 0;
        let mut quotes = 0;
        while i < b.len() {
            match b[i] {
                '\\' => {
                    quotes = 0;
                    if i + 1 >= b.len() {
                        single = false;
                        triple = false;
                    } else if b[i + 1] == '\n' {
                        single = false;
                    }
                    i += 1;
                }
                '"' => {
                    single = false;
                    quotes += 1;
                    if quotes > 2 {
                        triple = false;
                    }
                }
                '\n' => {
                    single = false;
                    quotes = 0;
                }
                _ => quotes = 0,
            }
            i += 1;
        }
        if quotes > 0 {
            triple = false;
        }
        (single, triple)
    }

    fn string(&mut self, s: &str) {
        let (single, triple) = Printer::string_forms(s);
        assert!(single || triple, "no spelling for {:?}", s);
        let use_triple = triple && (!single || self.r.pct(10));
        let t = if use_triple { format!("\"\"\"{}\"\"\"", s) } else { format!("\"{}\"", s) };
        self.tok(&t, K::Text);
    }

    fn character(&mut self, c: char) {
        let mut forms: Vec<String> = vec![];
        match c {
            '\n' => forms.push("\\n".into()),
            '\r' => forms.push("\\r".into()),
            '\t' => forms.push("\\t".into()),
            '\\' => forms.push("\\\\".into()),
            '\'' => forms.push("\\'".into()),
            '"' => {
                forms.push("\\\"".into());
                forms.push("\"".into());
            }
            c => {
                forms.push(c.to_string());
                forms.push(c.to_string());
                forms.push(c.to_string());
            }
        }
        let n = c as u32;
        if n <= 0xff {
            forms.push(format!("\\x{:02x}", n));
            forms.push(format!("\\x{:02X}", n));
        }
        forms.push(format!("\\u{{{:04X}}}", n));
        forms.push(format!("\\u{{{:x}}}", n));
        let f = self.r.pick(&forms).clone();
        self.tok(&format!("'{}'", f), K::Char);
    }

    fn level(e: &Expression) -> P {
        use Expression::*;
        match e {
            If(..) | Let(..) | Case(..) | Lambda(..) | BinOp(..) => P::Any,
            Application(..) => P::App,
            _ => P::Term,
        }
    }

    pub fn expr(&mut self, e: &Expression, p: P, cx: Cx) {
        if Printer::level(e) > p {
            self.bracketed(e, cx)
        } else if self.r.pct(self.s.parens) {
            self.extra_parens += 1;
            self.bracketed(e, cx)
        } else {
            self.bare(e, cx)
        }
    }

    fn bracketed(&mut self, e: &Expression, cx: Cx) {
        self.tok("(", K::Open);
        self.mws_in(cx, false);
        self.expr(e, P::Any, cx);
        self.mws_in(cx, false);
        self.tok(")", K::Close);
    }

    /// Inside round brackets: usually nothing.
    fn mws_in(&mut self, cx: Cx, spaced: bool) {
        if spaced || self.r.pct(25) {
            self.mws(cx, true)
        }
    }

    fn bare(&mut self, e: &Expression, cx: Cx) {
        use Expression::*;
        match e {
            Character(c) => self.character(*c),
            String(s) => self.string(s),
            Integer(s) | Float(s) => self.tok(s, K::Number),
            Variable(v) => self.dotted(v),
            Access(b, names) => {
                if matches!(**b, Variable(_)) {
                    self.expr(b, P::Term, cx);
                } else {
                    self.bracketed(b, cx);
                }
                for n in names {
                    self.tok(".", K::Dot);
                    self.tok(n, K::Lower);
                }
            }
            AccessFunction(n) => {
                self.tok(".", K::Dot);
                self.tok(n, K::Lower);
            }
            Tuple(v) => {
                self.tok("(", K::Open);
                for (i, e) in v.iter().enumerate() {
                    if i > 0 {
                        self.tok(",", K::Comma);
                    }
                    self.mws_in(cx, i > 0);
                    self.expr(e, P::Any, cx);
                    self.mws_in(cx, false);
                }
                if v.is_empty() {
                    self.mws_in(cx, false);
                }
                self.tok(")", K::Close);
            }
            List(v) => {
                self.tok("[", K::Open);
                if v.is_empty() {
                    if self.r.pct(20) {
                        self.ows(cx)
                    }
                } else {
                    self.ows(cx);
                }
                for (i, e) in v.iter().enumerate() {
                    if i > 0 {
                        self.comma(cx);
                    }
                    self.expr(e, P::Any, cx);
                }
                if !v.is_empty() {
                    self.ows(cx);
                }
                self.tok("]", K::Close);
            }
            Record(f) if cx.pat && !f.is_empty() => {
                self.tok("{", K::Open);
                for (i, (n, _)) in f.iter().enumerate() {
                    if i > 0 {
                        self.tok(",", K::Comma);
                    }
                    self.mws(cx, true);
                    self.tok(n, K::Lower);
                    self.mws_in(cx, i + 1 == f.len());
                }
                self.tok("}", K::Close);
            }
            Record(f) => {
                self.tok("{", K::Open);
                if f.is_empty() {
                    if self.r.pct(20) {
                        self.ows(cx)
                    }
                } else {
                    self.ows(cx);
                }
                for (i, (n, e)) in f.iter().enumerate() {
                    if i > 0 {
                        self.comma(cx);
                    }
                    self.tok(n, K::Lower);
                    self.ows(cx);
                    self.tok("=", K::Eq);
                    self.after_eq(e, cx, true);
                }
                if !f.is_empty() {
                    self.ows(cx);
                }
                self.tok("}", K::Close);
            }
            RecordUpdate(n, f) => {
                self.tok("{", K::Open);
                self.ows(cx);
                self.tok(n, K::Lower);
                self.ows(cx);
                self.tok("|", K::Bar);
                self.mws(cx, true);
                for (i, (n, e)) in f.iter().enumerate() {
                    if i > 0 {
                        self.comma(cx);
                    }
                    self.tok(n, K::Lower);
                    self.mws(cx, true);
                    self.tok("=", K::Eq);
                    self.after_eq(e, cx, false);
                }
                self.ows(cx);
                self.tok("}", K::Close);
            }
            If(a, b, c) => {
                self.kw("if");
                self.gte(cx);
                self.expr(a, P::Any, cx);
                self.gte(cx);
                self.kw("then");
                let ind = self.gte(cx);
                self.expr(b, P::Any, Cx { ind, ..cx });
                self.gte(cx);
                self.kw("else");
                let ind = self.gte(cx);
                self.expr(c, P::Any, Cx { ind, ..cx });
            }
            Lambda(args, body) => {
                self.tok("\\", K::Backslash);
                if self.r.pct(12) {
                    self.sp();
                }
                for (i, a) in args.iter().enumerate() {
                    if i > 0 {
                        self.sp();
                    }
                    self.pattern_arg(a, cx);
                }
                self.gte(cx);
                self.starts(cx);
        self.tok("->", K::Arrow);
                let ind = self.gte(cx);
                self.expr(body, P::Any, Cx { ind, ..cx });
            }
            Application(f, a) => {
                self.expr(f, P::App, cx);
                self.gt(cx);
                self.expr(a, P::Term, cx);
            }
            BinOp(op, l, r) => {
                self.expr(l, P::App, cx);
                self.gte(cx);
                let op = match &**op {
                    Variable(v) => v[0].clone(),
                    _ => panic!("operator"),
                };
                if op == "as" {
                    self.kw("as");
                } else {
                    self.starts(cx);
                    self.tok(&op, K::Op);
                }
                self.mws(cx, false);
                self.expr(r, P::Any, cx);
            }
            Case(e, bs) => {
                self.kw("case");
                self.gte(cx);
                self.expr(e, P::Any, cx);
                self.gte(cx);
                self.kw("of");
                if bs.len() == 1 && self.r.pct(self.s.inline) {
                    self.sp();
                    let c = Cx { ind: cx.ind, m: self.col() + 1, flat: cx.flat, pat: cx.pat };
                    self.inline_cols.push((self.stmts.len(), self.col()));
                    self.branch(&bs[0], c);
                    return;
                }
                let min = cx.ind.max(cx.m);
                let col = self.choose_col(min);
                let block = self.blocks;
                self.blocks += 1;
                for (i, b) in bs.iter().enumerate() {
                    self.break_to(col, true);
                    let l = self.line(block, i, bs.len(), col, true, cx);
                    self.branch(b, Cx { ind: col, m: col + 1, flat: cx.flat, pat: cx.pat });
                    self.lines[l].end = self.out.len();
                }
            }
            Let(es, body) => {
                self.kw("let");
                let inlinable = match &es[0] {
                    LetEntry::LetFunction(f) => f.signature.is_none(),
                    _ => true,
                };
                if es.len() == 1 && inlinable && self.r.pct(self.s.inline) {
                    self.sp();
                    let c = Cx { ind: cx.ind, m: self.col() + 1, flat: cx.flat, pat: cx.pat };
                    self.inline_cols.push((self.stmts.len(), self.col()));
                    self.entry(&es[0], c);
                } else {
                    let min = cx.ind.max(cx.m);
                    let col = self.choose_col(min);
                    let block = self.blocks;
                    self.blocks += 1;
                    for (i, e) in es.iter().enumerate() {
                        self.break_to(col, true);
                        let l = self.line(block, i, es.len(), col, false, cx);
                        self.entry(e, Cx { ind: col, m: col + 1, flat: cx.flat, pat: cx.pat });
                        self.lines[l].end = self.out.len();
                    }
                }
                if es.len() > 1 && self.r.pct(60) {
                    let c = self.choose_col(cx.ind.max(cx.m));
                    self.break_to(c, true);
                } else {
                    self.gte(cx);
                }
                self.kw("in");
                self.gte(cx);
                self.expr(body, P::Any, cx);
            }
        }
    }

    fn starts(&mut self, cx: Cx) {
        if self.out[self.line_start..].bytes().all(|c| c == b' ') {
            self.heads.push((self.out.len(), cx.ind, self.stmts.len()));
        }
    }

    fn line(&mut self, block: usize, index: usize, of: usize, col: usize, is_case: bool, cx: Cx) -> usize {
        let start = self.out.len();
        let st = self.stmts.len();
        self.lines.push(Line { block, index, of, start, col, is_case, outer: cx.m - 1, st, end: 0 });
        self.lines.len() - 1
    }

    fn comma(&mut self, cx: Cx) {
        if self.r.pct(60) {
            if !cx.flat && self.r.pct(self.s.nl) {
                self.gte(cx);
            }
        } else {
            self.ows(cx);
        }
        self.tok(",", K::Comma);
        self.ows(cx);
    }

    fn after_eq(&mut self, e: &Expression, cx: Cx, comments: bool) {
        // "=-" and the like are other tokens to a reader
        if comments {
            if self.symbol_first(e) {
                self.gte(cx);
            } else {
                self.ows(cx);
            }
        } else {
            let o = !self.symbol_first(e);
            self.mws(cx, o);
        }
        self.expr(e, P::Any, cx);
    }

    fn symbol_first(&self, e: &Expression) -> bool {
        use Expression::*;
        match e {
            Integer(s) | Float(s) => s.starts_with('-') || s.starts_with('+'),
            AccessFunction(_) | Lambda(..) => true,
            Application(f, _) => self.symbol_first(f),
            BinOp(_, l, _) => self.symbol_first(l),
            _ => false,
        }
    }

    fn branch(&mut self, b: &(Expression, Expression), cx: Cx) {
        self.pattern(&b.0, P::Any, cx);
        self.gte(cx);
        self.starts(cx);
        self.tok("->", K::Arrow);
        let ind = self.gte(cx);
        self.expr(&b.1, P::Any, Cx { ind, ..cx });
    }

    fn pattern(&mut self, e: &Expression, p: P, cx: Cx) {
        let flat = cx.flat || !self.r.pct(15);
        self.expr(e, p, Cx { pat: true, flat, ..cx })
    }

    fn pattern_arg(&mut self, e: &Expression, cx: Cx) {
        self.pattern(e, P::Term, cx)
    }

    fn entry(&mut self, e: &LetEntry, cx: Cx) {
        match e {
            LetEntry::LetFunction(f) => self.function(f, cx),
            LetEntry::LetBinding(t, e) => {
                self.pattern(t, P::Term, cx);
                self.gte(cx);
                self.tok("=", K::Eq);
                let ind = self.gte(cx);
                self.expr(e, P::Any, Cx { ind, ..cx });
            }
        }
    }

    pub fn function(&mut self, f: &Function, cx: Cx) {
        let col = self.col();
        if let Some(s) = &f.signature {
            self.name(&s.name);
            self.sp();
            self.tok(":", K::Colon);
            let ind = self.gt(cx);
            self.ty(&s.type_, T::Any, Cx { ind, ..cx });
            if self.r.pct(70) {
                self.trail();
                self.raw("\n");
                self.pad(col);
            } else {
                self.break_to(col, true);
            }
        }
        let d = &f.definition;
        if f.signature.is_some() {
            self.defs.push(Line { block: 0, index: 0, of: 1, start: self.out.len(), col, is_case: false, outer: 0, st: self.stmts.len(), end: 0 });
        }
        self.name(&d.name);
        for a in &d.args {
            self.sp();
            self.pattern_arg(a, cx);
        }
        self.sp();
        self.tok("=", K::Eq);
        let ind = self.gt(cx);
        self.expr(&d.body, P::Any, Cx { ind, pat: false, ..cx });
    }

    // Types

    fn tlevel(t: &Type) -> T {
        match t {
            Type::TypeApplication(..) => T::Any,
            Type::TypeConstructor(_, a) if !a.is_empty() => T::Operand,
            _ => T::Arg,
        }
    }

    pub fn ty(&mut self, t: &Type, p: T, cx: Cx) {
        if Printer::tlevel(t) > p || (self.r.pct(self.s.parens) && {
            self.extra_parens += 1;
            true
        }) {
            self.tok("(", K::Open);
            if self.r.pct(20) {
                self.ows(cx);
            }
            self.ty(t, T::Any, cx);
            if self.r.pct(20) {
                self.ows(cx);
            }
            self.tok(")", K::Close);
            return;
        }
        match t {
            Type::TypeVariable(n) => self.tok(n, K::Lower),
            Type::TypeConstructor(n, args) => {
                self.dotted(n);
                for a in args {
                    let ind = self.gt(cx);
                    self.ty(a, T::Arg, Cx { ind, ..cx });
                }
            }
            Type::TypeApplication(a, b) => {
                self.ty(a, T::Operand, cx);
                self.mws(cx, false);
                self.tok("->", K::TypeArrow);
                self.mws(cx, false);
                self.ty(b, T::Any, cx);
            }
            Type::TypeTuple(v) => {
                self.tok("(", K::Open);
                if !v.is_empty() {
                    self.ows(cx);
                }
                for (i, t) in v.iter().enumerate() {
                    if i > 0 {
                        self.comma(cx);
                    }
                    self.ty(t, T::Any, cx);
                }
                if !v.is_empty() {
                    self.ows(cx);
                }
                self.tok(")", K::Close);
            }
            Type::TypeRecord(f) => {
                self.tok("{", K::Open);
                if !f.is_empty() || self.r.pct(20) {
                    self.ows(cx);
                }
                self.type_fields(f, cx);
                self.tok("}", K::Close);
            }
            Type::TypeRecordConstructor(v, f) => {
                self.tok("{", K::Open);
                self.ows(cx);
                match &**v {
                    Type::TypeVariable(n) => self.tok(n, K::Lower),
                    _ => panic!("extensible record of a type that is no variable"),
                }
                self.ows(cx);
                self.tok("|", K::Bar);
                self.ows(cx);
                self.type_fields(f, cx);
                self.tok("}", K::Close);
            }
        }
    }

    fn type_fields(&mut self, f: &[(String, Type)], cx: Cx) {
        for (i, (n, t)) in f.iter().enumerate() {
            if i > 0 {
                self.comma(cx);
            }
            self.tok(n, K::Lower);
            self.ows(cx);
            self.tok(":", K::Colon);
            self.ows(cx);
            self.ty(t, T::Any, cx);
        }
        if !f.is_empty() {
            self.ows(cx);
        }
    }

    fn head(&mut self, t: &Type, cx: Cx, breaks: bool) {
        match t {
            Type::TypeConstructor(n, args) => {
                self.dotted(n);
                for a in args {
                    if breaks {
                        self.gt(cx);
                    } else {
                        self.sp();
                    }
                    match a {
                        Type::TypeVariable(n) => self.tok(n, K::Lower),
                        _ => panic!("type parameter"),
                    }
                }
            }
            _ => panic!("type head"),
        }
    }

    // Declarations

    fn exports(&mut self, e: &ExportSet, cx: Cx) {
        self.tok("(", K::Open);
        if self.r.pct(25) {
            self.ows(cx);
        }
        match e {
            ExportSet::AllExport => self.tok("..", K::Op),
            ExportSet::SubsetExport(v) => {
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        if self.r.pct(30) {
                            self.mws(cx, true);
                        }
                        self.tok(",", K::Comma);
                        self.mws(cx, true);
                    }
                    match x {
                        ExportSet::FunctionExport(n) => self.name(n),
                        ExportSet::TypeExport(n, None) => self.name(n),
                        ExportSet::TypeExport(n, Some(s)) => {
                            self.name(n);
                            if self.r.pct(10) {
                                self.sp();
                            }
                            self.tok("(", K::Open);
                            self.mws_in(cx, false);
                            match &**s {
                                ExportSet::AllExport => self.tok("..", K::Op),
                                ExportSet::SubsetExport(v) => {
                                    for (i, x) in v.iter().enumerate() {
                                        if i > 0 {
                                            self.mws_in(cx, false);
                                            self.tok(",", K::Comma);
                                            self.mws(cx, true);
                                        }
                                        match x {
                                            ExportSet::FunctionExport(n) => self.name(n),
                                            _ => panic!("constructor"),
                                        }
                                    }
                                }
                                _ => panic!("constructors"),
                            }
                            self.mws_in(cx, false);
                            self.tok(")", K::Close);
                        }
                        _ => panic!("exposed item"),
                    }
                }
            }
            _ => panic!("exposing list"),
        }
        if self.r.pct(25) {
            self.ows(cx);
        }
        self.tok(")", K::Close);
    }

    pub fn statement(&mut self, s: &Statement) {
        let cx = Cx { ind: 0, m: 1, flat: false, pat: false };
        let start = self.out.len();
        match s {
            Statement::Comment(t) => {
                let (line, block) = comment_forms(t);
                assert!(line || block, "no spelling for comment {:?}", t);
                if line && (!block || self.r.pct(50)) {
                    self.tok(&format!("--{}", t), K::Comment);
                } else {
                    self.tok(&format!("{{-{}-}}", t), K::BlockComment);
                }
            }
            Statement::Function(f) => self.function(f, cx),
            Statement::ModuleDeclaration(n, e) => {
                self.kw("module");
                self.gt(cx);
                self.header_rest(n, e, cx)
            }
            Statement::PortModuleDeclaration(n, e) => {
                self.kw("port");
                self.gt(cx);
                self.kw("module");
                self.gt(cx);
                self.header_rest(n, e, cx)
            }
            Statement::EffectModuleDeclaration(n, w, e) => {
                self.kw("effect");
                self.gt(cx);
                self.kw("module");
                self.gt(cx);
                self.dotted(n);
                self.gt(cx);
                self.kw("where");
                self.gt(cx);
                self.tok("{", K::Open);
                self.osp();
                for (i, (a, b)) in w.iter().enumerate() {
                    if i > 0 {
                        if self.r.pct(20) {
                            self.osp();
                        }
                        self.tok(",", K::Comma);
                        self.osp();
                    }
                    self.tok(a, K::Lower);
                    self.osp();
                    self.tok("=", K::Eq);
                    self.osp();
                    self.tok(b, K::Upper);
                }
                if !w.is_empty() {
                    self.osp();
                }
                self.tok("}", K::Close);
                self.gt(cx);
                self.kw("exposing");
                self.gt(cx);
                self.exports(e, cx);
            }
            Statement::ImportStatement(n, alias, ex) => {
                self.kw("import");
                self.sp();
                self.dotted(n);
                if let Some(a) = alias {
                    self.gt(cx);
                    self.kw("as");
                    self.gt(cx);
                    self.tok(a, K::Upper);
                }
                if let Some(e) = ex {
                    self.gt(cx);
                    self.kw("exposing");
                    self.gt(cx);
                    self.exports(e, cx);
                }
            }
            Statement::TypeAliasDeclaration(h, t) => {
                self.kw("type");
                self.sp();
                self.kw("alias");
                self.sp();
                let breaks = self.r.pct(20);
                self.head(h, cx, breaks);
                self.sp();
                self.tok("=", K::Eq);
                let c = Cx { ind: 1, ..cx };
                self.gte(c);
                self.ty(t, T::Any, c);
            }
            Statement::TypeDeclaration(h, cs) => {
                self.kw("type");
                self.sp();
                let breaks = self.r.pct(20);
                self.head(h, cx, breaks);
                let ind = self.gt(cx);
                self.tok("=", K::Eq);
                let c = Cx { ind, ..cx };
                self.gte(c);
                for (i, k) in cs.iter().enumerate() {
                    if i > 0 {
                        self.gte(c);
                        self.tok("|", K::Bar);
                        if self.r.pct(20) {
                            self.gte(c);
                        } else {
                            self.sp();
                        }
                    }
                    let parens = self.s.parens;
                    match k {
                        Type::TypeConstructor(n, args) => {
                            self.dotted(n);
                            for a in args {
                                let ind = self.gt(c);
                                self.ty(a, T::Arg, Cx { ind, ..c });
                            }
                        }
                        _ => panic!("constructor"),
                    }
                    self.s.parens = parens;
                }
            }
            Statement::PortTypeDeclaration(n, t) => {
                self.kw("port");
                self.sp();
                self.tok(n, K::Lower);
                self.sp();
                self.tok(":", K::Colon);
                let ind = self.gt(cx);
                self.ty(t, T::Any, Cx { ind, ..cx });
            }
            Statement::PortDeclaration(n, args, e) => {
                self.kw("port");
                self.sp();
                self.tok(n, K::Lower);
                for a in args {
                    self.sp();
                    self.tok(a, K::Lower);
                }
                self.sp();
                self.tok("=", K::Eq);
                let ind = self.gt(cx);
                self.expr(e, P::Any, Cx { ind, ..cx });
            }
            Statement::InfixDeclaration(a, p, n) => {
                self.kw(match a {
                    Assoc::N => "infix",
                    Assoc::L => "infixl",
                    Assoc::R => "infixr",
                });
                self.sp();
                self.tok(&p.to_string(), K::Number);
                self.sp();
                self.tok(n, if is_op(n) { K::Op } else { K::Lower });
            }
        }
        self.stmts.push((start, self.out.len()));
    }

    fn header_rest(&mut self, n: &[String], e: &ExportSet, cx: Cx) {
        self.dotted(n);
        self.gt(cx);
        self.kw("exposing");
        self.gt(cx);
        self.exports(e, cx);
    }

    pub fn between(&mut self) {
        self.trail();
        self.raw("\n");
        let n = if self.r.pct(50) { 1 } else { self.r.below(4) };
        for _ in 0..n {
            self.trail();
            self.raw("\n");
        }
    }

    pub fn module(&mut self, v: &[Statement]) {
        if self.r.pct(10) {
            self.between();
        }
        for (i, s) in v.iter().enumerate() {
            if i > 0 {
                let is_comment = matches!(s, Statement::Comment(_));
                let prev_line = self.toks.last().map(|t| t.k == K::Comment) == Some(true);
                if is_comment && !prev_line && self.r.pct(15) {
                    self.sp();
                } else {
                    // a line comment runs to the end of its line, trailing spaces and all
                    if prev_line {
                        self.raw("\n");
                        if self.r.pct(30) {
                            self.between();
                        }
                    } else {
                        self.between();
                    }
                    if is_comment && self.r.pct(8) {
                        let k = self.r.range(1, 6);
                        self.pad(k);
                    }
                }
            }
            self.statement(s);
        }
        let ends_in_comment = self.toks.last().map(|t| t.k == K::Comment) == Some(true);
        if !self.r.pct(20) {
            if !ends_in_comment {
                self.trail();
            }
            self.raw("\n");
        }
        if self.r.pct(10) {
            if !ends_in_comment || self.out.ends_with('\n') {
                self.between();
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq, PartialOrd)]
pub enum T {
    Arg,
    Operand,
    Any,
}

/// The text of a module in a random layout of the given style.
pub fn print(v: &[Statement], r: Rng, s: Style) -> Printer {
    let mut p = Printer::new(r, s);
    p.module(v);
    p
}
