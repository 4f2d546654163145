//! Random trees of the language: names, literals, expressions, patterns, types, declarations.
use crate::model::*;
use crate::rng::Rng;

pub const RESERVED: &[&str] = &[
    "module", "where", "import", "as", "exposing", "type", "alias", "port", "if", "then", "else", "let", "in", "case",
    "of",
];
pub const RESERVED_OPS: &[&str] = &["=", ".", "..", "->", "--", "|", ":", "\\"];

const LOWER: &[&str] = &[
    "a", "b", "x", "y", "f", "g", "n", "acc", "model", "msg", "list", "update", "view", "isToggled", "onClick", "value",
    "foo_bar", "x1", "a0", "b10", "toString", "camelCaseName",
];
/// Of Elm's libraries, of older and newer versions of Elm and of its relatives.
const FAMILIAR: &[&str] = &[
    "identity", "always", "not", "negate", "map", "main", "init", "subscriptions", "id", "name", "head", "tail", "command", "subscription", "debug", "log", "toFloat", "min", "max",
    "xor", "fst", "snd", "self", "this", "null", "nil", "true", "false", "undefined", "hiding", "do", "forall", "class", "instance", "newtype", "data", "deriving", "native", "kernel",
    "left", "right", "non", "elif", "def", "fn", "fun", "val", "var", "const", "return", "match", "with", "when", "while", "for", "loop", "end", "begin", "open", "qualified", "foreign",
    "default", "operator", "signal", "mailbox", "number", "comparable", "appendable", "compappend", "attributes", "div", "text", "succeed", "fail", "andThen", "rec", "mod", "rem",
];
const FAMILIAR_UPPER: &[&str] = &[
    "Basics", "Dict", "Set", "Array", "Json", "Decode", "Encode", "Http", "Debug", "Native", "Kernel", "Elm", "Main", "Tuple", "Result", "Char", "Float", "Bool", "Never", "Order", "LT",
    "EQ", "GT", "Platform", "Browser", "Program", "Task", "Process", "Signal", "Attributes", "Events", "Test", "Expect", "Port", "Effect", "Infix", "Alias", "Exposing",
];
/// Close to reserved words and to words that open declarations.
const TRICKY: &[&str] = &[
    "letter", "let_", "lets", "inner", "input", "index", "in1", "inX", "iffy", "if_", "ifNot", "then_", "thenDo", "elsewhere",
    "else1", "caseOf", "cases", "case_", "ofType", "offset", "of_", "asList", "as_", "assign", "ascii", "typeName", "types",
    "type_", "aliasOf", "aliases", "portNumber", "ports", "port_", "moduleName", "modules", "importer", "imports", "whereTo",
    "where_", "exposingAll", "exposings", "infix", "infixl", "infixr", "infixOp", "effect", "effects", "e", "e1", "e10", "xFF", "l", "le", "i",
    "t", "m", "o", "c", "p", "modul", "wher", "expos", "impor", "alia", "por", "els", "cas", "ca", "the", "ty", "u", "x23",
];
const UPPER: &[&str] = &[
    "A", "B", "Just", "Nothing", "Ok", "Err", "Int", "String", "List", "Maybe", "Model", "Msg", "Html", "Cmd", "Sub", "True", "False", "Foo_Bar",
    "X1", "Case", "Let", "In", "If", "Of", "As", "Type", "Module", "Import", "Port", "E10",
];
const OPS: &[&str] = &[
    "+", "-", "*", "/", "//", "^", "%", "++", "::", "==", "/=", "<", ">", "<=", ">=", "&&", "||", "|>", "<|", ">>", "<<",
    "<?>", "|.", "|=", "=>", ":=", "!", "&", "@", "~", "#", "?", "$", "<$>", "...", ".|", "=.", "-+", "|-", "->>", "<-", "=>>", ":-", "-+-", "/*",
];
const OP_CHARS: &[char] = &[
    '+', '-', '/', '*', '=', '.', '$', '<', '>', ':', '&', '|', '^', '?', '%', '#', '@', '~', '!',
];

#[derive(Clone, Debug)]
pub struct Cfg {
    /// Nesting of expressions.
    pub depth: usize,
    /// Most elements of a list, arguments, branches ...
    pub width: usize,
    /// Per cent of names that resemble reserved words.
    pub tricky: u32,
    /// Relative weights: leaves, applications, operators, containers, blocks.
    pub w: [u32; 5],
    /// Bounds the number of expression nodes.
    pub fuel: usize,
    /// Whether strings and characters may hold anything but letters.
    pub wild_literals: bool,
}

impl Default for Cfg {
    fn default() -> Cfg {
        Cfg { depth: 4, width: 4, tricky: 15, w: [3, 3, 3, 4, 4], fuel: 60, wild_literals: true }
    }
}

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub c: Cfg,
    pub fuel: usize,
    /// How many more nodes may have very many parts.
    wides: usize,
    /// Now and then all names are among these few, so that many are the same.
    common: Option<[Vec<String>; 3]>,
}

impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, c: Cfg) -> Gen<'a> {
        let fuel = c.fuel;
        let mut g = Gen { r, c, fuel, wides: 2, common: None };
        if g.r.pct(8) {
            let n = g.r.range(1, 3);
            let lower = (0..n).map(|_| g.lower()).collect();
            let upper = (0..n).map(|_| g.upper()).collect();
            let op = (0..n).map(|_| g.op()).collect();
            g.common = Some([lower, upper, op]);
        }
        g
    }

    fn common(&mut self, kind: usize) -> Option<String> {
        let n = self.common.as_ref()?[kind].len();
        let i = self.r.below(n + 1);
        self.common.as_ref()?[kind].get(i).cloned()
    }

    // Names

    pub fn lower(&mut self) -> String {
        if let Some(s) = self.common(0) {
            return s;
        }
        let t = self.c.tricky;
        if self.r.pct(8) {
            self.r.pick(FAMILIAR).to_string()
        } else if self.r.pct(t) {
            self.r.pick(TRICKY).to_string()
        } else if self.r.pct(70) {
            self.r.pick(LOWER).to_string()
        } else {
            self.random_lower()
        }
    }

    /// How many more letters a name has: fewer than n, but now and then very many.
    fn letters(&mut self, n: usize) -> usize {
        if self.r.pct(1) {
            (*self.r.pick(&[20, 32, 40, 64, 100, 128, 256, 300, 1024]) + 1usize).saturating_sub(self.r.below(4))
        } else {
            self.r.below(n)
        }
    }

    /// What follows the first letter of a name.
    fn tail(&mut self, s: &mut String, n: usize) {
        const ALL: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_";
        let chars: &[u8] = match self.r.below(10) {
            0 => b"_",
            1 => b"0123456789",
            2 => b"ABCDEFGHIJKLMNOPQRSTUVWXYZ",
            3 => b"_0aA",
            _ => ALL,
        };
        for _ in 0..self.letters(n) {
            s.push(*self.r.pick(chars) as char);
        }
        if self.r.pct(5) {
            s.push_str(*self.r.pick(&["_", "__", "0", "_0", "s", "S"]));
        }
    }

    pub fn random_lower(&mut self) -> String {
        loop {
            let mut s = String::new();
            s.push((b'a' + self.r.below(26) as u8) as char);
            self.tail(&mut s, 8);
            if !RESERVED.contains(&s.as_str()) {
                return s;
            }
        }
    }

    /// An identifier made from a reserved word by adding, dropping or changing a character.
    pub fn near_reserved(&mut self) -> String {
        loop {
            let mut s: Vec<char> = self.r.pick(RESERVED).chars().collect();
            match self.r.below(5) {
                0 | 1 => {
                    let c = *self.r.pick(b"abcxyzABZ0129_") as char;
                    s.push(c)
                }
                2 => {
                    s.pop();
                }
                3 => {
                    let i = self.r.range(1, s.len() - 1);
                    s[i] = *self.r.pick(b"abcxyzABZ0129_") as char;
                }
                _ => {
                    let i = self.r.range(1, s.len() - 1);
                    s[i] = s[i].to_ascii_uppercase();
                }
            }
            let s: String = s.into_iter().collect();
            if !s.is_empty() && !RESERVED.contains(&s.as_str()) {
                return s;
            }
        }
    }

    pub fn upper(&mut self) -> String {
        if let Some(s) = self.common(1) {
            return s;
        }
        if self.r.pct(8) {
            self.r.pick(FAMILIAR_UPPER).to_string()
        } else if self.r.pct(75) {
            self.r.pick(UPPER).to_string()
        } else {
            let mut s = String::new();
            s.push((b'A' + self.r.below(26) as u8) as char);
            self.tail(&mut s, 7);
            s
        }
    }

    /// Mostly from lo to hi; now and then many more.
    fn few(&mut self, lo: usize, hi: usize) -> usize {
        if self.wides > 0 && self.r.pct(4) {
            self.wides -= 1;
            let top = match self.r.below(100) {
                0..=79 => hi * 3 + 2,
                80..=97 => 40,
                _ => 300,
            };
            self.r.range(hi, top.max(hi))
        } else {
            self.r.range(lo, hi)
        }
    }

    pub fn qualified(&mut self) -> Vec<String> {
        let n = if self.r.pct(70) { 1 } else { self.few(2, 4) };
        (0..n).map(|_| self.upper()).collect()
    }

    pub fn op(&mut self) -> String {
        if let Some(s) = self.common(2) {
            return s;
        }
        if self.r.pct(75) {
            return self.r.pick(OPS).to_string();
        }
        loop {
            let n = self.r.range(1, 4);
            let s: String = (0..n).map(|_| *self.r.pick(OP_CHARS)).collect();
            if !RESERVED_OPS.contains(&s.as_str()) && !s.contains("--") {
                return s;
            }
        }
    }

    // Literals

    pub fn digits(&mut self, max: usize) -> String {
        let n = self.r.range(1, max);
        let mut s = String::new();
        if self.r.pct(8) {
            s.push_str(*self.r.pick(&["0", "0", "00", "000", "0000000000000000"]));
        }
        for i in 0..n {
            let d = if i == 0 && n > 1 { self.r.range(1, 9) } else { self.r.below(10) };
            s.push((b'0' + d as u8) as char);
        }
        s
    }

    fn sign(&mut self) -> &'static str {
        match self.r.below(8) {
            0 | 1 => "-",
            2 => "+",
            _ => "",
        }
    }

    pub fn integer(&mut self) -> Expression {
        let s = self.sign();
        let max = if self.r.pct(10) { 30 } else { 4 };
        let body = if self.r.pct(20) {
            let n = self.r.range(1, 8);
            let d: String = (0..n).map(|_| *self.r.pick(b"0123456789abcdefABCDEF") as char).collect();
            format!("0x{}", d)
        } else {
            self.digits(max)
        };
        Expression::Integer(format!("{}{}", s, body))
    }

    pub fn float(&mut self) -> Expression {
        let s = self.sign();
        let a = self.digits(4);
        let n = self.r.range(1, 5);
        let frac: String = (0..n).map(|_| (b'0' + self.r.below(10) as u8) as char).collect();
        let exp = {
            let e = *self.r.pick(&["e", "E"]);
            let g = *self.r.pick(&["", "+", "-"]);
            let d = self.digits(3);
            format!("{}{}{}", e, g, d)
        };
        Expression::Float(match self.r.below(4) {
            0 | 1 => format!("{}{}.{}", s, a, frac),
            2 => format!("{}{}.{}{}", s, a, frac, exp),
            _ => format!("{}{}{}", s, a, exp),
        })
    }

    fn text_piece(&mut self) -> String {
        const PIECES: &[&str] = &[
            "a", "hello", "x y", " ", "  ", "in", "->", "-- not a comment", "--", "{-", "-}", "{- -}", "'", "=", "==", "(", ")", "[", "]", "{", "}", ",", "|",
            "if x then y else z", "let a = 1 in a", "case x of", "type alias", "é", "日本語", "😀", "e\u{301}", "\u{200d}", "\u{a0}", "ß", "\\\\", "\\\"", "\\n", "\\t",
            "\\r", "\\'", "\\u{1F600}", "\\u{00e9}", "0x1F", "1.5", "\t", ":", "..", "\\x -> x", "import A", "%s", "#", "/", "\u{7f}", "\u{feff}",
        ];
        if self.c.wild_literals {
            if self.r.pct(15) {
                // any scalar value outside what ends or escapes a string
                loop {
                    let hi = *self.r.pick(&[0x80u32, 0x800, 0x3000, 0x11_0000]);
                    let c = char::from_u32((self.r.next() % hi as u64) as u32);
                    match c {
                        Some('"') | Some('\\') | Some('\n') | None => continue,
                        Some(c) => return c.to_string(),
                    }
                }
            }
            if self.r.pct(5) {
                return self.escaped(false);
            }
            if self.r.pct(1) {
                // long enough to cross whatever a length is kept or cut at
                let n = *self.r.pick(&[64, 128, 255, 256, 257, 300, 1000]) - self.r.below(4);
                let p = *self.r.pick(&["a", "é", "日", "😀", "x y "]);
                return format!("{}{}", "x".repeat(self.r.below(4)), p.repeat(n / p.len() + 1));
            }
            let p = *self.r.pick(PIECES);
            // a backslash in a piece of code would need escaping
            if p.starts_with("\\x") { "x -> x".to_string() } else { p.to_string() }
        } else {
            self.r.pick(&["a", "hello", " ", "x"]).to_string()
        }
    }

    /// The content of a plain string, as spelled in the source.
    pub fn string_content(&mut self) -> String {
        let n = match self.r.below(6) {
            0 => 0,
            1..=4 => self.r.range(1, 4),
            _ => self.r.range(5, 15),
        };
        (0..n).map(|_| self.text_piece()).collect()
    }

    /// A backslash and any character.
    fn escaped(&mut self, lines: bool) -> String {
        let c = match self.r.below(8) {
            0 | 1 if lines => '\n',
            2 | 3 => *self.r.pick(&['\\', '"', '\'']),
            4 => *self.r.pick(&['é', '日', '😀', '\u{85}', '\u{a0}', '\u{301}', '\r', '\t', '\0']),
            _ => (b' ' + self.r.below(95) as u8) as char,
        };
        format!("\\{}", c)
    }

    /// The content of a triple-quoted string: may hold line breaks and up to two quotes in a row, but
    /// not at its end.
    pub fn triple_content(&mut self) -> String {
        let n = self.r.range(0, 8);
        let mut s = String::new();
        // its lines may all be indented alike
        let margin = if self.r.pct(20) { *self.r.pick(&[1, 2, 3, 4, 8, 12]) } else { 0 };
        for _ in 0..n {
            match self.r.below(5) {
                0 => {
                    s.push('\n');
                    s.push_str(&" ".repeat(margin))
                }
                1 => {
                    if !s.ends_with('"') {
                        s.push_str(if self.r.pct(50) { "\"" } else { "\"\"" });
                        if self.r.pct(60) {
                            s.push_str("q");
                        } else {
                            let e = self.escaped(true);
                            s.push_str(&e);
                        }
                    }
                }
                2 if self.c.wild_literals => {
                    let e = self.escaped(true);
                    s.push_str(&e);
                }
                _ => s.push_str(&self.text_piece()),
            }
        }
        s
    }

    pub fn string(&mut self) -> Expression {
        if self.r.pct(20) {
            Expression::String(self.triple_content())
        } else {
            Expression::String(self.string_content())
        }
    }

    pub fn character(&mut self) -> Expression {
        let c = if !self.c.wild_literals || self.r.pct(50) {
            *self.r.pick(b"abcxyzABC0189 ") as char
        } else if self.r.pct(60) {
            *self.r.pick(&['\n', '\r', '\t', '\'', '"', '\\', 'é', '日', '😀', '(', ')', '-', '{', '=', ',', '|', '\u{7f}', '\u{0}', 'ÿ', '\u{ff}', 'n', 't', 'x', 'u'])
        } else {
            loop {
                let hi = *self.r.pick(&[0x80u32, 0x100, 0x800, 0x3000, 0x11_0000]);
                if let Some(c) = char::from_u32((self.r.next() % hi as u64) as u32) {
                    break c;
                }
            }
        };
        Expression::Character(c)
    }

    pub fn literal(&mut self) -> Expression {
        match self.r.below(7) {
            0 | 1 => self.integer(),
            2 => self.float(),
            3..=5 => self.string(),
            _ => self.character(),
        }
    }

    // Expressions

    pub fn leaf(&mut self) -> Expression {
        match self.r.below(12) {
            0..=4 => Expression::Variable(vec![self.lower()]),
            5 => Expression::Variable(self.qualified()),
            6 => self.access(),
            7 => Expression::AccessFunction(self.lower()),
            8 => {
                if self.r.pct(30) {
                    let n = self.few(1, 4);
                    Expression::Variable(vec![",".repeat(n)])
                } else {
                    Expression::Variable(vec![self.op()])
                }
            }
            9 => match self.r.below(3) {
                0 => Expression::Tuple(vec![]),
                1 => Expression::List(vec![]),
                _ => Expression::Record(vec![]),
            },
            _ => self.literal(),
        }
    }

    pub fn access(&mut self) -> Expression {
        let base = if self.r.pct(50) { vec![self.lower()] } else { self.qualified() };
        let n = if self.r.pct(70) { 1 } else { self.few(2, 4) };
        let names = (0..n).map(|_| self.lower()).collect();
        Expression::Access(Box::new(Expression::Variable(base)), names)
    }

    pub fn expr(&mut self, depth: usize) -> Expression {
        if depth == 0 || self.fuel == 0 {
            return self.leaf();
        }
        self.fuel -= 1;
        let total: u32 = self.c.w.iter().sum();
        let mut k = self.r.below(total as usize) as u32;
        let mut class = 0;
        for (i, w) in self.c.w.iter().enumerate() {
            if k < *w {
                class = i;
                break;
            }
            k -= w;
        }
        let d = depth - 1;
        if self.r.pct(4) {
            return self.idiom(d);
        }
        match class {
            0 => self.leaf(),
            1 => {
                let n = self.few(1, self.c.width);
                let k = if self.r.pct(70) { 0 } else { d };
                let mut e = self.expr(k);
                if self.r.pct(15) {
                    return self.row(n, d).into_iter().fold(e, app);
                }
                for _ in 0..n {
                    let k = if self.r.pct(40) { 0 } else { d };
                    let a = self.expr(k);
                    e = app(e, a);
                }
                e
            }
            2 => {
                let n = self.few(1, self.c.width);
                let mut e = self.expr(d);
                if self.r.pct(15) {
                    // the same operators, operands of one kind
                    let ops: Vec<String> = (0..2).map(|_| self.op()).collect();
                    for l in self.row(n, d) {
                        e = binop(self.r.pick(&ops), l, e);
                    }
                    return e;
                }
                for _ in 0..n {
                    let op = self.op();
                    let k = if self.r.pct(50) { 0 } else { d };
                    let l = self.expr(k);
                    e = binop(&op, l, e);
                }
                e
            }
            3 => self.container(d),
            _ => self.block(d),
        }
    }

    /// What a reader could take for a roundabout way to say something simpler.
    pub fn idiom(&mut self, d: usize) -> Expression {
        let con = |s: &str| Expression::Variable(vec![s.to_string()]);
        let int = |s: &str| Expression::Integer(s.to_string());
        let text = |s: &str| Expression::String(s.to_string());
        let bx = |e: Expression| Box::new(e);
        let n = self.lower();
        let own = Expression::Variable(vec![n.clone()]);
        let q = Expression::Variable(self.qualified());
        let e = self.expr(d);
        let w = self.c.w;
        let class = loop {
            let k = self.r.range(1, 4);
            if w[k] > 0 {
                break k;
            }
            if w[1..].iter().all(|x| *x == 0) {
                return e;
            }
        };
        match class {
            1 => match self.r.below(8) {
                0 => app(own.clone(), app(own, e)),
                1 => app(q.clone(), app(q, e)),
                2 => app(con("identity"), e),
                3 => {
                    let f = if self.r.pct(50) { con("not") } else { con("negate") };
                    app(f.clone(), app(f, e))
                }
                4 => app(con("not"), con(*self.r.pick(&["True", "False"]))),
                5 => app(app(con("always"), e.clone()), e),
                6 => app(app(own.clone(), own.clone()), own),
                _ => app(app(con("List"), app(con("List"), e.clone())), e),
            },
            2 => match self.r.below(20) {
                0 => binop("+", e, int("0")),
                1 => binop("+", int("0"), e),
                2 => binop("-", int("0"), e),
                3 => binop("*", int("1"), e),
                4 => binop("*", e, int("1")),
                5 => binop("++", self.string(), self.string()),
                6 => binop("++", text(""), e),
                7 => binop("++", e, text("")),
                8 => binop("++", Expression::List(vec![]), e),
                9 => binop("::", e, Expression::List(vec![])),
                10 => binop("::", e, Expression::List(vec![own])),
                11 => binop("|>", e, own),
                12 => binop("<|", own, e),
                13 => binop("<<", own.clone(), own),
                14 => binop("==", e, con(*self.r.pick(&["True", "False"]))),
                15 => binop("&&", con("True"), e),
                16 => binop("||", e, con("False")),
                17 => binop("+", self.integer(), self.integer()),
                18 => binop("/=", e.clone(), e),
                _ => {
                    let o = self.op();
                    binop(&o, e.clone(), binop(&o, e.clone(), e))
                }
            },
            3 => match self.r.below(9) {
                0 => Expression::RecordUpdate(n.clone(), vec![(n.clone(), own)]),
                1 => {
                    let f = self.lower();
                    let mut fs = vec![(f.clone(), Expression::Access(Box::new(own), vec![f]))];
                    if self.r.pct(50) {
                        fs.insert(self.r.below(2), (self.lower(), e));
                    }
                    Expression::RecordUpdate(n, fs)
                }
                2 => {
                    let k = self.r.range(1, 4);
                    let mut fs: Vec<(String, Expression)> = (0..k)
                        .map(|_| {
                            let n = self.lower();
                            (n.clone(), var(&n))
                        })
                        .collect();
                    if self.r.pct(60) {
                        let i = self.r.below(k + 1);
                        fs.insert(i, (self.lower(), e));
                    }
                    Expression::Record(fs)
                }
                3 => Expression::Access(Box::new(own), vec![n.clone(), n]),
                4 => Expression::Access(Box::new(Expression::Record(vec![(n.clone(), e)])), vec![n]),
                5 => Expression::Tuple(vec![e.clone(), e]),
                6 => Expression::List(vec![Expression::List(vec![e])]),
                7 => Expression::List(vec![Expression::List(vec![])]),
                _ => Expression::Tuple(vec![Expression::Tuple(vec![]), Expression::Tuple(vec![])]),
            },
            _ => match self.r.below(13) {
                0 => Expression::If(bx(con(*self.r.pick(&["True", "False"]))), bx(e), bx(own)),
                1 => Expression::If(bx(own), bx(e.clone()), bx(e)),
                2 => Expression::If(bx(e), bx(con("True")), bx(con("False"))),
                3 => Expression::If(bx(e.clone()), bx(e.clone()), bx(e)),
                4 => Expression::Case(bx(e), vec![(con("True"), own.clone()), (con("False"), own)]),
                5 => Expression::Case(bx(own), vec![(var("_"), e)]),
                6 => Expression::Case(bx(own.clone()), vec![(own.clone(), own)]),
                7 => Expression::Let(vec![LetEntry::LetBinding(own.clone(), e)], bx(own)),
                8 => Expression::Let(vec![LetEntry::LetBinding(own.clone(), own)], bx(e)),
                9 => Expression::Lambda(vec![own.clone()], bx(own)),
                10 => Expression::Lambda(vec![own.clone()], bx(app(q, own))),
                11 => Expression::Lambda(vec![own], bx(Expression::Lambda(vec![q], bx(e)))),
                _ => app(Expression::Lambda(vec![own.clone()], bx(e)), own),
            },
        }
    }

    /// The same for types.
    fn type_idiom(&mut self, d: usize) -> Type {
        let n = self.lower();
        let v = Type::TypeVariable(n.clone());
        let t = self.type_(d);
        let c = |s: &str, ts: Vec<Type>| Type::TypeConstructor(vec![s.to_string()], ts);
        let to = |a: Type, b: Type| Type::TypeApplication(Box::new(a), Box::new(b));
        let unit = Type::TypeTuple(vec![]);
        match self.r.below(12) {
            0 => to(t.clone(), t),
            1 => to(unit.clone(), unit),
            2 => to(to(v.clone(), t.clone()), to(v, t)),
            3 => c("List", vec![c("List", vec![t])]),
            4 => c("Maybe", vec![c("Maybe", vec![t])]),
            5 => Type::TypeRecordConstructor(Box::new(v.clone()), vec![(n, v)]),
            6 => {
                let m = self.lower();
                Type::TypeRecordConstructor(Box::new(v.clone()), vec![(m.clone(), t), (m, v)])
            }
            7 => Type::TypeRecord(vec![(n, v)]),
            8 => Type::TypeTuple(vec![t.clone(), t]),
            9 => Type::TypeTuple(vec![t.clone(), t.clone(), t]),
            10 => to(t.clone(), to(t.clone(), t)),
            _ => Type::TypeTuple(vec![unit.clone(), unit]),
        }
    }

    /// Several expressions, now and then all of one kind, or the same one again and again.
    pub fn row(&mut self, n: usize, d: usize) -> Vec<Expression> {
        let how = self.r.below(if n > 6 { 40 } else { 100 });
        if n < 2 || how >= 20 {
            return (0..n).map(|_| self.expr(d)).collect();
        }
        let first = self.expr(d);
        let mut v = vec![first.clone()];
        while v.len() < n {
            let fuel = self.fuel;
            let mut e = first.clone();
            if how >= 6 {
                for _ in 0..20 {
                    self.fuel = fuel;
                    let x = self.expr(d);
                    if std::mem::discriminant(&x) == std::mem::discriminant(&first) {
                        e = x;
                        break;
                    }
                }
            } else if how >= 3 && self.r.pct(50) {
                e = self.expr(d);
            }
            v.push(e);
        }
        v
    }

    /// The same for types.
    pub fn type_row(&mut self, n: usize, d: usize) -> Vec<Type> {
        let how = self.r.below(100);
        if n < 2 || how >= 20 {
            return (0..n).map(|_| self.type_(d)).collect();
        }
        let first = self.type_(d);
        let mut v = vec![first.clone()];
        while v.len() < n {
            let mut e = first.clone();
            if how >= 6 {
                for _ in 0..20 {
                    let x = self.type_(d);
                    if std::mem::discriminant(&x) == std::mem::discriminant(&first) {
                        e = x;
                        break;
                    }
                }
            } else if how >= 3 && self.r.pct(50) {
                e = self.type_(d);
            }
            v.push(e);
        }
        v
    }

    /// The same, now and then with some of them repeated.
    fn again<T: Clone>(&mut self, mut v: Vec<T>) -> Vec<T> {
        if v.len() > 1 && self.r.pct(7) {
            for _ in 0..self.r.range(1, 2) {
                let i = self.r.below(v.len());
                let j = if self.r.pct(60) { (i + 1) % v.len() } else { self.r.below(v.len()) };
                v[j] = v[i].clone();
            }
        }
        v
    }

    /// Fields for these values: names of all kinds, now and then one of them twice.
    fn fields<T>(&mut self, v: Vec<T>) -> Vec<(String, T)> {
        let same = self.r.pct(4);
        let name = self.lower();
        v.into_iter().map(|x| (if same && self.r.pct(50) { name.clone() } else { self.lower() }, x)).collect()
    }

    pub fn container(&mut self, d: usize) -> Expression {
        let n = self.few(0, self.c.width);
        match self.r.below(6) {
            0 if self.r.pct(40) => {
                let e = self.expr(d);
                let n = if self.r.pct(70) { 1 } else { self.few(2, 4) };
                Expression::Access(Box::new(e), (0..n).map(|_| self.lower()).collect())
            }
            0 | 1 => Expression::List(self.row(n, d)),
            2 | 3 => Expression::Tuple(self.row(n.max(2), d)),
            4 => {
                let v = self.row(n, d);
                Expression::Record(self.fields(v))
            }
            _ => {
                let v = self.row(n.max(1), d);
                Expression::RecordUpdate(self.lower(), self.fields(v))
            }
        }
    }

    pub fn block(&mut self, d: usize) -> Expression {
        match self.r.below(9) {
            0 | 1 => Expression::If(Box::new(self.expr(d)), Box::new(self.expr(d)), Box::new(self.expr(d))),
            2..=4 => {
                let n = self.few(1, self.c.width);
                let e = self.expr(d.min(1));
                let bs = (0..n).map(|_| (self.pattern(2), self.expr(d))).collect();
                Expression::Case(Box::new(e), self.again(bs))
            }
            5 | 6 => {
                let n = self.few(1, self.c.width);
                let es = (0..n).map(|_| self.let_entry(d)).collect();
                Expression::Let(self.again(es), Box::new(self.expr(d)))
            }
            _ => {
                let n = self.few(1, 3);
                let args = (0..n).map(|_| self.pattern(1)).collect();
                Expression::Lambda(self.again(args), Box::new(self.expr(d)))
            }
        }
    }

    pub fn let_entry(&mut self, d: usize) -> LetEntry {
        match self.r.below(6) {
            0 | 1 => LetEntry::LetBinding(Expression::Variable(vec![self.lower()]), self.expr(d)),
            2 => {
                let t = self.target();
                LetEntry::LetBinding(t, self.expr(d))
            }
            _ => LetEntry::LetFunction(self.function(d, false)),
        }
    }

    /// What a let can destructure into.
    pub fn target(&mut self) -> Expression {
        match self.r.below(4) {
            0 => Expression::Variable(vec!["_".to_string()]),
            1 => {
                let n = self.few(2, 3);
                Expression::Tuple((0..n).map(|_| self.pattern(1)).collect())
            }
            2 => self.pun(),
            _ => {
                let c = Expression::Variable(self.qualified());
                app(c, self.pattern(1))
            }
        }
    }

    fn pun(&mut self) -> Expression {
        let n = self.few(1, self.c.width.max(1));
        Expression::Record(
            (0..n)
                .map(|_| {
                    let n = self.lower();
                    (n.clone(), var(&n))
                })
                .collect(),
        )
    }

    pub fn pattern(&mut self, depth: usize) -> Expression {
        let d = depth.saturating_sub(1);
        match self.r.below(if depth == 0 { 8 } else { 15 }) {
            0..=2 => Expression::Variable(vec![self.lower()]),
            3 | 4 => var("_"),
            5 => Expression::Variable(self.qualified()),
            6 => match self.r.below(5) {
                0 => Expression::Tuple(vec![]),
                1 => Expression::List(vec![]),
                2 => self.string(),
                3 => self.character(),
                _ => self.integer(),
            },
            7 => self.pun(),
            8 | 9 => {
                let n = self.few(1, 3);
                let mut e = Expression::Variable(self.qualified());
                for _ in 0..n {
                    e = app(e, self.pattern(d));
                }
                e
            }
            10 => {
                let n = self.few(2, 3);
                let v = (0..n).map(|_| self.pattern(d)).collect();
                Expression::Tuple(self.again(v))
            }
            11 => {
                let n = self.few(1, 3);
                let v = (0..n).map(|_| self.pattern(d)).collect();
                Expression::List(self.again(v))
            }
            12 | 13 => {
                let n = self.few(1, 2);
                let mut e = Expression::Variable(vec![self.lower()]);
                for _ in 0..n {
                    e = binop("::", self.pattern(0), e);
                }
                e
            }
            _ => {
                let p = self.pattern(d);
                let n = self.lower();
                binop("as", p, var(&n))
            }
        }
    }

    // Types

    pub fn type_(&mut self, depth: usize) -> Type {
        let d = depth.saturating_sub(1);
        let w = self.c.width;
        if depth > 0 && self.r.pct(4) {
            return self.type_idiom(d);
        }
        match self.r.below(if depth == 0 { 6 } else { 16 }) {
            0 | 1 => Type::TypeVariable(self.lower()),
            2 | 3 => Type::TypeConstructor(self.qualified(), vec![]),
            4 => Type::TypeTuple(vec![]),
            5 => Type::TypeRecord(vec![]),
            6..=8 => {
                let n = self.few(1, w);
                let q = self.qualified();
                Type::TypeConstructor(q, self.type_row(n, d))
            }
            9..=11 => {
                let n = self.few(1, w);
                let t = self.type_(d);
                self.type_row(n, d).into_iter().fold(t, |t, a| Type::TypeApplication(Box::new(a), Box::new(t)))
            }
            12 => {
                let n = self.few(2, w.max(2));
                Type::TypeTuple(self.type_row(n, d))
            }
            13 | 14 => {
                let n = self.few(1, w);
                let v = self.type_row(n, d);
                Type::TypeRecord(self.fields(v))
            }
            _ => {
                let n = self.few(1, w);
                let v = Type::TypeVariable(self.lower());
                let ts = self.type_row(n, d);
                Type::TypeRecordConstructor(Box::new(v), self.fields(ts))
            }
        }
    }

    fn type_head(&mut self) -> Type {
        let n = if self.r.pct(50) { 0 } else { self.few(1, self.c.width) };
        let name = vec![self.upper()];
        let v = (0..n).map(|_| Type::TypeVariable(self.lower())).collect();
        Type::TypeConstructor(name, self.again(v))
    }

    // Declarations

    pub fn function(&mut self, d: usize, top: bool) -> Function {
        let name = if self.r.pct(if top { 12 } else { 4 }) { self.op() } else { self.lower() };
        let is_op = !name.chars().next().unwrap().is_ascii_lowercase();
        let mut signature = self.r.pct(45);
        let mut n = self.few(0, 3);
        if !top && n == 0 {
            if is_op {
                n = 2;
            } else {
                signature = true;
            }
        }
        let signature = if signature { Some(FunctionSignature { name: name.clone(), type_: self.type_(2) }) } else { None };
        let args = (0..n).map(|_| self.pattern(2)).collect();
        let mut args = self.again(args);
        let mut body = self.expr(d);
        if self.r.pct(4) && !is_op {
            // its own name or its last argument
            let own = var(&name);
            body = match (self.r.below(4), args.last().cloned().filter(|a| matches!(a, Expression::Variable(_)))) {
                (0, Some(a)) => app(body, a),
                (1, Some(a)) => a,
                (2, Some(a)) => app(own, a),
                (3, Some(_)) => {
                    args.pop();
                    args.push(own);
                    body
                }
                (_, Some(_)) => body,
                (_, None) => own,
            };
        }
        Function { signature, definition: FunctionDefinition { name, args, body } }
    }

    pub fn exports(&mut self) -> ExportSet {
        self.exports_of(&[])
    }

    /// What a module of this name exposes.
    fn exports_of(&mut self, module: &[String]) -> ExportSet {
        if self.r.pct(30) {
            return ExportSet::AllExport;
        }
        let n = self.few(1, self.c.width * 2);
        let v = (0..n)
                .map(|_| match self.r.below(6) {
                    0 | 1 => ExportSet::FunctionExport(self.lower()),
                    2 => ExportSet::FunctionExport(self.op()),
                    3 => ExportSet::TypeExport(if self.r.pct(15) { module.last().cloned().unwrap_or_else(|| self.upper()) } else { self.upper() }, None),
                    4 => ExportSet::TypeExport(self.upper(), Some(Box::new(ExportSet::AllExport))),
                    _ => {
                        let k = self.few(1, self.c.width);
                        let t = self.upper();
                        let own = self.r.pct(15);
                        let cs = (0..k).map(|_| ExportSet::FunctionExport(if own && self.r.pct(60) { t.clone() } else { self.upper() })).collect();
                        ExportSet::TypeExport(t, Some(Box::new(ExportSet::SubsetExport(self.again(cs)))))
                    }
                })
                .collect();
        ExportSet::SubsetExport(self.again(v))
    }

    pub fn header(&mut self) -> Statement {
        let name = self.qualified();
        match self.r.below(5) {
            0..=2 => {
                let e = self.exports_of(&name);
                Statement::ModuleDeclaration(name, e)
            }
            3 => {
                let e = self.exports_of(&name);
                Statement::PortModuleDeclaration(name, e)
            }
            _ => {
                let n = self.few(0, 3);
                let w = (0..n)
                    .map(|_| {
                        let k = if self.r.pct(60) { self.r.pick(&["command", "subscription"]).to_string() } else { self.lower() };
                        (k, self.upper())
                    })
                    .collect();
                Statement::EffectModuleDeclaration(name, self.again(w), self.exports())
            }
        }
    }

    pub fn import(&mut self) -> Statement {
        let name = self.qualified();
        let alias = match self.r.below(100) {
            0..=35 => Some(self.upper()),
            36 | 37 => name.last().cloned(),
            38 | 39 => name.first().cloned(),
            _ => None,
        };
        let ex = if self.r.pct(60) { Some(self.exports_of(&name)) } else { None };
        Statement::ImportStatement(name, alias, ex)
    }

    pub fn alias(&mut self) -> Statement {
        let head = self.type_head();
        let d = self.r.range(0, 3);
        if self.r.pct(4) {
            let t = self.own_type(&head);
            return Statement::TypeAliasDeclaration(head, t);
        }
        Statement::TypeAliasDeclaration(head, self.type_(d))
    }

    /// The type that is being declared, its last part, or one much like it.
    fn own_type(&mut self, head: &Type) -> Type {
        let (name, vars) = match head {
            Type::TypeConstructor(name, vars) => (name[0].clone(), vars.clone()),
            _ => return head.clone(),
        };
        match self.r.below(6) {
            0 if !vars.is_empty() => vars[self.r.below(vars.len())].clone(),
            0 | 1 => head.clone(),
            2 => Type::TypeConstructor(vec![name], vec![]),
            3 => Type::TypeConstructor(vec![self.upper(), name], vars),
            4 => Type::TypeConstructor(vec![name.clone(), name], vars),
            _ => Type::TypeConstructor(vec![name], vec![head.clone()]),
        }
    }

    pub fn union(&mut self) -> Statement {
        let head = self.type_head();
        let n = self.few(1, self.c.width * 2);
        let cs = (0..n)
            .map(|_| {
                let k = if self.r.pct(40) { 0 } else { self.few(1, self.c.width) };
                let name = match &head {
                    Type::TypeConstructor(n, _) if self.r.pct(4) => n.clone(),
                    _ => vec![self.upper()],
                };
                let args = (0..k)
                    .map(|_| {
                        if self.r.pct(4) {
                            return self.own_type(&head);
                        }
                        let d = self.r.range(0, 2);
                        self.type_(d)
                    })
                    .collect();
                Type::TypeConstructor(name, self.again(args))
            })
            .collect();
        Statement::TypeDeclaration(head, self.again(cs))
    }

    pub fn infix(&mut self) -> Statement {
        let a = *self.r.pick(&[Assoc::N, Assoc::L, Assoc::R]);
        let p = match self.r.below(4) {
            0..=2 => self.r.below(10) as i64,
            _ => *self.r.pick(&[10i64, 42, 255, 256, 65536, 4294967296, i64::MAX]),
        };
        let n = if self.r.pct(15) { self.lower() } else { self.op() };
        Statement::InfixDeclaration(a, p, n)
    }

    pub fn port(&mut self, d: usize) -> Statement {
        if self.r.pct(70) {
            Statement::PortTypeDeclaration(self.lower(), self.type_(3))
        } else {
            let n = self.few(0, 3);
            let name = self.lower();
            let args = (0..n).map(|_| self.lower()).collect();
            Statement::PortDeclaration(name, self.again(args), self.expr(d))
        }
    }

    pub fn comment_line(&mut self) -> String {
        let mut s = String::new();
        if self.r.pct(80) {
            s.push(' ');
        } else {
            // any character, or a few of them, right at the start
            for _ in 0..self.r.below(3) {
                s.push((b' ' + self.r.below(95) as u8) as char);
            }
        }
        let n = self.r.range(0, 4);
        for _ in 0..n {
            if self.r.pct(25) {
                s.push_str(*self.r.pick(&["\"", "\"\"\"", "'", "\\", "f = 1", "| b", "    ", "-", "--", "{-", "-}", ")", "else", "\r", "\r\r"]));
            } else {
                s.push_str(&self.text_piece());
            }
        }
        s
    }

    pub fn comment_block(&mut self, depth: usize) -> String {
        let mut s = String::new();
        if self.r.pct(30) {
            s.push_str("| ");
        }
        let n = self.r.range(0, 5);
        for _ in 0..n {
            match self.r.below(4) {
                0 => s.push('\n'),
                1 if depth > 0 => {
                    let inner = self.comment_block(depth - 1);
                    s.push_str("{-");
                    s.push_str(&inner);
                    s.push_str("-}");
                }
                _ => {
                    let t = self.comment_line();
                    s.push_str(&t.replace('{', "(").replace('}', ")"));
                }
            }
        }
        s
    }

    pub fn comment(&mut self) -> Statement {
        if self.r.pct(50) {
            Statement::Comment(self.comment_line())
        } else {
            Statement::Comment(self.comment_block(2))
        }
    }

    pub fn statement(&mut self, d: usize) -> Statement {
        self.wides = self.wides.max(1);
        match self.r.below(20) {
            0..=9 => Statement::Function(self.function(d, true)),
            10 | 11 => self.union(),
            12 | 13 => self.alias(),
            14 => self.port(d),
            15 => self.infix(),
            16 => self.import(),
            17 | 18 => self.comment(),
            _ => self.header(),
        }
    }

    /// A module in the order Elm demands: header, imports, the rest.
    pub fn module(&mut self, n: usize, d: usize) -> Vec<Statement> {
        let mut v = Vec::new();
        if self.r.pct(80) {
            v.push(self.header());
        }
        let own = match v.first() {
            Some(Statement::ModuleDeclaration(n, _)) | Some(Statement::PortModuleDeclaration(n, _)) | Some(Statement::EffectModuleDeclaration(n, _, _)) => Some(n.clone()),
            _ => None,
        };
        for _ in 0..self.r.below(4) {
            let mut s = self.import();
            if let (Statement::ImportStatement(n, _, _), Some(own), true) = (&mut s, &own, self.r.pct(4)) {
                *n = own.clone();
            }
            v.push(s);
        }
        for _ in 0..n {
            let s = loop {
                let s = self.statement(d);
                match s {
                    Statement::ModuleDeclaration(..) | Statement::PortModuleDeclaration(..) | Statement::EffectModuleDeclaration(..) | Statement::ImportStatement(..) => continue,
                    s => break s,
                }
            };
            v.push(s);
        }
        if v.is_empty() {
            v.push(self.import());
        }
        v
    }
}

/// A comment text that only the line form can spell, the block form, or both.
pub fn comment_forms(text: &str) -> (bool, bool) {
    let line = !text.contains('\n');
    let b = text.as_bytes();
    let mut depth = 0i32;
    let mut i = 0;
    let mut ok = true;
    while i + 1 < b.len() {
        match &b[i..i + 2] {
            b"{-" => {
                depth += 1;
                i += 2;
            }
            b"-}" => {
                depth -= 1;
                if depth < 0 {
                    ok = false;
                    break;
                }
                i += 2;
            }
            _ => i += 1,
        }
    }
    (line, ok && depth == 0 && !text.ends_with('{'))
}
