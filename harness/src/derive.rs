//! Decides whether a text can be read as a given tree: an online monitor for what the parser
//! accepts. It searches for a derivation of the text from the tree, character by character, with
//! the liberties in spacing that any reader has, and so knows nothing of how the parser works.
//! Every character must be part of a token of the tree, a pair of redundant parentheses around one
//! of its nodes, white space, or a comment inside a declaration.
use crate::model::*;
use crate::print::{P, T};
use std::collections::HashMap;

type Ends = std::rc::Rc<Vec<usize>>;

pub struct D<'a> {
    s: &'a [u8],
    memo: HashMap<(usize, usize, u8), Ends>,
    /// Branches and entries must be aligned.
    pub layout: bool,
    pub steps: usize,
    pub furthest: usize,
}

fn is_name(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_'
}
pub fn is_op_char(c: u8) -> bool {
    b"-+\\/*=.$<>:&|^?%#@~!".contains(&c)
}

fn uniq(mut v: Vec<usize>) -> Vec<usize> {
    v.sort_unstable();
    v.dedup();
    v
}

impl<'a> D<'a> {
    pub fn new(s: &'a str, layout: bool) -> D<'a> {
        D { s: s.as_bytes(), memo: HashMap::new(), layout, steps: 0, furthest: 0 }
    }

    fn at(&self, i: usize) -> u8 {
        *self.s.get(i).unwrap_or(&0)
    }

    /// White space and line comments from `i`; both the position before and after comments would be
    /// possible, but none but the last leads anywhere in the middle of a declaration.
    fn ws(&self, mut i: usize) -> usize {
        loop {
            match self.at(i) {
                b' ' | b'\n' | b'\t' | b'\r' if i < self.s.len() => i += 1,
                b'-' if self.at(i + 1) == b'-' => {
                    while i < self.s.len() && self.s[i] != b'\n' {
                        i += 1;
                    }
                }
                _ => return i,
            }
        }
    }

    fn lit(&self, i: usize, t: &str) -> Option<usize> {
        if self.s.len() >= i + t.len() && &self.s[i..i + t.len()] == t.as_bytes() {
            Some(i + t.len())
        } else {
            None
        }
    }

    /// A name or keyword: not part of a longer one.
    fn word(&self, i: usize, t: &str) -> Option<usize> {
        let e = self.lit(i, t)?;
        if is_name(self.at(e)) {
            return None;
        }
        Some(e)
    }

    /// An operator: all of a run of operator characters.
    fn operator(&self, i: usize, t: &str) -> Option<usize> {
        let e = self.lit(i, t)?;
        if is_op_char(self.at(e)) {
            return None;
        }
        Some(e)
    }

    fn sym(&self, v: &[usize], t: &str) -> Vec<usize> {
        uniq(v.iter().filter_map(|&i| self.lit(self.ws(i), t)).collect())
    }

    fn words(&self, v: &[usize], t: &str) -> Vec<usize> {
        uniq(v.iter().filter_map(|&i| self.word(self.ws(i), t)).collect())
    }

    fn name_at(&self, i: usize, n: &str) -> Option<usize> {
        let c = n.chars().next()?;
        if c.is_ascii_alphabetic() {
            self.word(i, n)
        } else if n == "_" {
            // one underscore is a name of its own whatever follows
            self.lit(i, n)
        } else {
            let j = self.lit(i, "(")?;
            let j = if c == ',' { self.lit(j, n)? } else { self.operator(j, n)? };
            self.lit(j, ")")
        }
    }

    fn dotted_at(&self, i: usize, v: &[String]) -> Option<usize> {
        let mut i = i;
        for (k, n) in v.iter().enumerate() {
            if k > 0 {
                i = self.lit(i, ".")?;
            }
            i = self.name_at(i, n)?;
        }
        Some(i)
    }

    fn each(&mut self, v: &[usize], mut f: impl FnMut(&mut Self, usize) -> Ends) -> Vec<usize> {
        let mut out = vec![];
        for &i in v {
            let j = self.ws(i);
            out.extend(f(self, j).iter().cloned());
        }
        uniq(out)
    }

    fn ex(&mut self, v: &[usize], e: &Expression, p: P) -> Vec<usize> {
        self.each(v, |d, i| d.expr(i, e, p))
    }

    fn tys(&mut self, v: &[usize], t: &Type, p: T) -> Vec<usize> {
        self.each(v, |d, i| d.ty(i, t, p))
    }

    pub fn column(&self, i: usize) -> usize {
        let st = self.s[..i].iter().rposition(|&c| c == b'\n').map(|p| p + 1).unwrap_or(0);
        String::from_utf8_lossy(&self.s[st..i]).chars().count()
    }

    fn first_on_line(&self, i: usize) -> bool {
        let st = self.s[..i].iter().rposition(|&c| c == b'\n').map(|p| p + 1).unwrap_or(0);
        self.s[st..i].iter().all(|&c| c == b' ')
    }

    fn expr(&mut self, i: usize, e: &Expression, p: P) -> Ends {
        let key = (e as *const Expression as usize, i, p as u8);
        if let Some(v) = self.memo.get(&key) {
            return v.clone();
        }
        self.steps += 1;
        self.furthest = self.furthest.max(i);
        let mut out = vec![];
        // parentheses around the node
        if self.at(i) == b'(' {
            let v = self.ex(&[i + 1], e, P::Any);
            out.extend(self.sym(&v, ")"));
        }
        out.extend(self.bare(i, e, p));
        let r: Ends = std::rc::Rc::new(uniq(out));
        self.memo.insert(key, r.clone());
        r
    }

    fn number_at(&self, i: usize, s: &str) -> Option<usize> {
        // what follows must not continue the number
        let e = self.lit(i, s)?;
        let t = s.trim_start_matches(|c| c == '+' || c == '-');
        let next = self.at(e);
        let hex = t.starts_with("0x") || t.starts_with("0X");
        if next.is_ascii_digit() || (hex && next.is_ascii_hexdigit()) {
            return None;
        }
        // 1 . 5 and 1 e 5
        let frac = t.contains('.');
        let exp = !hex && (t.contains('e') || t.contains('E'));
        if !frac && !exp && !hex && next == b'.' && self.at(e + 1).is_ascii_digit() {
            return None;
        }
        if !exp && !hex && (next == b'e' || next == b'E') {
            let k = if matches!(self.at(e + 1), b'+' | b'-') { e + 2 } else { e + 1 };
            if self.at(k).is_ascii_digit() {
                return None;
            }
        }
        if t == "0" && next == b'x' && self.at(e + 1).is_ascii_hexdigit() {
            return None;
        }
        Some(e)
    }

    fn char_at(&self, i: usize, c: char) -> Option<usize> {
        let i = self.lit(i, "'")?;
        let mut buf = [0u8; 4];
        let raw: &str = c.encode_utf8(&mut buf);
        let n = c as u32;
        let mut forms = vec![raw.to_string()];
        match c {
            '\n' => forms.push("\\n".into()),
            '\r' => forms.push("\\r".into()),
            '\t' => forms.push("\\t".into()),
            '\\' => forms.push("\\\\".into()),
            '\'' => forms.push("\\'".into()),
            '"' => forms.push("\\\"".into()),
            _ => {}
        }
        for f in forms {
            if let Some(j) = self.lit(i, &f) {
                if let Some(k) = self.lit(j, "'") {
                    return Some(k);
                }
            }
        }
        let end = self.s[i..].iter().position(|&b| b == b'\'')? + i;
        let t = std::str::from_utf8(&self.s[i..end]).ok()?;
        let v = if let Some(h) = t.strip_prefix("\\x") {
            if h.len() != 2 {
                return None;
            }
            u32::from_str_radix(h, 16).ok()?
        } else if let Some(h) = t.strip_prefix("\\u{") {
            u32::from_str_radix(h.strip_suffix('}')?, 16).ok()?
        } else {
            return None;
        };
        if v == n {
            Some(end + 1)
        } else {
            None
        }
    }

    fn one(o: Option<usize>) -> Vec<usize> {
        o.into_iter().collect()
    }

    fn list(&mut self, i: usize, open: &str, v: &[Expression], close: &str) -> Vec<usize> {
        let mut at = D::one(self.lit(i, open));
        for (k, e) in v.iter().enumerate() {
            if k > 0 {
                at = self.sym(&at, ",");
            }
            at = self.ex(&at, e, P::Any);
        }
        self.sym(&at, close)
    }

    fn pairs(&mut self, at: Vec<usize>, f: &[(String, Expression)], close: &str) -> Vec<usize> {
        let mut at = at;
        for (k, (n, e)) in f.iter().enumerate() {
            if k > 0 {
                at = self.sym(&at, ",");
            }
            at = uniq(at.iter().filter_map(|&i| self.name_at(self.ws(i), n)).collect());
            at = self.sym(&at, "=");
            at = self.ex(&at, e, P::Any);
        }
        self.sym(&at, close)
    }

    fn bare(&mut self, i: usize, e: &Expression, p: P) -> Vec<usize> {
        use Expression::*;
        match e {
            Character(c) => D::one(self.char_at(i, *c)),
            String(s) => {
                let mut v = vec![];
                let t = format!("\"\"\"{}\"\"\"", s);
                v.extend(self.lit(i, &t));
                // two quotes and no third one after them are an empty string
                let single = format!("\"{}\"", s);
                if crate::print::Printer::string_forms(s).0 {
                    if !(s.is_empty() && self.lit(i, "\"\"\"").is_some()) {
                        v.extend(self.lit(i, &single));
                    }
                }
                v
            }
            Integer(s) | Float(s) => D::one(self.number_at(i, s)),
            Variable(v) => D::one(self.dotted_at(i, v)),
            Access(b, names) => {
                let mut at = match &**b {
                    Variable(v) => D::one(self.dotted_at(i, v)),
                    Tuple(_) => self.bare(i, b, P::Term),
                    _ => vec![],
                };
                let open = D::one(self.lit(i, "("));
                let inside = self.ex(&open, b, P::Any);
                at.extend(self.sym(&inside, ")"));
                for n in names {
                    at = uniq(at.into_iter().filter_map(|i| self.lit(i, ".").and_then(|i| self.name_at(i, n))).collect());
                }
                at
            }
            AccessFunction(n) => D::one(self.lit(i, ".").and_then(|i| self.name_at(i, n))),
            List(v) => self.list(i, "[", v, "]"),
            Tuple(v) => {
                if v.len() == 1 {
                    return vec![];
                }
                self.list(i, "(", v, ")")
            }
            Record(f) => {
                let at = D::one(self.lit(i, "{"));
                let mut out = self.pairs(at, f, "}");
                // { a, b }
                if !f.is_empty() && f.iter().all(|(n, e)| *e == Variable(vec![n.clone()])) {
                    let mut at = D::one(self.lit(i, "{"));
                    for (k, (n, _)) in f.iter().enumerate() {
                        if k > 0 {
                            at = self.sym(&at, ",");
                        }
                        at = uniq(at.iter().filter_map(|&i| self.name_at(self.ws(i), n)).collect());
                    }
                    out.extend(self.sym(&at, "}"));
                }
                out
            }
            // what must hold something
            RecordUpdate(_, f) if f.is_empty() => vec![],
            Case(_, b) if b.is_empty() => vec![],
            Let(e, _) if e.is_empty() => vec![],
            RecordUpdate(n, f) => {
                let mut at = D::one(self.lit(i, "{"));
                at = uniq(at.iter().filter_map(|&i| self.name_at(self.ws(i), n)).collect());
                at = self.sym(&at, "|");
                self.pairs(at, f, "}")
            }
            Application(f, a) => {
                if p < P::App {
                    return vec![];
                }
                let at = self.ex(&[i], f, P::App);
                self.ex(&at, a, P::Term)
            }
            _ if p < P::Any => vec![],
            BinOp(op, l, r) => {
                let op = match &**op {
                    Variable(v) if v.len() == 1 => v[0].as_str(),
                    _ => return vec![],
                };
                let at = self.ex(&[i], l, P::App);
                let at: Vec<usize> = at
                    .iter()
                    .filter_map(|&i| {
                        let i = self.ws(i);
                        if op == "as" {
                            self.word(i, op)
                        } else {
                            self.operator(i, op)
                        }
                    })
                    .collect();
                self.ex(&uniq(at), r, P::Any)
            }
            If(a, b, c) => {
                let mut at = D::one(self.word(i, "if"));
                at = self.ex(&at, a, P::Any);
                at = self.words(&at, "then");
                at = self.ex(&at, b, P::Any);
                at = self.words(&at, "else");
                self.ex(&at, c, P::Any)
            }
            Lambda(args, b) => {
                let mut at = D::one(self.lit(i, "\\"));
                for a in args {
                    at = self.ex(&at, a, P::Term);
                }
                at = self.sym(&at, "->");
                self.ex(&at, b, P::Any)
            }
            Case(e, bs) => {
                let mut at = D::one(self.word(i, "case"));
                at = self.ex(&at, e, P::Any);
                at = self.words(&at, "of");
                // each position with the column of the first branch
                let mut states: Vec<(usize, Option<usize>)> = at.iter().map(|&i| (i, None)).collect();
                for (p, b) in bs {
                    let mut next = vec![];
                    for (i, col) in states {
                        let j = self.ws(i);
                        let c = match self.aligned(j, col) {
                            Some(c) => c,
                            None => continue,
                        };
                        let mut at = self.expr(j, p, P::Any).to_vec();
                        at = self.sym(&at, "->");
                        at = self.ex(&at, b, P::Any);
                        next.extend(at.into_iter().map(|i| (i, c)));
                    }
                    next.sort_unstable();
                    next.dedup();
                    states = next;
                }
                uniq(states.into_iter().map(|x| x.0).collect())
            }
            Let(es, b) => {
                let at = D::one(self.word(i, "let"));
                let mut states: Vec<(usize, Option<usize>)> = at.iter().map(|&i| (i, None)).collect();
                for e in es {
                    let mut next = vec![];
                    for (i, col) in states {
                        let j = self.ws(i);
                        let c = match self.aligned(j, col) {
                            Some(c) => c,
                            None => continue,
                        };
                        let at = match e {
                            LetEntry::LetFunction(f) => self.function(j, f),
                            LetEntry::LetBinding(t, e) => {
                                let mut at = self.expr(j, t, P::Term).to_vec();
                                at = self.sym(&at, "=");
                                self.ex(&at, e, P::Any)
                            }
                        };
                        next.extend(at.into_iter().map(|i| (i, c)));
                    }
                    next.sort_unstable();
                    next.dedup();
                    states = next;
                }
                let at = uniq(states.into_iter().map(|x| x.0).collect());
                let at = self.words(&at, "in");
                self.ex(&at, b, P::Any)
            }
        }
    }

    /// The column that the lines of a block have once one begins at `i`, if it may begin there:
    /// those on lines of their own must agree.
    fn aligned(&self, i: usize, col: Option<usize>) -> Option<Option<usize>> {
        if !self.layout || !self.first_on_line(i) {
            return Some(col);
        }
        let c = self.column(i);
        match col {
            None => Some(Some(c)),
            Some(k) if k == c => Some(Some(k)),
            Some(_) => None,
        }
    }

    pub fn function(&mut self, i: usize, f: &Function) -> Vec<usize> {
        let mut at = vec![i];
        if let Some(s) = &f.signature {
            at = uniq(at.iter().filter_map(|&i| self.name_at(i, &s.name)).collect());
            at = self.sym(&at, ":");
            at = self.tys(&at, &s.type_, T::Any);
        }
        let d = &f.definition;
        at = uniq(at.iter().filter_map(|&i| self.name_at(self.ws(i), &d.name)).collect());
        for a in &d.args {
            at = self.ex(&at, a, P::Term);
        }
        at = self.sym(&at, "=");
        self.ex(&at, &d.body, P::Any)
    }

    fn ty(&mut self, i: usize, t: &Type, p: T) -> Ends {
        let key = (t as *const Type as usize, i, p as u8 + 8);
        if let Some(v) = self.memo.get(&key) {
            return v.clone();
        }
        self.steps += 1;
        self.furthest = self.furthest.max(i);
        let mut out = vec![];
        if self.at(i) == b'(' {
            let v = self.tys(&[i + 1], t, T::Any);
            out.extend(self.sym(&v, ")"));
        }
        out.extend(self.bare_type(i, t, p));
        let r: Ends = std::rc::Rc::new(uniq(out));
        self.memo.insert(key, r.clone());
        r
    }

    fn type_pairs(&mut self, at: Vec<usize>, f: &[(String, Type)], close: &str) -> Vec<usize> {
        let mut at = at;
        for (k, (n, t)) in f.iter().enumerate() {
            if k > 0 {
                at = self.sym(&at, ",");
            }
            at = uniq(at.iter().filter_map(|&i| self.name_at(self.ws(i), n)).collect());
            at = self.sym(&at, ":");
            at = self.tys(&at, t, T::Any);
        }
        self.sym(&at, close)
    }

    fn bare_type(&mut self, i: usize, t: &Type, p: T) -> Vec<usize> {
        match t {
            Type::TypeVariable(n) => D::one(self.word(i, n)),
            Type::TypeConstructor(n, args) => {
                if !args.is_empty() && p < T::Operand {
                    return vec![];
                }
                let mut at = D::one(self.dotted_at(i, n));
                for a in args {
                    at = self.tys(&at, a, T::Arg);
                }
                at
            }
            Type::TypeApplication(a, b) => {
                if p < T::Any {
                    return vec![];
                }
                let mut at = self.tys(&[i], a, T::Operand);
                at = self.sym(&at, "->");
                self.tys(&at, b, T::Any)
            }
            Type::TypeTuple(v) => {
                if v.len() == 1 {
                    return vec![];
                }
                let mut at = D::one(self.lit(i, "("));
                for (k, t) in v.iter().enumerate() {
                    if k > 0 {
                        at = self.sym(&at, ",");
                    }
                    at = self.tys(&at, t, T::Any);
                }
                self.sym(&at, ")")
            }
            Type::TypeRecord(f) => {
                let at = D::one(self.lit(i, "{"));
                self.type_pairs(at, f, "}")
            }
            Type::TypeRecordConstructor(_, f) if f.is_empty() => vec![],
            Type::TypeRecordConstructor(v, f) => {
                let n = match &**v {
                    Type::TypeVariable(n) => n,
                    _ => return vec![],
                };
                let mut at = D::one(self.lit(i, "{"));
                at = uniq(at.iter().filter_map(|&i| self.word(self.ws(i), n)).collect());
                at = self.sym(&at, "|");
                self.type_pairs(at, f, "}")
            }
        }
    }

    fn exports(&mut self, at: Vec<usize>, e: &ExportSet) -> Vec<usize> {
        let mut at = self.sym(&at, "(");
        match e {
            ExportSet::AllExport => at = self.sym(&at, ".."),
            ExportSet::SubsetExport(v) if v.is_empty() => return vec![],
            ExportSet::SubsetExport(v) => {
                for (k, x) in v.iter().enumerate() {
                    if k > 0 {
                        at = self.sym(&at, ",");
                    }
                    match x {
                        ExportSet::FunctionExport(n) => at = uniq(at.iter().filter_map(|&i| self.name_at(self.ws(i), n)).collect()),
                        ExportSet::TypeExport(n, s) => {
                            at = uniq(at.iter().filter_map(|&i| self.name_at(self.ws(i), n)).collect());
                            if let Some(s) = s {
                                match &**s {
                                    ExportSet::FunctionExport(_) | ExportSet::TypeExport(..) => return vec![],
                                    s => at = self.exports(at, s),
                                }
                            }
                        }
                        _ => return vec![],
                    }
                }
            }
            _ => return vec![],
        }
        self.sym(&at, ")")
    }

    fn dotted(&self, at: &[usize], v: &[String]) -> Vec<usize> {
        uniq(at.iter().filter_map(|&i| self.dotted_at(self.ws(i), v)).collect())
    }

    pub fn statement(&mut self, i: usize, s: &Statement) -> Vec<usize> {
        match s {
            Statement::Comment(t) => {
                let mut v = vec![];
                if let Some(j) = self.lit(i, "--").and_then(|j| self.lit(j, t)) {
                    if !t.contains('\n') && (j == self.s.len() || self.at(j) == b'\n') {
                        v.push(j);
                    }
                }
                if let Some(j) = self.lit(i, "{-").and_then(|j| self.lit(j, t)).and_then(|j| self.lit(j, "-}")) {
                    if crate::gen::comment_forms(t).1 {
                        v.push(j);
                    }
                }
                v
            }
            Statement::Function(f) => self.function(i, f),
            Statement::ModuleDeclaration(n, e) => {
                let mut at = D::one(self.word(i, "module"));
                at = self.dotted(&at, n);
                at = self.words(&at, "exposing");
                self.exports(at, e)
            }
            Statement::PortModuleDeclaration(n, e) => {
                let mut at = D::one(self.word(i, "port"));
                at = self.words(&at, "module");
                at = self.dotted(&at, n);
                at = self.words(&at, "exposing");
                self.exports(at, e)
            }
            Statement::EffectModuleDeclaration(n, w, e) => {
                let mut at = D::one(self.word(i, "effect"));
                at = self.words(&at, "module");
                at = self.dotted(&at, n);
                at = self.words(&at, "where");
                at = self.sym(&at, "{");
                for (k, (a, b)) in w.iter().enumerate() {
                    if k > 0 {
                        at = self.sym(&at, ",");
                    }
                    at = self.words(&at, a);
                    at = self.sym(&at, "=");
                    at = self.words(&at, b);
                }
                at = self.sym(&at, "}");
                at = self.words(&at, "exposing");
                self.exports(at, e)
            }
            Statement::ImportStatement(n, a, e) => {
                let mut at = D::one(self.word(i, "import"));
                at = self.dotted(&at, n);
                if let Some(a) = a {
                    at = self.words(&at, "as");
                    at = self.words(&at, a);
                }
                if let Some(e) = e {
                    at = self.words(&at, "exposing");
                    at = self.exports(at, e);
                }
                at
            }
            Statement::TypeAliasDeclaration(h, t) => {
                let mut at = D::one(self.word(i, "type"));
                at = self.words(&at, "alias");
                at = self.tys(&at, h, T::Operand);
                at = self.sym(&at, "=");
                self.tys(&at, t, T::Any)
            }
            Statement::TypeDeclaration(h, cs) => {
                let mut at = D::one(self.word(i, "type"));
                at = self.tys(&at, h, T::Operand);
                at = self.sym(&at, "=");
                for (k, c) in cs.iter().enumerate() {
                    if k > 0 {
                        at = self.sym(&at, "|");
                    }
                    at = self.tys(&at, c, T::Operand);
                }
                at
            }
            Statement::PortTypeDeclaration(n, t) => {
                let mut at = D::one(self.word(i, "port"));
                at = self.dotted(&at, std::slice::from_ref(n));
                at = self.sym(&at, ":");
                self.tys(&at, t, T::Any)
            }
            Statement::PortDeclaration(n, args, e) => {
                let mut at = D::one(self.word(i, "port"));
                at = self.dotted(&at, std::slice::from_ref(n));
                for a in args {
                    at = self.dotted(&at, std::slice::from_ref(a));
                }
                at = self.sym(&at, "=");
                self.ex(&at, e, P::Any)
            }
            Statement::InfixDeclaration(a, p, n) => {
                let w = match a {
                    Assoc::N => "infix",
                    Assoc::L => "infixl",
                    Assoc::R => "infixr",
                };
                let at = D::one(self.word(i, w));
                // leading zeros are the spelling's own
                let mut out = vec![];
                for i in at {
                    let i = self.ws(i);
                    let mut j = i;
                    while self.at(j).is_ascii_digit() {
                        j += 1;
                    }
                    let digits = std::str::from_utf8(&self.s[i..j]).unwrap();
                    if digits.parse::<i64>() == Ok(*p) {
                        let k = self.ws(j);
                        if n.starts_with(|c: char| c.is_ascii_lowercase()) {
                            out.extend(self.word(k, n));
                        } else if n == "_" {
                            out.extend(self.lit(k, n));
                        } else {
                            out.extend(self.operator(k, n));
                        }
                    }
                }
                out
            }
        }
    }

    /// `None` if the whole text can be read as these declarations.
    pub fn module(&mut self, v: &[Statement]) -> Option<String> {
        // between declarations there is white space only: comments there are statements
        fn space(s: &[u8], mut i: usize) -> usize {
            while i < s.len() && matches!(s[i], b' ' | b'\n' | b'\t' | b'\r') {
                i += 1;
            }
            i
        }
        let mut at = vec![0];
        for (k, st) in v.iter().enumerate() {
            let mut next = vec![];
            for i in &at {
                let j = space(self.s, *i);
                self.furthest = self.furthest.max(j);
                next.extend(self.statement(j, st));
            }
            if next.is_empty() {
                return Some(format!(
                    "the text cannot be read as declaration {} of the tree (reading came as far as byte {})",
                    k + 1,
                    self.furthest
                ));
            }
            at = uniq(next);
        }
        if at.iter().any(|&i| space(self.s, i) == self.s.len()) {
            None
        } else {
            Some(format!("after the last declaration of the tree, text remains at byte {}", at.last().unwrap()))
        }
    }
}
