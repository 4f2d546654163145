//! Reads back what `Debug` printed: the outcome of a parse as a tree of this harness's own types.
use crate::model::*;

#[derive(Debug, Clone, PartialEq, Hash)]
pub enum Node {
    /// `Name(a, b)` and `Name`; tuples have an empty name.
    Call(String, Vec<Node>),
    /// `Name { a: b }`
    Struct(String, Vec<(String, Node)>),
    List(Vec<Node>),
    Str(String),
    Chr(char),
    Int(i64),
}

struct R<'a> {
    s: &'a str,
    i: usize,
}

type Res<T> = Result<T, String>;

impl<'a> R<'a> {
    fn err<T>(&self, m: &str) -> Res<T> {
        let rest: String = self.s[self.i..].chars().take(40).collect();
        Err(format!("{} at byte {}: {:?}", m, self.i, rest))
    }
    fn peek(&self) -> Option<char> {
        self.s[self.i..].chars().next()
    }
    fn ws(&mut self) {
        while matches!(self.peek(), Some(' ') | Some('\n')) {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: char) -> bool {
        self.ws();
        if self.peek() == Some(c) {
            self.i += c.len_utf8();
            true
        } else {
            false
        }
    }
    fn need(&mut self, c: char) -> Res<()> {
        if self.eat(c) {
            Ok(())
        } else {
            self.err(&format!("expected {:?}", c))
        }
    }
    fn ident(&mut self) -> String {
        let st = self.i;
        while matches!(self.peek(), Some(c) if c.is_alphanumeric() || c == '_') {
            self.i += self.peek().unwrap().len_utf8();
        }
        self.s[st..self.i].to_string()
    }
    fn escaped(&mut self, quote: char) -> Res<String> {
        // the opening quote has been read
        let mut out = String::new();
        loop {
            let c = match self.peek() {
                None => return self.err("open quotes"),
                Some(c) => c,
            };
            self.i += c.len_utf8();
            if c == quote {
                return Ok(out);
            }
            if c != '\\' {
                out.push(c);
                continue;
            }
            let e = match self.peek() {
                None => return self.err("open escape"),
                Some(c) => c,
            };
            self.i += e.len_utf8();
            out.push(match e {
                'n' => '\n',
                'r' => '\r',
                't' => '\t',
                '0' => '\0',
                '\\' | '\'' | '"' => e,
                'u' => {
                    if self.peek() != Some('{') {
                        return self.err("bad escape");
                    }
                    self.i += 1;
                    let st = self.i;
                    while matches!(self.peek(), Some(c) if c.is_ascii_hexdigit()) {
                        self.i += 1;
                    }
                    let n = u32::from_str_radix(&self.s[st..self.i], 16).map_err(|e| e.to_string())?;
                    if self.peek() != Some('}') {
                        return self.err("bad escape");
                    }
                    self.i += 1;
                    match char::from_u32(n) {
                        Some(c) => c,
                        None => return self.err("bad code point"),
                    }
                }
                _ => return self.err("bad escape"),
            });
        }
    }
    fn seq(&mut self, close: char) -> Res<Vec<Node>> {
        let mut v = vec![];
        loop {
            if self.eat(close) {
                return Ok(v);
            }
            v.push(self.node()?);
            if !self.eat(',') {
                self.need(close)?;
                return Ok(v);
            }
        }
    }
    fn node(&mut self) -> Res<Node> {
        self.ws();
        match self.peek() {
            Some('"') => {
                self.i += 1;
                Ok(Node::Str(self.escaped('"')?))
            }
            Some('\'') => {
                self.i += 1;
                let s = self.escaped('\'')?;
                let mut c = s.chars();
                match (c.next(), c.next()) {
                    (Some(c), None) => Ok(Node::Chr(c)),
                    _ => self.err("bad character"),
                }
            }
            Some('[') => {
                self.i += 1;
                Ok(Node::List(self.seq(']')?))
            }
            Some('(') => {
                self.i += 1;
                Ok(Node::Call(String::new(), self.seq(')')?))
            }
            Some(c) if c.is_ascii_digit() || c == '-' => {
                let st = self.i;
                self.i += 1;
                while matches!(self.peek(), Some(c) if c.is_ascii_digit()) {
                    self.i += 1;
                }
                self.s[st..self.i].parse().map(Node::Int).map_err(|e: std::num::ParseIntError| e.to_string())
            }
            Some(c) if c.is_alphabetic() => {
                let name = self.ident();
                if self.peek() == Some('(') {
                    self.i += 1;
                    return Ok(Node::Call(name, self.seq(')')?));
                }
                let save = self.i;
                if self.eat('{') {
                    let mut v = vec![];
                    loop {
                        if self.eat('}') {
                            break;
                        }
                        self.ws();
                        let k = self.ident();
                        self.need(':')?;
                        let x = self.node()?;
                        v.push((k, x));
                        if !self.eat(',') {
                            self.need('}')?;
                            break;
                        }
                    }
                    return Ok(Node::Struct(name, v));
                }
                self.i = save;
                Ok(Node::Call(name, vec![]))
            }
            _ => self.err("unexpected text"),
        }
    }
}

pub fn read(s: &str) -> Res<Node> {
    let mut r = R { s, i: 0 };
    let n = r.node()?;
    r.ws();
    if r.i != s.len() {
        return r.err("trailing text");
    }
    Ok(n)
}

/// A hash of what was printed that does not depend on how characters are escaped.
pub fn digest(s: &str) -> u64 {
    match read(s) {
        Ok(n) => crate::engine::hash(&n),
        Err(_) => crate::engine::hash(s),
    }
}

/// The first thing printed, and where it ends.
pub fn read_some(s: &str) -> Res<(Node, usize)> {
    let mut r = R { s, i: 0 };
    let n = r.node()?;
    Ok((n, r.i))
}

#[derive(Debug, Clone, PartialEq)]
pub enum Out {
    Accepted(Vec<Statement>),
    /// The remainder and the kind of the error.
    Rejected(String, String),
}

fn bad<T>(n: &Node) -> Res<T> {
    let s = format!("{:?}", n);
    Err(format!("unexpected node {}", s.chars().take(200).collect::<String>()))
}

fn call<'a>(n: &'a Node) -> Res<(&'a str, &'a [Node])> {
    match n {
        Node::Call(s, v) => Ok((s, v)),
        _ => bad(n),
    }
}

fn text(n: &Node) -> Res<String> {
    match n {
        Node::Str(s) => Ok(s.clone()),
        _ => bad(n),
    }
}

fn list<'a>(n: &'a Node) -> Res<&'a [Node]> {
    match n {
        Node::List(v) => Ok(v),
        _ => bad(n),
    }
}

fn texts(n: &Node) -> Res<Vec<String>> {
    list(n)?.iter().map(text).collect()
}

fn option<'a>(n: &'a Node) -> Res<Option<&'a Node>> {
    match call(n)? {
        ("None", []) => Ok(None),
        ("Some", [x]) => Ok(Some(x)),
        _ => bad(n),
    }
}

fn pair<'a>(n: &'a Node) -> Res<(&'a Node, &'a Node)> {
    match call(n)? {
        ("", [a, b]) => Ok((a, b)),
        _ => bad(n),
    }
}

fn field<'a>(n: &'a Node, name: &str, k: &str) -> Res<&'a Node> {
    match n {
        Node::Struct(s, v) if s == name => match v.iter().find(|(a, _)| a == k) {
            Some((_, x)) => Ok(x),
            None => bad(n),
        },
        _ => bad(n),
    }
}

fn fields<T>(n: &Node, f: fn(&Node) -> Res<T>) -> Res<Vec<(String, T)>> {
    list(n)?
        .iter()
        .map(|x| {
            let (a, b) = pair(x)?;
            Ok((text(a)?, f(b)?))
        })
        .collect()
}

pub fn type_(n: &Node) -> Res<Type> {
    Ok(match call(n)? {
        ("TypeConstructor", [a, b]) => Type::TypeConstructor(texts(a)?, list(b)?.iter().map(type_).collect::<Res<_>>()?),
        ("TypeVariable", [a]) => Type::TypeVariable(text(a)?),
        ("TypeRecordConstructor", [a, b]) => Type::TypeRecordConstructor(Box::new(type_(a)?), fields(b, type_)?),
        ("TypeRecord", [a]) => Type::TypeRecord(fields(a, type_)?),
        ("TypeTuple", [a]) => Type::TypeTuple(list(a)?.iter().map(type_).collect::<Res<_>>()?),
        ("TypeApplication", [a, b]) => Type::TypeApplication(Box::new(type_(a)?), Box::new(type_(b)?)),
        _ => return bad(n),
    })
}

fn exprs(n: &Node) -> Res<Vec<Expression>> {
    list(n)?.iter().map(expr).collect()
}

fn bx(n: &Node) -> Res<Box<Expression>> {
    Ok(Box::new(expr(n)?))
}

pub fn expr(n: &Node) -> Res<Expression> {
    use Expression::*;
    Ok(match call(n)? {
        ("Character", [Node::Chr(c)]) => Character(*c),
        ("String", [a]) => String(text(a)?),
        ("Integer", [a]) => Integer(text(a)?),
        ("Float", [a]) => Float(text(a)?),
        ("Variable", [a]) => Variable(texts(a)?),
        ("List", [a]) => List(exprs(a)?),
        ("Tuple", [a]) => Tuple(exprs(a)?),
        ("Access", [a, b]) => Access(bx(a)?, texts(b)?),
        ("AccessFunction", [a]) => AccessFunction(text(a)?),
        ("Record", [a]) => Record(fields(a, expr)?),
        ("RecordUpdate", [a, b]) => RecordUpdate(text(a)?, fields(b, expr)?),
        ("If", [a, b, c]) => If(bx(a)?, bx(b)?, bx(c)?),
        ("Let", [a, b]) => Let(list(a)?.iter().map(entry).collect::<Res<_>>()?, bx(b)?),
        ("Case", [a, b]) => Case(
            bx(a)?,
            list(b)?
                .iter()
                .map(|x| {
                    let (p, e) = pair(x)?;
                    Ok((expr(p)?, expr(e)?))
                })
                .collect::<Res<_>>()?,
        ),
        ("Lambda", [a, b]) => Lambda(exprs(a)?, bx(b)?),
        ("Application", [a, b]) => Application(bx(a)?, bx(b)?),
        ("BinOp", [a, b, c]) => BinOp(bx(a)?, bx(b)?, bx(c)?),
        _ => return bad(n),
    })
}

fn entry(n: &Node) -> Res<LetEntry> {
    Ok(match call(n)? {
        ("LetFunction", [a]) => LetEntry::LetFunction(function_(a)?),
        ("LetBinding", [a, b]) => LetEntry::LetBinding(expr(a)?, expr(b)?),
        _ => return bad(n),
    })
}

fn function_(n: &Node) -> Res<Function> {
    let sig = match option(field(n, "Function", "signature")?)? {
        None => None,
        Some(s) => Some(FunctionSignature {
            name: text(field(s, "FunctionSignature", "name")?)?,
            type_: type_(field(s, "FunctionSignature", "type_")?)?,
        }),
    };
    let d = field(n, "Function", "definition")?;
    let g = |k| field(d, "FunctionDefinition", k);
    Ok(Function {
        signature: sig,
        definition: FunctionDefinition { name: text(g("name")?)?, args: exprs(g("args")?)?, body: expr(g("body")?)? },
    })
}

fn export(n: &Node) -> Res<ExportSet> {
    Ok(match call(n)? {
        ("AllExport", []) => ExportSet::AllExport,
        ("SubsetExport", [a]) => ExportSet::SubsetExport(list(a)?.iter().map(export).collect::<Res<_>>()?),
        ("FunctionExport", [a]) => ExportSet::FunctionExport(text(a)?),
        ("TypeExport", [a, b]) => ExportSet::TypeExport(
            text(a)?,
            match option(b)? {
                None => None,
                Some(x) => Some(Box::new(export(x)?)),
            },
        ),
        _ => return bad(n),
    })
}

pub fn statement(n: &Node) -> Res<Statement> {
    Ok(match call(n)? {
        ("ModuleDeclaration", [a, b]) => Statement::ModuleDeclaration(texts(a)?, export(b)?),
        ("PortModuleDeclaration", [a, b]) => Statement::PortModuleDeclaration(texts(a)?, export(b)?),
        ("EffectModuleDeclaration", [a, b, c]) => Statement::EffectModuleDeclaration(texts(a)?, fields(b, text)?, export(c)?),
        ("ImportStatement", [a, b, c]) => Statement::ImportStatement(
            texts(a)?,
            match option(b)? {
                None => None,
                Some(x) => Some(text(x)?),
            },
            match option(c)? {
                None => None,
                Some(x) => Some(export(x)?),
            },
        ),
        ("TypeAliasDeclaration", [a, b]) => Statement::TypeAliasDeclaration(type_(a)?, type_(b)?),
        ("TypeDeclaration", [a, b]) => Statement::TypeDeclaration(type_(a)?, list(b)?.iter().map(type_).collect::<Res<_>>()?),
        ("PortTypeDeclaration", [a, b]) => Statement::PortTypeDeclaration(text(a)?, type_(b)?),
        ("PortDeclaration", [a, b, c]) => Statement::PortDeclaration(text(a)?, texts(b)?, expr(c)?),
        ("Function", [a]) => Statement::Function(function_(a)?),
        ("InfixDeclaration", [a, Node::Int(p), b]) => {
            let assoc = match call(a)? {
                ("N", []) => Assoc::N,
                ("L", []) => Assoc::L,
                ("R", []) => Assoc::R,
                _ => return bad(n),
            };
            Statement::InfixDeclaration(assoc, *p, text(b)?)
        }
        ("Comment", [a]) => Statement::Comment(text(a)?),
        _ => return bad(n),
    })
}

pub fn statements(n: &Node) -> Res<Vec<Statement>> {
    list(n)?.iter().map(statement).collect()
}

/// The outcome that the parser's result, printed by `Debug`, stands for.
pub fn outcome(s: &str) -> Res<Out> {
    let n = read(s)?;
    match call(&n)? {
        ("Ok", [r]) => {
            let (rest, v) = pair(r)?;
            match call(rest)? {
                ("CompleteStr", [t]) => {
                    if !text(t)?.is_empty() {
                        return Err(format!("accepted with the remainder {:?}", text(t)?));
                    }
                }
                _ => return bad(&n),
            }
            Ok(Out::Accepted(statements(v)?))
        }
        ("Err", [e]) => match call(e)? {
            ("Error", [c]) | ("Failure", [c]) => match call(c)? {
                ("Code", [i, k]) => match (call(i)?, call(k)?) {
                    (("CompleteStr", [t]), (kind, _)) => Ok(Out::Rejected(text(t)?, kind.to_string())),
                    _ => bad(&n),
                },
                // the chain of what was being looked for, outermost last
                ("List", [v]) => match list(v)?.last().map(pair) {
                    Some(Ok((i, k))) => match (call(i)?, call(k)?) {
                        (("CompleteStr", [t]), (kind, _)) => Ok(Out::Rejected(text(t)?, kind.to_string())),
                        _ => bad(&n),
                    },
                    _ => bad(&n),
                },
                _ => bad(&n),
            },
            _ => bad(&n),
        },
        _ => bad(&n),
    }
}

/// What the tools are to print for an outcome: the tree or the error.
pub fn shown(s: &str) -> Res<(bool, Node)> {
    let n = read(s)?;
    match call(&n)? {
        ("Ok", [r]) => Ok((true, pair(r)?.1.clone())),
        ("Err", [e]) => Ok((false, e.clone())),
        _ => bad(&n),
    }
}
