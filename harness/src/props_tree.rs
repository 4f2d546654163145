//! Properties decided by generating a tree, spelling it as text, and comparing the parser's result
//! with the tree.
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::print::*;
use crate::rng::Rng;
use crate::shrink;

/// Parses a spelling of the tree and demands exactly the tree. Gives the printer, for monitors.
pub fn demand(env: &mut Env, m: &[Statement], style: Style) -> Printer {
    let pr = Rng::new(env.r.next(), 77, 0);
    let p = print(m, pr, style.clone());
    let want = accepted(m);
    let got = match env.outcome(&p.out) {
        Some(g) => g,
        None => return p,
    };
    env.count("tokens", p.toks.len() as u64);
    env.count("line breaks inside and between declarations", p.line_breaks as u64);
    env.count("comments inside declarations", p.inner_comments as u64);
    env.count("redundant parentheses", p.extra_parens as u64);
    if got != want {
        shrink_and_report(env, m, style, &p.out, &want, &got);
    }
    p
}

/// A tree of which listing all variants takes little time and memory.
const SMALL: usize = 10_000;

fn shrink_and_report(env: &mut Env, m: &[Statement], style: Style, src: &str, want: &str, got: &str) {
    let mut best = (src.to_string(), want.to_string(), got.to_string());
    let mut cur = m.to_vec();
    let mut tries = 0;
    let started = std::time::Instant::now();
    // whether the parser is wrong about a tree in some style too, in a shorter text
    let mut fails = |env: &mut Env, cand: &[Statement], shortest: usize| -> Option<(String, String, String)> {
        for k in 0..4 {
            tries += 1;
            if tries > 1500 || started.elapsed().as_secs() > 15 || env.shared.violations.lock().unwrap().len() > 3 {
                return None;
            }
            let st = if k == 0 { Style::flat() } else { style.clone() };
            let p = print(cand, Rng::new(env.r.next(), 78, k), st);
            if p.out.len() >= shortest {
                continue;
            }
            let w = accepted(cand);
            match env.parse(&p.out) {
                Parsed::Text(ref g) if *g == w => {}
                Parsed::Text(g) | Parsed::Panic(g) => return Some((p.out, w, g)),
            }
        }
        None
    };
    let mut vain = 0;
    while best.1.len() > SMALL && vain < 60 {
        let cand = shrink::thin(&cur, &mut env.r);
        match fails(env, &cand, best.0.len()) {
            Some(b) => {
                best = b;
                cur = cand;
                vain = 0;
            }
            None => vain += 1,
        }
    }
    'outer: while best.1.len() <= SMALL {
        for cand in shrink::module_variants(&cur) {
            if let Some(b) = fails(env, &cand, best.0.len()) {
                best = b;
                cur = cand;
                continue 'outer;
            }
        }
        break;
    }
    env.violate("the tree is not the one the text spells", &best.0, &best.1, &best.2);
}

fn sized(env: &mut Env, depth: usize, width: usize, fuel: usize, w: [u32; 5]) -> Cfg {
    let d = env.r.range(1, depth);
    let wd = env.r.range(1, width);
    Cfg { depth: d, width: wd, fuel, w, tricky: *env.r.pick(&[0, 10, 30]), wild_literals: env.r.pct(30) }
}

fn expr_module(env: &mut Env, cfg: Cfg) -> Vec<Statement> {
    let d = cfg.depth;
    let mut g = Gen::new(&mut env.r, cfg);
    let e = g.expr(d);
    let n = g.lower();
    vec![function(&n, vec![], e)]
}

fn tree_key(m: &[Statement]) -> u64 {
    hash(&format!("{:?}", m))
}

fn note_expr(env: &mut Env, e: &Expression) {
    env.max("expression nodes", e.size() as u64);
    env.max("expression depth", depth(e) as u64);
}

pub fn depth(e: &Expression) -> usize {
    use Expression::*;
    1 + match e {
        List(v) | Tuple(v) => v.iter().map(depth).max().unwrap_or(0),
        Access(e, _) => depth(e),
        Record(f) | RecordUpdate(_, f) => f.iter().map(|p| depth(&p.1)).max().unwrap_or(0),
        If(a, b, c) => depth(a).max(depth(b)).max(depth(c)),
        BinOp(_, b, c) | Application(b, c) => depth(b).max(depth(c)),
        Lambda(_, b) => depth(b),
        Case(e, bs) => bs.iter().map(|b| depth(&b.1)).max().unwrap_or(0).max(depth(e)),
        Let(es, b) => es
            .iter()
            .map(|e| match e {
                LetEntry::LetFunction(f) => depth(&f.definition.body),
                LetEntry::LetBinding(_, e) => depth(e),
            })
            .max()
            .unwrap_or(0)
            .max(depth(b)),
        _ => 0,
    }
}

fn body(m: &[Statement]) -> Option<&Expression> {
    match &m[0] {
        Statement::Function(f) => Some(&f.definition.body),
        _ => None,
    }
}

// C04

pub fn c04_random(env: &mut Env, _: u64) {
    let cfg = sized(env, 5, 4, 40, [2, 4, 4, 6, 0]);
    let m = expr_module(env, cfg);
    let e = body(&m).unwrap().clone();
    if e.size() > 2 {
        env.nontrivial(&tree_key(&m));
    }
    note_expr(env, &e);
    let s = Style::random(&mut env.r);
    let p = demand(env, &m, s);
    if e.size() > 4 {
        env.sample(&p.out);
    }
}

/// Long chains, wide containers, deep nests of one or two constructs.
pub fn c04_shapes(env: &mut Env, _: u64) {
    let kind = env.r.below(9);
    let n = *env.r.pick(&[2usize, 3, 5, 8, 13, 21, 34]);
    let cfg = Cfg { depth: 1, width: 2, fuel: 10, w: [3, 2, 2, 3, 0], ..Cfg::default() };
    let mut g = Gen::new(&mut env.r, cfg);
    let e = match kind {
        0 => {
            let mut e = g.leaf();
            for _ in 0..n {
                let a = g.expr(1);
                e = app(e, a);
            }
            e
        }
        1 => {
            let mut e = g.expr(1);
            for _ in 0..n {
                let op = g.op();
                let l = g.expr(1);
                e = binop(&op, l, e);
            }
            e
        }
        2 => Expression::List((0..n).map(|_| g.expr(1)).collect()),
        3 => Expression::Tuple((0..n.max(2)).map(|_| g.expr(1)).collect()),
        4 => Expression::Record((0..n).map(|_| (g.lower(), g.expr(1))).collect()),
        5 => {
            let r = g.lower();
            Expression::RecordUpdate(r, (0..n).map(|_| (g.lower(), g.expr(1))).collect())
        }
        6 => {
            let b = g.qualified();
            let names = (0..n).map(|_| g.lower()).collect();
            Expression::Access(Box::new(Expression::Variable(b)), names)
        }
        7 => {
            // left nested operators, each in parentheses
            let mut e = g.leaf();
            for _ in 0..n.min(21) {
                let op = g.op();
                let r = g.leaf();
                e = binop(&op, e, r);
            }
            e
        }
        _ => {
            let mut e = g.leaf();
            for _ in 0..n {
                e = wrap(&mut g, e);
            }
            e
        }
    };
    let name = g.lower();
    let m = vec![function(&name, vec![], e.clone())];
    env.nontrivial(&tree_key(&m));
    note_expr(env, &e);
    let s = Style::random(&mut env.r);
    demand(env, &m, s);
}

/// One more construct around an expression.
pub fn wrap(g: &mut Gen, e: Expression) -> Expression {
    match g.r.below(9) {
        0 => Expression::List(vec![e]),
        1 => {
            let l = g.leaf();
            Expression::List(vec![l, e])
        }
        2 => {
            let l = g.leaf();
            Expression::Tuple(vec![e, l])
        }
        3 => Expression::Record(vec![(g.lower(), e)]),
        4 => Expression::RecordUpdate(g.lower(), vec![(g.lower(), e)]),
        5 => {
            let f = g.leaf();
            app(f, e)
        }
        6 => {
            let a = g.leaf();
            app(e, a)
        }
        7 => {
            let op = g.op();
            let l = g.leaf();
            binop(&op, l, e)
        }
        _ => {
            let op = g.op();
            let l = g.leaf();
            binop(&op, e, l)
        }
    }
}

// C05

pub fn c05(env: &mut Env, _: u64) {
    let cfg = Cfg { wild_literals: true, depth: 2, width: 4, fuel: 12, ..Cfg::default() };
    let mut g = Gen::new(&mut env.r, cfg);
    let n = g.r.range(1, 6);
    let lits: Vec<Expression> = (0..n).map(|_| g.literal()).collect();
    let mut it = lits.iter().cloned();
    let first = it.next().unwrap();
    let pat = |e: &Expression| matches!(e, Expression::Integer(_) | Expression::String(_) | Expression::Character(_) | Expression::Float(_));
    let e = match g.r.below(8) {
        0 => Expression::List(lits.clone()),
        1 => it.fold(app(var("f"), first), app),
        2 => it.fold(first, |e, l| {
            let op = g.op();
            binop(&op, l, e)
        }),
        3 => Expression::Record(lits.iter().map(|l| (g.lower(), l.clone())).collect()),
        4 if n > 1 => Expression::Tuple(lits.clone()),
        5 => {
            let bs = lits.iter().filter(|l| pat(l)).map(|l| (l.clone(), g.literal())).collect::<Vec<_>>();
            let s = g.literal();
            Expression::Case(Box::new(s), bs)
        }
        6 => {
            let b = g.literal();
            Expression::Let(lits.iter().map(|l| LetEntry::LetBinding(var(&g.lower()), l.clone())).collect(), Box::new(b))
        }
        _ => {
            let (b, c) = (g.literal(), g.literal());
            Expression::If(Box::new(first), Box::new(b), Box::new(c))
        }
    };
    let name = g.lower();
    let args = if g.r.pct(20) { vec![g.literal()] } else { vec![] };
    let m = vec![function(&name, args, e)];
    for l in &lits {
        env.nontrivial(&format!("{:?}", l));
        match l {
            Expression::Integer(_) => env.count("integers", 1),
            Expression::Float(_) => env.count("floats", 1),
            Expression::String(s) if s.contains('\n') => env.count("strings of several lines", 1),
            Expression::String(_) => env.count("strings", 1),
            _ => env.count("characters", 1),
        }
    }
    let s = Style::random(&mut env.r);
    let p = demand(env, &m, s);
    env.sample(&p.out);
}

/// Every ASCII character and the borders of Unicode's ranges, in every form, and all of Latin-1.
pub fn c05_characters(env: &mut Env, case: u64) {
    let borders = [
        0x100u32, 0x17f, 0x7ff, 0x800, 0xfff, 0x1000, 0x2028, 0x2029, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff,
    ];
    let n = if case < 256 { case as u32 } else { borders[(case as usize - 256) % borders.len()] };
    let c = char::from_u32(n).unwrap();
    env.nontrivial(&("char", n));
    for form in 0..6 {
        let upper = form % 2 == 0;
        let inner = match form {
            0 | 1 if n <= 0xff => {
                if upper {
                    format!("\\x{:02X}", n)
                } else {
                    format!("\\x{:02x}", n)
                }
            }
            2 => format!("\\u{{{:X}}}", n),
            3 => format!("\\u{{{:04x}}}", n),
            4 if c != '\'' && c != '\\' && c != '\n' && c != '\r' => c.to_string(),
            5 => match c {
                '\n' => "\\n".into(),
                '\r' => "\\r".into(),
                '\t' => "\\t".into(),
                '\\' => "\\\\".into(),
                '\'' => "\\'".into(),
                '"' => "\\\"".into(),
                _ => continue,
            },
            _ => continue,
        };
        let src = format!("f = g '{}' [ '{}' ]\n", inner, inner);
        let want = accepted(&[function(
            "f",
            vec![],
            app(app(var("g"), Expression::Character(c)), Expression::List(vec![Expression::Character(c)])),
        )]);
        if let Some(got) = env.outcome(&src) {
            if got != want {
                env.violate("a character literal does not denote its character", &src, &want, &got);
            }
        }
        // the same character in strings
        if c != '"' && c != '\\' && c != '\n' {
            let src = format!("f = \"a{}b\"\n\ng = \"\"\"{}\"\"\"\n", c, c);
            let want = accepted(&[
                function("f", vec![], Expression::String(format!("a{}b", c))),
                function("g", vec![], Expression::String(c.to_string())),
            ]);
            if let Some(got) = env.outcome(&src) {
                if got != want {
                    env.violate("a string does not keep a character", &src, &want, &got);
                }
            }
        }
    }
}

// C06

pub fn c06_random(env: &mut Env, _: u64) {
    let cfg = sized(env, 5, 4, 30, [2, 1, 2, 1, 8]);
    let m = expr_module(env, cfg);
    let e = body(&m).unwrap().clone();
    let mut s = Style::random(&mut env.r);
    if s.nl == 0 && env.r.pct(70) {
        s = Style::wild();
    }
    s.nl = s.nl.max(10);
    let p = demand(env, &m, s);
    if !p.lines.is_empty() {
        env.nontrivial(&p.out);
        env.count("branches and entries on lines of their own", p.lines.len() as u64);
    }
    note_expr(env, &e);
    if p.lines.len() > 2 {
        env.sample(&p.out);
    }
}

/// A ladder of blocks, each in the last or a middle part of the one around it.
pub fn c06_ladder(env: &mut Env, _: u64) {
    let cfg = Cfg { depth: 1, width: 2, fuel: 6, ..Cfg::default() };
    let n = env.r.range(2, 12);
    let mut g = Gen::new(&mut env.r, cfg);
    let mut e = g.leaf();
    for _ in 0..n {
        let (l, k) = (g.leaf(), g.leaf());
        e = match g.r.below(12) {
            0 => Expression::If(Box::new(l), Box::new(e), Box::new(k)),
            1 => Expression::If(Box::new(l), Box::new(k), Box::new(e)),
            2 => Expression::If(Box::new(e), Box::new(k), Box::new(l)),
            3 => {
                let (p, q) = (g.pattern(1), g.pattern(1));
                Expression::Case(Box::new(l), vec![(p, e), (q, k)])
            }
            4 => {
                let (p, q) = (g.pattern(1), g.pattern(1));
                Expression::Case(Box::new(l), vec![(p, k), (q, e)])
            }
            5 => {
                let p = g.pattern(1);
                Expression::Case(Box::new(e), vec![(p, k)])
            }
            6 => Expression::Let(
                vec![LetEntry::LetBinding(var(&g.lower()), e), LetEntry::LetBinding(var(&g.lower()), l)],
                Box::new(k),
            ),
            7 => {
                let entry = g.let_entry(1);
                Expression::Let(vec![entry], Box::new(e))
            }
            8 => {
                let p = g.pattern(1);
                Expression::Lambda(vec![p], Box::new(e))
            }
            9 => {
                let op = g.op();
                binop(&op, l, e)
            }
            10 => Expression::List(vec![l, e, k]),
            _ => {
                let p = g.pattern(1);
                let f = Function { signature: None, definition: FunctionDefinition { name: g.lower(), args: vec![p], body: e } };
                Expression::Let(vec![LetEntry::LetFunction(f), LetEntry::LetBinding(var(&g.lower()), l)], Box::new(k))
            }
        };
    }
    let name = g.lower();
    let m = vec![function(&name, vec![], e.clone()), function("after", vec![], int("1"))];
    note_expr(env, &e);
    let s = Style::random(&mut env.r);
    let p = demand(env, &m, s);
    env.nontrivial(&p.out);
    env.count("branches and entries on lines of their own", p.lines.len() as u64);
}

// C08

/// One tree in several layouts, from the plainest to the wildest.
pub fn c08(env: &mut Env, _: u64) {
    let cfg = sized(env, 4, 3, 25, [2, 3, 3, 4, 4]);
    let d = cfg.depth;
    let n = env.r.range(1, 2);
    let m = if env.r.pct(60) {
        let mut g = Gen::new(&mut env.r, cfg);
        g.module(n, d)
    } else {
        expr_module(env, cfg)
    };
    let layouts = 3;
    let mut seen = vec![];
    for k in 0..layouts {
        let s = match k {
            0 => Style::flat(),
            1 => Style::wild(),
            _ => Style::random(&mut env.r),
        };
        let p = demand(env, &m, s);
        if !seen.contains(&p.out) {
            env.nontrivial(&p.out);
            env.count("layouts that differ from the others of their tree", 1);
            if k == 1 {
                env.sample(&p.out);
            }
            seen.push(p.out);
        }
    }
}

/// Small edits of layout to a printed text, each of which must leave the result as it is.
pub fn c08_edits(env: &mut Env, _: u64) {
    let cfg = sized(env, 4, 3, 20, [2, 3, 3, 4, 4]);
    let d = cfg.depth;
    let mut g = Gen::new(&mut env.r, cfg);
    let m = g.module(2, d);
    let st = Style::random(&mut env.r);
    let p = print(&m, Rng::new(env.r.next(), 77, 0), st);
    let want = accepted(&m);
    let base = p.out.clone();
    for _ in 0..3 {
        // token boundaries at line ends that are not inside a string or comment
        let mut t = base.clone();
        match env.r.below(4) {
            0 => {
                // trailing spaces after a token that ends its line
                let ends: Vec<usize> = p
                    .toks
                    .iter()
                    .filter(|k| k.k != K::Comment && k.k != K::Inner && base[k.end..].starts_with('\n'))
                    .map(|k| k.end)
                    .collect();
                if ends.is_empty() {
                    continue;
                }
                let k = env.r.range(1, 4);
                for &i in ends.iter().rev() {
                    t.insert_str(i, &" ".repeat(k));
                }
                env.count("edits: trailing spaces", 1);
            }
            1 => {
                // the end of the file
                let last_comment = p.toks.last().map(|t| t.k == K::Comment) == Some(true);
                t = t.trim_end_matches(|c| c == '\n').to_string();
                if !last_comment {
                    t = t.trim_end_matches(|c| c == '\n' || c == ' ').to_string();
                }
                for _ in 0..env.r.below(4) {
                    t.push('\n');
                }
                env.count("edits: end of file", 1);
            }
            2 => {
                // blank lines between declarations
                for &(s, _) in p.stmts.iter().rev() {
                    let at_line_start = s == 0 || base.as_bytes()[s - 1] == b'\n';
                    if at_line_start {
                        let k = env.r.below(4);
                        t.insert_str(s, &"\n".repeat(k));
                    }
                }
                env.count("edits: blank lines between declarations", 1);
            }
            _ => {
                // more spaces where there are some, inside a line
                let mut k = p.toks.len();
                while k > 1 {
                    k -= 1;
                    let (a, b) = (p.toks[k - 1], p.toks[k]);
                    let gap = &base[a.end..b.start];
                    if a.st == b.st && !gap.is_empty() && gap.chars().all(|c| c == ' ') && env.r.pct(30) {
                        // a wider gap moves what follows on its line; a branch or entry kept on
                        // the line of its keyword sets the column for the lines after it
                        let line_end = base[b.start..].find('\n').map(|i| b.start + i).unwrap_or(base.len());
                        let rest = &base[b.start..line_end];
                        if rest.contains("of ") || rest.contains("let ") || base[..a.end].ends_with("of") || base[..a.end].ends_with("let") {
                            continue;
                        }
                        t.insert_str(b.start, &" ".repeat(env.r.range(1, 3)));
                    }
                }
                env.count("edits: wider gaps", 1);
            }
        }
        env.nontrivial(&t);
        if let Some(got) = env.outcome(&t) {
            if got != want {
                env.violate("an edit of the layout changed the result", &t, &want, &got);
                return;
            }
        }
    }
}

/// The inputs listed as known findings: rejecting them is known, misreading them would be new.
pub fn c06_known_all(env: &mut Env, case: u64) {
    if case > 0 {
        return;
    }
    let entry = |n: &str, e: &str| LetEntry::LetBinding(var(n), int(e));
    let probes = [
        (
            "a let with two entries, the first on its line",
            "f =\n    let a = 1\n        b = 2\n    in\n        a\n",
            function("f", vec![], Expression::Let(vec![entry("a", "1"), entry("b", "2")], Box::new(var("a")))),
        ),
        (
            "a case with two branches, the first on its line",
            "f =\n    case a of b -> 1\n              c -> 2\n",
            function("f", vec![], Expression::Case(Box::new(var("a")), vec![(var("b"), int("1")), (var("c"), int("2"))])),
        ),
    ];
    for k in known_findings(&env.shared.verif, "C06") {
        let (_, src, tree) = match probes.iter().find(|p| p.0 == k.input) {
            Some(p) => p,
            None => return env.inconclusive(&format!("unknown input in the known findings: {}", k.input)),
        };
        let want = accepted(&[tree.clone()]);
        if let Some(got) = env.outcome(src) {
            env.count("inputs of known findings", 1);
            if got.starts_with("Err(") {
                env.known_finding(&format!("{}: {}", k.input, k.what));
            } else if got != want {
                env.violate("the parser built another tree than the text says", src, &want, &got);
            }
        }
    }
}

// C09

pub fn c09(env: &mut Env, case: u64) {
    let w = env.r.range(1, 4);
    let cfg = Cfg { width: w, depth: 2, fuel: 3, ..Cfg::default() };
    let d = env.r.range(0, 4);
    let mut g = Gen::new(&mut env.r, cfg);
    let t = g.type_(d);
    env_type(&t);
    let name = g.lower();
    let s = match case % 5 {
        0 => Statement::PortTypeDeclaration(name, t.clone()),
        1 => Statement::TypeAliasDeclaration(Type::TypeConstructor(vec![g.upper()], vec![]), t.clone()),
        2 => Statement::Function(Function {
            signature: Some(FunctionSignature { name: name.clone(), type_: t.clone() }),
            definition: FunctionDefinition { name, args: vec![], body: int("1") },
        }),
        3 => Statement::TypeDeclaration(
            Type::TypeConstructor(vec![g.upper()], vec![]),
            vec![Type::TypeConstructor(vec![g.upper()], vec![t.clone()]), Type::TypeConstructor(vec![g.upper()], vec![])],
        ),
        _ => {
            let f = Function {
                signature: Some(FunctionSignature { name: name.clone(), type_: t.clone() }),
                definition: FunctionDefinition { name, args: vec![var("x")], body: var("x") },
            };
            function("f", vec![], Expression::Let(vec![LetEntry::LetFunction(f)], Box::new(int("1"))))
        }
    };
    let m = vec![s];
    let st = Style::random(&mut env.r);
    let p = demand(env, &m, st);
    if type_size(&t) > 1 {
        env.nontrivial(&p.out);
        env.sample(&p.out);
    }
    env.max("type nodes", type_size(&t) as u64);
    env.max("type depth", type_depth(&t) as u64);
}

fn env_type(_: &Type) {}

/// Long arrow chains, deep nests, many arguments.
pub fn c09_shapes(env: &mut Env, _: u64) {
    let n = *env.r.pick(&[2usize, 3, 5, 8, 13, 21]);
    let k = env.r.below(6);
    let mut g = Gen::new(&mut env.r, Cfg { width: 2, ..Cfg::default() });
    let mut t = g.type_(1);
    match k {
        0 => {
            for _ in 0..n {
                t = Type::TypeApplication(Box::new(g.type_(1)), Box::new(t));
            }
        }
        1 => {
            for _ in 0..n.min(13) {
                t = Type::TypeApplication(Box::new(t), Box::new(g.type_(0)));
            }
        }
        2 => t = Type::TypeConstructor(g.qualified(), (0..n).map(|_| g.type_(1)).collect()),
        3 => t = Type::TypeRecord((0..n).map(|_| (g.lower(), g.type_(1))).collect()),
        4 => t = Type::TypeTuple((0..n).map(|_| g.type_(1)).collect()),
        _ => {
            for _ in 0..n.min(13) {
                t = match g.r.below(6) {
                    0 => Type::TypeConstructor(g.qualified(), vec![t]),
                    1 => Type::TypeRecord(vec![(g.lower(), t)]),
                    2 => Type::TypeTuple(vec![t, g.type_(0)]),
                    3 => Type::TypeTuple(vec![g.type_(0), t]),
                    4 => Type::TypeRecordConstructor(Box::new(Type::TypeVariable(g.lower())), vec![(g.lower(), t)]),
                    _ => Type::TypeApplication(Box::new(t), Box::new(g.type_(0))),
                };
            }
        }
    }
    let name = g.lower();
    let m = vec![Statement::PortTypeDeclaration(name, t.clone())];
    env.nontrivial(&tree_key(&m));
    env.max("type nodes", type_size(&t) as u64);
    env.max("type depth", type_depth(&t) as u64);
    let st = Style::random(&mut env.r);
    demand(env, &m, st);
}

pub fn type_size(t: &Type) -> usize {
    1 + match t {
        Type::TypeConstructor(_, v) | Type::TypeTuple(v) => v.iter().map(type_size).sum(),
        Type::TypeVariable(_) => 0,
        Type::TypeRecord(f) => f.iter().map(|p| type_size(&p.1)).sum(),
        Type::TypeRecordConstructor(_, f) => 1 + f.iter().map(|p| type_size(&p.1)).sum::<usize>(),
        Type::TypeApplication(a, b) => type_size(a) + type_size(b),
    }
}

pub fn type_depth(t: &Type) -> usize {
    1 + match t {
        Type::TypeConstructor(_, v) | Type::TypeTuple(v) => v.iter().map(type_depth).max().unwrap_or(0),
        Type::TypeVariable(_) => 0,
        Type::TypeRecord(f) | Type::TypeRecordConstructor(_, f) => f.iter().map(|p| type_depth(&p.1)).max().unwrap_or(0),
        Type::TypeApplication(a, b) => type_depth(a).max(type_depth(b)),
    }
}

// C10, C11, C12

pub fn c10(env: &mut Env, case: u64) {
    let w = env.r.range(1, 5);
    let n = env.r.range(1, 4);
    let mut g = Gen::new(&mut env.r, Cfg { width: w, tricky: 25, ..Cfg::default() });
    let m: Vec<Statement> = (0..n)
        .map(|_| {
            if case % 3 == 0 {
                g.alias()
            } else {
                g.union()
            }
        })
        .collect();
    for s in &m {
        match s {
            Statement::TypeDeclaration(h, cs) => {
                env.count("union types", 1);
                env.count("constructors", cs.len() as u64);
                env.max("constructors", cs.len() as u64);
                env.max("type parameters", (type_size(h) - 1) as u64);
                for c in cs {
                    if let Type::TypeConstructor(_, a) = c {
                        env.max("constructor arguments", a.len() as u64);
                    }
                }
            }
            _ => env.count("aliases", 1),
        }
    }
    let st = Style::random(&mut env.r);
    let p = demand(env, &m, st);
    env.nontrivial(&p.out);
    env.sample(&p.out);
}

pub fn c11(env: &mut Env, case: u64) {
    let w = env.r.range(1, 5);
    let n = env.r.range(0, 5);
    let mut g = Gen::new(&mut env.r, Cfg { width: w, tricky: 30, ..Cfg::default() });
    let mut m: Vec<Statement> = vec![];
    if case % 2 == 0 {
        m.push(g.header());
    }
    for _ in 0..n {
        m.push(g.import());
        if g.r.pct(10) {
            m.push(g.comment());
        }
    }
    if m.is_empty() {
        m.push(g.import());
    }
    if g.r.pct(40) {
        m.push(function("f", vec![], int("1")));
    }
    for s in &m {
        match s {
            Statement::ModuleDeclaration(..) => env.count("plain headers", 1),
            Statement::PortModuleDeclaration(..) => env.count("port headers", 1),
            Statement::EffectModuleDeclaration(..) => env.count("effect headers", 1),
            Statement::ImportStatement(_, a, e) => {
                env.count("imports", 1);
                if a.is_some() {
                    env.count("imports with an alias", 1)
                }
                if e.is_some() {
                    env.count("imports with an exposing list", 1)
                }
            }
            _ => {}
        }
    }
    let st = Style::random(&mut env.r);
    let p = demand(env, &m, st);
    env.nontrivial(&p.out);
    env.sample(&p.out);
}

pub fn c12(env: &mut Env, case: u64) {
    let cfg = sized(env, 2, 3, 8, [4, 3, 2, 3, 2]);
    let d = cfg.depth;
    let mut g = Gen::new(&mut env.r, cfg);
    let n = g.r.range(1, 3);
    let m: Vec<Statement> = (0..n)
        .map(|_| match case % 6 {
            0 => g.infix(),
            1 => g.port(d),
            2 => {
                let es = (0..g.r.range(1, 4)).map(|_| g.let_entry(1)).collect();
                let b = g.leaf();
                let name = g.lower();
                function(&name, vec![], Expression::Let(es, Box::new(b)))
            }
            3 => {
                // many arguments
                let name = g.lower();
                let k = g.r.range(3, 9);
                let args = (0..k).map(|_| g.pattern(2)).collect();
                let b = g.leaf();
                function(&name, args, b)
            }
            _ => Statement::Function(g.function(d, true)),
        })
        .collect();
    for s in &m {
        match s {
            Statement::Function(f) => {
                env.count("definitions", 1);
                env.count("arguments", f.definition.args.len() as u64);
                if f.signature.is_some() {
                    env.count("definitions with a signature", 1)
                }
            }
            Statement::InfixDeclaration(..) => env.count("infix declarations", 1),
            _ => env.count("ports", 1),
        }
    }
    let st = Style::random(&mut env.r);
    let p = demand(env, &m, st);
    env.nontrivial(&p.out);
    env.sample(&p.out);
}

// C13

pub fn c13_between(env: &mut Env, _: u64) {
    let cfg = Cfg { depth: 1, width: 2, fuel: 5, ..Cfg::default() };
    let mut g = Gen::new(&mut env.r, cfg);
    let mut m = vec![];
    let n = g.r.range(1, 4);
    let mut comments = 0;
    for _ in 0..n {
        while g.r.pct(60) {
            m.push(g.comment());
            comments += 1;
        }
        m.push(g.statement(1));
    }
    while g.r.pct(60) {
        m.push(g.comment());
        comments += 1;
    }
    if comments == 0 {
        m.push(g.comment());
        comments = 1;
    }
    let st = Style::random(&mut env.r);
    let p = demand(env, &m, st);
    env.nontrivial(&p.out);
    env.count("comments between declarations", comments);
    let blocks = p.toks.iter().filter(|t| t.k == K::BlockComment).count();
    env.count("block comments", blocks as u64);
    env.sample(&p.out);
}

pub fn c13_inside(env: &mut Env, _: u64) {
    let cfg = sized(env, 4, 3, 20, [2, 3, 3, 4, 4]);
    let d = cfg.depth;
    let mut g = Gen::new(&mut env.r, cfg);
    let m = g.module(1, d);
    let st = Style { nl: 50, comment: 60, blank: 10, plain_comments: false, ..Style::wild() };
    let p = demand(env, &m, st);
    if p.inner_comments > 0 {
        env.nontrivial(&p.out);
    }
    env.sample(&p.out);
}

// C14

/// A module against its declarations parsed alone, and against the two halves of itself.
pub fn c14(env: &mut Env, _: u64) {
    let cfg = sized(env, 3, 3, 8, [3, 3, 3, 3, 3]);
    let d = cfg.depth;
    let mut g = Gen::new(&mut env.r, cfg);
    let n = g.r.range(2, 6);
    let mut m: Vec<Statement> = (0..n).map(|_| g.statement(d)).collect();
    let st = Style::random(&mut env.r);
    demand(env, &m, st.clone());
    env.nontrivial(&tree_key(&m));
    env.count("declarations", n as u64);
    // reordered
    env.r.shuffle(&mut m);
    demand(env, &m, st.clone());
    // one taken away
    let k = env.r.below(m.len());
    m.remove(k);
    demand(env, &m, st.clone());
    // each alone
    let k = env.r.below(m.len());
    demand(env, &m[k..k + 1], st);
}

fn part(s: &str) -> Option<&str> {
    // Ok((CompleteStr(""), [ ... ]))
    s.strip_prefix("Ok((CompleteStr(\"\"), [")?.strip_suffix("]))")
}

/// Concatenation, decided without knowing the trees.
pub fn c14_concat(env: &mut Env, _: u64) {
    let texts: Vec<String> = (0..3)
        .map(|_| {
            let cfg = sized(env, 4, 3, 10, [3, 3, 3, 3, 3]);
            let d = cfg.depth;
            let mut g = Gen::new(&mut env.r, cfg);
            let n = g.r.range(1, 3);
            let m: Vec<Statement> = (0..n).map(|_| g.statement(d)).collect();
            let st = Style::random(&mut env.r);
            print(&m, Rng::new(env.r.next(), 77, 0), st).out
        })
        .collect();
    let mut outs = vec![];
    for t in &texts {
        match env.outcome(t) {
            Some(o) => outs.push(o),
            None => return,
        }
    }
    let mut all = String::new();
    for (i, t) in texts.iter().enumerate() {
        if i > 0 {
            let k = env.r.range(1, 4);
            all.push_str(&"\n".repeat(k));
        }
        all.push_str(t);
    }
    env.nontrivial(&all);
    let got = match env.outcome(&all) {
        Some(o) => o,
        None => return,
    };
    let parts: Option<Vec<&str>> = outs.iter().map(|o| part(o)).collect();
    match parts {
        Some(ps) => {
            let want = format!("Ok((CompleteStr(\"\"), [{}]))", ps.join(", "));
            if got != want {
                env.violate("modules put one after the other do not give their declarations one after the other", &all, &want, &got);
            }
            env.count("concatenations", 1);
        }
        None => env.violate("a well-formed module was rejected", &texts.join("\n<<<<>>>>\n"), "Ok", &outs.join("\n<<<<>>>>\n")),
    }
}

// C16

pub fn c16_names(env: &mut Env, case: u64) {
    let mut g = Gen::new(&mut env.r, Cfg { tricky: 50, width: 3, depth: 2, fuel: 8, ..Cfg::default() });
    let a = g.near_reserved();
    let b = if g.r.pct(50) { g.near_reserved() } else { g.lower() };
    let c = g.near_reserved();
    let u = g.upper();
    let q = g.qualified();
    let v = |n: &str| var(n);
    let m = match case % 14 {
        0 => vec![function(&a, vec![v(&b)], app(v(&c), v(&b)))],
        1 => vec![function("f", vec![], Expression::Let(vec![LetEntry::LetBinding(v(&a), v(&b))], Box::new(v(&c))))],
        2 => vec![function("f", vec![], Expression::If(Box::new(v(&a)), Box::new(v(&b)), Box::new(v(&c))))],
        3 => vec![function("f", vec![], Expression::Case(Box::new(v(&a)), vec![(v(&b), v(&c)), (v(&c), v(&a))]))],
        4 => vec![function("f", vec![], Expression::Record(vec![(a, v(&b)), (c.clone(), v(&c))]))],
        5 => vec![function("f", vec![], Expression::RecordUpdate(a, vec![(b, v(&c))]))],
        6 => vec![function("f", vec![], app(Expression::Access(Box::new(v(&a)), vec![b, c]), Expression::Access(Box::new(Expression::Variable(q)), vec![a.clone()])))],
        7 => vec![function("f", vec![], app(Expression::AccessFunction(a), Expression::AccessFunction(b)))],
        8 => vec![Statement::TypeAliasDeclaration(
            Type::TypeConstructor(vec![u], vec![Type::TypeVariable(a.clone()), Type::TypeVariable(b.clone())]),
            Type::TypeRecordConstructor(Box::new(Type::TypeVariable(a)), vec![(b.clone(), Type::TypeVariable(c)), (b, Type::TypeConstructor(q, vec![]))]),
        )],
        9 => vec![Statement::PortTypeDeclaration(a, Type::TypeApplication(Box::new(Type::TypeVariable(b)), Box::new(Type::TypeVariable(c))))],
        10 => vec![
            Statement::ModuleDeclaration(q.clone(), ExportSet::SubsetExport(vec![ExportSet::FunctionExport(a), ExportSet::TypeExport(u.clone(), None), ExportSet::FunctionExport(b)])),
            Statement::ImportStatement(q, Some(u), Some(ExportSet::SubsetExport(vec![ExportSet::FunctionExport(c)]))),
        ],
        11 => vec![function("f", vec![], Expression::Lambda(vec![v(&a), v(&b)], Box::new(v(&c))))],
        12 => {
            let o = g.op();
            let o2 = g.op();
            vec![function("f", vec![], binop(&o, app(v(&a), v(&o2)), v(&b))), Statement::InfixDeclaration(Assoc::L, 5, o.clone())]
        }
        _ => vec![
            function(&a, vec![], v(&b)),
            Statement::Function(Function {
                signature: Some(FunctionSignature { name: c.clone(), type_: Type::TypeVariable(b) }),
                definition: FunctionDefinition { name: c, args: vec![], body: v(&a) },
            }),
            Statement::TypeDeclaration(Type::TypeConstructor(vec![u.clone()], vec![]), vec![Type::TypeConstructor(vec![u], vec![])]),
        ],
    };
    let st = Style::random(&mut env.r);
    let p = demand(env, &m, st);
    env.nontrivial(&p.out);
    env.sample(&p.out);
}
