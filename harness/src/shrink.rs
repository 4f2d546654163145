//! Smaller trees to try when a case fails, so that a report is readable.
use crate::model::*;
use crate::rng::Rng;

fn x() -> Expression {
    var("x")
}

fn pattern_variants(e: &Expression) -> Vec<Expression> {
    if *e == x() {
        return vec![];
    }
    let mut v = vec![x()];
    match e {
        Expression::Tuple(l) if l.len() > 2 => {
            for i in 0..l.len() {
                let mut m = l.clone();
                m.remove(i);
                v.push(Expression::Tuple(m));
            }
        }
        Expression::Application(f, a) => {
            v.push((**f).clone());
            for b in pattern_variants(a) {
                v.push(Expression::Application(f.clone(), Box::new(b)));
            }
        }
        _ => {}
    }
    v
}

fn function_variants(f: &Function, top: bool) -> Vec<Function> {
    let mut v = vec![];
    let d = &f.definition;
    if f.signature.is_some() && (top || !d.args.is_empty()) {
        v.push(Function { signature: None, definition: d.clone() });
    }
    for i in 0..d.args.len() {
        if top || d.args.len() > 1 || f.signature.is_some() {
            let mut a = d.args.clone();
            a.remove(i);
            v.push(Function { signature: f.signature.clone(), definition: FunctionDefinition { args: a, ..d.clone() } });
        }
        for p in pattern_variants(&d.args[i]) {
            let mut a = d.args.clone();
            a[i] = p;
            v.push(Function { signature: f.signature.clone(), definition: FunctionDefinition { args: a, ..d.clone() } });
        }
    }
    for b in expr_variants(&d.body) {
        v.push(Function { signature: f.signature.clone(), definition: FunctionDefinition { body: b, ..d.clone() } });
    }
    if let Some(s) = &f.signature {
        for t in type_variants(&s.type_) {
            v.push(Function { signature: Some(FunctionSignature { name: s.name.clone(), type_: t }), definition: d.clone() });
        }
    }
    v
}

fn replace<T: Clone>(l: &[T], i: usize, x: T) -> Vec<T> {
    let mut l = l.to_vec();
    l[i] = x;
    l
}

fn without<T: Clone>(l: &[T], i: usize) -> Vec<T> {
    let mut l = l.to_vec();
    l.remove(i);
    l
}

pub fn expr_variants(e: &Expression) -> Vec<Expression> {
    use Expression::*;
    let mut v = vec![];
    if *e == x() {
        return v;
    }
    v.push(x());
    let bx = |e: Expression| Box::new(e);
    match e {
        List(l) | Tuple(l) => {
            let mk = |l: Vec<Expression>| if matches!(e, List(_)) { List(l) } else { Tuple(l) };
            v.extend(l.iter().cloned());
            if matches!(e, List(_)) || l.len() > 2 {
                for i in 0..l.len() {
                    v.push(mk(without(l, i)));
                }
            }
            for i in 0..l.len() {
                for y in expr_variants(&l[i]) {
                    v.push(mk(replace(l, i, y)));
                }
            }
        }
        Record(f) | RecordUpdate(_, f) => {
            let mk = |g: Vec<(std::string::String, Expression)>| match e {
                RecordUpdate(n, _) => RecordUpdate(n.clone(), g),
                _ => Record(g),
            };
            v.extend(f.iter().map(|p| p.1.clone()));
            if f.len() > 1 {
                for i in 0..f.len() {
                    v.push(mk(without(f, i)));
                }
            }
            for i in 0..f.len() {
                for y in expr_variants(&f[i].1) {
                    v.push(mk(replace(f, i, (f[i].0.clone(), y))));
                }
            }
        }
        If(a, b, c) => {
            v.extend([(**a).clone(), (**b).clone(), (**c).clone()]);
            v.extend(expr_variants(a).into_iter().map(|a| If(bx(a), b.clone(), c.clone())));
            v.extend(expr_variants(b).into_iter().map(|b| If(a.clone(), bx(b), c.clone())));
            v.extend(expr_variants(c).into_iter().map(|c| If(a.clone(), b.clone(), bx(c))));
        }
        Application(a, b) => {
            v.extend([(**a).clone(), (**b).clone()]);
            v.extend(expr_variants(a).into_iter().map(|a| Application(bx(a), b.clone())));
            v.extend(expr_variants(b).into_iter().map(|b| Application(a.clone(), bx(b))));
        }
        BinOp(o, a, b) => {
            v.extend([(**a).clone(), (**b).clone()]);
            v.extend(expr_variants(a).into_iter().map(|a| BinOp(o.clone(), bx(a), b.clone())));
            v.extend(expr_variants(b).into_iter().map(|b| BinOp(o.clone(), a.clone(), bx(b))));
        }
        Lambda(a, b) => {
            v.push((**b).clone());
            if a.len() > 1 {
                for i in 0..a.len() {
                    v.push(Lambda(without(a, i), b.clone()));
                }
            }
            for i in 0..a.len() {
                for p in pattern_variants(&a[i]) {
                    v.push(Lambda(replace(a, i, p), b.clone()));
                }
            }
            v.extend(expr_variants(b).into_iter().map(|b| Lambda(a.clone(), bx(b))));
        }
        Case(s, bs) => {
            v.push((**s).clone());
            v.extend(bs.iter().map(|b| b.1.clone()));
            if bs.len() > 1 {
                for i in 0..bs.len() {
                    v.push(Case(s.clone(), without(bs, i)));
                }
            }
            v.extend(expr_variants(s).into_iter().map(|s| Case(bx(s), bs.clone())));
            for i in 0..bs.len() {
                for p in pattern_variants(&bs[i].0) {
                    v.push(Case(s.clone(), replace(bs, i, (p, bs[i].1.clone()))));
                }
                for y in expr_variants(&bs[i].1) {
                    v.push(Case(s.clone(), replace(bs, i, (bs[i].0.clone(), y))));
                }
            }
        }
        Let(es, b) => {
            v.push((**b).clone());
            if es.len() > 1 {
                for i in 0..es.len() {
                    v.push(Let(without(es, i), b.clone()));
                }
            }
            for i in 0..es.len() {
                match &es[i] {
                    LetEntry::LetBinding(t, y) => {
                        v.push(y.clone());
                        for p in pattern_variants(t) {
                            v.push(Let(replace(es, i, LetEntry::LetBinding(p, y.clone())), b.clone()));
                        }
                        for y in expr_variants(y) {
                            v.push(Let(replace(es, i, LetEntry::LetBinding(t.clone(), y)), b.clone()));
                        }
                    }
                    LetEntry::LetFunction(f) => {
                        v.push(f.definition.body.clone());
                        for g in function_variants(f, false) {
                            v.push(Let(replace(es, i, LetEntry::LetFunction(g)), b.clone()));
                        }
                    }
                }
            }
            v.extend(expr_variants(b).into_iter().map(|b| Let(es.clone(), bx(b))));
        }
        _ => {}
    }
    v
}

pub fn type_variants(t: &Type) -> Vec<Type> {
    let a = Type::TypeVariable("a".into());
    if *t == a {
        return vec![];
    }
    let mut v = vec![a];
    match t {
        Type::TypeConstructor(n, args) => {
            v.extend(args.iter().cloned());
            for i in 0..args.len() {
                v.push(Type::TypeConstructor(n.clone(), without(args, i)));
                for y in type_variants(&args[i]) {
                    v.push(Type::TypeConstructor(n.clone(), replace(args, i, y)));
                }
            }
        }
        Type::TypeTuple(l) => {
            v.extend(l.iter().cloned());
            for i in 0..l.len() {
                if l.len() > 2 {
                    v.push(Type::TypeTuple(without(l, i)));
                }
                for y in type_variants(&l[i]) {
                    v.push(Type::TypeTuple(replace(l, i, y)));
                }
            }
        }
        Type::TypeApplication(a, b) => {
            v.extend([(**a).clone(), (**b).clone()]);
            v.extend(type_variants(a).into_iter().map(|a| Type::TypeApplication(Box::new(a), b.clone())));
            v.extend(type_variants(b).into_iter().map(|b| Type::TypeApplication(a.clone(), Box::new(b))));
        }
        Type::TypeRecord(f) | Type::TypeRecordConstructor(_, f) => {
            let mk = |g| match t {
                Type::TypeRecordConstructor(n, _) => Type::TypeRecordConstructor(n.clone(), g),
                _ => Type::TypeRecord(g),
            };
            v.extend(f.iter().map(|p| p.1.clone()));
            for i in 0..f.len() {
                if f.len() > 1 {
                    v.push(mk(without(f, i)));
                }
                for y in type_variants(&f[i].1) {
                    v.push(mk(replace(f, i, (f[i].0.clone(), y))));
                }
            }
        }
        _ => {}
    }
    v
}

fn export_variants(e: &ExportSet) -> Vec<ExportSet> {
    match e {
        ExportSet::SubsetExport(v) if v.len() > 1 => (0..v.len()).map(|i| ExportSet::SubsetExport(without(v, i))).collect(),
        _ => vec![],
    }
}

pub fn statement_variants(s: &Statement) -> Vec<Statement> {
    match s {
        Statement::Function(f) => function_variants(f, true).into_iter().map(Statement::Function).collect(),
        Statement::TypeAliasDeclaration(h, t) => type_variants(t).into_iter().map(|t| Statement::TypeAliasDeclaration(h.clone(), t)).collect(),
        Statement::TypeDeclaration(h, cs) => {
            let mut v = vec![];
            for i in 0..cs.len() {
                if cs.len() > 1 {
                    v.push(Statement::TypeDeclaration(h.clone(), without(cs, i)));
                }
                if let Type::TypeConstructor(n, args) = &cs[i] {
                    for k in 0..args.len() {
                        v.push(Statement::TypeDeclaration(h.clone(), replace(cs, i, Type::TypeConstructor(n.clone(), without(args, k)))));
                        for t in type_variants(&args[k]) {
                            v.push(Statement::TypeDeclaration(h.clone(), replace(cs, i, Type::TypeConstructor(n.clone(), replace(args, k, t)))));
                        }
                    }
                }
            }
            v
        }
        Statement::PortTypeDeclaration(n, t) => type_variants(t).into_iter().map(|t| Statement::PortTypeDeclaration(n.clone(), t)).collect(),
        Statement::PortDeclaration(n, a, e) => expr_variants(e).into_iter().map(|e| Statement::PortDeclaration(n.clone(), a.clone(), e)).collect(),
        Statement::ModuleDeclaration(n, e) => export_variants(e).into_iter().map(|e| Statement::ModuleDeclaration(n.clone(), e)).collect(),
        Statement::ImportStatement(n, a, Some(e)) => export_variants(e).into_iter().map(|e| Statement::ImportStatement(n.clone(), a.clone(), Some(e))).collect(),
        _ => vec![],
    }
}

pub fn module_variants(m: &[Statement]) -> Vec<Vec<Statement>> {
    let mut v = vec![];
    if m.len() > 1 {
        if m.len() > 3 {
            v.push(m[..m.len() / 2].to_vec());
            v.push(m[m.len() / 2..].to_vec());
        }
        for i in 0..m.len() {
            v.push(without(m, i));
        }
    }
    for i in 0..m.len() {
        for s in statement_variants(&m[i]) {
            v.push(replace(m, i, s));
        }
    }
    v
}

// Large trees are too many to list their variants: random cuts make them smaller first.

fn drop_some<T>(v: &mut Vec<T>, least: usize, r: &mut Rng) {
    if v.len() > least {
        let n = r.range(1, ((v.len() - least) * 3 / 4).max(1));
        let i = r.below(v.len() - n + 1);
        v.drain(i..i + n);
    }
}

pub fn thin_expr(e: &mut Expression, r: &mut Rng) {
    use Expression::*;
    if r.pct(10) {
        *e = x();
        return;
    }
    let cut = r.pct(40);
    match e {
        List(l) | Tuple(l) if !l.is_empty() => {
            let least = if l.len() >= 2 { 2 } else { 1 };
            if cut {
                drop_some(l, least, r)
            } else {
                let i = r.below(l.len());
                thin_expr(&mut l[i], r)
            }
        }
        Record(f) | RecordUpdate(_, f) if !f.is_empty() => {
            if cut {
                drop_some(f, 1, r)
            } else {
                let i = r.below(f.len());
                thin_expr(&mut f[i].1, r)
            }
        }
        If(a, b, c) => {
            let k = r.below(3);
            thin_expr([a, b, c][k], r)
        }
        Application(a, b) => {
            if cut {
                *e = (**a).clone()
            } else if r.pct(60) {
                thin_expr(a, r)
            } else if **b != x() {
                **b = x()
            }
        }
        BinOp(_, a, b) => {
            if cut {
                *e = (**b).clone()
            } else if r.pct(60) {
                thin_expr(b, r)
            } else {
                thin_expr(a, r)
            }
        }
        Lambda(a, b) => {
            if cut {
                drop_some(a, 1, r)
            } else {
                thin_expr(b, r)
            }
        }
        Case(_, bs) => {
            if cut {
                drop_some(bs, 1, r)
            } else {
                let i = r.below(bs.len());
                thin_expr(&mut bs[i].1, r)
            }
        }
        Let(es, b) => {
            if cut {
                drop_some(es, 1, r)
            } else if r.pct(30) {
                thin_expr(b, r)
            } else {
                let i = r.below(es.len());
                match &mut es[i] {
                    LetEntry::LetBinding(_, y) => thin_expr(y, r),
                    LetEntry::LetFunction(f) => thin_expr(&mut f.definition.body, r),
                }
            }
        }
        _ => *e = x(),
    }
}

pub fn thin_type(t: &mut Type, r: &mut Rng) {
    let a = Type::TypeVariable("a".into());
    if r.pct(10) {
        *t = a;
        return;
    }
    let cut = r.pct(40);
    match t {
        Type::TypeConstructor(_, l) if !l.is_empty() => {
            if cut {
                drop_some(l, 0, r)
            } else {
                let i = r.below(l.len());
                thin_type(&mut l[i], r)
            }
        }
        Type::TypeTuple(l) if l.len() > 1 => {
            if cut {
                drop_some(l, 2, r)
            } else {
                let i = r.below(l.len());
                thin_type(&mut l[i], r)
            }
        }
        Type::TypeApplication(x, y) => {
            if cut {
                *t = (**y).clone()
            } else {
                thin_type(if r.pct(50) { x } else { y }, r)
            }
        }
        Type::TypeRecord(f) | Type::TypeRecordConstructor(_, f) if !f.is_empty() => {
            if cut {
                drop_some(f, 1, r)
            } else {
                let i = r.below(f.len());
                thin_type(&mut f[i].1, r)
            }
        }
        _ => *t = a,
    }
}

fn thin_exports(e: &mut ExportSet, r: &mut Rng) {
    match e {
        ExportSet::SubsetExport(v) => {
            if r.pct(70) || v.is_empty() {
                drop_some(v, 1, r)
            } else {
                let i = r.below(v.len());
                thin_exports(&mut v[i], r)
            }
        }
        ExportSet::TypeExport(_, Some(s)) => thin_exports(s, r),
        _ => {}
    }
}

/// A copy with a random part cut off.
pub fn thin(m: &[Statement], r: &mut Rng) -> Vec<Statement> {
    let mut m = m.to_vec();
    if m.len() > 1 && r.pct(60) {
        drop_some(&mut m, 1, r);
        return m;
    }
    let i = r.below(m.len());
    match &mut m[i] {
        Statement::Function(f) => match r.below(4) {
            0 if f.definition.args.len() > 1 => drop_some(&mut f.definition.args, 1, r),
            1 => {
                if let Some(s) = &mut f.signature {
                    thin_type(&mut s.type_, r)
                }
            }
            _ => thin_expr(&mut f.definition.body, r),
        },
        Statement::PortDeclaration(_, _, e) => thin_expr(e, r),
        Statement::PortTypeDeclaration(_, t) => thin_type(t, r),
        Statement::TypeAliasDeclaration(h, t) => {
            if r.pct(20) {
                thin_type_args(h, r)
            } else {
                thin_type(t, r)
            }
        }
        Statement::TypeDeclaration(h, cs) => match r.below(3) {
            0 => thin_type_args(h, r),
            1 => drop_some(cs, 1, r),
            _ => {
                let i = r.below(cs.len());
                thin_type_args(&mut cs[i], r)
            }
        },
        Statement::ModuleDeclaration(_, e) | Statement::PortModuleDeclaration(_, e) | Statement::EffectModuleDeclaration(_, _, e) | Statement::ImportStatement(_, _, Some(e)) => thin_exports(e, r),
        _ => {}
    }
    m
}

fn thin_type_args(t: &mut Type, r: &mut Rng) {
    if let Type::TypeConstructor(_, l) = t {
        drop_some(l, 0, r)
    }
}
