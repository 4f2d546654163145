//! The expected trees. The types have the names of the program's own, so that `Debug` prints the
//! same text for the same tree; nothing here shares code with the program.
#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Assoc {
    N,
    L,
    R,
}

#[derive(Debug, PartialEq, Clone)]
pub enum Type {
    TypeConstructor(Vec<String>, Vec<Type>),
    TypeVariable(String),
    TypeRecordConstructor(Box<Type>, Vec<(String, Type)>),
    TypeRecord(Vec<(String, Type)>),
    TypeTuple(Vec<Type>),
    TypeApplication(Box<Type>, Box<Type>),
}

#[derive(Debug, PartialEq, Clone)]
pub struct FunctionSignature {
    pub name: String,
    pub type_: Type,
}

#[derive(Debug, PartialEq, Clone)]
pub struct FunctionDefinition {
    pub name: String,
    pub args: Vec<Expression>,
    pub body: Expression,
}

#[derive(Debug, PartialEq, Clone)]
pub struct Function {
    pub signature: Option<FunctionSignature>,
    pub definition: FunctionDefinition,
}

#[derive(Debug, PartialEq, Clone)]
pub enum LetEntry {
    LetFunction(Function),
    LetBinding(Expression, Expression),
}

#[derive(Debug, PartialEq, Clone)]
pub enum Expression {
    Character(char),
    String(String),
    Integer(String),
    Float(String),
    Variable(Vec<String>),
    List(Vec<Expression>),
    Tuple(Vec<Expression>),
    Access(Box<Expression>, Vec<String>),
    AccessFunction(String),
    Record(Vec<(String, Expression)>),
    RecordUpdate(String, Vec<(String, Expression)>),
    If(Box<Expression>, Box<Expression>, Box<Expression>),
    Let(Vec<LetEntry>, Box<Expression>),
    Case(Box<Expression>, Vec<(Expression, Expression)>),
    Lambda(Vec<Expression>, Box<Expression>),
    Application(Box<Expression>, Box<Expression>),
    BinOp(Box<Expression>, Box<Expression>, Box<Expression>),
}

#[derive(Debug, PartialEq, Clone)]
pub enum ExportSet {
    AllExport,
    SubsetExport(Vec<ExportSet>),
    FunctionExport(String),
    TypeExport(String, Option<Box<ExportSet>>),
}

#[derive(Debug, PartialEq, Clone)]
pub enum Statement {
    ModuleDeclaration(Vec<String>, ExportSet),
    PortModuleDeclaration(Vec<String>, ExportSet),
    EffectModuleDeclaration(Vec<String>, Vec<(String, String)>, ExportSet),
    ImportStatement(Vec<String>, Option<String>, Option<ExportSet>),
    TypeAliasDeclaration(Type, Type),
    TypeDeclaration(Type, Vec<Type>),
    PortTypeDeclaration(String, Type),
    PortDeclaration(String, Vec<String>, Expression),
    Function(Function),
    InfixDeclaration(Assoc, i64, String),
    Comment(String),
}

/// Prints as the parser's remaining input does.
#[derive(Debug, PartialEq, Clone)]
pub struct CompleteStr<'a>(pub &'a str);

/// What parsing to the end into these statements prints as.
pub fn accepted(statements: &[Statement]) -> String {
    format!("Ok(({:?}, {:?}))", CompleteStr(""), statements)
}

pub fn var(n: &str) -> Expression {
    Expression::Variable(vec![n.to_string()])
}

pub fn int(n: &str) -> Expression {
    Expression::Integer(n.to_string())
}

pub fn app(f: Expression, a: Expression) -> Expression {
    Expression::Application(Box::new(f), Box::new(a))
}

pub fn binop(op: &str, l: Expression, r: Expression) -> Expression {
    Expression::BinOp(Box::new(var(op)), Box::new(l), Box::new(r))
}

pub fn function(name: &str, args: Vec<Expression>, body: Expression) -> Statement {
    Statement::Function(Function {
        signature: None,
        definition: FunctionDefinition { name: name.to_string(), args, body },
    })
}

impl Expression {
    /// Number of nodes.
    pub fn size(&self) -> usize {
        use Expression::*;
        1 + match self {
            Character(_) | String(_) | Integer(_) | Float(_) | Variable(_) | AccessFunction(_) => 0,
            List(v) | Tuple(v) => v.iter().map(|e| e.size()).sum(),
            Access(e, _) => e.size(),
            Record(f) | RecordUpdate(_, f) => f.iter().map(|(_, e)| e.size()).sum(),
            If(a, b, c) => a.size() + b.size() + c.size(),
            BinOp(_, b, c) => 1 + b.size() + c.size(),
            Let(es, b) => {
                b.size()
                    + es.iter()
                        .map(|e| match e {
                            LetEntry::LetFunction(f) => f.definition.args.iter().map(|a| a.size()).sum::<usize>() + f.definition.body.size(),
                            LetEntry::LetBinding(a, b) => a.size() + b.size(),
                        })
                        .sum::<usize>()
            }
            Case(e, bs) => e.size() + bs.iter().map(|(p, b)| p.size() + b.size()).sum::<usize>(),
            Lambda(a, b) => a.iter().map(|a| a.size()).sum::<usize>() + b.size(),
            Application(a, b) => a.size() + b.size(),
        }
    }
}
