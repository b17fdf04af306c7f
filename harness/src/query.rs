//! The part of SQL that reads and writes rows: parser and syntax tree.
use crate::ddl::{PgErr, SYNTAX};
use crate::sqltext::*;

pub type R<T> = Result<T, PgErr>;
pub fn err<T>(code: &'static str, msg: impl Into<String>) -> R<T> {
    Err(PgErr { code, msg: msg.into() })
}

#[derive(Clone, Debug, PartialEq)]
pub enum Lit {
    Null,
    Bool(bool),
    Int(i64),
    Str(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Expr {
    Lit(Lit),
    Param(usize),
    Col(Vec<String>),
    /// * or t.*
    Star(Option<String>),
    Call { name: String, args: Vec<Expr>, star: bool, distinct: bool, order: Vec<Order>, filter: Option<Box<Expr>> },
    Bin(String, Box<Expr>, Box<Expr>),
    Not(Box<Expr>),
    Neg(Box<Expr>),
    IsNull(Box<Expr>, bool),
    IsBool(Box<Expr>, bool, bool),
    Distinct(Box<Expr>, Box<Expr>, bool),
    Case(Option<Box<Expr>>, Vec<(Expr, Expr)>, Option<Box<Expr>>),
    Cast(Box<Expr>, String),
    Exists(Box<Query>),
    Sub(Box<Query>),
    ArraySub(Box<Query>),
    Array(Vec<Expr>),
    Row(Vec<Expr>),
    In(Box<Expr>, Vec<Expr>, bool),
    InSub(Box<Expr>, Box<Query>, bool),
    /// operator, left, array or query, all?
    Quant(String, Box<Expr>, Box<Expr>, bool),
    Like(Box<Expr>, Box<Expr>, bool, bool),
    Between(Box<Expr>, Box<Expr>, Box<Expr>, bool),
    Index(Box<Expr>, Box<Expr>),
    Slice(Box<Expr>, Option<Box<Expr>>, Option<Box<Expr>>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Order {
    pub e: Expr,
    pub desc: bool,
    pub nulls_first: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum From {
    Table { name: Vec<String>, alias: Option<String>, cols: Vec<String> },
    Func { calls: Vec<Expr>, ordinality: bool, alias: Option<String>, cols: Vec<String> },
    Sub { q: Box<Query>, alias: Option<String>, cols: Vec<String> },
    Join { kind: Kind, l: Box<From>, r: Box<From>, on: Option<Expr>, using: Vec<String>, natural: bool },
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Inner,
    Left,
    Right,
    Full,
    Cross,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Query {
    pub with: Vec<(String, Vec<String>, Query)>,
    pub distinct: bool,
    pub items: Vec<(Expr, Option<String>)>,
    pub from: Vec<From>,
    pub wher: Option<Expr>,
    pub group: Vec<Expr>,
    pub having: Option<Expr>,
    pub values: Vec<Vec<Expr>>,
    pub union: Option<(String, bool, Box<Query>)>,
    pub order: Vec<Order>,
    pub limit: Option<Expr>,
    pub offset: Option<Expr>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct ColDef {
    pub name: String,
    pub ty: String,
    pub not_null: bool,
    pub unique: bool,
    pub primary: bool,
    pub default: Option<Expr>,
    pub refs: Option<(Vec<String>, Option<String>)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Stmt {
    Select(Query),
    Insert { table: Vec<String>, cols: Vec<String>, src: Query, on_conflict_nothing: bool, returning: Vec<(Expr, Option<String>)> },
    Delete { table: Vec<String>, alias: Option<String>, wher: Option<Expr>, returning: Vec<(Expr, Option<String>)> },
    Update { table: Vec<String>, alias: Option<String>, set: Vec<(String, Expr)>, wher: Option<Expr>, returning: Vec<(Expr, Option<String>)> },
    CreateTable { table: Vec<String>, if_not_exists: bool, cols: Vec<ColDef>, keys: Vec<(Vec<String>, bool)> },
    DropTable { table: Vec<String>, if_exists: bool },
    CreateSchema { name: String, if_not_exists: bool },
    Lock,
    Set,
    Show(String),
    Begin,
    Commit,
    Rollback,
    Savepoint(String),
    Release(String),
    RollbackTo(String),
    /// not a statement about rows
    Other,
}

pub struct Parser<'a> {
    t: &'a [Tok],
    i: usize,
}

const STOP: &[&str] = &[
    "from", "where", "group", "having", "order", "limit", "offset", "union", "intersect", "except", "on", "using", "join", "left", "right", "full",
    "inner", "cross", "natural", "as", "fetch", "for", "window", "then", "else", "end", "when", "and", "or", "not", "is", "in", "like", "ilike",
    "between", "asc", "desc", "nulls", "returning", "with", "set", "values", "default", "lateral", "filter", "over", "collate",
];

pub fn parse(toks: &[Tok]) -> R<Stmt> {
    let mut p = Parser { t: toks, i: 0 };
    let s = p.stmt()?;
    if s == Stmt::Other {
        return Ok(s);
    }
    if p.i < toks.len() {
        return p.fail();
    }
    Ok(s)
}

impl<'a> Parser<'a> {
    fn at(&self, k: usize) -> Option<&'a Tok> {
        self.t.get(self.i + k)
    }
    fn w(&self, k: usize, w: &str) -> bool {
        self.at(k).map(|t| t.is_word(w)).unwrap_or(false)
    }
    fn o(&self, k: usize, w: &str) -> bool {
        self.at(k).map(|t| t.is_op(w)).unwrap_or(false)
    }
    fn fail<T>(&self) -> R<T> {
        match self.at(0) {
            Some(t) => err(SYNTAX, format!("syntax error at or near {}", t.text())),
            None => err(SYNTAX, "syntax error at end of input"),
        }
    }
    fn eat(&mut self, ws: &str) -> bool {
        let v: Vec<&str> = ws.split(' ').collect();
        if v.iter().enumerate().all(|(k, x)| self.w(k, x)) {
            self.i += v.len();
            return true;
        }
        false
    }
    fn need(&mut self, ws: &str) -> R<()> {
        if self.eat(ws) {
            Ok(())
        } else {
            self.fail()
        }
    }
    fn eat_op(&mut self, o: &str) -> bool {
        if self.o(0, o) {
            self.i += 1;
            return true;
        }
        false
    }
    fn op(&mut self, o: &str) -> R<()> {
        if self.eat_op(o) {
            Ok(())
        } else {
            self.fail()
        }
    }
    fn ident(&mut self) -> R<String> {
        match self.at(0).and_then(|t| t.ident()) {
            Some(x) => {
                self.i += 1;
                Ok(x.to_string())
            }
            None => self.fail(),
        }
    }
    fn qname(&mut self) -> R<Vec<String>> {
        let mut v = vec![self.ident()?];
        while self.o(0, ".") && self.at(1).and_then(|t| t.ident()).is_some() {
            self.i += 1;
            v.push(self.ident()?);
        }
        Ok(v)
    }
    fn idents(&mut self) -> R<Vec<String>> {
        self.op("(")?;
        let mut v = vec![self.ident()?];
        while self.eat_op(",") {
            v.push(self.ident()?);
        }
        self.op(")")?;
        Ok(v)
    }

    fn stmt(&mut self) -> R<Stmt> {
        if self.w(0, "select") || self.w(0, "with") || self.w(0, "values") || self.o(0, "(") {
            return Ok(Stmt::Select(self.query()?));
        }
        if self.eat("begin") || self.eat("start transaction") {
            self.i = self.t.len();
            return Ok(Stmt::Begin);
        }
        if self.eat("commit") || self.eat("end") {
            let _ = self.eat("transaction") || self.eat("work");
            return Ok(Stmt::Commit);
        }
        if self.eat("savepoint") {
            return Ok(Stmt::Savepoint(self.ident()?));
        }
        if self.eat("release savepoint") || self.eat("release") {
            return Ok(Stmt::Release(self.ident()?));
        }
        if self.eat("rollback to savepoint") || self.eat("rollback to") {
            return Ok(Stmt::RollbackTo(self.ident()?));
        }
        if self.eat("rollback") || self.eat("abort") {
            let _ = self.eat("transaction") || self.eat("work");
            return Ok(Stmt::Rollback);
        }
        if self.eat("set") || self.eat("reset") {
            self.i = self.t.len();
            return Ok(Stmt::Set);
        }
        if self.eat("lock") {
            self.i = self.t.len();
            return Ok(Stmt::Lock);
        }
        if self.eat("show") {
            return Ok(Stmt::Show(self.ident()?));
        }
        if self.eat("insert into") {
            let table = self.qname()?;
            let cols = if self.o(0, "(") && !self.w(1, "select") { self.idents()? } else { vec![] };
            let src = if self.eat("default values") { Query { values: vec![vec![]], ..Default::default() } } else { self.query()? };
            let on_conflict_nothing = if self.eat("on conflict") {
                if self.o(0, "(") {
                    self.idents()?;
                }
                self.need("do nothing")?;
                true
            } else {
                false
            };
            let returning = self.returning()?;
            return Ok(Stmt::Insert { table, cols, src, on_conflict_nothing, returning });
        }
        if self.eat("delete from") {
            let table = self.qname()?;
            let alias = self.alias()?.0;
            let wher = if self.eat("where") { Some(self.expr()?) } else { None };
            return Ok(Stmt::Delete { table, alias, wher, returning: self.returning()? });
        }
        if self.eat("update") {
            let table = self.qname()?;
            let alias = self.alias()?.0;
            self.need("set")?;
            let mut set = vec![];
            loop {
                let c = self.ident()?;
                self.op("=")?;
                set.push((c, self.expr()?));
                if !self.eat_op(",") {
                    break;
                }
            }
            let wher = if self.eat("where") { Some(self.expr()?) } else { None };
            return Ok(Stmt::Update { table, alias, set, wher, returning: self.returning()? });
        }
        if self.eat("create schema") {
            let ine = self.eat("if not exists");
            let name = self.ident()?;
            if self.i < self.t.len() {
                return Ok(Stmt::Other);
            }
            return Ok(Stmt::CreateSchema { name, if_not_exists: ine });
        }
        if self.eat("create table") {
            let ine = self.eat("if not exists");
            let table = self.qname()?;
            return self.create_table(table, ine);
        }
        if self.eat("drop table") {
            let ie = self.eat("if exists");
            let table = self.qname()?;
            let _ = self.eat("cascade") || self.eat("restrict");
            return Ok(Stmt::DropTable { table, if_exists: ie });
        }
        Ok(Stmt::Other)
    }
    fn returning(&mut self) -> R<Vec<(Expr, Option<String>)>> {
        if self.eat("returning") {
            self.items()
        } else {
            Ok(vec![])
        }
    }
    fn create_table(&mut self, table: Vec<String>, if_not_exists: bool) -> R<Stmt> {
        self.op("(")?;
        let (mut cols, mut keys) = (vec![], vec![]);
        if !self.o(0, ")") {
            loop {
                if self.eat("constraint") {
                    self.ident()?;
                }
                if self.eat("primary key") {
                    keys.push((self.idents()?, true));
                } else if self.eat("unique") {
                    keys.push((self.idents()?, false));
                } else if self.eat("foreign key") {
                    self.idents()?;
                    self.need("references")?;
                    self.qname()?;
                    if self.o(0, "(") {
                        self.idents()?;
                    }
                } else if self.eat("check") {
                    self.op("(")?;
                    self.expr()?;
                    self.op(")")?;
                } else {
                    cols.push(self.coldef()?);
                }
                if !self.eat_op(",") {
                    break;
                }
            }
        }
        self.op(")")?;
        Ok(Stmt::CreateTable { table, if_not_exists, cols, keys })
    }
    fn coldef(&mut self) -> R<ColDef> {
        let name = self.ident()?;
        let ty = self.type_name()?;
        let mut c = ColDef { name, ty, not_null: false, unique: false, primary: false, default: None, refs: None };
        loop {
            if self.eat("constraint") {
                self.ident()?;
            }
            if self.eat("not null") {
                c.not_null = true;
            } else if self.eat("null") {
            } else if self.eat("primary key") {
                c.primary = true;
                c.not_null = true;
            } else if self.eat("unique") {
                c.unique = true;
            } else if self.eat("default") {
                c.default = Some(self.binary(5)?);
            } else if self.eat("check") {
                self.op("(")?;
                self.expr()?;
                self.op(")")?;
            } else if self.eat("references") {
                let t = self.qname()?;
                let col = if self.o(0, "(") { self.idents()?.pop() } else { None };
                while self.eat("on delete") || self.eat("on update") {
                    let _ = self.eat("cascade") || self.eat("restrict") || self.eat("no action") || self.eat("set null") || self.eat("set default");
                }
                let _ = self.eat("deferrable initially deferred") || self.eat("deferrable initially immediate") || self.eat("deferrable") || self.eat("not deferrable");
                c.refs = Some((t, col));
            } else if self.eat("generated always as identity") || self.eat("generated by default as identity") {
                c.ty = if c.ty == "int8" || c.ty == "bigint" { "bigserial".into() } else { "serial".into() };
                c.not_null = true;
            } else {
                return Ok(c);
            }
        }
    }

    pub fn query(&mut self) -> R<Query> {
        let mut with = vec![];
        if self.eat("with") {
            loop {
                let n = self.ident()?;
                let cols = if self.o(0, "(") { self.idents()? } else { vec![] };
                self.need("as")?;
                let _ = self.eat("materialized") || self.eat("not materialized");
                self.op("(")?;
                let q = self.query()?;
                self.op(")")?;
                with.push((n, cols, q));
                if !self.eat_op(",") {
                    break;
                }
            }
        }
        let mut q = self.union()?;
        q.with = with;
        if self.eat("order by") {
            q.order = self.orders()?;
        }
        loop {
            if self.eat("limit") {
                if !self.eat("all") {
                    q.limit = Some(self.expr()?);
                }
            } else if self.eat("offset") {
                q.offset = Some(self.expr()?);
                let _ = self.eat("rows") || self.eat("row");
            } else if self.eat("fetch first") || self.eat("fetch next") {
                q.limit = Some(if self.w(0, "row") || self.w(0, "rows") { Expr::Lit(Lit::Int(1)) } else { self.expr()? });
                let _ = self.eat("rows") || self.eat("row");
                self.need("only")?;
            } else if self.eat("for update") || self.eat("for share") {
            } else {
                break;
            }
        }
        Ok(q)
    }
    fn union(&mut self) -> R<Query> {
        let mut q = self.core()?;
        loop {
            let op = if self.eat("union") {
                "union"
            } else if self.eat("except") {
                "except"
            } else if self.eat("intersect") {
                "intersect"
            } else {
                return Ok(q);
            };
            let all = self.eat("all");
            let _ = self.eat("distinct");
            let r = self.core()?;
            // left-associative: wrap what there is
            if q.union.is_some() || !q.order.is_empty() {
                q = Query {
                    items: vec![(Expr::Star(None), None)],
                    from: vec![From::Sub { q: Box::new(q), alias: Some("?u".into()), cols: vec![] }],
                    ..Default::default()
                };
            }
            q.union = Some((op.to_string(), all, Box::new(r)));
        }
    }
    fn core(&mut self) -> R<Query> {
        if self.eat_op("(") {
            let q = self.query()?;
            self.op(")")?;
            return Ok(q);
        }
        let mut q = Query::default();
        if self.eat("values") {
            loop {
                self.op("(")?;
                let mut row = vec![];
                loop {
                    row.push(if self.eat("default") { Expr::Col(vec!["?default".into()]) } else { self.expr()? });
                    if !self.eat_op(",") {
                        break;
                    }
                }
                self.op(")")?;
                q.values.push(row);
                if !self.eat_op(",") {
                    break;
                }
            }
            return Ok(q);
        }
        self.need("select")?;
        q.distinct = self.eat("distinct");
        let _ = self.eat("all");
        if !(self.at(0).is_none() || self.w(0, "from") || self.o(0, ")") || self.w(0, "where")) {
            q.items = self.items()?;
        }
        if self.eat("from") {
            loop {
                q.from.push(self.from_item()?);
                if !self.eat_op(",") {
                    break;
                }
            }
        }
        if self.eat("where") {
            q.wher = Some(self.expr()?);
        }
        if self.eat("group by") {
            loop {
                q.group.push(self.expr()?);
                if !self.eat_op(",") {
                    break;
                }
            }
        }
        if self.eat("having") {
            q.having = Some(self.expr()?);
        }
        Ok(q)
    }
    fn items(&mut self) -> R<Vec<(Expr, Option<String>)>> {
        let mut v = vec![];
        loop {
            if self.eat_op("*") {
                v.push((Expr::Star(None), None));
            } else if self.at(0).and_then(|t| t.ident()).is_some() && self.o(1, ".") && self.o(2, "*") {
                let n = self.ident()?;
                self.i += 2;
                v.push((Expr::Star(Some(n)), None));
            } else {
                let e = self.expr()?;
                let a = if self.eat("as") {
                    Some(self.ident()?)
                } else {
                    match self.at(0) {
                        Some(Tok::Quoted(_)) => Some(self.ident()?),
                        Some(Tok::Word(w)) if !STOP.contains(&w.as_str()) => Some(self.ident()?),
                        _ => None,
                    }
                };
                v.push((e, a));
            }
            if !self.eat_op(",") {
                return Ok(v);
            }
        }
    }
    fn orders(&mut self) -> R<Vec<Order>> {
        let mut v = vec![];
        loop {
            let e = self.expr()?;
            let desc = if self.eat("desc") {
                true
            } else {
                self.eat("asc");
                false
            };
            let nulls_first = if self.eat("nulls first") {
                true
            } else if self.eat("nulls last") {
                false
            } else {
                desc
            };
            v.push(Order { e, desc, nulls_first });
            if !self.eat_op(",") {
                return Ok(v);
            }
        }
    }
    fn alias(&mut self) -> R<(Option<String>, Vec<String>)> {
        let a = if self.eat("as") {
            Some(self.ident()?)
        } else {
            match self.at(0) {
                Some(Tok::Quoted(_)) => Some(self.ident()?),
                Some(Tok::Word(w)) if !STOP.contains(&w.as_str()) => Some(self.ident()?),
                _ => None,
            }
        };
        let cols = if a.is_some() && self.o(0, "(") { self.idents()? } else { vec![] };
        Ok((a, cols))
    }
    fn from_item(&mut self) -> R<From> {
        let mut l = self.from_primary()?;
        loop {
            let natural = self.eat("natural");
            let kind = if self.eat("join") || self.eat("inner join") {
                Kind::Inner
            } else if self.eat("left outer join") || self.eat("left join") {
                Kind::Left
            } else if self.eat("right outer join") || self.eat("right join") {
                Kind::Right
            } else if self.eat("full outer join") || self.eat("full join") {
                Kind::Full
            } else if self.eat("cross join") {
                Kind::Cross
            } else if natural {
                return self.fail();
            } else {
                return Ok(l);
            };
            let r = self.from_primary()?;
            let (mut on, mut using) = (None, vec![]);
            if kind != Kind::Cross && !natural {
                if self.eat("on") {
                    on = Some(self.expr()?);
                } else if self.eat("using") {
                    using = self.idents()?;
                } else {
                    // a JOIN b JOIN c ON .. ON ..
                    return self.fail();
                }
            }
            l = From::Join { kind, l: Box::new(l), r: Box::new(r), on, using, natural };
        }
    }
    fn from_primary(&mut self) -> R<From> {
        let _ = self.eat("lateral");
        let _ = self.eat("only");
        if self.o(0, "(") {
            let save = self.i;
            self.i += 1;
            if self.w(0, "select") || self.w(0, "with") || self.w(0, "values") {
                let q = self.query()?;
                self.op(")")?;
                let (alias, cols) = self.alias()?;
                return Ok(From::Sub { q: Box::new(q), alias, cols });
            }
            let f = self.from_item();
            match f {
                Ok(f) => {
                    self.op(")")?;
                    return Ok(f);
                }
                Err(e) => {
                    self.i = save + 1;
                    if self.o(0, "(") {
                        if let Ok(q) = self.query() {
                            self.op(")")?;
                            let (alias, cols) = self.alias()?;
                            return Ok(From::Sub { q: Box::new(q), alias, cols });
                        }
                    }
                    return Err(e);
                }
            }
        }
        if self.eat("rows from") {
            self.op("(")?;
            let mut calls = vec![];
            loop {
                calls.push(self.primary()?);
                if !self.eat_op(",") {
                    break;
                }
            }
            self.op(")")?;
            let ordinality = self.eat("with ordinality");
            let (alias, cols) = self.alias()?;
            return Ok(From::Func { calls, ordinality, alias, cols });
        }
        let save = self.i;
        let name = self.qname()?;
        if self.o(0, "(") {
            self.i = save;
            let call = self.primary()?;
            let ordinality = self.eat("with ordinality");
            let (alias, cols) = self.alias()?;
            let calls = match call {
                // unnest(a, b) runs its arguments in step
                Expr::Call { name, args, .. } if name == "unnest" && args.len() > 1 => args
                    .into_iter()
                    .map(|a| Expr::Call { name: "unnest".into(), args: vec![a], star: false, distinct: false, order: vec![], filter: None })
                    .collect(),
                c => vec![c],
            };
            return Ok(From::Func { calls, ordinality, alias, cols });
        }
        let (alias, cols) = self.alias()?;
        Ok(From::Table { name, alias, cols })
    }

    pub fn expr(&mut self) -> R<Expr> {
        self.binary(0)
    }
    /// precedence levels: 0 or, 1 and, 2 not, 3 is, 4 comparison, 5 between/in/like, 6 other operators, 7 + -, 8 * / %
    fn binary(&mut self, level: u8) -> R<Expr> {
        
        match level {
            0 => {
                let mut l = self.binary(1)?;
                while self.eat("or") {
                    l = Expr::Bin("or".into(), Box::new(l), Box::new(self.binary(1)?));
                }
                Ok(l)
            }
            1 => {
                let mut l = self.binary(2)?;
                while self.eat("and") {
                    l = Expr::Bin("and".into(), Box::new(l), Box::new(self.binary(2)?));
                }
                Ok(l)
            }
            2 => {
                if self.eat("not") {
                    return Ok(Expr::Not(Box::new(self.binary(2)?)));
                }
                self.binary(3)
            }
            3 => {
                let mut l = self.binary(4)?;
                loop {
                    if self.eat("isnull") {
                        l = Expr::IsNull(Box::new(l), false);
                        continue;
                    }
                    if self.eat("notnull") {
                        l = Expr::IsNull(Box::new(l), true);
                        continue;
                    }
                    if !self.eat("is") {
                        return Ok(l);
                    }
                    let not = self.eat("not");
                    if self.eat("null") {
                        l = Expr::IsNull(Box::new(l), not);
                    } else if self.eat("true") {
                        l = Expr::IsBool(Box::new(l), true, not);
                    } else if self.eat("false") {
                        l = Expr::IsBool(Box::new(l), false, not);
                    } else if self.eat("unknown") {
                        l = Expr::IsNull(Box::new(l), not);
                    } else if self.eat("distinct from") {
                        l = Expr::Distinct(Box::new(l), Box::new(self.binary(4)?), not);
                    } else {
                        return self.fail();
                    }
                }
            }
            4 => {
                let mut l = self.binary(5)?;
                loop {
                    let op = match self.at(0) {
                        Some(Tok::Op(o)) if ["=", "<>", "!=", "<", ">", "<=", ">="].contains(&o.as_str()) => o.clone(),
                        _ => return Ok(l),
                    };
                    self.i += 1;
                    let op = if op == "!=" { "<>".to_string() } else { op };
                    if (self.w(0, "any") || self.w(0, "some") || self.w(0, "all")) && self.o(1, "(") {
                        let all = self.w(0, "all");
                        self.i += 2;
                        let a = if self.w(0, "select") || self.w(0, "with") || self.w(0, "values") {
                            Expr::ArraySub(Box::new(self.query()?))
                        } else {
                            self.expr()?
                        };
                        self.op(")")?;
                        l = Expr::Quant(op, Box::new(l), Box::new(a), all);
                    } else {
                        l = Expr::Bin(op, Box::new(l), Box::new(self.binary(5)?));
                    }
                }
            }
            5 => {
                let mut l = self.binary(6)?;
                loop {
                    let save = self.i;
                    let not = self.eat("not");
                    if self.eat("in") {
                        self.op("(")?;
                        if self.w(0, "select") || self.w(0, "with") || self.w(0, "values") {
                            let q = self.query()?;
                            self.op(")")?;
                            l = Expr::InSub(Box::new(l), Box::new(q), not);
                        } else {
                            let v = self.exprs()?;
                            self.op(")")?;
                            l = Expr::In(Box::new(l), v, not);
                        }
                    } else if self.eat("like") {
                        l = Expr::Like(Box::new(l), Box::new(self.binary(6)?), false, not);
                    } else if self.eat("ilike") {
                        l = Expr::Like(Box::new(l), Box::new(self.binary(6)?), true, not);
                    } else if self.eat("between") {
                        let _ = self.eat("symmetric");
                        let lo = self.binary(6)?;
                        self.need("and")?;
                        l = Expr::Between(Box::new(l), Box::new(lo), Box::new(self.binary(6)?), not);
                    } else {
                        self.i = save;
                        return Ok(l);
                    }
                }
            }
            6 => {
                let mut l = self.binary(7)?;
                loop {
                    let op = match self.at(0) {
                        Some(Tok::Op(o)) if ["||", "&", "|", "~", "!~", "~*", "!~*", "~~", "!~~", "@>", "<@", "&&", "<<", ">>"].contains(&o.as_str()) => o.clone(),
                        _ => return Ok(l),
                    };
                    self.i += 1;
                    let r = self.binary(7)?;
                    l = match op.as_str() {
                        "~~" => Expr::Like(Box::new(l), Box::new(r), false, false),
                        "!~~" => Expr::Like(Box::new(l), Box::new(r), false, true),
                        _ => Expr::Bin(op, Box::new(l), Box::new(r)),
                    };
                }
            }
            7 | 8 => {
                let ops: &[&str] = if level == 7 { &["+", "-"] } else { &["*", "/", "%"] };
                let next = |p: &mut Self| if level == 7 { p.binary(8) } else { p.unary() };
                let mut l = next(self)?;
                loop {
                    let op = match self.at(0) {
                        Some(Tok::Op(o)) if ops.contains(&o.as_str()) => o.clone(),
                        _ => return Ok(l),
                    };
                    self.i += 1;
                    l = Expr::Bin(op, Box::new(l), Box::new(next(self)?));
                }
            }
            _ => unreachable!(),
        }
    }
    fn exprs(&mut self) -> R<Vec<Expr>> {
        let mut v = vec![self.expr()?];
        while self.eat_op(",") {
            v.push(self.expr()?);
        }
        Ok(v)
    }
    fn unary(&mut self) -> R<Expr> {
        if self.eat_op("-") {
            return Ok(match self.unary()? {
                Expr::Lit(Lit::Int(n)) => Expr::Lit(Lit::Int(-n)),
                e => Expr::Neg(Box::new(e)),
            });
        }
        if self.eat_op("+") {
            return self.unary();
        }
        let mut e = self.primary()?;
        loop {
            if self.eat_op("::") {
                e = Expr::Cast(Box::new(e), self.type_name()?);
            } else if self.o(0, "[") {
                self.i += 1;
                if self.eat_op(":") {
                    let hi = if self.o(0, "]") { None } else { Some(Box::new(self.expr()?)) };
                    self.op("]")?;
                    e = Expr::Slice(Box::new(e), None, hi);
                    continue;
                }
                let x = self.expr()?;
                if self.eat_op(":") {
                    let hi = if self.o(0, "]") { None } else { Some(Box::new(self.expr()?)) };
                    self.op("]")?;
                    e = Expr::Slice(Box::new(e), Some(Box::new(x)), hi);
                    continue;
                }
                self.op("]")?;
                e = Expr::Index(Box::new(e), Box::new(x));
            } else if self.eat("collate") {
                self.qname()?;
            } else {
                return Ok(e);
            }
        }
    }
    /// a type, in one spelling: lower case, schema of the catalogue left out, [] for arrays
    fn type_name(&mut self) -> R<String> {
        let mut v = self.qname()?;
        if v.len() == 2 && v[0] == "pg_catalog" {
            v.remove(0);
        }
        let quoted = matches!(self.t.get(self.i - 1), Some(Tok::Quoted(_)));
        let mut t = v.join(".");
        if quoted && t == "char" {
            t = "\"char\"".into();
        } else if t == "double" && self.eat("precision") {
            t = "float8".into();
        } else if t == "character" || t == "char" && !quoted {
            t = if self.eat("varying") { "varchar".into() } else { "bpchar".into() };
        } else if t == "bit" && self.eat("varying") {
            t = "varbit".into();
        }
        if self.o(0, "(") {
            let from = self.i;
            while !self.o(0, ")") {
                if self.at(0).is_none() {
                    return self.fail();
                }
                self.i += 1;
            }
            self.i += 1;
            t += &self.t[from..self.i].iter().map(|x| x.text()).collect::<String>();
        }
        if t.starts_with("timestamp") || t.starts_with("time") {
            if self.eat("with time zone") {
                t = t.replacen("timestamp", "timestamptz", 1).replacen("time(", "timetz(", 1);
                if t == "time" {
                    t = "timetz".into();
                }
            } else {
                let _ = self.eat("without time zone");
            }
        }
        loop {
            if self.o(0, "[") && self.o(1, "]") {
                self.i += 2;
                t += "[]";
            } else if self.eat("array") {
                t += "[]";
            } else {
                return Ok(t);
            }
        }
    }
    fn primary(&mut self) -> R<Expr> {
        
        match self.at(0) {
            None => self.fail(),
            Some(Tok::Num(n)) => {
                self.i += 1;
                match n.parse() {
                    Ok(x) => Ok(Expr::Lit(Lit::Int(x))),
                    Err(_) => err("0A000", format!("number {n}")),
                }
            }
            Some(Tok::Str(s)) => {
                self.i += 1;
                Ok(Expr::Lit(Lit::Str(s.clone())))
            }
            Some(Tok::Param(n)) => {
                self.i += 1;
                Ok(Expr::Param(*n))
            }
            Some(Tok::Op(o)) if o == "(" => {
                self.i += 1;
                if self.w(0, "select") || self.w(0, "with") || self.w(0, "values") {
                    let q = self.query()?;
                    self.op(")")?;
                    return Ok(Expr::Sub(Box::new(q)));
                }
                let mut v = self.exprs()?;
                self.op(")")?;
                Ok(if v.len() == 1 { v.pop().unwrap() } else { Expr::Row(v) })
            }
            Some(Tok::Word(w)) => match w.as_str() {
                "null" => {
                    self.i += 1;
                    Ok(Expr::Lit(Lit::Null))
                }
                "true" | "false" => {
                    self.i += 1;
                    Ok(Expr::Lit(Lit::Bool(w == "true")))
                }
                "exists" => {
                    self.i += 1;
                    self.op("(")?;
                    let q = self.query()?;
                    self.op(")")?;
                    Ok(Expr::Exists(Box::new(q)))
                }
                "case" => {
                    self.i += 1;
                    let s = if self.w(0, "when") { None } else { Some(Box::new(self.expr()?)) };
                    let mut v = vec![];
                    while self.eat("when") {
                        let c = self.expr()?;
                        self.need("then")?;
                        v.push((c, self.expr()?));
                    }
                    let e = if self.eat("else") { Some(Box::new(self.expr()?)) } else { None };
                    self.need("end")?;
                    Ok(Expr::Case(s, v, e))
                }
                "cast" if self.o(1, "(") => {
                    self.i += 2;
                    let e = self.expr()?;
                    self.need("as")?;
                    let t = self.type_name()?;
                    self.op(")")?;
                    Ok(Expr::Cast(Box::new(e), t))
                }
                "array" if self.o(1, "[") => {
                    self.i += 2;
                    let v = if self.o(0, "]") { vec![] } else { self.exprs()? };
                    self.op("]")?;
                    Ok(Expr::Array(v))
                }
                "array" if self.o(1, "(") => {
                    self.i += 2;
                    let q = self.query()?;
                    self.op(")")?;
                    Ok(Expr::ArraySub(Box::new(q)))
                }
                "row" if self.o(1, "(") => {
                    self.i += 2;
                    let v = self.exprs()?;
                    self.op(")")?;
                    Ok(Expr::Row(v))
                }
                "current_schema" | "current_user" | "session_user" | "current_timestamp" | "current_date" | "current_catalog" => {
                    let name = w.clone();
                    self.i += 1;
                    if self.o(0, "(") && self.o(1, ")") {
                        self.i += 2;
                    }
                    Ok(Expr::Call { name, args: vec![], star: false, distinct: false, order: vec![], filter: None })
                }
                w if is_reserved(w) && !["left", "right"].contains(&w) => self.fail(),
                _ => self.name_or_call(),
            },
            Some(Tok::Quoted(_)) => self.name_or_call(),
            _ => self.fail(),
        }
    }
    fn name_or_call(&mut self) -> R<Expr> {
        // type 'literal'
        if let (Some(Tok::Word(w)), Some(Tok::Str(s))) = (self.at(0), self.at(1)) {
            if ["text", "regclass", "regtype", "name", "int", "integer", "timestamp", "regnamespace"].contains(&w.as_str()) {
                self.i += 2;
                return Ok(Expr::Cast(Box::new(Expr::Lit(Lit::Str(s.clone()))), w.clone()));
            }
        }
        let mut v = self.qname()?;
        if !self.o(0, "(") {
            return Ok(Expr::Col(v));
        }
        self.i += 1;
        let name = v.pop().unwrap();
        let mut c = (vec![], false, false, vec![]);
        if self.eat_op("*") {
            c.1 = true;
        } else if !self.o(0, ")") {
            if name == "trim" && (self.w(0, "both") || self.w(0, "leading") || self.w(0, "trailing") || self.w(0, "from")) {
                let which = if self.w(0, "from") { "both".into() } else { self.ident()? };
                let chars = if self.w(0, "from") { None } else { Some(self.expr()?) };
                self.need("from")?;
                let e = self.expr()?;
                self.op(")")?;
                let name = match which.as_str() {
                    "leading" => "ltrim",
                    "trailing" => "rtrim",
                    _ => "btrim",
                };
                let mut args = vec![e];
                args.extend(chars);
                return Ok(Expr::Call { name: name.into(), args, star: false, distinct: false, order: vec![], filter: None });
            }
            if name == "position" {
                let a = self.binary(6)?;
                self.need("in")?;
                let e = self.expr()?;
                self.op(")")?;
                return Ok(Expr::Call { name: "strpos".into(), args: vec![e, a], star: false, distinct: false, order: vec![], filter: None });
            }
            c.2 = self.eat("distinct");
            let _ = self.eat("variadic");
            c.0 = self.exprs()?;
            if name == "trim" && self.eat("from") {
                let chars = c.0.pop().unwrap();
                c.0 = vec![self.expr()?, chars];
            }
            if name == "substring" {
                if self.eat("from") {
                    c.0.push(self.expr()?);
                    if self.eat("for") {
                        c.0.push(self.expr()?);
                    }
                } else if self.eat("for") {
                    c.0.push(Expr::Lit(Lit::Int(1)));
                    c.0.push(self.expr()?);
                }
            }
            if self.eat("order by") {
                c.3 = self.orders()?;
            }
        }
        self.op(")")?;
        let filter = if self.eat("filter") {
            self.op("(")?;
            self.need("where")?;
            let e = self.expr()?;
            self.op(")")?;
            Some(Box::new(e))
        } else {
            None
        };
        Ok(Expr::Call { name, args: c.0, star: c.1, distinct: c.2, order: c.3, filter })
    }
}
