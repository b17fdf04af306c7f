//! A strict model of how PostgreSQL executes the DDL that migrations are made of: its names,
//! namespaces, kinds and dependencies. It knows nothing of podo.
use crate::model::*;
use crate::sqltext::*;
use std::collections::BTreeSet;

#[derive(Clone, Debug, PartialEq)]
pub struct PgErr {
    pub code: &'static str,
    pub msg: String,
}

fn err<T>(code: &'static str, msg: impl Into<String>) -> Result<T, PgErr> {
    Err(PgErr { code, msg: msg.into() })
}
pub const SYNTAX: &str = "42601";
pub const UNDEFINED_SCHEMA: &str = "3F000";
pub const UNDEFINED_TABLE: &str = "42P01";
pub const UNDEFINED_COLUMN: &str = "42703";
pub const UNDEFINED_OBJECT: &str = "42704";
pub const UNDEFINED_FUNCTION: &str = "42883";
pub const DUP_SCHEMA: &str = "42P06";
pub const DUP_TABLE: &str = "42P07";
pub const DUP_COLUMN: &str = "42701";
pub const DUP_OBJECT: &str = "42710";
pub const DUP_FUNCTION: &str = "42723";
pub const DEPENDENT: &str = "2BP01";
pub const WRONG_KIND: &str = "42809";
pub const BAD_TABLE: &str = "42P16";
pub const BAD_FK: &str = "42830";
pub const FEATURE: &str = "0A000";
pub const BAD_PARAM: &str = "22023";

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Pg {
    pub db: Db,
}

type R<T> = Result<T, PgErr>;

struct P<'a> {
    t: &'a [Tok],
    i: usize,
}

impl<'a> P<'a> {
    fn peek(&self) -> Option<&'a Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> R<&'a Tok> {
        match self.t.get(self.i) {
            Some(t) => {
                self.i += 1;
                Ok(t)
            }
            None => err(SYNTAX, "syntax error at end of input"),
        }
    }
    fn fail<T>(&self) -> R<T> {
        match self.peek() {
            Some(t) => err(SYNTAX, format!("syntax error at or near {:?}", t.text())),
            None => err(SYNTAX, "syntax error at end of input"),
        }
    }
    fn is(&self, w: &str) -> bool {
        self.peek().map(|t| t.is_word(w)).unwrap_or(false)
    }
    fn is_at(&self, k: usize, w: &str) -> bool {
        self.t.get(self.i + k).map(|t| t.is_word(w)).unwrap_or(false)
    }
    fn op_is(&self, o: &str) -> bool {
        self.peek().map(|t| t.is_op(o)).unwrap_or(false)
    }
    fn eat(&mut self, w: &str) -> bool {
        if self.is(w) {
            self.i += 1;
            return true;
        }
        false
    }
    /// several words in a row
    fn eats(&mut self, ws: &str) -> bool {
        let v: Vec<&str> = ws.split(' ').collect();
        if v.iter().enumerate().all(|(k, w)| self.is_at(k, w)) {
            self.i += v.len();
            return true;
        }
        false
    }
    fn word(&mut self, w: &str) -> R<()> {
        if self.eats(w) {
            Ok(())
        } else {
            self.fail()
        }
    }
    fn op(&mut self, o: &str) -> R<()> {
        if self.op_is(o) {
            self.i += 1;
            Ok(())
        } else {
            self.fail()
        }
    }
    fn ident(&mut self) -> R<String> {
        match self.peek() {
            Some(Tok::Quoted(q)) => {
                self.i += 1;
                Ok(q.clone())
            }
            Some(Tok::Word(w)) if !is_reserved(w) => {
                self.i += 1;
                Ok(w.clone())
            }
            _ => self.fail(),
        }
    }
    fn qualified(&mut self) -> R<(String, String)> {
        let a = self.ident()?;
        if self.op_is(".") {
            self.i += 1;
            let b = self.ident()?;
            return Ok((a, b));
        }
        Ok(("public".into(), a))
    }
    /// what a pair of parentheses encloses
    fn parens(&mut self) -> R<&'a [Tok]> {
        self.op("(")?;
        let from = self.i;
        let mut d = 1;
        while d > 0 {
            let t = self.next()?;
            if t.is_op("(") {
                d += 1;
            } else if t.is_op(")") {
                d -= 1;
            }
        }
        Ok(&self.t[from..self.i - 1])
    }
    fn names(&mut self) -> R<Vec<String>> {
        let inner = self.parens()?;
        let mut p = P { t: inner, i: 0 };
        let mut v = vec![p.ident()?];
        while p.op_is(",") {
            p.i += 1;
            v.push(p.ident()?);
        }
        p.end()?;
        Ok(v)
    }
    fn end(&self) -> R<()> {
        if self.i == self.t.len() {
            Ok(())
        } else {
            self.fail()
        }
    }
    /// everything at depth 0 up to where `stop` says so
    fn until(&mut self, stop: &dyn Fn(&P, usize) -> bool) -> &'a [Tok] {
        let from = self.i;
        let mut d = 0;
        while let Some(t) = self.peek() {
            if d == 0 && stop(self, self.i - from) {
                break;
            }
            if t.is_op("(") || t.is_op("[") {
                d += 1;
            } else if t.is_op(")") || t.is_op("]") {
                d -= 1;
            }
            self.i += 1;
        }
        &self.t[from..self.i]
    }
    fn int(&mut self) -> R<i128> {
        let neg = if self.op_is("-") {
            self.i += 1;
            true
        } else {
            if self.op_is("+") {
                self.i += 1;
            }
            false
        };
        match self.next()? {
            Tok::Num(n) => match n.parse::<i128>() {
                Ok(v) => Ok(if neg { -v } else { v }),
                Err(_) => err(SYNTAX, format!("not an integer: {n}")),
            },
            t => err(SYNTAX, format!("syntax error at or near {:?}", t.text())),
        }
    }
    fn bigint(&mut self) -> R<i64> {
        let v = self.int()?;
        i64::try_from(v).or_else(|_| err("22003", format!("value {v} is out of range for type bigint")))
    }
    fn deferral(&mut self) -> R<(bool, bool)> {
        let (mut d, mut i) = (None, None);
        loop {
            if self.eats("not deferrable") {
                if d.is_some() {
                    return err(SYNTAX, "multiple DEFERRABLE/NOT DEFERRABLE clauses not allowed");
                }
                d = Some(false);
            } else if self.eat("deferrable") {
                if d.is_some() {
                    return err(SYNTAX, "multiple DEFERRABLE/NOT DEFERRABLE clauses not allowed");
                }
                d = Some(true);
            } else if self.eats("initially deferred") {
                i = Some(true);
            } else if self.eats("initially immediate") {
                i = Some(false);
            } else {
                break;
            }
        }
        if i == Some(true) && d == Some(false) {
            return err(SYNTAX, "constraint declared INITIALLY DEFERRED must be DEFERRABLE");
        }
        let df = d.unwrap_or(i == Some(true));
        Ok((df, i.unwrap_or(false)))
    }
    fn behaviour(&mut self) -> bool {
        if self.eat("cascade") {
            return true;
        }
        self.eat("restrict");
        false
    }
}

fn split_top(t: &[Tok]) -> Vec<&[Tok]> {
    let mut v = vec![];
    let (mut d, mut from) = (0, 0);
    for (i, x) in t.iter().enumerate() {
        if x.is_op("(") || x.is_op("[") {
            d += 1;
        } else if x.is_op(")") || x.is_op("]") {
            d -= 1;
        } else if d == 0 && x.is_op(",") {
            v.push(&t[from..i]);
            from = i + 1;
        }
    }
    if from < t.len() || !v.is_empty() {
        v.push(&t[from..]);
    }
    v
}

const MULTI: &[(&str, &[&str])] = &[
    ("character", &["varying"]),
    ("double", &["precision"]),
    ("timestamp", &["with", "without"]),
    ("time", &["with", "without"]),
    ("bit", &["varying"]),
    ("interval", &["year", "month", "day", "hour", "minute", "second"]),
    ("national", &["character", "char"]),
];

/// The types by which a function of these arguments is told from another of its name.
fn identity(args: &[Tok], declaring: bool) -> R<Vec<String>> {
    let mut v = vec![];
    for a in split_top(args) {
        let mut a = a.to_vec();
        if a.is_empty() {
            return err(SYNTAX, "syntax error in function arguments");
        }
        let mut out = false;
        if let Some(Tok::Word(m)) = a.first() {
            if ["in", "out", "inout", "variadic"].contains(&m.as_str()) {
                out = m == "out";
                a.remove(0);
            }
        }
        if let Some(i) = a.iter().position(|t| t.is_word("default") || t.is_op("=") || t.is_op(":=")) {
            if !declaring {
                return err(SYNTAX, "syntax error at or near DEFAULT: an argument's default has no place here");
            }
            if i + 1 >= a.len() {
                return err(SYNTAX, "empty default of an argument");
            }
            a.truncate(i);
        }
        if a.is_empty() {
            return err(SYNTAX, "argument without a type");
        }
        let named = a.len() > 1
            && !matches!(&a[1], Tok::Op(_))
            && match &a[0] {
                Tok::Word(w) => !MULTI.iter().any(|(f, n)| f == w && n.iter().any(|n| a[1].is_word(n))),
                _ => true,
            };
        if named {
            a.remove(0);
        }
        // the type without its modifier
        let mut ty = vec![];
        let mut d = 0;
        for t in a {
            if t.is_op("(") {
                d += 1;
            } else if t.is_op(")") {
                d -= 1;
            } else if d == 0 {
                ty.push(t);
            }
        }
        if !out {
            v.push(join(&ty));
        }
    }
    Ok(v)
}

/// The arguments without the defaults some have.
pub fn without_defaults(args: &str) -> String {
    let Ok(toks) = lex(args) else { return args.to_string() };
    let one = |a: &[Tok]| {
        let i = a.iter().position(|t| t.is_word("default") || t.is_op("=") || t.is_op(":="));
        join(&a[..i.unwrap_or(a.len())])
    };
    if toks.iter().any(|t| t.is_word("default") || t.is_op("=") || t.is_op(":=")) {
        split_top(&toks).into_iter().map(one).collect::<Vec<_>>().join(", ")
    } else {
        args.to_string()
    }
}

pub fn func_base(key: &str) -> &str {
    key.split('(').next().unwrap().trim()
}

fn key_args(key: &str) -> Vec<Tok> {
    match key.split_once('(') {
        Some((_, r)) => lex(r.trim_end().strip_suffix(')').unwrap_or(r)).unwrap_or_default(),
        None => vec![],
    }
}

/// A database as PostgreSQL's catalog would tell it apart from others.
pub fn canonical(db: &Db) -> Db {
    let mut d = db.without_owners();
    for sc in d.schemas.values_mut() {
        for r in sc.rels.values_mut() {
            match r {
                Rel::Table(t) => {
                    for c in t.cols.iter_mut() {
                        c.ty = norm(&c.ty);
                        c.default = c.default.as_deref().map(norm_expr);
                    }
                    for c in t.cons.values_mut() {
                        match c {
                            Con::Check(k) => k.expr = norm_expr(&k.expr),
                            Con::Fk(f) => {
                                f.mat = f.mat.to_uppercase();
                                f.upd = f.upd.to_uppercase();
                                f.del = f.del.to_uppercase();
                            }
                            _ => {}
                        }
                    }
                }
                Rel::View(v) => v.query = norm(&v.query),
                Rel::Index(i) => {
                    i.method = norm(&i.method);
                    for k in i.keys.iter_mut() {
                        *k = norm(k);
                    }
                }
                Rel::Seq(q) => {
                    q.ty = match seq_bounds(&norm(&q.ty)) {
                        Some((_, m)) if m == i16::MAX as i64 => "smallint".into(),
                        Some((_, m)) if m == i32::MAX as i64 => "integer".into(),
                        Some(_) => "bigint".into(),
                        None => norm(&q.ty),
                    }
                }
            }
        }
        let old = std::mem::take(&mut sc.funcs);
        for (k, mut f) in old {
            let key = format!("{}({})", func_base(&k), join(&key_args(&k)));
            f.lang = norm(&f.lang);
            f.returns = norm(&f.returns);
            f.vol = f.vol.to_uppercase();
            sc.funcs.insert(key, f);
        }
    }
    d
}

/// Statements separated by semicolons (outside quotes), empty ones left out.
pub fn statements(sql: &str) -> R<Vec<Vec<Tok>>> {
    let toks = lex(sql).or_else(|e| err(SYNTAX, e))?;
    let mut v = vec![];
    for part in toks.split(|t| t.is_op(";")) {
        if !part.is_empty() {
            v.push(part.to_vec());
        }
    }
    Ok(v)
}

impl Pg {
    pub fn of(db: &Db) -> Pg {
        Pg { db: db.without_owners() }
    }
    pub fn canonical(&self) -> Db {
        canonical(&self.db)
    }

    /// Executes one statement; without effect when it fails.
    pub fn exec(&mut self, sql: &str) -> R<()> {
        let v = statements(sql)?;
        match v.len() {
            0 => Ok(()),
            1 => self.exec_tokens(&v[0]),
            _ => err(SYNTAX, "cannot insert multiple commands into a prepared statement"),
        }
    }

    pub fn exec_tokens(&mut self, t: &[Tok]) -> R<()> {
        let save = self.db.clone();
        let mut p = P { t, i: 0 };
        let r = self.statement(&mut p).and_then(|_| p.end());
        if r.is_err() {
            self.db = save;
        }
        r
    }

    fn schema(&mut self, s: &str) -> R<&mut Schema> {
        match self.db.schemas.get_mut(s) {
            Some(x) => Ok(x),
            None => err(UNDEFINED_SCHEMA, format!("schema {s:?} does not exist")),
        }
    }
    fn rel(&mut self, s: &str, r: &str) -> R<&mut Rel> {
        match self.schema(s)?.rels.get_mut(r) {
            Some(x) => Ok(x),
            None => err(UNDEFINED_TABLE, format!("relation {s:?}.{r:?} does not exist")),
        }
    }
    fn table(&mut self, s: &str, t: &str) -> R<&mut Table> {
        match self.rel(s, t)? {
            Rel::Table(x) => Ok(x),
            o => err(WRONG_KIND, format!("{s:?}.{t:?} is a {}, not a table", o.kind())),
        }
    }
    fn col(&mut self, s: &str, t: &str, c: &str) -> R<&mut Col> {
        match self.table(s, t)?.col_mut(c) {
            Some(x) => Ok(x),
            None => err(UNDEFINED_COLUMN, format!("column {c:?} of relation {t:?} does not exist")),
        }
    }
    /// Relations and the indexes of key constraints share one namespace.
    fn free(&mut self, s: &str, r: &str) -> R<()> {
        let sc = self.schema(s)?;
        let taken = sc.rels.contains_key(r)
            || sc.rels.values().any(|x| x.table().map(|t| t.cons.get(r).map(|c| c.key().is_some()).unwrap_or(false)).unwrap_or(false));
        if taken {
            return err(DUP_TABLE, format!("relation {r:?} already exists"));
        }
        Ok(())
    }
    fn expr_deps(&mut self, e: &str) -> R<()> {
        for (a, b) in nextval_refs(e) {
            match self.db.schemas.get(&a).and_then(|s| s.rels.get(&b)) {
                Some(Rel::Seq(_)) => {}
                _ => return err(UNDEFINED_TABLE, format!("relation {a:?}.{b:?} does not exist")),
            }
        }
        for (a, b) in func_refs(e) {
            if !self.db.schemas.get(&a).map(|s| s.funcs.keys().any(|k| func_base(k) == b)).unwrap_or(false) {
                return err(UNDEFINED_FUNCTION, format!("function {a:?}.{b:?} does not exist"));
            }
        }
        Ok(())
    }
    fn exprs(&self) -> Vec<(String, String)> {
        let mut v = vec![];
        for (s, t) in self.db.tables() {
            let tb = self.db.table(&s, &t).unwrap();
            for c in &tb.cols {
                if let Some(d) = &c.default {
                    v.push((format!("default of {s:?}.{t:?}.{:?}", c.name), d.clone()));
                }
            }
            for (n, c) in &tb.cons {
                if let Con::Check(k) = c {
                    v.push((format!("constraint {n:?} on {s:?}.{t:?}"), k.expr.clone()));
                }
            }
        }
        v
    }
    fn views_on(&self, s: &str, t: &str, col: Option<&str>) -> Option<String> {
        for (vs, v) in self.db.rels_of("view") {
            if let Rel::View(x) = &self.db.schemas[&vs].rels[&v] {
                for ((a, b), cols) in view_refs(&x.query) {
                    if a == s && b == t && col.map(|c| cols.iter().any(|x| x == c)).unwrap_or(true) {
                        return Some(format!("{vs:?}.{v:?}"));
                    }
                }
            }
        }
        None
    }
    fn fks_to(&self, s: &str, t: &str) -> Vec<(String, String, String, Fk)> {
        let mut v = vec![];
        for (a, b) in self.db.tables() {
            for (n, c) in &self.db.table(&a, &b).unwrap().cons {
                if let Con::Fk(f) = c {
                    if f.tschema == s && f.ttable == t {
                        v.push((a.clone(), b.clone(), n.clone(), f.clone()));
                    }
                }
            }
        }
        v
    }
    /// Whether a foreign key over these columns of the table has something to stand on.
    fn has_key(&self, s: &str, t: &str, cols: &[String], ignoring: Option<&str>) -> bool {
        let set: BTreeSet<&str> = cols.iter().map(|c| c.as_str()).collect();
        let Some(tb) = self.db.table(s, t) else { return false };
        if tb.cons.iter().any(|(n, c)| {
            Some(n.as_str()) != ignoring
                && c.key().map(|k| !k.deferrable && k.cols.iter().map(|c| c.as_str()).collect::<BTreeSet<_>>() == set).unwrap_or(false)
        }) {
            return true;
        }
        self.db.schemas[s].rels.iter().any(|(n, r)| match r {
            Rel::Index(i) => {
                i.unique
                    && i.table == t
                    && Some(n.as_str()) != ignoring
                    && i.keys.len() == set.len()
                    && i.keys.iter().all(|k| plain_key(k).map(|c| set.contains(c.as_str())).unwrap_or(false))
                    && i.keys.iter().filter_map(|k| plain_key(k)).collect::<BTreeSet<_>>().len() == set.len()
            }
            _ => false,
        })
    }

    /// Removes whatever no longer has what it depends on.
    fn cascade(&mut self) {
        loop {
            let before = self.db.clone();
            let snap = Pg { db: before.clone() };
            for sn in before.schemas.keys() {
                let sc = self.db.schemas.get_mut(sn).unwrap();
                sc.rels.retain(|_, r| match r {
                    Rel::View(v) => view_refs(&v.query).iter().all(|((a, b), cols)| match snap.db.schemas.get(a).and_then(|s| s.rels.get(b)) {
                        Some(Rel::Table(t)) => cols.iter().all(|c| t.col(c).is_some()),
                        Some(Rel::View(_)) => true,
                        _ => false,
                    }),
                    Rel::Index(i) => snap.db.table(sn, &i.table).map(|t| i.keys.iter().all(|k| column_refs(k).iter().all(|c| t.col(c).is_some()))).unwrap_or(false),
                    _ => true,
                });
                for r in sc.rels.values_mut() {
                    if let Rel::Table(t) = r {
                        let names: Vec<String> = t.cols.iter().map(|c| c.name.clone()).collect();
                        let ok = |e: &str| snap.clone().expr_deps(e).is_ok();
                        for c in t.cols.iter_mut() {
                            if c.default.as_deref().map(|d| !ok(d)).unwrap_or(false) {
                                c.default = None;
                            }
                        }
                        t.cons.retain(|_, c| match c {
                            Con::Pk(k) | Con::Unique(k) => k.cols.iter().all(|c| names.contains(c)),
                            Con::Check(k) => column_refs(&k.expr).iter().all(|c| names.contains(c)) && ok(&k.expr),
                            Con::Fk(f) => f.cols.iter().all(|c| names.contains(c)) && snap.has_key(&f.tschema, &f.ttable, &f.tcols, None),
                        });
                    }
                }
            }
            if self.db == before {
                return;
            }
        }
    }

    fn statement(&mut self, p: &mut P) -> R<()> {
        if p.eats("create schema") {
            let n = p.ident()?;
            if self.db.schemas.contains_key(&n) {
                return err(DUP_SCHEMA, format!("schema {n:?} already exists"));
            }
            if n.starts_with("pg_") {
                return err("42939", format!("unacceptable schema name {n:?}"));
            }
            self.db.schemas.insert(n, Schema::default());
            return Ok(());
        }
        if p.eats("drop schema") {
            let n = p.ident()?;
            let c = p.behaviour();
            let sc = self.schema(&n)?;
            if !c && !(sc.rels.is_empty() && sc.funcs.is_empty()) {
                return err(DEPENDENT, format!("cannot drop schema {n:?} because other objects depend on it"));
            }
            self.db.schemas.remove(&n);
            if c {
                self.cascade();
            }
            return Ok(());
        }
        if p.eats("create table") {
            return self.create_table(p);
        }
        if p.eats("drop table") {
            let (s, t) = p.qualified()?;
            let c = p.behaviour();
            self.table(&s, &t)?;
            if !c {
                if let Some(f) = self.fks_to(&s, &t).iter().find(|f| (&f.0, &f.1) != (&s, &t)) {
                    return err(DEPENDENT, format!("cannot drop table {t:?}: constraint {:?} on table {:?} depends on it", f.2, f.1));
                }
                if let Some(v) = self.views_on(&s, &t, None) {
                    return err(DEPENDENT, format!("cannot drop table {t:?}: view {v} depends on it"));
                }
            }
            let sc = self.schema(&s)?;
            sc.rels.remove(&t);
            sc.rels.retain(|_, r| !matches!(r, Rel::Index(i) if i.table == t));
            if c {
                self.cascade();
            }
            return Ok(());
        }
        if p.eats("alter table") {
            let (s, t) = p.qualified()?;
            self.table(&s, &t)?;
            if p.eat("rename") {
                p.eat("column");
                let a = p.ident()?;
                p.word("to")?;
                let b = p.ident()?;
                return self.rename_column(&s, &t, &a, &b);
            }
            loop {
                self.alter_action(p, &s, &t)?;
                if p.op_is(",") {
                    p.i += 1;
                    continue;
                }
                return Ok(());
            }
        }
        if p.is("create") && (p.is_at(1, "index") || p.is_at(1, "unique")) {
            return self.create_index(p);
        }
        if p.eats("drop index") {
            let (s, n) = p.qualified()?;
            let c = p.behaviour();
            if !self.schema(&s)?.rels.contains_key(&n) && self.free(&s, &n).is_err() {
                return err(DEPENDENT, format!("cannot drop index {n:?} because a constraint requires it"));
            }
            let tn = match self.rel(&s, &n)? {
                Rel::Index(i) => i.table.clone(),
                o => return err(WRONG_KIND, format!("{n:?} is a {}, not an index", o.kind())),
            };
            if !c {
                for f in self.fks_to(&s, &tn) {
                    if !self.has_key(&s, &tn, &f.3.tcols, Some(&n)) {
                        return err(DEPENDENT, format!("cannot drop index {n:?}: constraint {:?} depends on it", f.2));
                    }
                }
            }
            self.schema(&s)?.rels.remove(&n);
            if c {
                self.cascade();
            }
            return Ok(());
        }
        if p.eats("create view") {
            let (s, n) = p.qualified()?;
            p.word("as")?;
            let q = &p.t[p.i..];
            p.i = p.t.len();
            if !q.first().map(|t| t.is_word("select") || t.is_word("with") || t.is_word("values") || t.is_word("table") || t.is_op("(")).unwrap_or(false) {
                return err(SYNTAX, "syntax error: a view needs a query");
            }
            let text = raw(q);
            for ((a, b), cols) in view_refs(&text) {
                match self.rel(&a, &b)? {
                    Rel::Table(t) => {
                        for c in &cols {
                            if t.col(c).is_none() {
                                return err(UNDEFINED_COLUMN, format!("column {c:?} does not exist"));
                            }
                        }
                    }
                    Rel::View(_) | Rel::Seq(_) => {}
                    Rel::Index(_) => return err(WRONG_KIND, format!("{b:?} is an index")),
                }
            }
            self.free(&s, &n)?;
            self.schema(&s)?.rels.insert(n, Rel::View(View { query: text }));
            return Ok(());
        }
        if p.eats("drop view") {
            let (s, n) = p.qualified()?;
            let c = p.behaviour();
            match self.rel(&s, &n)? {
                Rel::View(_) => {}
                o => return err(WRONG_KIND, format!("{n:?} is a {}, not a view", o.kind())),
            }
            if !c {
                if let Some(v) = self.views_on(&s, &n, None) {
                    return err(DEPENDENT, format!("cannot drop view {n:?}: view {v} depends on it"));
                }
            }
            self.schema(&s)?.rels.remove(&n);
            if c {
                self.cascade();
            }
            return Ok(());
        }
        if p.eats("create sequence") {
            return self.create_sequence(p);
        }
        if p.eats("drop sequence") {
            let (s, n) = p.qualified()?;
            let c = p.behaviour();
            match self.rel(&s, &n)? {
                Rel::Seq(_) => {}
                o => return err(WRONG_KIND, format!("{n:?} is a {}, not a sequence", o.kind())),
            }
            if !c {
                for (what, e) in self.exprs() {
                    if nextval_refs(&e).contains(&(s.clone(), n.clone())) {
                        return err(DEPENDENT, format!("cannot drop sequence {n:?}: {what} depends on it"));
                    }
                }
            }
            self.schema(&s)?.rels.remove(&n);
            if c {
                self.cascade();
            }
            return Ok(());
        }
        if p.is("create") && (p.is_at(1, "function") || (p.is_at(1, "or") && p.is_at(2, "replace") && p.is_at(3, "function"))) {
            return self.create_function(p);
        }
        if p.eats("drop function") {
            let (s, n) = p.qualified()?;
            let args = if p.op_is("(") { Some(p.parens()?) } else { None };
            let c = p.behaviour();
            let want = args.map(|a| identity(a, false)).transpose()?;
            let hits: Vec<String> = self
                .schema(&s)?
                .funcs
                .keys()
                .filter(|k| func_base(k) == n && want.as_ref().map(|w| identity(&key_args(k), true).as_ref() == Ok(w)).unwrap_or(true))
                .cloned()
                .collect();
            match hits.len() {
                0 => return err(UNDEFINED_FUNCTION, format!("function {n:?}({}) does not exist", want.unwrap_or_default().join(", "))),
                1 => {}
                _ => return err("42725", format!("function name {n:?} is not unique")),
            }
            if !c {
                for (what, e) in self.exprs() {
                    if func_refs(&e).contains(&(s.clone(), n.clone())) {
                        return err(DEPENDENT, format!("cannot drop function {n:?}: {what} depends on it"));
                    }
                }
            }
            self.schema(&s)?.funcs.remove(&hits[0]);
            if c {
                self.cascade();
            }
            return Ok(());
        }
        p.fail()
    }

    fn column_def(&mut self, p: &mut P) -> R<Col> {
        let name = p.ident()?;
        let ty = p.until(&|p, _| {
            p.is("not") || p.is("null") || p.is("default") || p.op_is(",") || p.op_is(")") || p.is("constraint") || p.is("primary") || p.is("check") || p.is("references") || p.is("unique")
        });
        if ty.is_empty() {
            return p.fail();
        }
        type_ok(ty)?;
        let mut c = Col { name, ty: raw(ty), ..Default::default() };
        let mut nullness = None;
        loop {
            if p.eats("not null") {
                if nullness == Some(false) {
                    return err(SYNTAX, "conflicting NULL/NOT NULL declarations");
                }
                nullness = Some(true);
            } else if p.eat("null") {
                if nullness == Some(true) {
                    return err(SYNTAX, "conflicting NULL/NOT NULL declarations");
                }
                nullness = Some(false);
            } else if p.is("default") {
                p.i += 1;
                if c.default.is_some() {
                    return err(SYNTAX, "multiple default values specified");
                }
                c.default = Some(self.default_expr(p)?);
            } else {
                break;
            }
        }
        c.not_null = nullness == Some(true);
        Ok(c)
    }

    fn default_expr(&mut self, p: &mut P) -> R<String> {
        let e = p.until(&|p, n| {
            p.op_is(",") || p.op_is(")") || n > 0 && (p.is("not") && p.is_at(1, "null") || p.is("null") && !matches!(p.t[p.i - 1], Tok::Op(_)) || p.is("default"))
        });
        if e.is_empty() {
            return p.fail();
        }
        let e = raw(e);
        self.expr_deps(&e)?;
        Ok(e)
    }

    fn create_table(&mut self, p: &mut P) -> R<()> {
        let (s, t) = p.qualified()?;
        let inner = p.parens()?;
        self.free(&s, &t)?;
        let mut tb = Table::default();
        for d in split_top(inner) {
            let mut q = P { t: d, i: 0 };
            let c = self.column_def(&mut q)?;
            q.end()?;
            if tb.col(&c.name).is_some() {
                return err(DUP_COLUMN, format!("column {:?} specified more than once", c.name));
            }
            tb.cols.push(c);
        }
        self.schema(&s)?.rels.insert(t, Rel::Table(tb));
        Ok(())
    }

    fn rename_column(&mut self, s: &str, t: &str, a: &str, b: &str) -> R<()> {
        self.col(s, t, a)?;
        if self.table(s, t)?.col(b).is_some() {
            return err(DUP_COLUMN, format!("column {b:?} of relation {t:?} already exists"));
        }
        self.col(s, t, a)?.name = b.to_string();
        let ren = |v: &mut Vec<String>| {
            for x in v.iter_mut() {
                if x == a {
                    *x = b.to_string();
                }
            }
        };
        let ren_expr = |e: &mut String| {
            let mut t = lex(e).unwrap_or_default();
            for x in t.iter_mut() {
                if x.ident() == Some(a) && column_refs(&raw(&[x.clone()])).len() == 1 {
                    *x = Tok::Quoted(b.to_string());
                }
            }
            *e = raw(&t);
        };
        for (x, y) in self.db.tables() {
            let own = x == s && y == t;
            for c in self.db.table_mut(&x, &y).unwrap().cons.values_mut() {
                match c {
                    Con::Pk(k) | Con::Unique(k) if own => ren(&mut k.cols),
                    Con::Check(k) if own => ren_expr(&mut k.expr),
                    Con::Fk(f) => {
                        if own {
                            ren(&mut f.cols);
                        }
                        if f.tschema == s && f.ttable == t {
                            ren(&mut f.tcols);
                        }
                    }
                    _ => {}
                }
            }
        }
        for (sn, sc) in self.db.schemas.iter_mut() {
            for r in sc.rels.values_mut() {
                match r {
                    Rel::Index(i) if sn == s && i.table == t => {
                        for k in i.keys.iter_mut() {
                            ren_expr(k);
                        }
                    }
                    Rel::View(v) if view_refs(&v.query).iter().any(|((x, y), _)| x == s && y == t) => ren_expr(&mut v.query),
                    _ => {}
                }
            }
        }
        Ok(())
    }

    fn alter_action(&mut self, p: &mut P, s: &str, t: &str) -> R<()> {
        if p.eats("add constraint") {
            return self.add_constraint(p, s, t);
        }
        if p.eats("drop constraint") {
            let n = p.ident()?;
            let c = p.behaviour();
            let old = match self.table(s, t)?.cons.get(&n) {
                Some(c) => c.clone(),
                None => return err(UNDEFINED_OBJECT, format!("constraint {n:?} of relation {t:?} does not exist")),
            };
            if old.key().is_some() && !c {
                for f in self.fks_to(s, t) {
                    if !self.has_key(s, t, &f.3.tcols, Some(&n)) {
                        return err(DEPENDENT, format!("cannot drop constraint {n:?}: constraint {:?} on table {:?} depends on it", f.2, f.1));
                    }
                }
            }
            self.table(s, t)?.cons.remove(&n);
            if c {
                self.cascade();
            }
            return Ok(());
        }
        if p.eats("alter constraint") {
            let n = p.ident()?;
            let (d, i) = p.deferral()?;
            return match self.table(s, t)?.cons.get_mut(&n) {
                None => err(UNDEFINED_OBJECT, format!("constraint {n:?} of relation {t:?} does not exist")),
                Some(Con::Fk(f)) => {
                    f.deferrable = d;
                    f.deferred = i;
                    Ok(())
                }
                Some(_) => err(WRONG_KIND, format!("constraint {n:?} of relation {t:?} is not a foreign key constraint")),
            };
        }
        if p.eat("add") {
            p.eat("column");
            let c = self.column_def(p)?;
            let tb = self.table(s, t)?;
            if tb.col(&c.name).is_some() {
                return err(DUP_COLUMN, format!("column {:?} of relation {t:?} already exists", c.name));
            }
            tb.cols.push(c);
            return Ok(());
        }
        if p.eat("drop") {
            p.eat("column");
            let c = p.ident()?;
            let casc = p.behaviour();
            self.col(s, t, &c)?;
            if !casc {
                if let Some(v) = self.views_on(s, t, Some(&c)) {
                    return err(DEPENDENT, format!("cannot drop column {c:?}: view {v} depends on it"));
                }
                for f in self.fks_to(s, t) {
                    if f.3.tcols.contains(&c) && (f.0 != s || f.1 != t) {
                        return err(DEPENDENT, format!("cannot drop column {c:?}: constraint {:?} on table {:?} depends on it", f.2, f.1));
                    }
                }
            }
            let tb = self.table(s, t)?;
            tb.cols.retain(|x| x.name != c);
            tb.cons.retain(|_, k| match k {
                Con::Pk(k) | Con::Unique(k) => !k.cols.contains(&c),
                Con::Check(k) => !column_refs(&k.expr).contains(&c),
                Con::Fk(f) => !f.cols.contains(&c) && !(f.tschema == s && f.ttable == t && f.tcols.contains(&c)),
            });
            let tn = t.to_string();
            self.schema(s)?.rels.retain(|_, r| !matches!(r, Rel::Index(i) if i.table == tn && i.keys.iter().any(|k| column_refs(k).contains(&c))));
            if casc {
                self.cascade();
            }
            return Ok(());
        }
        if p.eat("alter") {
            p.eat("column");
            let c = p.ident()?;
            self.col(s, t, &c)?;
            if p.eats("set not null") {
                self.col(s, t, &c)?.not_null = true;
            } else if p.eats("drop not null") {
                if self.table(s, t)?.cons.values().any(|k| matches!(k, Con::Pk(k) if k.cols.contains(&c))) {
                    return err(BAD_TABLE, format!("column {c:?} is in a primary key"));
                }
                self.col(s, t, &c)?.not_null = false;
            } else if p.eats("drop default") {
                self.col(s, t, &c)?.default = None;
            } else if p.eats("set default") {
                let e = self.default_expr(p)?;
                self.col(s, t, &c)?.default = Some(e);
            } else if p.eats("set data type") || p.eat("type") {
                let ty = p.until(&|p, _| p.op_is(",") || p.is("using") || p.is("collate"));
                type_ok(ty)?;
                if let Some(v) = self.views_on(s, t, Some(&c)) {
                    return err(FEATURE, format!("cannot alter type of a column used by a view or rule: {v}"));
                }
                self.col(s, t, &c)?.ty = raw(ty);
            } else {
                return p.fail();
            }
            return Ok(());
        }
        p.fail()
    }

    fn own_columns(&mut self, s: &str, t: &str, cols: &[String]) -> R<()> {
        let mut seen = BTreeSet::new();
        for c in cols {
            if self.table(s, t)?.col(c).is_none() {
                return err(UNDEFINED_COLUMN, format!("column {c:?} of {t:?} named in a key does not exist"));
            }
            if !seen.insert(c) {
                return err(DUP_COLUMN, format!("column {c:?} appears twice in a constraint"));
            }
        }
        Ok(())
    }

    fn add_constraint(&mut self, p: &mut P, s: &str, t: &str) -> R<()> {
        let n = p.ident()?;
        if self.table(s, t)?.cons.contains_key(&n) {
            return err(DUP_OBJECT, format!("constraint {n:?} for relation {t:?} already exists"));
        }
        let con = if p.eats("primary key") {
            let cols = p.names()?;
            let (deferrable, deferred) = p.deferral()?;
            self.own_columns(s, t, &cols)?;
            if self.table(s, t)?.cons.values().any(|c| matches!(c, Con::Pk(_))) {
                return err(BAD_TABLE, format!("multiple primary keys for table {t:?} are not allowed"));
            }
            self.free(s, &n)?;
            for c in &cols {
                self.col(s, t, c)?.not_null = true;
            }
            Con::Pk(Key { cols, deferrable, deferred })
        } else if p.eat("unique") {
            let cols = p.names()?;
            let (deferrable, deferred) = p.deferral()?;
            self.own_columns(s, t, &cols)?;
            self.free(s, &n)?;
            Con::Unique(Key { cols, deferrable, deferred })
        } else if p.eat("check") {
            let e = p.parens()?;
            if e.is_empty() {
                return err(SYNTAX, "syntax error at or near \")\"");
            }
            let expr = raw(e);
            let (d, _) = p.deferral()?;
            if d {
                return err(FEATURE, "CHECK constraints cannot be marked DEFERRABLE");
            }
            for c in column_refs(&expr) {
                if self.table(s, t)?.col(&c).is_none() {
                    return err(UNDEFINED_COLUMN, format!("column {c:?} does not exist"));
                }
            }
            self.expr_deps(&expr)?;
            Con::Check(CheckCon { expr, deferrable: false, deferred: false })
        } else if p.eats("foreign key") {
            let cols = p.names()?;
            p.word("references")?;
            let (tschema, ttable) = p.qualified()?;
            let tcols = p.names()?;
            let (mut mat, mut upd, mut del) = ("SIMPLE".to_string(), "NO ACTION".to_string(), "NO ACTION".to_string());
            if p.eat("match") {
                mat = p.ident()?.to_uppercase();
                match mat.as_str() {
                    "SIMPLE" | "FULL" => {}
                    "PARTIAL" => return err(FEATURE, "MATCH PARTIAL not yet implemented"),
                    _ => return err(SYNTAX, format!("syntax error at or near {mat:?}")),
                }
            }
            let (mut u, mut d) = (false, false);
            while p.is("on") {
                p.i += 1;
                let update = if p.eat("update") {
                    true
                } else if p.eat("delete") {
                    false
                } else {
                    return p.fail();
                };
                let rule = ["no action", "cascade", "restrict", "set null", "set default"].iter().find(|r| p.eats(r));
                let rule = match rule {
                    Some(r) => r.to_uppercase(),
                    None => return p.fail(),
                };
                if std::mem::replace(if update { &mut u } else { &mut d }, true) {
                    return p.fail();
                }
                *(if update { &mut upd } else { &mut del }) = rule;
            }
            let (deferrable, deferred) = p.deferral()?;
            self.own_columns(s, t, &cols)?;
            self.table(&tschema, &ttable)?;
            if cols.len() != tcols.len() {
                return err(BAD_FK, "number of referencing and referenced columns for foreign key disagree");
            }
            self.own_columns(&tschema, &ttable, &tcols)?;
            if !self.has_key(&tschema, &ttable, &tcols, None) {
                return err(BAD_FK, format!("there is no unique constraint matching given keys for referenced table {ttable:?}"));
            }
            Con::Fk(Fk { cols, tschema, ttable, tcols, mat, upd, del, deferrable, deferred })
        } else {
            return p.fail();
        };
        self.table(s, t)?.cons.insert(n, con);
        Ok(())
    }

    fn create_index(&mut self, p: &mut P) -> R<()> {
        p.word("create")?;
        let unique = p.eat("unique");
        p.word("index")?;
        let n = p.ident()?;
        p.word("on")?;
        let (s, t) = p.qualified()?;
        let method = if p.eat("using") { p.ident()? } else { "btree".into() };
        let inner = p.parens()?;
        self.table(&s, &t)?;
        if !["btree", "hash", "gin", "gist", "brin", "spgist"].contains(&method.as_str()) {
            return err(UNDEFINED_OBJECT, format!("access method {method:?} does not exist"));
        }
        let parts = split_top(inner);
        if parts.is_empty() || parts.iter().any(|k| k.is_empty()) {
            return err(SYNTAX, "syntax error in index keys");
        }
        if unique && method != "btree" {
            return err(FEATURE, format!("access method {method:?} does not support unique indexes"));
        }
        if method == "hash" && parts.len() > 1 {
            return err(FEATURE, "access method \"hash\" does not support multicolumn indexes");
        }
        let mut keys = vec![];
        for k in parts {
            if method != "btree" && k.iter().any(|t| t.is_word("desc") || t.is_word("asc") || t.is_word("nulls")) {
                return err(FEATURE, format!("access method {method:?} does not support ASC/DESC options"));
            }
            let e = raw(k);
            for c in column_refs(&e) {
                if self.table(&s, &t)?.col(&c).is_none() {
                    return err(UNDEFINED_COLUMN, format!("column {c:?} does not exist"));
                }
            }
            keys.push(e);
        }
        self.free(&s, &n)?;
        self.schema(&s)?.rels.insert(n, Rel::Index(Index { table: t, unique, method, keys }));
        Ok(())
    }

    fn create_sequence(&mut self, p: &mut P) -> R<()> {
        let (s, n) = p.qualified()?;
        let (mut ty, mut inc, mut min, mut max, mut start, mut cache, mut cycle) = (None, None, None, None, None, None, None);
        while p.peek().is_some() {
            let dup = if p.eat("as") {
                ty.replace(p.ident()?).is_some()
            } else if p.eat("increment") {
                p.eat("by");
                inc.replace(p.bigint()?).is_some()
            } else if p.eat("minvalue") {
                min.replace(p.bigint()?).is_some()
            } else if p.eats("no minvalue") || p.eats("no maxvalue") {
                false
            } else if p.eat("maxvalue") {
                max.replace(p.bigint()?).is_some()
            } else if p.eat("start") {
                p.eat("with");
                start.replace(p.bigint()?).is_some()
            } else if p.eat("cache") {
                cache.replace(p.bigint()?).is_some()
            } else if p.eats("no cycle") {
                cycle.replace(false).is_some()
            } else if p.eat("cycle") {
                cycle.replace(true).is_some()
            } else {
                return p.fail();
            };
            if dup {
                return err(SYNTAX, "conflicting or redundant options");
            }
        }
        let ty = ty.unwrap_or("bigint".into());
        let (lo, hi) = match seq_bounds(&ty) {
            Some(b) => b,
            None => return err(BAD_PARAM, "sequence type must be smallint, integer, or bigint"),
        };
        let inc = inc.unwrap_or(1);
        if inc == 0 {
            return err(BAD_PARAM, "INCREMENT must not be zero");
        }
        let d = seq_default(&ty, inc);
        let (min, max) = (min.unwrap_or(d.min), max.unwrap_or(d.max));
        if min < lo || max > hi {
            return err(BAD_PARAM, format!("MINVALUE or MAXVALUE is out of range for sequence data type {ty}"));
        }
        if min >= max {
            return err(BAD_PARAM, format!("MINVALUE ({min}) must be less than MAXVALUE ({max})"));
        }
        let start = start.unwrap_or(if inc > 0 { min } else { max });
        if start < min || start > max {
            return err(BAD_PARAM, format!("START value ({start}) is out of range"));
        }
        let cache = cache.unwrap_or(1);
        if cache <= 0 {
            return err(BAD_PARAM, format!("CACHE ({cache}) must be greater than zero"));
        }
        self.free(&s, &n)?;
        self.schema(&s)?.rels.insert(n, Rel::Seq(Seq { ty, inc, min, max, start, cache, cycle: cycle.unwrap_or(false), owned: None }));
        Ok(())
    }

    fn create_function(&mut self, p: &mut P) -> R<()> {
        p.word("create")?;
        let replace = p.eats("or replace");
        p.word("function")?;
        let (s, n) = p.qualified()?;
        let args = p.parens()?;
        let id = identity(args, true)?;
        p.word("returns")?;
        let ret = p.until(&|p, n| {
            n > 0 && (p.is("language") || p.is("as") || p.is("volatile") || p.is("stable") || p.is("immutable"))
        });
        let returns = raw(ret);
        if ret.is_empty() {
            return p.fail();
        }
        let (mut lang, mut vol, mut body) = (None, None, None);
        while p.peek().is_some() {
            if p.eat("language") {
                lang = Some(match p.next()? {
                    Tok::Word(w) => w.clone(),
                    Tok::Quoted(q) => quote_ident(q),
                    Tok::Str(q) => quote_ident(q),
                    _ => return err(SYNTAX, "syntax error after LANGUAGE"),
                });
            } else if p.is("volatile") || p.is("stable") || p.is("immutable") {
                if vol.is_some() {
                    return err(SYNTAX, "conflicting or redundant options");
                }
                vol = Some(p.next()?.text().to_uppercase());
            } else if p.eat("as") {
                body = Some(match p.next()? {
                    Tok::Str(b) => b.clone(),
                    _ => return err(SYNTAX, "syntax error after AS"),
                });
            } else {
                return p.fail();
            }
        }
        let body = match body {
            Some(b) => b,
            None => return err("42P13", "no function body specified"),
        };
        let lang = lang.unwrap_or("sql".into());
        let sc = self.schema(&s)?;
        let same: Vec<String> =
            sc.funcs.keys().filter(|k| func_base(k) == n && identity(&key_args(k), true).as_ref() == Ok(&id)).cloned().collect();
        if !same.is_empty() && !replace {
            return err(DUP_FUNCTION, format!("function {n:?} already exists with same argument types"));
        }
        for k in same {
            sc.funcs.remove(&k);
        }
        let key = format!("{n}({})", raw(args));
        sc.funcs.insert(key, Func { body, lang, returns, vol: vol.unwrap_or("VOLATILE".into()) });
        Ok(())
    }
}

fn type_ok(t: &[Tok]) -> R<()> {
    if t.is_empty() {
        return err(SYNTAX, "syntax error: type expected");
    }
    let mut d = 0i32;
    for x in t {
        match x {
            Tok::Op(o) if o == "(" || o == "[" => d += 1,
            Tok::Op(o) if o == ")" || o == "]" => d -= 1,
            Tok::Op(o) if o == "." || (o == "," || o == "-") && d > 0 => {}
            Tok::Op(o) => return err(SYNTAX, format!("syntax error at or near {o:?}")),
            Tok::Str(_) => return err(SYNTAX, "syntax error: string in a type"),
            Tok::Num(n) if d == 0 => return err(SYNTAX, format!("syntax error at or near {n:?}")),
            Tok::Word(w) if is_reserved(w) && !["with", "to", "array"].contains(&w.as_str()) => {
                return err(SYNTAX, format!("syntax error at or near {w:?}"))
            }
            _ => {}
        }
        if d < 0 {
            return err(SYNTAX, "syntax error at or near \")\"");
        }
    }
    Ok(())
}
