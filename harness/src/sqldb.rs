//! A small SQL database: executes queries and row changes by PostgreSQL's rules, and hands the
//! statements that define objects to the model of PostgreSQL's DDL.
use crate::catalog::Catalog;
use crate::ddl::*;
use crate::pbt::mix;
use crate::query::*;
use crate::sqltext::*;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;

pub type Ty = u32;
pub const BOOL: Ty = 16;
pub const CHAR: Ty = 18;
pub const NAME: Ty = 19;
pub const INT8: Ty = 20;
pub const INT2: Ty = 21;
pub const INT2VECTOR: Ty = 22;
pub const INT4: Ty = 23;
pub const REGPROC: Ty = 24;
pub const TEXT: Ty = 25;
pub const OID: Ty = 26;
pub const OIDVECTOR: Ty = 30;
pub const JSON: Ty = 114;
pub const NODE_TREE: Ty = 194;
pub const UNKNOWN: Ty = 705;
pub const BPCHAR: Ty = 1042;
pub const VARCHAR: Ty = 1043;
pub const TIMESTAMP: Ty = 1114;
pub const TIMESTAMPTZ: Ty = 1184;
pub const REGCLASS: Ty = 2205;
pub const REGTYPE: Ty = 2206;
pub const CSTRING: Ty = 2275;
pub const RECORD: Ty = 2249;
pub const REGNAMESPACE: Ty = 4089;
pub const JSONB: Ty = 3802;
pub const UUID: Ty = 2950;
pub const FLOAT8: Ty = 701;

const ARRAYS: &[(Ty, Ty)] = &[
    (BOOL, 1000), (CHAR, 1002), (NAME, 1003), (INT2, 1005), (INT4, 1007), (TEXT, 1009), (VARCHAR, 1015), (INT8, 1016), (OID, 1028), (JSON, 199),
    (CSTRING, 1263), (REGCLASS, 2210), (TIMESTAMP, 1115), (BPCHAR, 1014), (JSONB, 3807),
];
pub fn array_of(t: Ty) -> Ty {
    let t = if t == UNKNOWN { TEXT } else { t };
    ARRAYS.iter().find(|(e, _)| *e == t).map(|x| x.1).unwrap_or(1009)
}
pub fn elem_of(t: Ty) -> Option<Ty> {
    match t {
        INT2VECTOR => Some(INT2),
        OIDVECTOR => Some(OID),
        _ => ARRAYS.iter().find(|(_, a)| *a == t).map(|x| x.0),
    }
}
pub fn is_text(t: Ty) -> bool {
    matches!(t, TEXT | VARCHAR | NAME | CHAR | UNKNOWN | CSTRING | BPCHAR | NODE_TREE)
}
pub fn is_int(t: Ty) -> bool {
    matches!(t, INT2 | INT4 | INT8 | OID | REGCLASS | REGTYPE | REGPROC | REGNAMESPACE)
}

#[derive(Clone, Debug, PartialEq, PartialOrd)]
pub enum V {
    Null,
    Bool(bool),
    Int(i64),
    Text(String),
    Arr(Vec<V>),
}
impl V {
    pub fn t(s: &str) -> V {
        V::Text(s.to_string())
    }
    pub fn is_null(&self) -> bool {
        *self == V::Null
    }
}

pub fn type_by_name(t: &str) -> Option<Ty> {
    if let Some(e) = t.strip_suffix("[]") {
        return type_by_name(e).map(array_of);
    }
    let base = t.split('(').next().unwrap().trim();
    Some(match base {
        "bool" | "boolean" => BOOL,
        "\"char\"" => CHAR,
        "name" => NAME,
        "int8" | "bigint" | "bigserial" | "serial8" => INT8,
        "int2" | "smallint" | "smallserial" => INT2,
        "int4" | "int" | "integer" | "serial" | "serial4" => INT4,
        "int2vector" => INT2VECTOR,
        "text" => TEXT,
        "oid" => OID,
        "json" => JSON,
        "jsonb" => JSONB,
        "varchar" => VARCHAR,
        "bpchar" => BPCHAR,
        "timestamp" => TIMESTAMP,
        "timestamptz" => TIMESTAMPTZ,
        "regclass" => REGCLASS,
        "regtype" => REGTYPE,
        "regproc" => REGPROC,
        "regnamespace" => REGNAMESPACE,
        "cstring" => CSTRING,
        "pg_node_tree" => NODE_TREE,
        "information_schema.character_data" | "information_schema.sql_identifier" | "information_schema.yes_or_no" => VARCHAR,
        "information_schema.cardinal_number" => INT4,
        _ => return None,
    })
}
fn type_label(t: &str) -> String {
    t.split('(').next().unwrap().trim_end_matches("[]").trim_matches('"').rsplit('.').next().unwrap().to_string()
}

pub type Cols = Rc<Vec<(String, Ty)>>;
type Row = Rc<Vec<V>>;

#[derive(Clone, Debug)]
pub struct Rel {
    pub alias: String,
    pub cols: Cols,
}

#[derive(Clone, Debug, PartialEq)]
pub struct RawTable {
    pub cols: Vec<ColDef>,
    pub types: Vec<Ty>,
    pub keys: Vec<Vec<usize>>,
    /// column, referenced table and column
    pub refs: Vec<(usize, (String, String), usize)>,
    pub rows: Vec<Vec<V>>,
    pub id: u64,
}

#[derive(Clone, Debug, Default)]
pub struct Engine {
    pub pg: Pg,
    pub raw: BTreeMap<(String, String), RawTable>,
    /// counters of serial columns, which no rollback turns back
    pub serials: BTreeMap<(u64, usize), i64>,
    pub next_id: u64,
    pub seed: u64,
    pub clock: i64,
    /// objects the DDL model has no statements for; they show in the catalogue only
    pub extras: crate::catalog::Extras,
}

#[derive(Clone, Debug)]
pub struct Prepared {
    pub sql: String,
    pub stmt: Option<Stmt>,
    pub params: Vec<Ty>,
    pub cols: Option<Vec<(String, Ty)>>,
}

#[derive(Debug, Clone)]
pub struct Done {
    pub tag: String,
    pub rows: Vec<Vec<V>>,
}

struct Scope<'a> {
    rels: Vec<Rel>,
    parent: Option<&'a Scope<'a>>,
}

struct Env<'a> {
    rels: &'a [Rel],
    row: &'a [Row],
    parent: Option<&'a Env<'a>>,
    group: Option<&'a [Vec<Row>]>,
}

type Ctes = Vec<(String, Cols, Vec<Row>)>;

/// Execution of one statement.
struct Ex<'e> {
    e: &'e Engine,
    cat: RefCell<Option<Rc<Catalog>>>,
    params: Vec<V>,
    ptypes: RefCell<Vec<Option<Ty>>>,
    shuffle: Cell<u64>,
    ctes: RefCell<Ctes>,
    cte_types: RefCell<Vec<(String, Cols)>>,
}

fn unsupported<T>(what: &str) -> R<T> {
    err(FEATURE, format!("not supported by this server: {what}"))
}
const AGGS: &[&str] = &["array_agg", "string_agg", "count", "min", "max", "sum", "bool_or", "bool_and", "every"];

impl Engine {
    pub fn new(db: &crate::model::Db) -> Engine {
        Engine { pg: Pg::of(db), seed: 1, ..Default::default() }
    }

    pub fn prepare(&self, sql: &str) -> R<Prepared> {
        let v = statements(sql)?;
        if v.len() > 1 {
            return err(SYNTAX, "cannot insert multiple commands into a prepared statement");
        }
        if v.is_empty() {
            return Ok(Prepared { sql: sql.into(), stmt: None, params: vec![], cols: None });
        }
        let first = v[0][0].text();
        let stmt = match parse(&v[0]) {
            Ok(s) => s,
            // what this parser does not read may still be a definition
            Err(e) => {
                if first == "create" || first == "drop" {
                    Stmt::Other
                } else {
                    return Err(e);
                }
            }
        };
        let ex = Ex::new(self, vec![]);
        let cols = match &stmt {
            Stmt::Select(q) => Some(ex.type_query(q, None)?),
            Stmt::Insert { table, cols, src, returning, .. } => {
                let (k, t) = self.raw_table(table)?;
                let idx = t.positions(cols)?;
                if src.values.is_empty() {
                    if src.union.is_none() && !src.distinct {
                        // parameters that stand alone take the types of the columns
                        let none = Scope { rels: vec![], parent: None };
                        for ((x, _), i) in src.items.iter().zip(&idx) {
                            if matches!(x, Expr::Param(_)) {
                                ex.infer(x, &none, Some(t.types[*i]))?;
                            }
                        }
                    }
                    ex.type_query(src, None)?;
                }
                for row in &src.values {
                    if row.len() > idx.len() {
                        return err(SYNTAX, "INSERT has more expressions than target columns");
                    }
                    if !cols.is_empty() && row.len() < cols.len() {
                        return err(SYNTAX, "INSERT has more target columns than expressions");
                    }
                    let sc = Scope { rels: vec![], parent: None };
                    for (x, i) in row.iter().zip(&idx) {
                        if matches!(x, Expr::Col(n) if n[0] == "?default") {
                            continue;
                        }
                        let ty = ex.infer(x, &sc, Some(t.types[*i]))?;
                        assignable(ty, t.types[*i], &t.cols[*i].name)?;
                    }
                }
                ex.type_returning(returning, &k.1, t)?
            }
            Stmt::Delete { table, alias, wher, returning } => {
                let (k, t) = self.raw_table(table)?;
                let sc = Scope { rels: vec![t.rel(alias.as_deref().unwrap_or(&k.1))], parent: None };
                if let Some(w) = wher {
                    ex.bool_type(w, &sc)?;
                }
                ex.type_returning(returning, alias.as_deref().unwrap_or(&k.1), t)?
            }
            Stmt::Update { table, alias, set, wher, returning } => {
                let (k, t) = self.raw_table(table)?;
                let sc = Scope { rels: vec![t.rel(alias.as_deref().unwrap_or(&k.1))], parent: None };
                for (c, x) in set {
                    let i = t.position(c)?;
                    let ty = ex.infer(x, &sc, Some(t.types[i]))?;
                    assignable(ty, t.types[i], c)?;
                }
                if let Some(w) = wher {
                    ex.bool_type(w, &sc)?;
                }
                ex.type_returning(returning, alias.as_deref().unwrap_or(&k.1), t)?
            }
            Stmt::Show(n) => Some(vec![(n.clone(), TEXT)]),
            _ => None,
        };
        let params = ex.ptypes.borrow().iter().map(|t| t.unwrap_or(TEXT)).collect();
        Ok(Prepared { sql: sql.into(), stmt: Some(stmt), params, cols })
    }

    pub fn raw_name(&self, n: &[String]) -> (String, String) {
        match n.len() {
            1 => ("public".into(), n[0].clone()),
            _ => (n[n.len() - 2].clone(), n[n.len() - 1].clone()),
        }
    }
    fn raw_table(&self, n: &[String]) -> R<((String, String), &RawTable)> {
        let k = self.raw_name(n);
        match self.raw.get(&k) {
            Some(t) => Ok((k, t)),
            None if !self.pg.db.schemas.contains_key(&k.0) => err(UNDEFINED_TABLE, format!("relation \"{}.{}\" does not exist", k.0, k.1)),
            None if self.pg.db.table(&k.0, &k.1).is_some() => unsupported("rows of this table"),
            None => err(UNDEFINED_TABLE, format!("relation \"{}.{}\" does not exist", k.0, k.1)),
        }
    }

    pub fn execute(&mut self, p: &Prepared, params: Vec<V>) -> R<Done> {
        let done = |tag: String, rows: Vec<Vec<V>>| Ok(Done { tag, rows });
        let stmt = match &p.stmt {
            None => return done("".into(), vec![]),
            Some(s) => s.clone(),
        };
        match stmt {
            Stmt::Select(q) => {
                let ex = Ex::new(self, params);
                let (_, rows) = ex.query(&q, None)?;
                let rows: Vec<Vec<V>> = rows.iter().map(|r| r.to_vec()).collect();
                done(format!("SELECT {}", rows.len()), rows)
            }
            Stmt::Show(n) => done("SHOW".into(), vec![vec![V::Text(n)]]),
            Stmt::Insert { table, cols, src, on_conflict_nothing, returning } => {
                let (k, t) = self.raw_table(&table)?;
                let t = t.clone();
                let idx = t.positions(&cols)?;
                let mut rows = vec![];
                {
                    let ex = Ex::new(self, params.clone());
                    if src.values.is_empty() {
                        let (_, rs) = ex.query(&src, None)?;
                        for r in rs {
                            let mut v: Vec<Option<V>> = vec![None; t.cols.len()];
                            for (x, i) in r.iter().zip(&idx) {
                                v[*i] = Some(x.clone());
                            }
                            rows.push(v);
                        }
                    }
                    let env = Env { rels: &[], row: &[], parent: None, group: None };
                    for row in &src.values {
                        let mut v: Vec<Option<V>> = vec![None; t.cols.len()];
                        for (x, i) in row.iter().zip(&idx) {
                            if !matches!(x, Expr::Col(n) if n[0] == "?default") {
                                v[*i] = Some(ex.eval(x, &env)?);
                            }
                        }
                        rows.push(v);
                    }
                }
                let mut inserted = vec![];
                for v in rows {
                    let mut full = vec![];
                    for (i, x) in v.into_iter().enumerate() {
                        let x = match x {
                            Some(x) => x,
                            None if t.cols[i].ty.to_lowercase().contains("serial") => {
                                let c = self.serials.entry((t.id, i)).or_insert(0);
                                *c += 1;
                                V::Int(*c)
                            }
                            None => match &t.cols[i].default {
                                Some(d) => {
                                    let ex = Ex::new(self, vec![]);
                                    ex.eval(d, &Env { rels: &[], row: &[], parent: None, group: None })?
                                }
                                None => V::Null,
                            },
                        };
                        full.push(store(x, t.types[i], &t.cols[i])?);
                    }
                    match self.check_row(&k, &full, None) {
                        Ok(()) => {
                            self.raw.get_mut(&k).unwrap().rows.push(full.clone());
                            inserted.push(full);
                        }
                        Err(e) if e.code == "23505" && on_conflict_nothing => {}
                        Err(e) => return Err(e),
                    }
                }
                let out = self.returning(&returning, &k.1, &t, &inserted, &params)?;
                done(format!("INSERT 0 {}", inserted.len()), out)
            }
            Stmt::Delete { table, alias, wher, returning } => {
                let (k, t) = self.raw_table(&table)?;
                let t = t.clone();
                let a = alias.unwrap_or(k.1.clone());
                let hit = self.matching(&t, &a, &wher, &params)?;
                let gone: Vec<Vec<V>> = t.rows.iter().zip(&hit).filter(|(_, h)| **h).map(|(r, _)| r.clone()).collect();
                let keep: Vec<Vec<V>> = t.rows.iter().zip(&hit).filter(|(_, h)| !**h).map(|(r, _)| r.clone()).collect();
                self.raw.get_mut(&k).unwrap().rows = keep;
                self.check_refs_to(&k)?;
                let out = self.returning(&returning, &a, &t, &gone, &params)?;
                done(format!("DELETE {}", gone.len()), out)
            }
            Stmt::Update { table, alias, set, wher, returning } => {
                let (k, t) = self.raw_table(&table)?;
                let t = t.clone();
                let a = alias.unwrap_or(k.1.clone());
                let hit = self.matching(&t, &a, &wher, &params)?;
                let rel = [t.rel(&a)];
                let mut changed = vec![];
                let mut rows = t.rows.clone();
                for (i, r) in rows.iter_mut().enumerate() {
                    if !hit[i] {
                        continue;
                    }
                    let old = [Rc::new(r.clone())];
                    let ex = Ex::new(self, params.clone());
                    let env = Env { rels: &rel, row: &old, parent: None, group: None };
                    for (c, x) in &set {
                        let j = t.position(c)?;
                        r[j] = store(ex.eval(x, &env)?, t.types[j], &t.cols[j])?;
                    }
                    changed.push(r.clone());
                }
                self.raw.get_mut(&k).unwrap().rows = vec![];
                for r in rows {
                    self.check_row(&k, &r, None)?;
                    self.raw.get_mut(&k).unwrap().rows.push(r);
                }
                self.check_refs_to(&k)?;
                let out = self.returning(&returning, &a, &t, &changed, &params)?;
                done(format!("UPDATE {}", changed.len()), out)
            }
            Stmt::CreateSchema { name, if_not_exists } => {
                if if_not_exists && self.pg.db.schemas.contains_key(&name) {
                    return done("CREATE SCHEMA".into(), vec![]);
                }
                self.ddl(&p.sql.to_string(), Some(&name))?;
                done("CREATE SCHEMA".into(), vec![])
            }
            Stmt::CreateTable { table, if_not_exists, cols, keys } => {
                let k = self.raw_name(&table);
                if self.exists(&k) {
                    if if_not_exists {
                        return done("CREATE TABLE".into(), vec![]);
                    }
                    return err(DUP_TABLE, format!("relation \"{}\" already exists", k.1));
                }
                // what the DDL model knows is an object of the database, with no rows of interest
                let ours = cols.iter().all(|c| !c.primary && !c.unique && c.refs.is_none() && !c.ty.contains("serial")) && !if_not_exists;
                if ours {
                    self.pg.exec(&p.sql)?;
                    return done("CREATE TABLE".into(), vec![]);
                }
                if !self.pg.db.schemas.contains_key(&k.0) {
                    return err(UNDEFINED_SCHEMA, format!("schema \"{}\" does not exist", k.0));
                }
                let mut types = vec![];
                for c in &cols {
                    match type_by_name(&c.ty) {
                        Some(t) => types.push(t),
                        None => return err(UNDEFINED_OBJECT, format!("type \"{}\" does not exist", c.ty)),
                    }
                }
                let mut t = RawTable { types, keys: vec![], refs: vec![], rows: vec![], id: self.next_id, cols };
                self.next_id += 1;
                for (v, primary) in keys {
                    let idx = t.positions(&v)?;
                    if primary {
                        for i in &idx {
                            t.cols[*i].not_null = true;
                        }
                    }
                    t.keys.push(idx);
                }
                for i in 0..t.cols.len() {
                    let c = &mut t.cols[i];
                    if c.ty.contains("serial") {
                        c.not_null = true;
                    }
                    if c.primary || c.unique {
                        t.keys.push(vec![i]);
                    }
                }
                for i in 0..t.cols.len() {
                    if let Some((n, c)) = t.cols[i].refs.clone() {
                        let rk = self.raw_name(&n);
                        let target = if rk == k { t.clone() } else { self.raw_table(&n)?.1.clone() };
                        let j = match c {
                            Some(c) => target.position(&c)?,
                            None => target.cols.iter().position(|c| c.primary).unwrap_or(0),
                        };
                        if !target.keys.contains(&vec![j]) {
                            return err(BAD_FK, "there is no unique constraint matching given keys for referenced table");
                        }
                        t.refs.push((i, rk, j));
                    }
                }
                self.raw.insert(k, t);
                done("CREATE TABLE".into(), vec![])
            }
            Stmt::DropTable { table, if_exists } => {
                let k = self.raw_name(&table);
                if self.raw.remove(&k).is_some() {
                    return done("DROP TABLE".into(), vec![]);
                }
                if if_exists && !self.exists(&k) {
                    return done("DROP TABLE".into(), vec![]);
                }
                if if_exists {
                    return unsupported("DROP TABLE IF EXISTS");
                }
                self.pg.exec(&p.sql)?;
                done("DROP TABLE".into(), vec![])
            }
            Stmt::Lock => done("LOCK TABLE".into(), vec![]),
            Stmt::Set => done("SET".into(), vec![]),
            Stmt::Other => {
                let toks = statements(&p.sql)?.remove(0);
                let w: Vec<String> = toks.iter().take(3).map(|t| t.text()).collect();
                if w.len() == 3 && w[0] == "drop" && w[1] == "schema" {
                    let n = toks[2].ident().unwrap_or("").to_string();
                    if self.raw.keys().any(|k| k.0 == n) {
                        return err(DEPENDENT, format!("cannot drop schema {n} because other objects depend on it"));
                    }
                }
                self.ddl(&p.sql, None)?;
                done(w[..w.len().min(2)].join(" ").to_uppercase(), vec![])
            }
            Stmt::Begin | Stmt::Commit | Stmt::Rollback | Stmt::Savepoint(_) | Stmt::Release(_) | Stmt::RollbackTo(_) => {
                unsupported("transaction control here")
            }
        }
    }

    fn ddl(&mut self, sql: &str, schema: Option<&str>) -> R<()> {
        match schema {
            Some(n) => self.pg.exec(&format!("CREATE SCHEMA {}", quote_ident(n))),
            None => self.pg.exec(sql),
        }
    }
    fn exists(&self, k: &(String, String)) -> bool {
        self.raw.contains_key(k) || self.pg.db.schemas.get(&k.0).map(|s| s.rels.contains_key(&k.1)).unwrap_or(false)
    }
    fn matching(&self, t: &RawTable, alias: &str, wher: &Option<Expr>, params: &[V]) -> R<Vec<bool>> {
        let ex = Ex::new(self, params.to_vec());
        let rel = [t.rel(alias)];
        let mut v = vec![];
        for r in &t.rows {
            let row = [Rc::new(r.clone())];
            v.push(match wher {
                None => true,
                Some(w) => ex.eval(w, &Env { rels: &rel, row: &row, parent: None, group: None })? == V::Bool(true),
            });
        }
        Ok(v)
    }
    fn returning(&self, items: &[(Expr, Option<String>)], alias: &str, t: &RawTable, rows: &[Vec<V>], params: &[V]) -> R<Vec<Vec<V>>> {
        if items.is_empty() {
            return Ok(vec![]);
        }
        let ex = Ex::new(self, params.to_vec());
        let rel = [t.rel(alias)];
        let mut out = vec![];
        for r in rows {
            let row = [Rc::new(r.clone())];
            let env = Env { rels: &rel, row: &row, parent: None, group: None };
            let mut v = vec![];
            for (x, _) in items {
                match x {
                    Expr::Star(_) => v.extend(r.iter().cloned()),
                    x => v.push(ex.eval(x, &env)?),
                }
            }
            out.push(v);
        }
        Ok(out)
    }
    fn check_row(&self, k: &(String, String), row: &[V], _skip: Option<usize>) -> R<()> {
        let t = &self.raw[k];
        for (i, c) in t.cols.iter().enumerate() {
            if c.not_null && row[i].is_null() {
                return err("23502", format!("null value in column \"{}\" violates not-null constraint", c.name));
            }
        }
        for key in &t.keys {
            if key.iter().any(|i| row[*i].is_null()) {
                continue;
            }
            if t.rows.iter().any(|r| key.iter().all(|i| r[*i] == row[*i])) {
                return err("23505", "duplicate key value violates unique constraint");
            }
        }
        for (i, rk, j) in &t.refs {
            if row[*i].is_null() {
                continue;
            }
            let target = &self.raw.get(rk).map(|t| &t.rows);
            let hit = target.map(|rows| rows.iter().any(|r| r[*j] == row[*i])).unwrap_or(false) || rk == k && row[*j] == row[*i];
            if !hit {
                return err("23503", "insert or update violates foreign key constraint");
            }
        }
        Ok(())
    }
    fn check_refs_to(&self, k: &(String, String)) -> R<()> {
        for t in self.raw.values() {
            for (i, rk, j) in &t.refs {
                if rk == k {
                    for r in &t.rows {
                        if !r[*i].is_null() && !self.raw[rk].rows.iter().any(|x| x[*j] == r[*i]) {
                            return err("23503", "update or delete violates foreign key constraint");
                        }
                    }
                }
            }
        }
        Ok(())
    }
}

fn assignable(from: Ty, to: Ty, col: &str) -> R<()> {
    let ok = from == to
        || from == UNKNOWN
        || is_text(from) && is_text(to)
        || is_int(from) && is_int(to)
        || elem_of(from).is_some() && elem_of(to).is_some()
        || from == TIMESTAMPTZ && to == TIMESTAMP;
    if ok {
        Ok(())
    } else {
        err("42804", format!("column \"{col}\" is of another type than the expression"))
    }
}

/// Puts a value into a column.
fn store(v: V, ty: Ty, c: &ColDef) -> R<V> {
    if let (V::Text(s), VARCHAR | BPCHAR) = (&v, ty) {
        if let Some(n) = c.ty.split_once('(').and_then(|(_, r)| r.trim_end_matches(')').parse::<usize>().ok()) {
            if s.chars().count() > n {
                return err("22001", format!("value too long for type character varying({n})"));
            }
        }
    }
    if let (V::Text(s), JSON | JSONB) = (&v, ty) {
        if serde_json::from_str::<serde_json::Value>(s).is_err() {
            return err("22P02", "invalid input syntax for type json");
        }
        if ty == JSONB {
            if s.contains("\\u0000") {
                return err("22P05", "unsupported Unicode escape sequence");
            }
            // jsonb keeps no order and no duplicates of keys
            return Ok(V::Text(serde_json::from_str::<serde_json::Value>(s).unwrap().to_string()));
        }
    }
    if let V::Text(s) = &v {
        if s.contains('\0') {
            return err("22021", "invalid byte sequence for encoding \"UTF8\": 0x00");
        }
    }
    Ok(v)
}

impl RawTable {
    pub fn position(&self, c: &str) -> R<usize> {
        match self.cols.iter().position(|x| x.name == c) {
            Some(i) => Ok(i),
            None => err(UNDEFINED_COLUMN, format!("column \"{c}\" does not exist")),
        }
    }
    fn positions(&self, c: &[String]) -> R<Vec<usize>> {
        if c.is_empty() {
            return Ok((0..self.cols.len()).collect());
        }
        c.iter().map(|c| self.position(c)).collect()
    }
    fn rel(&self, alias: &str) -> Rel {
        Rel { alias: alias.into(), cols: Rc::new(self.cols.iter().zip(&self.types).map(|(c, t)| (c.name.clone(), *t)).collect()) }
    }
}

fn out_name(e: &Expr) -> String {
    match e {
        Expr::Col(n) => n.last().unwrap().clone(),
        Expr::Call { name, .. } => name.clone(),
        Expr::Cast(e, t) => match out_name(e).as_str() {
            "?column?" | "case" => type_label(t),
            n => n.to_string(),
        },
        Expr::Case(_, _, els) => match els.as_deref() {
            Some(e @ Expr::Col(_)) => out_name(e),
            _ => "case".into(),
        },
        Expr::Exists(_) => "exists".into(),
        Expr::Array(_) | Expr::ArraySub(_) => "array".into(),
        Expr::Sub(q) => q.items.first().map(|(e, a)| a.clone().unwrap_or_else(|| out_name(e))).unwrap_or("?column?".into()),
        Expr::Index(e, _) => out_name(e),
        _ => "?column?".into(),
    }
}

fn has_agg(e: &Expr) -> bool {
    match e {
        Expr::Call { name, args, .. } => AGGS.contains(&name.as_str()) || args.iter().any(has_agg),
        Expr::Bin(_, a, b) | Expr::Distinct(a, b, _) | Expr::Quant(_, a, b, _) | Expr::Like(a, b, _, _) | Expr::Index(a, b) => has_agg(a) || has_agg(b),
        Expr::Not(a) | Expr::Neg(a) | Expr::IsNull(a, _) | Expr::IsBool(a, _, _) | Expr::Cast(a, _) => has_agg(a),
        Expr::Case(s, v, e) => {
            s.as_deref().map(has_agg).unwrap_or(false) || v.iter().any(|(a, b)| has_agg(a) || has_agg(b)) || e.as_deref().map(has_agg).unwrap_or(false)
        }
        Expr::Array(v) | Expr::Row(v) => v.iter().any(has_agg),
        Expr::In(a, v, _) => has_agg(a) || v.iter().any(has_agg),
        Expr::Between(a, b, c, _) => has_agg(a) || has_agg(b) || has_agg(c),
        _ => false,
    }
}
fn is_srf(e: &Expr) -> bool {
    matches!(e, Expr::Call { name, .. } if ["unnest", "generate_series", "generate_subscripts"].contains(&name.as_str()))
}

/// Columns an expression names, or none when it holds a query of its own.
fn refs<'x>(e: &'x Expr, out: &mut Vec<&'x Vec<String>>) -> bool {
    match e {
        Expr::Lit(_) | Expr::Param(_) => true,
        Expr::Col(c) => {
            out.push(c);
            true
        }
        Expr::Call { name, args, .. } => !AGGS.contains(&name.as_str()) && args.iter().all(|a| refs(a, out)),
        Expr::Bin(_, a, b) | Expr::Distinct(a, b, _) | Expr::Quant(_, a, b, _) | Expr::Like(a, b, _, _) | Expr::Index(a, b) => refs(a, out) && refs(b, out),
        Expr::Not(a) | Expr::Neg(a) | Expr::IsNull(a, _) | Expr::IsBool(a, _, _) | Expr::Cast(a, _) => refs(a, out),
        Expr::Array(v) => v.iter().all(|a| refs(a, out)),
        Expr::In(a, v, _) => refs(a, out) && v.iter().all(|x| refs(x, out)),
        _ => false,
    }
}
fn conjuncts<'x>(e: &'x Expr, out: &mut Vec<&'x Expr>) {
    match e {
        Expr::Bin(o, a, b) if o == "and" => {
            conjuncts(a, out);
            conjuncts(b, out);
        }
        e => out.push(e),
    }
}

fn lateral(f: &From) -> bool {
    match f {
        From::Table { .. } => false,
        From::Func { .. } | From::Sub { .. } => true,
        From::Join { l, r, .. } => lateral(l) || lateral(r),
    }
}

impl<'e> Ex<'e> {
    fn new(e: &'e Engine, params: Vec<V>) -> Self {
        Ex {
            e,
            cat: RefCell::new(None),
            params,
            ptypes: RefCell::new(vec![]),
            shuffle: Cell::new(mix(e.seed)),
            ctes: RefCell::new(vec![]),
            cte_types: RefCell::new(vec![]),
        }
    }
    fn cat(&self) -> Rc<Catalog> {
        self.cat.borrow_mut().get_or_insert_with(|| Rc::new(Catalog::of(self.e))).clone()
    }
    fn shuffled<T>(&self, mut v: Vec<T>) -> Vec<T> {
        for i in (1..v.len()).rev() {
            let z = mix(self.shuffle.get());
            self.shuffle.set(z);
            v.swap(i, (z >> 16) as usize % (i + 1));
        }
        v
    }
    fn table_cols(&self, name: &[String]) -> R<Cols> {
        if name.len() == 1 {
            if let Some((_, c)) = self.cte_types.borrow().iter().rev().find(|(n, _)| *n == name[0]) {
                return Ok(c.clone());
            }
        }
        let cat = self.cat();
        if name.len() == 1 || name[0] == "pg_catalog" || name[0] == "information_schema" {
            let key = if name[0] == "information_schema" { format!("information_schema.{}", name[1]) } else { name.last().unwrap().clone() };
            if let Some(t) = cat.tables.get(key.as_str()) {
                return Ok(t.0.clone());
            }
        }
        let k = self.e.raw_name(name);
        match self.e.raw.get(&k) {
            Some(t) => Ok(t.rel("").cols),
            None if self.e.pg.db.table(&k.0, &k.1).is_some() => {
                let t = self.e.pg.db.table(&k.0, &k.1).unwrap();
                Ok(Rc::new(t.cols.iter().map(|c| (c.name.clone(), type_by_name(&norm(&c.ty)).unwrap_or(TEXT))).collect()))
            }
            None if name.len() > 1 && !self.e.pg.db.schemas.contains_key(&k.0) && name[0] != "pg_catalog" && name[0] != "information_schema" => {
                err(UNDEFINED_TABLE, format!("relation \"{}\" does not exist", name.join(".")))
            }
            None => err(UNDEFINED_TABLE, format!("relation \"{}\" does not exist", name.join("."))),
        }
    }
    fn table_rows(&self, name: &[String]) -> R<Vec<Row>> {
        if name.len() == 1 {
            if let Some((_, _, r)) = self.ctes.borrow().iter().rev().find(|(n, _, _)| *n == name[0]) {
                return Ok(r.clone());
            }
        }
        let cat = self.cat();
        if name.len() == 1 || name[0] == "pg_catalog" || name[0] == "information_schema" {
            let key = if name[0] == "information_schema" { format!("information_schema.{}", name[1]) } else { name.last().unwrap().clone() };
            if let Some(t) = cat.tables.get(key.as_str()) {
                return Ok(self.shuffled(t.1.clone()));
            }
        }
        Ok(match self.e.raw.get(&self.e.raw_name(name)) {
            Some(t) => self.shuffled(t.rows.iter().map(|r| Rc::new(r.clone())).collect()),
            None => vec![],
        })
    }

    // ----- types -----

    fn type_returning(&self, items: &[(Expr, Option<String>)], alias: &str, t: &RawTable) -> R<Option<Vec<(String, Ty)>>> {
        if items.is_empty() {
            return Ok(None);
        }
        let sc = Scope { rels: vec![t.rel(alias)], parent: None };
        Ok(Some(self.type_items(items, &sc)?))
    }
    fn type_items(&self, items: &[(Expr, Option<String>)], sc: &Scope) -> R<Vec<(String, Ty)>> {
        let mut out = vec![];
        for (e, a) in items {
            match e {
                Expr::Star(None) => {
                    if sc.rels.is_empty() {
                        return err(SYNTAX, "SELECT * with no tables specified is not valid");
                    }
                    for r in &sc.rels {
                        out.extend(r.cols.iter().cloned());
                    }
                }
                Expr::Star(Some(n)) => match sc.rels.iter().find(|r| r.alias == *n) {
                    Some(r) => out.extend(r.cols.iter().cloned()),
                    None => return err(UNDEFINED_TABLE, format!("missing FROM-clause entry for table \"{n}\"")),
                },
                e => {
                    let mut t = self.infer(e, sc, None)?;
                    if t == UNKNOWN {
                        t = TEXT;
                    }
                    out.push((a.clone().unwrap_or_else(|| out_name(e)), t));
                }
            }
        }
        Ok(out)
    }
    fn type_query(&self, q: &Query, parent: Option<&Scope>) -> R<Vec<(String, Ty)>> {
        let mark = self.cte_types.borrow().len();
        for (n, cols, w) in &q.with {
            let mut c = self.type_query(w, None)?;
            for (x, n) in c.iter_mut().zip(cols) {
                x.0 = n.clone();
            }
            self.cte_types.borrow_mut().push((n.clone(), Rc::new(c)));
        }
        let r = self.type_core(q, parent);
        self.cte_types.borrow_mut().truncate(mark);
        r
    }
    fn type_core(&self, q: &Query, parent: Option<&Scope>) -> R<Vec<(String, Ty)>> {
        let mut sc = Scope { rels: vec![], parent };
        if !q.values.is_empty() {
            let mut out: Vec<(String, Ty)> = vec![];
            for (k, row) in q.values.iter().enumerate() {
                for (i, x) in row.iter().enumerate() {
                    let t = self.infer(x, &sc, None)?;
                    if k == 0 {
                        out.push((format!("column{}", i + 1), if t == UNKNOWN { TEXT } else { t }));
                    }
                }
            }
            return Ok(out);
        }
        for f in &q.from {
            self.type_from(f, &mut sc)?;
        }
        for (i, a) in sc.rels.iter().enumerate() {
            if sc.rels[..i].iter().any(|b| b.alias == a.alias && !a.alias.starts_with('?')) {
                return err("42712", format!("table name \"{}\" specified more than once", a.alias));
            }
        }
        if let Some(w) = &q.wher {
            if has_agg(w) {
                return err("42803", "aggregate functions are not allowed in WHERE");
            }
            self.bool_type(w, &sc)?;
        }
        let out = self.type_items(&q.items, &sc)?;
        for g in &q.group {
            if !matches!(g, Expr::Lit(Lit::Int(_))) && !self.is_output(g, q) {
                self.infer(g, &sc, None)?;
            }
        }
        let grouped = !q.group.is_empty() || q.items.iter().any(|(e, _)| has_agg(e));
        if grouped && q.group.is_empty() {
            for (e, _) in &q.items {
                if !has_agg(e) && matches!(e, Expr::Col(_)) && self.resolve_here(e, &sc) {
                    return err("42803", "column must appear in the GROUP BY clause or be used in an aggregate function");
                }
            }
        }
        if let Some(h) = &q.having {
            self.bool_type(h, &sc)?;
        }
        for o in &q.order {
            if !matches!(o.e, Expr::Lit(Lit::Int(_))) && !self.is_output(&o.e, q) {
                self.infer(&o.e, &sc, None)?;
            }
        }
        for l in [&q.limit, &q.offset].into_iter().flatten() {
            self.infer(l, &sc, Some(INT8))?;
        }
        if let Some((_, _, r)) = &q.union {
            let c = self.type_query(r, parent)?;
            if c.len() != out.len() {
                return err(SYNTAX, "each UNION query must have the same number of columns");
            }
        }
        Ok(out)
    }
    fn resolve_here(&self, e: &Expr, sc: &Scope) -> bool {
        match e {
            Expr::Col(c) => lookup(&sc.rels, c).ok().flatten().is_some(),
            _ => false,
        }
    }
    fn is_output(&self, e: &Expr, q: &Query) -> bool {
        match e {
            Expr::Col(c) if c.len() == 1 => q.items.iter().any(|(x, a)| a.as_ref().map(|a| *a == c[0]).unwrap_or_else(|| out_name(x) == c[0])),
            _ => false,
        }
    }
    fn type_from(&self, f: &From, sc: &mut Scope) -> R<()> {
        match f {
            From::Table { name, alias, cols } => {
                let mut c = self.table_cols(name)?.to_vec();
                for (x, n) in c.iter_mut().zip(cols) {
                    x.0 = n.clone();
                }
                sc.rels.push(Rel { alias: alias.clone().unwrap_or(name.last().unwrap().clone()), cols: Rc::new(c) });
            }
            From::Func { calls, ordinality, alias, cols } => {
                let rel = self.func_rel(calls, *ordinality, alias, cols, sc)?;
                sc.rels.push(rel);
            }
            From::Sub { q, alias, cols } => {
                let mut c = {
                    let inner = Scope { rels: sc.rels.clone(), parent: sc.parent };
                    self.type_query(q, Some(&inner))?
                };
                for (x, n) in c.iter_mut().zip(cols) {
                    x.0 = n.clone();
                }
                sc.rels.push(Rel { alias: alias.clone().unwrap_or("?sub".into()), cols: Rc::new(c) });
            }
            From::Join { l, r, on, using, natural, .. } => {
                if *natural {
                    return unsupported("NATURAL JOIN");
                }
                let from = sc.rels.len();
                self.type_from(l, sc)?;
                let mid = sc.rels.len();
                self.type_from(r, sc)?;
                if let Some(on) = on {
                    self.bool_type(on, sc)?;
                }
                for u in using {
                    for side in [&sc.rels[from..mid], &sc.rels[mid..]] {
                        if !side.iter().any(|r| r.cols.iter().any(|c| c.0 == *u)) {
                            return err(UNDEFINED_COLUMN, format!("column \"{u}\" specified in USING clause does not exist"));
                        }
                    }
                }
            }
        }
        Ok(())
    }
    fn func_rel(&self, calls: &[Expr], ordinality: bool, alias: &Option<String>, cols: &[String], sc: &Scope) -> R<Rel> {
        let mut c = vec![];
        let mut name = "?column?".to_string();
        for call in calls {
            let n = out_name(call);
            let t = self.infer(call, sc, None)?;
            // a function of one column: the alias names it
            c.push((if calls.len() == 1 { alias.clone().unwrap_or(n.clone()) } else { n.clone() }, t));
            name = n;
        }
        if ordinality {
            c.push(("ordinality".into(), INT8));
        }
        if cols.len() > c.len() {
            return err("42P10", "too many column aliases specified");
        }
        for (x, n) in c.iter_mut().zip(cols) {
            x.0 = n.clone();
        }
        Ok(Rel { alias: alias.clone().unwrap_or(name), cols: Rc::new(c) })
    }
    fn bool_type(&self, e: &Expr, sc: &Scope) -> R<()> {
        match self.infer(e, sc, Some(BOOL))? {
            BOOL | UNKNOWN => Ok(()),
            _ => err("42804", "argument of WHERE must be type boolean"),
        }
    }
    fn param(&self, n: usize, expected: Option<Ty>) -> Ty {
        let mut p = self.ptypes.borrow_mut();
        if p.len() < n {
            p.resize(n, None);
        }
        if p[n - 1].is_none() {
            p[n - 1] = expected.filter(|t| *t != UNKNOWN).map(|t| if t == VARCHAR { TEXT } else { t });
        }
        p[n - 1].unwrap_or(UNKNOWN)
    }
    fn infer_pair(&self, a: &Expr, b: &Expr, sc: &Scope) -> R<(Ty, Ty)> {
        let mut x = self.infer(a, sc, None)?;
        let y = self.infer(b, sc, Some(x))?;
        if x == UNKNOWN {
            x = self.infer(a, sc, Some(y))?;
        }
        Ok((x, y))
    }
    fn infer(&self, e: &Expr, sc: &Scope, want: Option<Ty>) -> R<Ty> {
        Ok(match e {
            Expr::Lit(Lit::Null) | Expr::Lit(Lit::Str(_)) => UNKNOWN,
            Expr::Lit(Lit::Bool(_)) => BOOL,
            Expr::Lit(Lit::Int(n)) => {
                if i32::try_from(*n).is_ok() {
                    INT4
                } else {
                    INT8
                }
            }
            Expr::Param(n) => {
                if *n == 0 {
                    return err(UNDEFINED_OBJECT, "there is no parameter $0");
                }
                self.param(*n, want)
            }
            Expr::Col(c) => return self.col_type(c, sc),
            Expr::Star(_) => return err(SYNTAX, "syntax error at or near *"),
            Expr::Not(a) => {
                self.bool_type(a, sc)?;
                BOOL
            }
            Expr::Neg(a) => self.infer(a, sc, want)?,
            Expr::IsNull(a, _) => {
                self.infer(a, sc, None)?;
                BOOL
            }
            Expr::IsBool(a, _, _) => {
                self.bool_type(a, sc)?;
                BOOL
            }
            Expr::Distinct(a, b, _) | Expr::Like(a, b, _, _) => {
                self.infer_pair(a, b, sc)?;
                BOOL
            }
            Expr::Bin(op, a, b) => match op.as_str() {
                "and" | "or" => {
                    self.bool_type(a, sc)?;
                    self.bool_type(b, sc)?;
                    BOOL
                }
                "=" | "<>" | "<" | ">" | "<=" | ">=" => {
                    let (x, y) = self.infer_pair(a, b, sc)?;
                    self.comparable(op, x, y)?;
                    BOOL
                }
                "||" => {
                    let (x, y) = self.infer_pair(a, b, sc)?;
                    if elem_of(x).is_some() {
                        x
                    } else if elem_of(y).is_some() {
                        y
                    } else if is_text(x) || is_text(y) {
                        TEXT
                    } else {
                        return err(UNDEFINED_FUNCTION, "operator does not exist: ||");
                    }
                }
                "+" | "-" | "*" | "/" | "%" | "&" | "|" | "<<" | ">>" => {
                    let (x, y) = self.infer_pair(a, b, sc)?;
                    if !(is_int(x) || x == UNKNOWN) || !(is_int(y) || y == UNKNOWN) {
                        return err(UNDEFINED_FUNCTION, format!("operator does not exist: {op}"));
                    }
                    if x == INT8 || y == INT8 {
                        INT8
                    } else if x == INT2 && y == INT2 {
                        INT2
                    } else {
                        INT4
                    }
                }
                "@>" | "<@" | "&&" | "~" | "!~" | "~*" | "!~*" => {
                    self.infer_pair(a, b, sc)?;
                    BOOL
                }
                o => return unsupported(o),
            },
            Expr::Quant(op, a, arr, _) => {
                let x = self.infer(a, sc, None)?;
                let y = self.infer(arr, sc, Some(array_of(if x == UNKNOWN { TEXT } else { x })))?;
                match elem_of(y) {
                    Some(el) => self.comparable(op, x, el)?,
                    None if y == UNKNOWN => {}
                    None => return err("42809", "op ANY/ALL (array) requires array on right side"),
                }
                if x == UNKNOWN {
                    self.infer(a, sc, elem_of(y))?;
                }
                BOOL
            }
            Expr::Case(s, whens, els) => {
                let st = match s {
                    Some(s) => Some(self.infer(s, sc, None)?),
                    None => None,
                };
                let mut t = UNKNOWN;
                for (c, v) in whens {
                    match st {
                        Some(st) => {
                            let x = self.infer(c, sc, Some(st))?;
                            self.comparable("=", st, x)?;
                        }
                        None => self.bool_type(c, sc)?,
                    }
                    t = self.merge(t, self.infer(v, sc, want)?)?;
                }
                if let Some(x) = els {
                    t = self.merge(t, self.infer(x, sc, want)?)?;
                }
                if t == UNKNOWN {
                    TEXT
                } else {
                    t
                }
            }
            Expr::Cast(x, t) => {
                let ty = match type_by_name(t) {
                    Some(t) => t,
                    None => {
                        let n = t.split('(').next().unwrap().trim_end_matches("[]");
                        if self.cat().type_exists(n) {
                            TEXT
                        } else {
                            return err(UNDEFINED_OBJECT, format!("type \"{t}\" does not exist"));
                        }
                    }
                };
                self.infer(x, sc, Some(ty))?;
                ty
            }
            Expr::Exists(q) => {
                self.type_query(q, Some(sc))?;
                BOOL
            }
            Expr::Sub(q) => {
                let c = self.type_query(q, Some(sc))?;
                if c.len() != 1 {
                    return err(SYNTAX, "subquery must return only one column");
                }
                c[0].1
            }
            Expr::ArraySub(q) => {
                let c = self.type_query(q, Some(sc))?;
                if c.len() != 1 {
                    return err(SYNTAX, "subquery must return only one column");
                }
                array_of(c[0].1)
            }
            Expr::Array(v) => {
                let mut t = UNKNOWN;
                for x in v {
                    t = self.merge(t, self.infer(x, sc, want.and_then(elem_of))?)?;
                }
                array_of(t)
            }
            Expr::Row(v) => {
                for x in v {
                    self.infer(x, sc, None)?;
                }
                RECORD
            }
            Expr::In(a, v, _) => {
                let t = self.infer(a, sc, None)?;
                for x in v {
                    let y = self.infer(x, sc, Some(t))?;
                    self.comparable("=", t, y)?;
                }
                BOOL
            }
            Expr::InSub(a, q, _) => {
                self.infer(a, sc, None)?;
                self.type_query(q, Some(sc))?;
                BOOL
            }
            Expr::Between(a, b, c, _) => {
                let t = self.infer(a, sc, None)?;
                self.infer(b, sc, Some(t))?;
                self.infer(c, sc, Some(t))?;
                BOOL
            }
            Expr::Index(a, i) => {
                self.infer(i, sc, Some(INT4))?;
                match elem_of(self.infer(a, sc, None)?) {
                    Some(t) => t,
                    None => return err("42804", "cannot subscript this type"),
                }
            }
            Expr::Slice(a, x, y) => {
                for i in [x, y].into_iter().flatten() {
                    self.infer(i, sc, Some(INT4))?;
                }
                self.infer(a, sc, None)?
            }
            Expr::Call { name, args, order, star, filter, .. } => {
                let mut t = vec![];
                let hint = match name.as_str() {
                    "unnest" => Some(array_of(TEXT)),
                    "coalesce" | "nullif" | "greatest" | "least" => want,
                    "left" | "right" => None,
                    _ => Some(TEXT),
                };
                for (i, a) in args.iter().enumerate() {
                    let h = if name == "coalesce" && i > 0 { t.first().copied().filter(|t| *t != UNKNOWN) } else { hint };
                    t.push(self.infer(a, sc, h)?);
                }
                for o in order {
                    self.infer(&o.e, sc, None)?;
                }
                if let Some(f) = filter {
                    self.bool_type(f, sc)?;
                }
                if *star && name != "count" {
                    return err(UNDEFINED_FUNCTION, format!("{name}(*)"));
                }
                return self.call_type(name, &t);
            }
        })
    }
    fn merge(&self, a: Ty, b: Ty) -> R<Ty> {
        Ok(if a == UNKNOWN {
            b
        } else if b == UNKNOWN || a == b {
            a
        } else if is_int(a) && is_int(b) {
            if a == INT8 || b == INT8 {
                INT8
            } else {
                INT4
            }
        } else if is_text(a) && is_text(b) {
            TEXT
        } else {
            return err("42804", "types cannot be matched");
        })
    }
    fn comparable(&self, op: &str, x: Ty, y: Ty) -> R<()> {
        let ok = x == y
            || x == UNKNOWN
            || y == UNKNOWN
            || is_int(x) && is_int(y)
            || is_text(x) && is_text(y)
            || x == RECORD
            || y == RECORD
            || elem_of(x).is_some() && elem_of(y).is_some();
        if ok {
            Ok(())
        } else {
            err(UNDEFINED_FUNCTION, format!("operator does not exist: {x} {op} {y}"))
        }
    }
    fn col_type(&self, c: &[String], sc: &Scope) -> R<Ty> {
        let mut s = Some(sc);
        while let Some(x) = s {
            match lookup(&x.rels, c)? {
                Some((i, j)) => return Ok(x.rels[i].cols[j].1),
                None => s = x.parent,
            }
        }
        if c.len() > 1 {
            let mut s = Some(sc);
            while let Some(x) = s {
                if x.rels.iter().any(|r| r.alias == c[c.len() - 2]) {
                    return err(UNDEFINED_COLUMN, format!("column {} does not exist", c.join(".")));
                }
                s = x.parent;
            }
            return err(UNDEFINED_TABLE, format!("missing FROM-clause entry for table \"{}\"", c[c.len() - 2]));
        }
        err(UNDEFINED_COLUMN, format!("column \"{}\" does not exist", c.join(".")))
    }
    fn call_type(&self, name: &str, t: &[Ty]) -> R<Ty> {
        let n = t.len();
        let un = |x: Ty| if x == UNKNOWN { TEXT } else { x };
        Ok(match name {
            "pg_has_role" | "has_table_privilege" | "has_any_column_privilege" | "has_schema_privilege" | "has_sequence_privilege"
            | "has_function_privilege" | "pg_is_other_temp_schema" | "pg_table_is_visible" | "pg_function_is_visible" | "pg_type_is_visible"
            | "starts_with" | "bool_or" | "bool_and" | "every" => BOOL,
            "coalesce" | "greatest" | "least" => {
                let mut x = UNKNOWN;
                for y in t {
                    x = self.merge(x, *y)?;
                }
                un(x)
            }
            "nullif" if n == 2 => un(t[0]),
            "substring" | "substr" | "replace" | "upper" | "lower" | "trim" | "btrim" | "ltrim" | "rtrim" | "left" | "right" | "concat" | "concat_ws"
            | "split_part" | "array_to_string" | "string_agg" | "pg_get_expr" | "pg_get_constraintdef" | "pg_get_indexdef" | "pg_get_viewdef"
            | "pg_get_function_arguments" | "pg_get_function_identity_arguments" | "pg_get_function_result" | "format_type" | "obj_description"
            | "col_description" | "quote_ident" | "quote_literal" | "version" | "pg_get_serial_sequence" | "format" | "repeat" | "reverse" | "initcap"
            | "regexp_replace" => {
                if ["substring", "replace", "left", "right", "trim", "btrim"].contains(&name) && n > 0 && !is_text(t[0]) {
                    return err(UNDEFINED_FUNCTION, format!("function {name} does not exist"));
                }
                TEXT
            }
            "bpchartypmodout" | "varchartypmodout" | "timetypmodout" | "timestamptypmodout" | "timestamptztypmodout" | "intervaltypmodout"
            | "timetztypmodout" | "bittypmodout" | "varbittypmodout" | "numerictypmodout" => CSTRING,
            "length" | "char_length" | "strpos" | "array_length" | "cardinality" | "array_position" | "array_upper" | "array_lower"
            | "pg_relation_is_updatable" => INT4,
            "array_agg" if n == 1 => {
                if elem_of(t[0]).is_some() {
                    return unsupported("arrays of arrays");
                }
                array_of(t[0])
            }
            "count" => INT8,
            "sum" => INT8,
            "min" | "max" if n == 1 => un(t[0]),
            "unnest" if n == 1 => match elem_of(t[0]) {
                Some(t) => t,
                None if t[0] == UNKNOWN => TEXT,
                None => return err(UNDEFINED_FUNCTION, "function unnest does not exist"),
            },
            "generate_series" => {
                if t.contains(&INT8) {
                    INT8
                } else {
                    INT4
                }
            }
            "generate_subscripts" => INT4,
            "now" | "current_timestamp" | "clock_timestamp" | "transaction_timestamp" => TIMESTAMPTZ,
            "current_schema" | "current_database" | "current_user" | "session_user" | "current_catalog" => NAME,
            "to_regclass" => REGCLASS,
            "to_regnamespace" => REGNAMESPACE,
            "current_schemas" => 1003,
            "string_to_array" => 1009,
            "array_append" | "array_cat" | "array_remove" => t[0],
            "array_prepend" => t[1],
            _ => return err(UNDEFINED_FUNCTION, format!("function {name} does not exist")),
        })
    }

    // ----- rows -----

    fn query(&self, q: &Query, parent: Option<&Env>) -> R<(Cols, Vec<Row>)> {
        let mark = (self.ctes.borrow().len(), self.cte_types.borrow().len());
        for (n, cols, w) in &q.with {
            let (c, rows) = self.query(w, None)?;
            let mut c = c.to_vec();
            for (x, n) in c.iter_mut().zip(cols) {
                x.0 = n.clone();
            }
            let c = Rc::new(c);
            self.cte_types.borrow_mut().push((n.clone(), c.clone()));
            self.ctes.borrow_mut().push((n.clone(), c, rows));
        }
        let r = self.core(q, parent);
        self.ctes.borrow_mut().truncate(mark.0);
        self.cte_types.borrow_mut().truncate(mark.1);
        r
    }

    fn core(&self, q: &Query, parent: Option<&Env>) -> R<(Cols, Vec<Row>)> {
        let names = |rels: &[Rel]| -> R<Cols> {
            // types matter no more; names do
            let mut v: Vec<(String, Ty)> = vec![];
            for (e, a) in &q.items {
                match e {
                    Expr::Star(None) => rels.iter().for_each(|r| v.extend(r.cols.iter().cloned())),
                    Expr::Star(Some(n)) => rels.iter().filter(|r| r.alias == *n).for_each(|r| v.extend(r.cols.iter().cloned())),
                    e => v.push((a.clone().unwrap_or_else(|| out_name(e)), TEXT)),
                }
            }
            Ok(Rc::new(v))
        };
        // sort key and row
        let mut out: Vec<(Vec<V>, Row)> = vec![];
        let cols;
        if !q.values.is_empty() {
            let env = Env { rels: &[], row: &[], parent, group: None };
            cols = Rc::new((1..=q.values[0].len()).map(|i| (format!("column{i}"), TEXT)).collect::<Vec<_>>());
            for r in &q.values {
                let v: R<Vec<V>> = r.iter().map(|x| self.eval(x, &env)).collect();
                out.push((vec![], Rc::new(v?)));
            }
        } else {
            let (rels, rows) = self.from_list(&q.from, q.wher.as_ref(), parent)?;
            cols = names(&rels)?;
            let grouped = !q.group.is_empty() || q.having.is_some() || q.items.iter().any(|(e, _)| has_agg(e));
            let mut emit = |env: &Env| -> R<()> {
                let mut v: Vec<V> = vec![];
                let mut sets: Vec<(usize, Vec<V>)> = vec![];
                for (e, _) in &q.items {
                    match e {
                        Expr::Star(None) => env.row.iter().for_each(|r| v.extend(r.iter().cloned())),
                        Expr::Star(Some(n)) => env.rels.iter().zip(env.row).filter(|(r, _)| r.alias == *n).for_each(|(_, r)| v.extend(r.iter().cloned())),
                        e if is_srf(e) => {
                            sets.push((v.len(), self.srf(e, env)?));
                            v.push(V::Null);
                        }
                        e => v.push(self.eval(e, env)?),
                    }
                }
                let n = if sets.is_empty() { 1 } else { sets.iter().map(|s| s.1.len()).max().unwrap() };
                for k in 0..n {
                    let mut r = v.clone();
                    for (i, s) in &sets {
                        r[*i] = s.get(k).cloned().unwrap_or(V::Null);
                    }
                    let mut key = vec![];
                    for o in &q.order {
                        key.push(match &o.e {
                            Expr::Lit(Lit::Int(i)) => r.get(*i as usize - 1).cloned().unwrap_or(V::Null),
                            e @ Expr::Col(c) if c.len() == 1 => match cols.iter().position(|x| x.0 == c[0]) {
                                Some(i) => r[i].clone(),
                                None => self.eval(e, env)?,
                            },
                            e => self.eval(e, env)?,
                        });
                    }
                    out.push((key, Rc::new(r)));
                }
                Ok(())
            };
            if grouped {
                let mut groups: Vec<(Vec<V>, Vec<Vec<Row>>)> = vec![];
                for row in rows {
                    let env = Env { rels: &rels, row: &row, parent, group: None };
                    let mut key = vec![];
                    for g in &q.group {
                        let g = match g {
                            Expr::Lit(Lit::Int(i)) => &q.items[*i as usize - 1].0,
                            Expr::Col(c) if c.len() == 1 && lookup(&rels, c)?.is_none() => {
                                match q.items.iter().find(|(_, a)| a.as_deref() == Some(c[0].as_str())) {
                                    Some((e, _)) => e,
                                    None => g,
                                }
                            }
                            g => g,
                        };
                        key.push(self.eval(g, &env)?);
                    }
                    match groups.iter_mut().find(|(k, _)| *k == key) {
                        Some(g) => g.1.push(row),
                        None => groups.push((key, vec![row])),
                    }
                }
                if groups.is_empty() && q.group.is_empty() {
                    groups.push((vec![], vec![]));
                }
                let blank: Vec<Row> = rels.iter().map(|r| Rc::new(vec![V::Null; r.cols.len()])).collect();
                for (_, g) in &groups {
                    let first = g.first().unwrap_or(&blank);
                    let env = Env { rels: &rels, row: first, parent, group: Some(g) };
                    if let Some(h) = &q.having {
                        if self.eval(h, &env)? != V::Bool(true) {
                            continue;
                        }
                    }
                    emit(&env)?;
                }
            } else {
                for row in &rows {
                    emit(&Env { rels: &rels, row, parent, group: None })?;
                }
            }
        }
        if q.distinct {
            let mut seen: Vec<Row> = vec![];
            out.retain(|(_, r)| {
                if seen.contains(r) {
                    return false;
                }
                seen.push(r.clone());
                true
            });
        }
        let mut rows: Vec<(Vec<V>, Row)> = out;
        if let Some((op, all, r)) = &q.union {
            let (_, other) = self.query(r, parent)?;
            let mut v: Vec<Row> = rows.iter().map(|r| r.1.clone()).collect();
            match op.as_str() {
                "union" => v.extend(other),
                "except" => v.retain(|r| !other.contains(r)),
                _ => v.retain(|r| other.contains(r)),
            }
            if !*all {
                let mut seen: Vec<Row> = vec![];
                v.retain(|r| {
                    let new = !seen.contains(r);
                    if new {
                        seen.push(r.clone());
                    }
                    new
                });
            }
            rows = vec![];
            for r in v {
                let mut key = vec![];
                for o in &q.order {
                    match &o.e {
                        Expr::Lit(Lit::Int(i)) => key.push(r[*i as usize - 1].clone()),
                        Expr::Col(c) => match cols.iter().position(|x| x.0 == *c.last().unwrap()) {
                            Some(i) => key.push(r[i].clone()),
                            None => return unsupported("ORDER BY of a UNION"),
                        },
                        _ => return unsupported("ORDER BY of a UNION"),
                    }
                }
                rows.push((key, r));
            }
        }
        if !q.order.is_empty() {
            rows.sort_by(|a, b| cmp_keys(&a.0, &b.0, &q.order));
        }
        let env = Env { rels: &[], row: &[], parent, group: None };
        let mut v: Vec<Row> = rows.into_iter().map(|r| r.1).collect();
        if let Some(o) = &q.offset {
            if let V::Int(n) = self.eval(o, &env)? {
                v.drain(..(n.max(0) as usize).min(v.len()));
            }
        }
        if let Some(l) = &q.limit {
            if let V::Int(n) = self.eval(l, &env)? {
                v.truncate(n.max(0) as usize);
            }
        }
        Ok((cols, v))
    }

    fn from_list(&self, list: &[From], wher: Option<&Expr>, parent: Option<&Env>) -> R<(Vec<Rel>, Vec<Vec<Row>>)> {
        let mut rels: Vec<Rel> = vec![];
        let mut rows: Vec<Vec<Row>> = vec![vec![]];
        let mut conds = vec![];
        if let Some(w) = wher {
            conjuncts(w, &mut conds);
        }
        for f in list {
            let mut new_rels: Option<Vec<Rel>> = None;
            let mut next = vec![];
            let fixed = if lateral(f) { None } else { Some(self.from(f, &Env { rels: &[], row: &[], parent, group: None })?) };
            if let Some((r, _)) = &fixed {
                new_rels = Some(r.clone());
            }
            for row in &rows {
                let env = Env { rels: &rels, row, parent, group: None };
                let got;
                let items: &Vec<Vec<Row>> = match &fixed {
                    Some((_, x)) => x,
                    None => {
                        got = self.from(f, &env)?;
                        new_rels.get_or_insert(got.0);
                        &got.1
                    }
                };
                for x in items {
                    let mut r = row.clone();
                    r.extend(x.iter().cloned());
                    next.push(r);
                }
            }
            match new_rels {
                Some(r) => rels.extend(r),
                None => {
                    // nothing to join with: the names are needed all the same
                    let blank: Vec<Row> = rels.iter().map(|r| Rc::new(vec![V::Null; r.cols.len()])).collect();
                    let env = Env { rels: &rels, row: &blank, parent, group: None };
                    let r = self.from(f, &env)?.0;
                    rels.extend(r);
                }
            }
            rows = next;
            let mut later = vec![];
            for c in conds {
                let mut cr = vec![];
                if refs(c, &mut cr) && cr.iter().all(|c| matches!(lookup(&rels, c), Ok(Some(_)))) {
                    let mut keep = vec![];
                    for r in rows {
                        if self.eval(c, &Env { rels: &rels, row: &r, parent, group: None })? == V::Bool(true) {
                            keep.push(r);
                        }
                    }
                    rows = keep;
                } else {
                    later.push(c);
                }
            }
            conds = later;
        }
        for c in conds {
            let mut keep = vec![];
            for r in rows {
                if self.eval(c, &Env { rels: &rels, row: &r, parent, group: None })? == V::Bool(true) {
                    keep.push(r);
                }
            }
            rows = keep;
        }
        if rels.len() > 1 {
            rows = self.shuffled(rows);
        }
        Ok((rels, rows))
    }

    fn from(&self, f: &From, env: &Env) -> R<(Vec<Rel>, Vec<Vec<Row>>)> {
        match f {
            From::Table { name, alias, cols } => {
                let mut c = self.table_cols(name)?.to_vec();
                for (x, n) in c.iter_mut().zip(cols) {
                    x.0 = n.clone();
                }
                let rel = Rel { alias: alias.clone().unwrap_or(name.last().unwrap().clone()), cols: Rc::new(c) };
                Ok((vec![rel], self.table_rows(name)?.into_iter().map(|r| vec![r]).collect()))
            }
            From::Func { calls, ordinality, alias, cols } => {
                let mut sets = vec![];
                for c in calls {
                    sets.push(if is_srf(c) { self.srf(c, env)? } else { vec![self.eval(c, env)?] });
                }
                let n = sets.iter().map(|s| s.len()).max().unwrap_or(0);
                let mut rows = vec![];
                for k in 0..n {
                    let mut v: Vec<V> = sets.iter().map(|s| s.get(k).cloned().unwrap_or(V::Null)).collect();
                    if *ordinality {
                        v.push(V::Int(k as i64 + 1));
                    }
                    rows.push(vec![Rc::new(v)]);
                }
                let mut c: Vec<(String, Ty)> = calls
                    .iter()
                    .map(|x| (if calls.len() == 1 { alias.clone().unwrap_or(out_name(x)) } else { out_name(x) }, TEXT))
                    .collect();
                if *ordinality {
                    c.push(("ordinality".into(), INT8));
                }
                for (x, n) in c.iter_mut().zip(cols) {
                    x.0 = n.clone();
                }
                let name = out_name(calls.last().unwrap());
                Ok((vec![Rel { alias: alias.clone().unwrap_or(name), cols: Rc::new(c) }], rows))
            }
            From::Sub { q, alias, cols } => {
                let (c, rows) = self.query(q, Some(env))?;
                let mut c = c.to_vec();
                for (x, n) in c.iter_mut().zip(cols) {
                    x.0 = n.clone();
                }
                Ok((vec![Rel { alias: alias.clone().unwrap_or("?sub".into()), cols: Rc::new(c) }], rows.into_iter().map(|r| vec![r]).collect()))
            }
            From::Join { kind, l, r, on, using, .. } => {
                let (lr, lrows) = self.from(l, env)?;
                let fixed = if lateral(r) { None } else { Some(self.from(r, env)?) };
                let mut rels = lr.clone();
                let mut rr: Option<Vec<Rel>> = fixed.as_ref().map(|x| x.0.clone());
                let mut out = vec![];
                let mut used: Vec<bool> = fixed.as_ref().map(|x| vec![false; x.1.len()]).unwrap_or_default();
                let base = env.rels.to_vec();
                for row in &lrows {
                    let mut prel = base.clone();
                    prel.extend(lr.iter().cloned());
                    let mut prow = env.row.to_vec();
                    prow.extend(row.iter().cloned());
                    let got;
                    let items: &(Vec<Rel>, Vec<Vec<Row>>) = match &fixed {
                        Some(x) => x,
                        None => {
                            got = self.from(r, &Env { rels: &prel, row: &prow, parent: env.parent, group: None })?;
                            &got
                        }
                    };
                    rr.get_or_insert(items.0.clone());
                    let mut arel = prel.clone();
                    arel.extend(items.0.iter().cloned());
                    let mut hit = false;
                    for (k, x) in items.1.iter().enumerate() {
                        let mut arow = prow.clone();
                        arow.extend(x.iter().cloned());
                        let e2 = Env { rels: &arel, row: &arow, parent: env.parent, group: None };
                        let mut ok = match on {
                            Some(on) => self.eval(on, &e2)? == V::Bool(true),
                            None => true,
                        };
                        for u in using {
                            let a = column(&lr, row, u);
                            let b = column(&items.0, x, u);
                            ok = ok && !a.is_null() && a == b;
                        }
                        if ok {
                            hit = true;
                            if let Some(u) = used.get_mut(k) {
                                *u = true;
                            }
                            let mut v = row.clone();
                            v.extend(x.iter().cloned());
                            out.push(v);
                        }
                    }
                    if !hit && matches!(kind, Kind::Left | Kind::Full) {
                        let mut v = row.clone();
                        v.extend(items.0.iter().map(|r| Rc::new(vec![V::Null; r.cols.len()])));
                        out.push(v);
                    }
                }
                let rr = match rr {
                    Some(r) => r,
                    None => {
                        let mut prel = base.clone();
                        prel.extend(lr.iter().cloned());
                        let mut prow = env.row.to_vec();
                        prow.extend(lr.iter().map(|r| Rc::new(vec![V::Null; r.cols.len()])));
                        self.from(r, &Env { rels: &prel, row: &prow, parent: env.parent, group: None })?.0
                    }
                };
                if matches!(kind, Kind::Right | Kind::Full) {
                    if let Some((_, rows)) = &fixed {
                        for (k, x) in rows.iter().enumerate() {
                            if !used[k] {
                                let mut v: Vec<Row> = lr.iter().map(|r| Rc::new(vec![V::Null; r.cols.len()])).collect();
                                v.extend(x.iter().cloned());
                                out.push(v);
                            }
                        }
                    } else {
                        return unsupported("RIGHT JOIN LATERAL");
                    }
                }
                // USING makes one column of two
                rels.extend(rr.into_iter().map(|r| {
                    if using.is_empty() {
                        r
                    } else {
                        Rel { alias: r.alias.clone(), cols: Rc::new(r.cols.iter().map(|c| if using.contains(&c.0) { (format!("?{}", c.0), c.1) } else { c.clone() }).collect()) }
                    }
                }));
                Ok((rels, out))
            }
        }
    }

    fn srf(&self, e: &Expr, env: &Env) -> R<Vec<V>> {
        if let Expr::Call { name, args, .. } = e {
            let mut v = vec![];
            for a in args {
                v.push(self.eval(a, env)?);
            }
            return match (name.as_str(), v.as_slice()) {
                ("unnest", [V::Arr(a)]) => Ok(a.clone()),
                ("unnest", [V::Null]) => Ok(vec![]),
                ("generate_series", [V::Int(a), V::Int(b)]) => Ok((*a..=*b).map(V::Int).collect()),
                ("generate_series", [V::Int(a), V::Int(b), V::Int(st)]) if *st > 0 => Ok((*a..=*b).step_by(*st as usize).map(V::Int).collect()),
                ("generate_series", x) if x.iter().any(|v| v.is_null()) => Ok(vec![]),
                // int2vector counts from 0; arrays made by array_agg and the like from 1
                ("generate_subscripts", [V::Arr(a), _]) => {
                    let zero = self.zero_based(&args[0], env);
                    Ok((0..a.len() as i64).map(|i| V::Int(if zero { i } else { i + 1 })).collect())
                }
                ("generate_subscripts", _) => Ok(vec![]),
                _ => unsupported(name),
            };
        }
        unsupported("set")
    }
    fn zero_based(&self, e: &Expr, env: &Env) -> bool {
        let mut x = Some(env);
        if let Expr::Col(c) = e {
            while let Some(v) = x {
                if let Ok(Some((i, j))) = lookup(v.rels, c) {
                    return matches!(v.rels[i].cols[j].1, INT2VECTOR | OIDVECTOR);
                }
                x = v.parent;
            }
        }
        false
    }

    fn eval(&self, e: &Expr, env: &Env) -> R<V> {
        let tri = |v: V| -> R<Option<bool>> {
            match v {
                V::Null => Ok(None),
                V::Bool(b) => Ok(Some(b)),
                V::Text(t) if ["t", "true", "f", "false"].contains(&t.as_str()) => Ok(Some(t.starts_with('t'))),
                _ => err("42804", "argument must be type boolean"),
            }
        };
        let of = |o: Option<bool>| o.map(V::Bool).unwrap_or(V::Null);
        Ok(match e {
            Expr::Lit(Lit::Null) => V::Null,
            Expr::Lit(Lit::Bool(b)) => V::Bool(*b),
            Expr::Lit(Lit::Int(n)) => V::Int(*n),
            Expr::Lit(Lit::Str(s)) => V::Text(s.clone()),
            Expr::Param(n) => match self.params.get(n - 1) {
                Some(v) => v.clone(),
                None => return err(UNDEFINED_OBJECT, format!("there is no parameter ${n}")),
            },
            Expr::Col(c) => {
                let mut x = Some(env);
                while let Some(v) = x {
                    if let Some((i, j)) = lookup(v.rels, c)? {
                        return Ok(v.row[i][j].clone());
                    }
                    x = v.parent;
                }
                return err(UNDEFINED_COLUMN, format!("column {} does not exist", c.join(".")));
            }
            Expr::Star(_) => return err(SYNTAX, "*"),
            Expr::Not(a) => of(tri(self.eval(a, env)?)?.map(|b| !b)),
            Expr::Neg(a) => match self.eval(a, env)? {
                V::Int(n) => V::Int(-n),
                v => v,
            },
            Expr::IsNull(a, not) => V::Bool(self.eval(a, env)?.is_null() != *not),
            Expr::IsBool(a, want, not) => V::Bool((tri(self.eval(a, env)?)? == Some(*want)) != *not),
            Expr::Distinct(a, b, not) => {
                let (a, b) = (self.eval(a, env)?, self.eval(b, env)?);
                let differ = if a.is_null() || b.is_null() { a.is_null() != b.is_null() } else { compare(&a, &b)? != std::cmp::Ordering::Equal };
                V::Bool(differ != *not)
            }
            Expr::Bin(op, a, b) => match op.as_str() {
                "and" => {
                    let x = tri(self.eval(a, env)?)?;
                    if x == Some(false) {
                        return Ok(V::Bool(false));
                    }
                    let y = tri(self.eval(b, env)?)?;
                    match (x, y) {
                        (_, Some(false)) => V::Bool(false),
                        (Some(true), Some(true)) => V::Bool(true),
                        _ => V::Null,
                    }
                }
                "or" => {
                    let x = tri(self.eval(a, env)?)?;
                    if x == Some(true) {
                        return Ok(V::Bool(true));
                    }
                    let y = tri(self.eval(b, env)?)?;
                    match (x, y) {
                        (_, Some(true)) => V::Bool(true),
                        (Some(false), Some(false)) => V::Bool(false),
                        _ => V::Null,
                    }
                }
                op => {
                    let (x, y) = (self.eval(a, env)?, self.eval(b, env)?);
                    self.binary(op, x, y)?
                }
            },
            Expr::Quant(op, a, arr, all) => {
                let x = self.eval(a, env)?;
                let list = match self.eval(arr, env)? {
                    V::Null => return Ok(V::Null),
                    V::Arr(v) => v,
                    V::Text(t) => array_text(&t)?,
                    _ => return err("42809", "op ANY/ALL (array) requires array on right side"),
                };
                let mut r = Some(*all);
                for y in list {
                    let v = match self.binary(op, x.clone(), y)? {
                        V::Bool(b) => Some(b),
                        _ => None,
                    };
                    r = if *all {
                        match (r, v) {
                            (Some(false), _) | (_, Some(false)) => Some(false),
                            (Some(true), Some(true)) => Some(true),
                            _ => None,
                        }
                    } else {
                        match (r, v) {
                            (Some(true), _) | (_, Some(true)) => Some(true),
                            (Some(false), Some(false)) => Some(false),
                            _ => None,
                        }
                    };
                }
                of(r)
            }
            Expr::Case(s, whens, els) => {
                let sv = match s {
                    Some(s) => Some(self.eval(s, env)?),
                    None => None,
                };
                for (c, v) in whens {
                    let cv = self.eval(c, env)?;
                    let hit = match &sv {
                        Some(x) => self.binary("=", x.clone(), cv)? == V::Bool(true),
                        None => tri(cv)? == Some(true),
                    };
                    if hit {
                        return self.eval(v, env);
                    }
                }
                match els {
                    Some(x) => self.eval(x, env)?,
                    None => V::Null,
                }
            }
            Expr::Cast(x, t) => {
                let v = self.eval(x, env)?;
                self.cast(v, t, x, env)?
            }
            Expr::Exists(q) => V::Bool(!self.query(&Query { order: vec![], ..(**q).clone() }, Some(env))?.1.is_empty()),
            Expr::Sub(q) => {
                let rows = self.query(q, Some(env))?.1;
                match rows.len() {
                    0 => V::Null,
                    1 => rows[0][0].clone(),
                    _ => return err("21000", "more than one row returned by a subquery used as an expression"),
                }
            }
            Expr::ArraySub(q) => V::Arr(self.query(q, Some(env))?.1.iter().map(|r| r[0].clone()).collect()),
            Expr::Array(v) | Expr::Row(v) => V::Arr(v.iter().map(|x| self.eval(x, env)).collect::<R<Vec<_>>>()?),
            Expr::In(a, v, not) => {
                let x = self.eval(a, env)?;
                let mut r = Some(false);
                for y in v {
                    match self.binary("=", x.clone(), self.eval(y, env)?)? {
                        V::Bool(true) => {
                            r = Some(true);
                            break;
                        }
                        V::Null => r = None,
                        _ => {}
                    }
                }
                of(r.map(|b| b != *not))
            }
            Expr::InSub(a, q, not) => {
                let x = self.eval(a, env)?;
                let mut r = Some(false);
                for row in self.query(q, Some(env))?.1 {
                    let y = if matches!(x, V::Arr(_)) && row.len() > 1 { V::Arr(row.to_vec()) } else { row[0].clone() };
                    match self.binary("=", x.clone(), y)? {
                        V::Bool(true) => {
                            r = Some(true);
                            break;
                        }
                        V::Null => r = None,
                        _ => {}
                    }
                }
                of(r.map(|b| b != *not))
            }
            Expr::Like(a, b, ci, not) => match (self.eval(a, env)?, self.eval(b, env)?) {
                (V::Text(a), V::Text(b)) => {
                    let (a, b) = if *ci { (a.to_lowercase(), b.to_lowercase()) } else { (a, b) };
                    V::Bool(like(&a.chars().collect::<Vec<_>>(), &b.chars().collect::<Vec<_>>()) != *not)
                }
                _ => V::Null,
            },
            Expr::Between(a, lo, hi, not) => {
                let x = self.eval(a, env)?;
                let l = self.binary(">=", x.clone(), self.eval(lo, env)?)?;
                let h = self.binary("<=", x, self.eval(hi, env)?)?;
                match (l, h) {
                    (V::Bool(l), V::Bool(h)) => V::Bool((l && h) != *not),
                    _ => V::Null,
                }
            }
            Expr::Index(a, i) => {
                let zero = self.zero_based(a, env);
                match (self.eval(a, env)?, self.eval(i, env)?) {
                    (V::Arr(v), V::Int(i)) => {
                        let k = if zero { i } else { i - 1 };
                        if k < 0 {
                            V::Null
                        } else {
                            v.get(k as usize).cloned().unwrap_or(V::Null)
                        }
                    }
                    _ => V::Null,
                }
            }
            Expr::Slice(a, lo, hi) => {
                let zero = if self.zero_based(a, env) { 0 } else { 1 };
                let n = |x: &Option<Box<Expr>>, d: i64| -> R<i64> {
                    match x {
                        Some(x) => match self.eval(x, env)? {
                            V::Int(n) => Ok(n),
                            _ => Ok(d),
                        },
                        None => Ok(d),
                    }
                };
                match self.eval(a, env)? {
                    V::Arr(v) => {
                        let (l, h) = (n(lo, zero)?.max(zero), n(hi, v.len() as i64 - 1 + zero)?);
                        V::Arr(v.into_iter().enumerate().filter(|(i, _)| (*i as i64) + zero >= l && (*i as i64) + zero <= h).map(|x| x.1).collect())
                    }
                    _ => V::Null,
                }
            }
            Expr::Call { name, args, star, distinct, order, filter } => {
                if AGGS.contains(&name.as_str()) {
                    return self.aggregate(name, args, *star, *distinct, order, filter, env);
                }
                let mut v = vec![];
                for a in args {
                    v.push(self.eval(a, env)?);
                }
                self.call(name, v, args, env)?
            }
        })
    }

    #[allow(clippy::too_many_arguments)]
    fn aggregate(&self, name: &str, args: &[Expr], star: bool, distinct: bool, order: &[Order], filter: &Option<Box<Expr>>, env: &Env) -> R<V> {
        let rows = match env.group {
            Some(g) => g,
            None => return err("42803", "aggregate functions are not allowed here"),
        };
        let mut vals: Vec<(Vec<V>, Vec<V>)> = vec![];
        for r in rows {
            let e2 = Env { rels: env.rels, row: r, parent: env.parent, group: None };
            if let Some(f) = filter {
                if self.eval(f, &e2)? != V::Bool(true) {
                    continue;
                }
            }
            let mut k = vec![];
            for o in order {
                k.push(self.eval(&o.e, &e2)?);
            }
            let mut a = vec![];
            for x in args {
                a.push(self.eval(x, &e2)?);
            }
            vals.push((k, a));
        }
        if star {
            return Ok(V::Int(vals.len() as i64));
        }
        vals.sort_by(|a, b| cmp_keys(&a.0, &b.0, order));
        let mut first: Vec<V> = vec![];
        let sep = vals.first().and_then(|v| v.1.get(1)).cloned();
        for (_, a) in vals {
            if !distinct || !first.contains(&a[0]) {
                first.push(a[0].clone());
            }
        }
        if distinct && order.is_empty() {
            first.sort_by(|a, b| compare(a, b).unwrap_or(std::cmp::Ordering::Equal));
        }
        let set: Vec<V> = first.iter().filter(|v| !v.is_null()).cloned().collect();
        Ok(match name {
            "array_agg" => {
                if first.is_empty() {
                    V::Null
                } else {
                    V::Arr(first)
                }
            }
            "count" => V::Int(set.len() as i64),
            _ if set.is_empty() => V::Null,
            "string_agg" => {
                let s: Vec<String> = set.iter().map(as_text).collect();
                V::Text(s.join(&sep.map(|s| as_text(&s)).unwrap_or_default()))
            }
            "min" | "max" => {
                let mut best = set[0].clone();
                for v in &set[1..] {
                    let c = compare(v, &best)?;
                    if c == if name == "min" { std::cmp::Ordering::Less } else { std::cmp::Ordering::Greater } {
                        best = v.clone();
                    }
                }
                best
            }
            "sum" => V::Int(set.iter().map(|v| if let V::Int(n) = v { *n } else { 0 }).sum()),
            "bool_or" => V::Bool(set.contains(&V::Bool(true))),
            _ => V::Bool(!set.contains(&V::Bool(false))),
        })
    }

    fn binary(&self, op: &str, x: V, y: V) -> R<V> {
        use std::cmp::Ordering::*;
        if x.is_null() || y.is_null() {
            if op == "||" {
                match (&x, &y) {
                    (V::Arr(_), _) => return Ok(x),
                    (_, V::Arr(_)) => return Ok(y),
                    _ => {}
                }
            }
            return Ok(V::Null);
        }
        Ok(match op {
            "=" => V::Bool(compare(&x, &y)? == Equal),
            "<>" => V::Bool(compare(&x, &y)? != Equal),
            "<" => V::Bool(compare(&x, &y)? == Less),
            ">" => V::Bool(compare(&x, &y)? == Greater),
            "<=" => V::Bool(compare(&x, &y)? != Greater),
            ">=" => V::Bool(compare(&x, &y)? != Less),
            "||" => match (x, y) {
                (V::Arr(mut a), V::Arr(b)) => {
                    a.extend(b);
                    V::Arr(a)
                }
                (V::Arr(mut a), b) => {
                    a.push(b);
                    V::Arr(a)
                }
                (a, V::Arr(mut b)) => {
                    b.insert(0, a);
                    V::Arr(b)
                }
                (a, b) => V::Text(as_text(&a) + &as_text(&b)),
            },
            "+" | "-" | "*" | "/" | "%" | "&" | "|" | "<<" | ">>" => match (to_int(&x), to_int(&y)) {
                (Some(a), Some(b)) => V::Int(match op {
                    "+" => a.wrapping_add(b),
                    "-" => a.wrapping_sub(b),
                    "*" => a.wrapping_mul(b),
                    "/" if b != 0 => a / b,
                    "%" if b != 0 => a % b,
                    "&" => a & b,
                    "|" => a | b,
                    "<<" => a << (b & 63),
                    ">>" => a >> (b & 63),
                    _ => return err("22012", "division by zero"),
                }),
                _ => return err(UNDEFINED_FUNCTION, format!("operator does not exist: {op}")),
            },
            "@>" | "<@" | "&&" => match (x, y) {
                (V::Arr(a), V::Arr(b)) => V::Bool(match op {
                    "@>" => b.iter().all(|v| a.contains(v)),
                    "<@" => a.iter().all(|v| b.contains(v)),
                    _ => a.iter().any(|v| b.contains(v)),
                }),
                _ => return unsupported(op),
            },
            o => return unsupported(o),
        })
    }

    fn cast(&self, v: V, t: &str, src: &Expr, env: &Env) -> R<V> {
        if v.is_null() {
            return Ok(v);
        }
        let ty = match type_by_name(t) {
            Some(t) => t,
            None => return Ok(v),
        };
        Ok(match (ty, v) {
            (REGCLASS, V::Text(s)) => match self.cat().class_named(&s) {
                Some(o) => V::Int(o),
                None => return err(UNDEFINED_TABLE, format!("relation \"{s}\" does not exist")),
            },
            (REGNAMESPACE, V::Text(s)) => match self.cat().namespace_named(&s) {
                Some(o) => V::Int(o),
                None => return err(UNDEFINED_SCHEMA, format!("schema \"{s}\" does not exist")),
            },
            (REGTYPE, V::Text(s)) => match self.cat().type_named(&s) {
                Some(o) => V::Int(o),
                None => return err(UNDEFINED_OBJECT, format!("type \"{s}\" does not exist")),
            },
            (t, V::Int(n)) if is_text(t) => {
                let label = match self.static_type(src, env) {
                    REGCLASS => self.cat().class_label(n),
                    REGNAMESPACE => self.cat().namespace_label(n),
                    REGTYPE => self.cat().type_label(n),
                    _ => n.to_string(),
                };
                V::Text(label)
            }
            (t, V::Bool(b)) if is_text(t) => V::t(if b { "true" } else { "false" }),
            (t, V::Arr(a)) if is_text(t) => V::Text(arr_text(&a)),
            (CHAR, V::Text(s)) => V::Text(s.chars().take(1).collect()),
            (NAME, V::Text(s)) => V::Text(s.chars().take(63).collect()),
            (JSON | JSONB, V::Text(s)) => {
                if serde_json::from_str::<serde_json::Value>(&s).is_err() {
                    return err("22P02", "invalid input syntax for type json");
                }
                V::Text(s)
            }
            (t, V::Text(s)) if is_text(t) => V::Text(s),
            (BOOL, V::Text(s)) => V::Bool(["t", "true", "y", "yes", "on", "1"].contains(&s.to_lowercase().as_str())),
            (BOOL, V::Int(n)) => V::Bool(n != 0),
            (t, V::Bool(b)) if is_int(t) => V::Int(b as i64),
            (t, V::Text(s)) if is_int(t) => match s.trim().parse() {
                Ok(n) => V::Int(n),
                Err(_) => return err("22P02", format!("invalid input syntax for type integer: \"{s}\"")),
            },
            (t, V::Text(s)) if elem_of(t).is_some() => V::Arr(array_text(&s)?),
            (t, V::Arr(a)) if elem_of(t).is_some() => {
                let e = elem_of(t).unwrap();
                V::Arr(a.into_iter().map(|x| if is_text(e) && !x.is_null() { V::Text(as_text(&x)) } else { x }).collect())
            }
            (_, v) => v,
        })
    }
    fn static_type(&self, e: &Expr, env: &Env) -> Ty {
        match e {
            Expr::Cast(_, t) => type_by_name(t).unwrap_or(TEXT),
            Expr::Col(c) => {
                let mut x = Some(env);
                while let Some(v) = x {
                    if let Ok(Some((i, j))) = lookup(v.rels, c) {
                        return v.rels[i].cols[j].1;
                    }
                    x = v.parent;
                }
                TEXT
            }
            _ => TEXT,
        }
    }

    fn call(&self, name: &str, v: Vec<V>, args: &[Expr], env: &Env) -> R<V> {
        let text = |i: usize| v.get(i).map(as_text).unwrap_or_default();
        let int = |i: usize| v.get(i).and_then(to_int).unwrap_or(0);
        let strict_null = v.iter().any(|x| x.is_null());
        match name {
            "coalesce" => return Ok(v.into_iter().find(|x| !x.is_null()).unwrap_or(V::Null)),
            "concat" => return Ok(V::Text(v.iter().filter(|x| !x.is_null()).map(as_text).collect())),
            "concat_ws" => {
                let sep = text(0);
                return Ok(V::Text(v[1..].iter().filter(|x| !x.is_null()).map(as_text).collect::<Vec<_>>().join(&sep)));
            }
            "greatest" | "least" => {
                let mut set: Vec<V> = v.into_iter().filter(|x| !x.is_null()).collect();
                set.sort_by(|a, b| compare(a, b).unwrap_or(std::cmp::Ordering::Equal));
                return Ok(if name == "least" { set.first().cloned() } else { set.last().cloned() }.unwrap_or(V::Null));
            }
            "nullif" => {
                return Ok(if !strict_null && compare(&v[0], &v[1])? == std::cmp::Ordering::Equal { V::Null } else { v[0].clone() });
            }
            "format_type" => {
                return Ok(if v[0].is_null() { V::Null } else { V::Text(self.cat().format_type(int(0), if v.get(1).map(|x| x.is_null()).unwrap_or(true) { -1 } else { int(1) })) });
            }
            "array_append" => {
                let mut a = if let V::Arr(a) = &v[0] { a.clone() } else { vec![] };
                a.push(v[1].clone());
                return Ok(V::Arr(a));
            }
            _ => {}
        }
        if strict_null {
            return Ok(V::Null);
        }
        let chars = |s: &str| s.chars().collect::<Vec<char>>();
        let trim = |s: String, set: String, l: bool, r: bool| {
            let f = |c: char| set.contains(c);
            let mut s = s.as_str();
            if l {
                s = s.trim_start_matches(f);
            }
            if r {
                s = s.trim_end_matches(f);
            }
            V::t(s)
        };
        let set = if v.len() > 1 { text(1) } else { " ".to_string() };
        Ok(match name {
            "has_schema_privilege" | "has_sequence_privilege" | "has_function_privilege" => V::Bool(true),
            // what the role may do: the owner everything, a reader read, and a stranger nothing
            "pg_has_role" => V::Bool(self.e.extras.role == 0),
            "has_table_privilege" | "has_any_column_privilege" => V::Bool(match self.e.extras.role {
                0 => true,
                1 => v.last().map(as_text).unwrap_or_default().to_uppercase().contains("SELECT"),
                _ => false,
            }),
            "pg_is_other_temp_schema" => V::Bool(false),
            "pg_table_is_visible" => V::Bool(self.cat().class_visible(int(0))),
            "pg_function_is_visible" => V::Bool(self.cat().proc_visible(int(0))),
            "pg_type_is_visible" => V::Bool(true),
            "starts_with" => V::Bool(text(0).starts_with(&text(1))),
            "upper" => V::Text(text(0).to_uppercase()),
            "lower" => V::Text(text(0).to_lowercase()),
            "trim" | "btrim" => trim(text(0), set, true, true),
            "ltrim" => trim(text(0), set, true, false),
            "rtrim" => trim(text(0), set, false, true),
            "left" => {
                let c = chars(&text(0));
                let n = int(1);
                let k = if n < 0 { (c.len() as i64 + n).max(0) as usize } else { (n as usize).min(c.len()) };
                V::Text(c[..k].iter().collect())
            }
            "right" => {
                let c = chars(&text(0));
                let n = int(1);
                let k = if n < 0 { (c.len() as i64 + n).max(0) as usize } else { (n as usize).min(c.len()) };
                V::Text(c[c.len() - k..].iter().collect())
            }
            "substring" | "substr" => {
                if matches!(v[1], V::Text(_)) {
                    return unsupported("substring by pattern");
                }
                let c = chars(&text(0));
                let from = int(1);
                let to = if v.len() > 2 { from + int(2) } else { i64::MAX };
                V::Text(c.iter().enumerate().filter(|(i, _)| *i as i64 + 1 >= from && (*i as i64) + 1 < to).map(|x| x.1).collect())
            }
            "replace" => {
                if text(1).is_empty() {
                    V::Text(text(0))
                } else {
                    V::Text(text(0).replace(&text(1), &text(2)))
                }
            }
            "repeat" => V::Text(text(0).repeat(int(1).max(0) as usize)),
            "reverse" => V::Text(text(0).chars().rev().collect()),
            "split_part" => V::Text(text(0).split(&text(1)).nth((int(2) - 1).max(0) as usize).unwrap_or("").to_string()),
            "string_to_array" => V::Arr(text(0).split(&text(1)).map(V::t).collect()),
            "length" | "char_length" => V::Int(text(0).chars().count() as i64),
            "strpos" => match text(0).find(&text(1)) {
                Some(b) => V::Int(text(0)[..b].chars().count() as i64 + 1),
                None => V::Int(0),
            },
            "quote_ident" => V::Text(if is_simple(&text(0)) { text(0) } else { quote_ident(&text(0)) }),
            "quote_literal" => V::Text(format!("'{}'", text(0).replace('\'', "''"))),
            "array_to_string" => match &v[0] {
                V::Arr(a) => V::Text(a.iter().filter(|x| !x.is_null()).map(as_text).collect::<Vec<_>>().join(&text(1))),
                _ => V::Null,
            },
            "array_length" | "cardinality" => match &v[0] {
                V::Arr(a) if a.is_empty() && name == "array_length" => V::Null,
                V::Arr(a) => V::Int(a.len() as i64),
                _ => V::Null,
            },
            "array_upper" => match &v[0] {
                V::Arr(a) => V::Int(a.len() as i64 - if self.zero_based(&args[0], env) { 1 } else { 0 }),
                _ => V::Null,
            },
            "array_lower" => V::Int(if self.zero_based(&args[0], env) { 0 } else { 1 }),
            "array_position" => match &v[0] {
                V::Arr(a) => a
                    .iter()
                    .position(|x| compare(x, &v[1]).map(|c| c == std::cmp::Ordering::Equal).unwrap_or(false))
                    .map(|i| V::Int(i as i64 + if self.zero_based(&args[0], env) { 0 } else { 1 }))
                    .unwrap_or(V::Null),
                _ => V::Null,
            },
            "array_cat" => self.binary("||", v[0].clone(), v[1].clone())?,
            "now" | "current_timestamp" | "clock_timestamp" | "transaction_timestamp" => V::Int(self.e.clock),
            "current_schema" => V::t("public"),
            "current_schemas" => V::Arr(vec![V::t("public")]),
            "current_database" | "current_catalog" => V::t("db"),
            "current_user" | "session_user" => V::t("podo"),
            "version" => V::t("PostgreSQL 16.0"),
            "to_regclass" => self.cat().class_named(&text(0)).map(V::Int).unwrap_or(V::Null),
            "to_regnamespace" => self.cat().namespace_named(&text(0)).map(V::Int).unwrap_or(V::Null),
            "obj_description" | "col_description" => V::Null,
            "pg_get_expr" => V::Text(text(0)),
            "pg_relation_is_updatable" => V::Int(0),
            "bpchartypmodout" | "varchartypmodout" => V::Text(if int(0) > 4 { format!("({})", int(0) - 4) } else { "".into() }),
            "bittypmodout" | "varbittypmodout" => V::Text(if int(0) >= 0 { format!("({})", int(0)) } else { "".into() }),
            "numerictypmodout" => {
                let n = int(0) - 4;
                V::Text(if n >= 0 { format!("({},{})", (n >> 16) & 0xffff, ((n & 0x7ff) ^ 1024) - 1024) } else { "".into() })
            }
            "timetypmodout" | "timestamptypmodout" => {
                V::Text(if int(0) >= 0 { format!("({}) without time zone", int(0)) } else { " without time zone".into() })
            }
            "timestamptztypmodout" | "timetztypmodout" => V::Text(if int(0) >= 0 { format!("({}) with time zone", int(0)) } else { " with time zone".into() }),
            "intervaltypmodout" => V::Text(crate::catalog::interval_mod(int(0))),
            "pg_get_constraintdef" => opt(self.cat().constraintdef(int(0))),
            "pg_get_indexdef" => {
                if v.len() >= 2 && matches!(v[1], V::Int(_)) {
                    opt(self.cat().indexdef(int(0), int(1)))
                } else {
                    opt(self.cat().indexdef(int(0), 0))
                }
            }
            "pg_get_viewdef" => opt(self.cat().viewdef(int(0))),
            "pg_get_function_arguments" => opt(self.cat().proc_args(int(0))),
            "pg_get_function_identity_arguments" => opt(self.cat().proc_args(int(0)).map(|a| crate::ddl::without_defaults(&a))),
            "pg_get_function_result" => opt(self.cat().proc_result(int(0))),
            _ => return unsupported(name),
        })
    }
}

fn opt(s: Option<String>) -> V {
    s.map(V::Text).unwrap_or(V::Null)
}

fn column(rels: &[Rel], row: &[Row], c: &str) -> V {
    match lookup(rels, &[c.to_string()]) {
        Ok(Some((i, j))) => row[i][j].clone(),
        _ => V::Null,
    }
}

fn lookup(rels: &[Rel], c: &[String]) -> R<Option<(usize, usize)>> {
    let mut hit = None;
    let n = c.len();
    for (i, r) in rels.iter().enumerate() {
        if n > 1 && r.alias != c[n - 2] {
            continue;
        }
        for (j, x) in r.cols.iter().enumerate() {
            if x.0 == c[n - 1] {
                if hit.is_some() {
                    return err("42702", format!("column reference \"{}\" is ambiguous", c.join(".")));
                }
                hit = Some((i, j));
            }
        }
    }
    Ok(hit)
}

pub fn to_int(v: &V) -> Option<i64> {
    match v {
        V::Int(n) => Some(*n),
        V::Text(t) => t.trim().parse().ok(),
        _ => None,
    }
}
pub fn as_text(v: &V) -> String {
    match v {
        V::Null => String::new(),
        V::Bool(b) => if *b { "t" } else { "f" }.into(),
        V::Int(n) => n.to_string(),
        V::Text(s) => s.clone(),
        V::Arr(a) => arr_text(a),
    }
}
fn arr_text(a: &[V]) -> String {
    let v: Vec<String> = a
        .iter()
        .map(|x| match x {
            V::Null => "NULL".into(),
            x => {
                let s = as_text(x);
                if s.is_empty() || s.chars().any(|c| c.is_whitespace() || "{},\"\\".contains(c)) || s.eq_ignore_ascii_case("null") {
                    format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""))
                } else {
                    s
                }
            }
        })
        .collect();
    format!("{{{}}}", v.join(","))
}
fn array_text(s: &str) -> R<Vec<V>> {
    let bad = || err("22P02", format!("malformed array literal: \"{s}\""));
    let t = s.trim();
    if !(t.starts_with('{') && t.ends_with('}')) {
        return bad();
    }
    let inner: Vec<char> = t[1..t.len() - 1].chars().collect();
    let mut out = vec![];
    if inner.iter().all(|c| c.is_whitespace()) {
        return Ok(out);
    }
    let mut i = 0;
    loop {
        let mut cur = String::new();
        let mut quoted = false;
        while i < inner.len() && inner[i] != ',' {
            if inner[i] == '"' {
                quoted = true;
                i += 1;
                while i < inner.len() && inner[i] != '"' {
                    if inner[i] == '\\' {
                        i += 1;
                    }
                    if i < inner.len() {
                        cur.push(inner[i]);
                    }
                    i += 1;
                }
            } else {
                cur.push(inner[i]);
            }
            i += 1;
        }
        out.push(if !quoted && cur.trim().eq_ignore_ascii_case("null") { V::Null } else { V::Text(if quoted { cur } else { cur.trim().to_string() }) });
        if i >= inner.len() {
            return Ok(out);
        }
        i += 1;
    }
}
fn like(s: &[char], p: &[char]) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some('%') => (0..=s.len()).any(|k| like(&s[k..], &p[1..])),
        Some('_') => !s.is_empty() && like(&s[1..], &p[1..]),
        Some('\\') if p.len() > 1 => s.first() == Some(&p[1]) && like(&s[1..], &p[2..]),
        Some(c) => s.first() == Some(c) && like(&s[1..], &p[1..]),
    }
}

pub fn compare(a: &V, b: &V) -> R<std::cmp::Ordering> {
    Ok(match (a, b) {
        (V::Int(x), V::Int(y)) => x.cmp(y),
        (V::Text(x), V::Text(y)) => x.cmp(y),
        (V::Bool(x), V::Bool(y)) => x.cmp(y),
        (V::Arr(x), V::Arr(y)) => {
            for (p, q) in x.iter().zip(y) {
                let c = compare(p, q)?;
                if c != std::cmp::Ordering::Equal {
                    return Ok(c);
                }
            }
            x.len().cmp(&y.len())
        }
        (V::Int(x), V::Text(y)) => match y.trim().parse::<i64>() {
            Ok(n) => x.cmp(&n),
            Err(_) => return err("22P02", format!("invalid input syntax for type integer: \"{y}\"")),
        },
        (V::Text(_), V::Int(_)) => compare(b, a)?.reverse(),
        (V::Bool(x), V::Text(y)) => x.cmp(&(y.starts_with('t'))),
        (V::Text(_), V::Bool(_)) => compare(b, a)?.reverse(),
        (V::Null, V::Null) => std::cmp::Ordering::Equal,
        (V::Null, _) => std::cmp::Ordering::Greater,
        (_, V::Null) => std::cmp::Ordering::Less,
        _ => return err(UNDEFINED_FUNCTION, "operator does not exist"),
    })
}

fn cmp_keys(a: &[V], b: &[V], order: &[Order]) -> std::cmp::Ordering {
    use std::cmp::Ordering::*;
    for ((x, y), o) in a.iter().zip(b).zip(order) {
        let c = match (x.is_null(), y.is_null()) {
            (true, true) => Equal,
            (true, false) => {
                if o.nulls_first {
                    Less
                } else {
                    Greater
                }
            }
            (false, true) => {
                if o.nulls_first {
                    Greater
                } else {
                    Less
                }
            }
            _ => {
                let c = compare(x, y).unwrap_or(Equal);
                if o.desc {
                    c.reverse()
                } else {
                    c
                }
            }
        };
        if c != Equal {
            return c;
        }
    }
    Equal
}
