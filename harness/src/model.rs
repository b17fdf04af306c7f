//! The reference model of a database: what a snapshot states, independent of podo's code.
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct Db {
    pub schemas: BTreeMap<String, Schema>,
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct Schema {
    pub rels: BTreeMap<String, Rel>,
    pub funcs: BTreeMap<String, Func>,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Rel {
    Table(Table),
    View(View),
    Index(Index),
    Seq(Seq),
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct Table {
    pub cols: Vec<Col>,
    pub cons: BTreeMap<String, Con>,
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct Col {
    pub name: String,
    pub ty: String,
    pub not_null: bool,
    pub default: Option<String>,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Con {
    Pk(Key),
    Unique(Key),
    Fk(Fk),
    Check(CheckCon),
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct Key {
    pub cols: Vec<String>,
    pub deferrable: bool,
    pub deferred: bool,
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct Fk {
    pub cols: Vec<String>,
    pub tschema: String,
    pub ttable: String,
    pub tcols: Vec<String>,
    pub mat: String,
    pub upd: String,
    pub del: String,
    pub deferrable: bool,
    pub deferred: bool,
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct CheckCon {
    pub expr: String,
    pub deferrable: bool,
    pub deferred: bool,
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct View {
    pub query: String,
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct Index {
    pub table: String,
    pub unique: bool,
    pub method: String,
    pub keys: Vec<String>,
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct Seq {
    pub ty: String,
    pub inc: i64,
    pub min: i64,
    pub max: i64,
    pub start: i64,
    pub cache: i64,
    pub cycle: bool,
    pub owned: Option<(String, String)>,
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct Func {
    pub body: String,
    pub lang: String,
    pub returns: String,
    pub vol: String,
}

impl Con {
    pub fn kind(&self) -> &'static str {
        match self {
            Con::Pk(_) => "primary key",
            Con::Unique(_) => "unique",
            Con::Fk(_) => "foreign key",
            Con::Check(_) => "check",
        }
    }
    pub fn key(&self) -> Option<&Key> {
        match self {
            Con::Pk(k) | Con::Unique(k) => Some(k),
            _ => None,
        }
    }
    pub fn deferral(&self) -> (bool, bool) {
        match self {
            Con::Pk(k) | Con::Unique(k) => (k.deferrable, k.deferred),
            Con::Fk(f) => (f.deferrable, f.deferred),
            Con::Check(c) => (c.deferrable, c.deferred),
        }
    }
}

impl Rel {
    pub fn kind(&self) -> &'static str {
        match self {
            Rel::Table(_) => "table",
            Rel::View(_) => "view",
            Rel::Index(_) => "index",
            Rel::Seq(_) => "sequence",
        }
    }
    pub fn table(&self) -> Option<&Table> {
        if let Rel::Table(t) = self {
            Some(t)
        } else {
            None
        }
    }
    pub fn table_mut(&mut self) -> Option<&mut Table> {
        if let Rel::Table(t) = self {
            Some(t)
        } else {
            None
        }
    }
}

impl Table {
    pub fn col(&self, n: &str) -> Option<&Col> {
        self.cols.iter().find(|c| c.name == n)
    }
    pub fn col_mut(&mut self, n: &str) -> Option<&mut Col> {
        self.cols.iter_mut().find(|c| c.name == n)
    }
    pub fn pos(&self, n: &str) -> Option<usize> {
        self.cols.iter().position(|c| c.name == n)
    }
}

impl Db {
    pub fn table(&self, s: &str, t: &str) -> Option<&Table> {
        self.schemas.get(s)?.rels.get(t)?.table()
    }
    pub fn table_mut(&mut self, s: &str, t: &str) -> Option<&mut Table> {
        self.schemas.get_mut(s)?.rels.get_mut(t)?.table_mut()
    }
    pub fn tables(&self) -> Vec<(String, String)> {
        self.rels_of("table")
    }
    pub fn rels_of(&self, kind: &str) -> Vec<(String, String)> {
        let mut v = vec![];
        for (s, sc) in &self.schemas {
            for (r, rel) in &sc.rels {
                if rel.kind() == kind {
                    v.push((s.clone(), r.clone()));
                }
            }
        }
        v
    }
    pub fn funcs(&self) -> Vec<(String, String)> {
        let mut v = vec![];
        for (s, sc) in &self.schemas {
            for f in sc.funcs.keys() {
                v.push((s.clone(), f.clone()));
            }
        }
        v
    }
    pub fn objects(&self) -> usize {
        self.schemas
            .values()
            .map(|s| {
                1 + s.funcs.len()
                    + s.rels
                        .values()
                        .map(|r| match r {
                            Rel::Table(t) => 1 + t.cols.len() + t.cons.len(),
                            _ => 1,
                        })
                        .sum::<usize>()
            })
            .sum()
    }
    /// without what the difference does not carry: which column owns a sequence
    pub fn without_owners(&self) -> Db {
        let mut d = self.clone();
        for s in d.schemas.values_mut() {
            for r in s.rels.values_mut() {
                if let Rel::Seq(q) = r {
                    q.owned = None;
                }
            }
        }
        d
    }
    /// columns in name order
    pub fn with_sorted_columns(&self) -> Db {
        let mut d = self.clone();
        for s in d.schemas.values_mut() {
            for r in s.rels.values_mut() {
                if let Rel::Table(t) = r {
                    t.cols.sort_by(|a, b| a.name.cmp(&b.name));
                }
            }
        }
        d
    }
}

pub fn seq_bounds(ty: &str) -> Option<(i64, i64)> {
    Some(match ty.to_lowercase().as_str() {
        "int2" | "smallint" => (i16::MIN as i64, i16::MAX as i64),
        "int4" | "integer" | "int" => (i32::MIN as i64, i32::MAX as i64),
        "int8" | "bigint" => (i64::MIN, i64::MAX),
        _ => return None,
    })
}

/// The attributes a sequence has when nothing but its type and increment is stated.
pub fn seq_default(ty: &str, inc: i64) -> Seq {
    let (lo, hi) = seq_bounds(ty).unwrap_or((i64::MIN, i64::MAX));
    let (min, max) = if inc > 0 { (1, hi) } else { (lo, -1) };
    Seq {
        ty: ty.to_string(),
        inc,
        min,
        max,
        start: if inc > 0 { min } else { max },
        cache: 1,
        cycle: false,
        owned: None,
    }
}

/// A readable account of how two databases differ (first few differences).
pub fn describe_diff(a: &Db, b: &Db) -> String {
    let mut out = vec![];
    for s in a.schemas.keys().chain(b.schemas.keys().filter(|k| !a.schemas.contains_key(*k))) {
        match (a.schemas.get(s), b.schemas.get(s)) {
            (Some(_), None) => out.push(format!("schema {s:?} missing")),
            (None, Some(_)) => out.push(format!("schema {s:?} extra")),
            (Some(x), Some(y)) => {
                for r in x.rels.keys().chain(y.rels.keys().filter(|k| !x.rels.contains_key(*k))) {
                    match (x.rels.get(r), y.rels.get(r)) {
                        (Some(p), None) => out.push(format!("{} {s:?}.{r:?} missing", p.kind())),
                        (None, Some(q)) => out.push(format!("{} {s:?}.{r:?} extra", q.kind())),
                        (Some(p), Some(q)) if p != q => match (p, q) {
                            (Rel::Table(t), Rel::Table(u)) => {
                                if t.cols != u.cols {
                                    out.push(format!("table {s:?}.{r:?} columns: expected {:?}, got {:?}", t.cols, u.cols));
                                }
                                for c in t.cons.keys().chain(u.cons.keys().filter(|k| !t.cons.contains_key(*k))) {
                                    if t.cons.get(c) != u.cons.get(c) {
                                        out.push(format!(
                                            "constraint {c:?} of {s:?}.{r:?}: expected {:?}, got {:?}",
                                            t.cons.get(c),
                                            u.cons.get(c)
                                        ));
                                    }
                                }
                            }
                            _ => out.push(format!("{s:?}.{r:?}: expected {p:?}, got {q:?}")),
                        },
                        _ => {}
                    }
                }
                for f in x.funcs.keys().chain(y.funcs.keys().filter(|k| !x.funcs.contains_key(*k))) {
                    if x.funcs.get(f) != y.funcs.get(f) {
                        out.push(format!(
                            "function {s:?}.{f:?}: expected {:?}, got {:?}",
                            x.funcs.get(f),
                            y.funcs.get(f)
                        ));
                    }
                }
            }
            _ => {}
        }
    }
    let n = out.len();
    out.truncate(6);
    let mut t = out.join("; ");
    if n > 6 {
        t.push_str(&format!("; and {} more", n - 6));
    }
    t
}
