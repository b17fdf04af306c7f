//! Generators of databases, of edits to them, and the repair that keeps them valid.
use crate::model::*;
use crate::pbt::Src;
use crate::sqltext::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy)]
pub struct Opts {
    /// hold to what PostgreSQL itself accepts (and to the documented limits of what podo orders)
    pub pg: bool,
    pub quirky: u64,
    pub max_schemas: usize,
    pub max_tables: usize,
}

impl Opts {
    pub fn pure() -> Opts {
        Opts { pg: false, quirky: 25, max_schemas: 3, max_tables: 4 }
    }
    pub fn pg() -> Opts {
        Opts { pg: true, quirky: 20, max_schemas: 3, max_tables: 4 }
    }
    pub fn small() -> Opts {
        Opts { pg: true, quirky: 12, max_schemas: 2, max_tables: 2 }
    }
}

const PLAIN: &[&str] = &[
    "a", "b", "c", "d", "id", "users", "orders", "name", "items", "log", "t1", "t2", "price", "created_at", "owner", "k",
];
const QUIRKY: &[&str] = &[
    "Has Space", "UPPER", "camelCase", "quo\"te", "\"", "select", "table", "order", "user", "dash-ed", "ünïcödé", "日本", "semi;colon",
    "it's", "per%cent", "100", "3rd", "true", "null", "~", "yes", "on", "x: y", "# c", "a #b", "- d", "[e]", "{f}", "&g", "*h", "!i",
    "|j", "@k", "`l`", "back\\slash", "primary key", "column x", "as", "a=b", "a!", "$1", "$podo$", "comma,sep", "(paren)", "a,b",
    "check", "references t", "0x1F", "1e3", "-1", ".5", "?", ">", "'", "''", "a''b", "--", "/*", "*/", "default", "NULL", "type", "index on",
    "\\", "\\n", "tab\tin", "update_log", "delete", "update", "é", "emoji😀", "=", "a = b", ":", "::", "%s", "{}", "<<", "=>",
    "schema s", "foreign key", "unique", "Ünder", "İ", "ß", "K", "two  spaces", "x   y",
];

pub fn name(s: &mut Src, o: &Opts) -> String {
    if s.chance(o.quirky) {
        if s.chance(70) {
            let k = s.n(QUIRKY.len() + 1);
            match QUIRKY.get(k) {
                Some(q) => q.to_string(),
                None => "a.b".into(),
            }
        } else {
            let n = s.range(1, 12);
            let alpha: Vec<char> = "ab zAZ09_\"'.;:,-#!=%$\\/()[]{}<>&|~^*+?@`éß日".chars().collect();
            let t: String = (0..n).map(|_| *s.pick(&alpha)).collect();
            fix_name(t)
        }
    } else if s.chance(4) {
        let n = s.range(30, 60);
        format!("l{}", "o".repeat(n))
    } else {
        s.pick(PLAIN).to_string()
    }
}

/// Names that begin or end with white space, or are empty, cannot be written in a definition.
pub fn fix_name(t: String) -> String {
    let t = t.trim().to_string();
    if t.is_empty() {
        return "n".into();
    }
    t
}

fn table_name_ok(t: &str) -> bool {
    // `on <table>` of an index is told apart from `on update` and `on delete` in lower case and by one space
    for k in ["update", "delete"] {
        if t.len() >= k.len() && t.is_char_boundary(k.len()) && t[..k.len()].eq_ignore_ascii_case(k) {
            let rest = &t[k.len()..];
            let white = rest.len() - rest.trim_start().len();
            if !t.starts_with(k) || white > 1 || (white == 1 && !rest.starts_with(' ')) {
                return false;
            }
        }
    }
    true
}

fn fresh(s: &mut Src, o: &Opts, taken: &dyn Fn(&str) -> bool) -> String {
    for _ in 0..8 {
        let n = name(s, o);
        if !taken(&n) {
            return n;
        }
    }
    let mut k = 0;
    loop {
        let n = format!("n{k}");
        if !taken(&n) {
            return n;
        }
        k += 1;
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cls {
    Int,
    Text,
    Bool,
    Num,
    Time,
    Json,
    Arr,
    Other,
}

const TYPES: &[(&str, Cls)] = &[
    ("integer", Cls::Int),
    ("text", Cls::Text),
    ("int8", Cls::Int),
    ("smallint", Cls::Int),
    ("varchar(20)", Cls::Text),
    ("character varying(7)", Cls::Text),
    ("boolean", Cls::Bool),
    ("numeric(10,2)", Cls::Num),
    ("numeric(10, 2)", Cls::Num),
    ("double precision", Cls::Num),
    ("timestamp with time zone", Cls::Time),
    ("timestamp(3) with time zone", Cls::Time),
    ("timestamp", Cls::Time),
    ("date", Cls::Time),
    ("jsonb", Cls::Json),
    ("integer[]", Cls::Arr),
    ("text[]", Cls::Arr),
    ("uuid", Cls::Other),
    ("\"char\"", Cls::Other),
    ("bytea", Cls::Other),
    ("interval day to second", Cls::Other),
    // the same types written otherwise
    ("timestamp  with time zone", Cls::Time),
    ("double  precision", Cls::Num),
    ("INTEGER", Cls::Int),
    ("Character Varying(7)", Cls::Text),
];

pub fn cls(ty: &str) -> Cls {
    TYPES.iter().find(|t| t.0 == ty).map(|t| t.1).unwrap_or(Cls::Other)
}

fn gen_type(s: &mut Src) -> String {
    let i = s.n(TYPES.len());
    TYPES[i].0.to_string()
}

fn gen_default(s: &mut Src, c: Cls) -> String {
    let pool: &[&str] = match c {
        Cls::Int => &["0", "42", "(1 + 2)", "'7'::integer", "-1", "(2 * (3 + 4))"],
        Cls::Text => &[
            "'x'", "'a = b!'", "'it''s'", "''", "'line1\nline2'", "concat('a',\n       'b')", "'ünï'", "'NOT NULL'",
            "'; DROP TABLE x; --'", "E'\\n'", "'!'", "'='", "' lead'", "upper('x')", "'\"q\"'", "'$podo$'", "'a: b # c'",
        ],
        Cls::Bool => &["true", "false", "(1 = 1)", "(NOT true)", "(1 != 2)"],
        Cls::Num => &["1.5", "0", "'NaN'::numeric"],
        Cls::Time => &["now()", "CURRENT_TIMESTAMP", "'2020-01-01'"],
        Cls::Json => &["'{}'::jsonb", "'{\"a\": [1, 2], \"b\": \"!=\"}'::jsonb"],
        Cls::Arr => &["'{}'", "ARRAY[]::text[]"],
        Cls::Other => &["NULL"],
    };
    s.pick(pool).to_string()
}

pub fn qi(n: &str) -> String {
    if is_simple(n) {
        n.to_string()
    } else {
        quote_ident(n)
    }
}

fn nextval(sch: &str, q: &str) -> String {
    let inner = format!("{}.{}", quote_ident(sch), quote_ident(q));
    format!("nextval('{}'::regclass)", inner.replace('\'', "''"))
}

fn gen_check(s: &mut Src, t: &Table, db: &Db) -> String {
    if t.cols.is_empty() {
        return "1 = 1".into();
    }
    let c = s.pick(&t.cols).clone();
    let q = quote_ident(&c.name);
    let one = match cls(&c.ty) {
        Cls::Int | Cls::Num => format!("{q} {} {}", s.pick(&[">", "<=", "<>", "!="]), s.n(5)),
        Cls::Text => {
            let v = *s.pick(&["x", ")", "(", "it''s", "a; b", "", "--", "/*"]);
            match s.n(3) {
                0 => format!("length({q}) < {}", s.range(1, 30)),
                1 => format!("{q} <> '{v}'"),
                _ => format!("{q} IN ('{v}', 'y')"),
            }
        }
        Cls::Bool => q.clone(),
        _ => format!("{q} IS NOT NULL"),
    };
    match s.weighted(&[6, 1, 2, 1, 1]) {
        0 => one,
        1 => format!("({one})"),
        2 => {
            let d = s.pick(&t.cols).name.clone();
            format!("({one}) OR ({} IS NULL)", quote_ident(&d))
        }
        3 => format!("{one}\n  AND 1 = 1"),
        _ => {
            let fs: Vec<_> = db.funcs().into_iter().filter(|f| !f.1.contains('(')).collect();
            if fs.is_empty() {
                one
            } else {
                let f = s.pick(&fs).clone();
                format!("{}.{}() IS NULL OR {one}", quote_ident(&f.0), quote_ident(&f.1))
            }
        }
    }
}

fn subset(s: &mut Src, t: &Table, max: usize) -> Vec<String> {
    let mut v: Vec<String> = t.cols.iter().map(|c| c.name.clone()).collect();
    s.shuffle(&mut v);
    let max = if max > 1 && s.chance(6) { 9 } else { max };
    let n = s.range(1, max.min(v.len()).max(1));
    v.truncate(n);
    v
}

fn gen_deferral(s: &mut Src, o: &Opts) -> (bool, bool) {
    match s.weighted(&[6, 2, 2, 1]) {
        0 => (false, false),
        1 => (true, false),
        2 => (true, true),
        _ => {
            if o.pg {
                (true, true)
            } else {
                (false, true)
            }
        }
    }
}

pub fn gen_col(s: &mut Src, o: &Opts, t: &Table, db: &Db) -> Col {
    let n = fresh(s, o, &|x| t.col(x).is_some());
    let ty = gen_type(s);
    let not_null = s.chance(35);
    let default = gen_col_default(s, &ty, db);
    Col { name: n, ty, not_null, default }
}

fn gen_col_default(s: &mut Src, ty: &str, db: &Db) -> Option<String> {
    if !s.chance(40) {
        return None;
    }
    if cls(ty) == Cls::Int && s.chance(40) {
        let q = db.rels_of("sequence");
        if !q.is_empty() {
            let (a, b) = s.pick(&q).clone();
            return Some(nextval(&a, &b));
        }
    }
    if s.chance(8) {
        let f: Vec<_> = db.funcs().into_iter().filter(|f| !f.1.contains('(')).collect();
        if !f.is_empty() {
            let (a, b) = s.pick(&f).clone();
            return Some(format!("{}.{}()", quote_ident(&a), quote_ident(&b)));
        }
    }
    Some(gen_default(s, cls(ty)))
}

const RULES: &[&str] = &["NO ACTION", "CASCADE", "RESTRICT", "SET NULL", "SET DEFAULT"];

/// The columns of an index that can carry a foreign key.
fn index_columns(i: &Index) -> Option<Vec<String>> {
    if !i.unique {
        return None;
    }
    let v: Option<Vec<String>> = i.keys.iter().map(|k| plain_key(k)).collect();
    v.filter(|v| v.iter().collect::<BTreeSet<_>>().len() == v.len())
}

/// What a foreign key over these columns of the table can stand on: constraints, then indexes.
fn standing(db: &Db, s: &str, t: &str, cols: &[String]) -> Vec<String> {
    let set: BTreeSet<&String> = cols.iter().collect();
    let Some(tb) = db.table(s, t) else { return vec![] };
    let mut v = vec![];
    for (n, c) in &tb.cons {
        if let Some(k) = c.key() {
            if !k.deferrable && k.cols.iter().collect::<BTreeSet<_>>() == set {
                v.push(format!("constraint {n} {c:?}"));
            }
        }
    }
    for (n, r) in &db.schemas[s].rels {
        if let Rel::Index(i) = r {
            if i.table == t && index_columns(i).map(|c| c.iter().collect::<BTreeSet<_>>() == set).unwrap_or(false) {
                v.push(format!("index {n} {i:?}"));
            }
        }
    }
    v
}

pub fn gen_con(s: &mut Src, o: &Opts, db: &Db, sch: &str, tn: &str, kind: usize) -> Option<Con> {
    let t = db.table(sch, tn)?;
    if t.cols.is_empty() && kind != 3 {
        return None;
    }
    Some(match kind {
        0 | 1 => {
            let cols = subset(s, t, 3);
            let (deferrable, deferred) = if s.chance(25) { gen_deferral(s, o) } else { (false, false) };
            let k = Key { cols, deferrable, deferred };
            if kind == 0 {
                Con::Pk(k)
            } else {
                Con::Unique(k)
            }
        }
        2 => {
            // a foreign key to some key
            let mut keys = vec![];
            for (a, b) in db.tables() {
                for c in db.table(&a, &b).unwrap().cons.values() {
                    if let Some(k) = c.key() {
                        if !k.deferrable && k.cols.len() <= t.cols.len() {
                            keys.push((a.clone(), b.clone(), k.cols.clone()));
                        }
                    }
                }
            }
            if s.chance(30) {
                // ... or to a unique index, where it is the only thing to stand on
                let ix: Vec<_> = db
                    .rels_of("index")
                    .into_iter()
                    .filter_map(|(a, b)| match &db.schemas[&a].rels[&b] {
                        Rel::Index(i) if !a.contains('.') && !i.table.contains('.') => {
                            let cols = index_columns(i)?;
                            (cols.len() <= t.cols.len() && standing(db, &a, &i.table, &cols).len() == 1).then(|| (a.clone(), i.table.clone(), cols))
                        }
                        _ => None,
                    })
                    .collect();
                if !ix.is_empty() {
                    keys = ix;
                }
            }
            if keys.is_empty() {
                return None;
            }
            let (tschema, ttable, mut tcols) = s.pick(&keys).clone();
            if s.chance(20) {
                s.shuffle(&mut tcols);
            }
            let mut v: Vec<String> = t.cols.iter().map(|c| c.name.clone()).collect();
            s.shuffle(&mut v);
            v.truncate(tcols.len());
            let (deferrable, deferred) = gen_deferral(s, o);
            let mut f = Fk {
                cols: v,
                tschema,
                ttable,
                tcols,
                mat: if s.chance(20) { "FULL" } else { "SIMPLE" }.into(),
                upd: s.pick(RULES).to_string(),
                del: s.pick(RULES).to_string(),
                deferrable,
                deferred,
            };
            if s.chance(40) {
                f.upd = "NO ACTION".into();
                f.del = "NO ACTION".into();
            }
            Con::Fk(f)
        }
        _ => {
            let expr = gen_check(s, t, db);
            let (deferrable, deferred) = if o.pg || !s.chance(20) { (false, false) } else { gen_deferral(s, o) };
            Con::Check(CheckCon { expr, deferrable, deferred })
        }
    })
}

pub fn gen_index(s: &mut Src, db: &Db, sch: &str) -> Option<Index> {
    let tabs: Vec<String> = db.schemas.get(sch)?.rels.iter().filter(|(_, r)| matches!(r, Rel::Table(t) if !t.cols.is_empty())).map(|(n, _)| n.clone()).collect();
    if tabs.is_empty() {
        return None;
    }
    let tn = s.pick(&tabs).clone();
    let t = db.table(sch, &tn)?;
    let method = s.pick(&["btree", "btree", "btree", "hash", "gin", "gist", "brin"]).to_string();
    let unique = method == "btree" && s.chance(40);
    let cols = subset(s, t, if method == "hash" { 1 } else { 3 });
    let keys = cols
        .iter()
        .map(|c| {
            let q = if s.flag() { quote_ident(c) } else { qi(c) };
            if method != "btree" {
                return q;
            }
            let k = s.weighted(&[5, 1, 1, 1, 1, 1]);
            match k {
                0 => q,
                1 => format!("{q} DESC"),
                2 => format!("lower({q})"),
                3 => format!("{q} DESC NULLS LAST"),
                4 => format!("({q} IS NULL)"),
                _ => format!("{q} NULLS FIRST"),
            }
        })
        .collect();
    Some(Index { table: tn, unique, method, keys })
}

pub fn gen_view(s: &mut Src, db: &Db) -> View {
    let tabs: Vec<_> = db.tables().into_iter().filter(|(a, b)| !db.table(a, b).unwrap().cols.is_empty()).collect();
    if tabs.is_empty() || s.chance(10) {
        return View { query: s.pick(&["SELECT 1 AS one", "SELECT 'a; b' AS x", "SELECT now() AS at\n"]).to_string() };
    }
    let (a, b) = s.pick(&tabs).clone();
    let t = db.table(&a, &b).unwrap();
    let cols = subset(s, t, 3);
    let list = cols.iter().map(|c| quote_ident(c)).collect::<Vec<_>>().join(", ");
    let mut q = format!("SELECT {list} FROM {}.{}", quote_ident(&a), quote_ident(&b));
    match s.n(4) {
        0 => {}
        1 => q.push_str(&format!(" WHERE {} IS NOT NULL", quote_ident(&cols[0]))),
        2 => q.push_str(&format!("\nWHERE {} IS NOT NULL\n  AND 'x; -- y' <> ''", quote_ident(&cols[0]))),
        _ => q.push_str(" LIMIT 10"),
    }
    if s.chance(10) {
        q.push(';');
    }
    View { query: q }
}

pub fn gen_seq(s: &mut Src, db: &Db, sch: &str) -> Seq {
    let ty = s.pick(&["int8", "integer", "smallint", "int4", "bigint", "int2"]).to_string();
    let inc = *s.pick(&[1i64, -1, 5, -10, 100]);
    let mut q = seq_default(&ty, inc);
    let (lo, hi) = seq_bounds(&ty).unwrap();
    if s.chance(25) {
        q.min = *s.pick(&[lo, -100, 0, 1, 5]);
    }
    if s.chance(25) {
        q.max = *s.pick(&[hi, 1000, 20, 100]);
    }
    if q.max <= q.min {
        q.max = q.min + 1000;
    }
    q.start = if inc > 0 { q.min } else { q.max };
    if s.chance(30) {
        q.start = *s.pick(&[q.min, q.max, q.min + 1]);
    }
    if s.chance(25) {
        q.cache = *s.pick(&[1i64, 2, 50, 10_000_000_000]);
    }
    q.cycle = s.chance(25);
    if s.chance(25) {
        let tabs: Vec<(String, String)> = db.tables().into_iter().filter(|x| x.0 == sch).collect();
        if !tabs.is_empty() {
            let (a, b) = s.pick(&tabs).clone();
            if let Some(c) = db.table(&a, &b).unwrap().cols.first() {
                q.owned = Some((b, c.name.clone()));
            }
        }
    }
    q
}

pub fn gen_body(s: &mut Src) -> String {
    let pool = [
        "SELECT 1", "\nBEGIN\n  RETURN NEW;\nEND;\n", "SELECT '$$'::text", "SELECT '$podo$', '$podo_$'", "  SELECT 1;  ",
        "SELECT $1", "SELECT ';' -- trailing", "SELECT E'\\\\' || $a$ x $a$", "SELECT \"Quoted\"; SELECT 2;", "\tSELECT 'é日'\n\n", "SELECT 'a: b' # c",
        "-- only a comment", "SELECT $podo", "SELECT $podo_$podo", "x$podo$", "SELECT 1;\r\nSELECT 2;\r\n", "'", "$",
    ];
    let b = s.pick(&pool).to_string();
    if s.n(400) == 399 {
        // larger than any buffer of the usual sizes
        let n = *s.pick(&[5_000usize, 20_000, 70_000]);
        return format!("{b} -- {}", "long enough; ".repeat(n / 13));
    }
    b
}

pub fn gen_func(s: &mut Src) -> Func {
    Func {
        body: gen_body(s),
        lang: s.pick(&["SQL", "plpgsql", "sql", "\"My Lang\""]).to_string(),
        returns: s.pick(&["void", "void", "VOID", "integer", "trigger", "SETOF text", "TABLE(a integer, b text)", "character varying", "integer[]"]).to_string(),
        vol: s.pick(&["VOLATILE", "STABLE", "IMMUTABLE", "stable"]).to_string(),
    }
}

pub fn func_name(s: &mut Src, o: &Opts, sc: &Schema) -> String {
    let base = |n: &str| n.split('(').next().unwrap().trim().to_string();
    let taken = |x: &str| sc.funcs.keys().any(|k| base(k) == x);
    let mut n = fresh(s, o, &taken).replace('(', "[").trim().to_string();
    if n.is_empty() || taken(&n) {
        n = fresh(s, &Opts { quirky: 0, ..*o }, &taken);
    }
    if s.chance(40) {
        n.push_str(*s.pick(&[
            "(a integer)",
            "(a integer, b text DEFAULT 'x, y')",
            "(text)",
            "(VARIADIC xs integer[])",
            "(a numeric(10, 2) default 1.5)",
            "(\"weird, arg\" integer, INOUT b text)",
            "(a text = ')')",
            "(a integer[] DEFAULT ARRAY[1, 2], b text)",
            "(a integer Default 1, b text)",
            "(a integer := 1)",
            "(a integer\tDEFAULT 1)",
            "(a integer\n  default\n  1, b text DEFAULT'x')",
            "(a integer[]DEFAULT NULL, b numeric(4)default(1))",
            "(default_a integer, a$default integer)",
            "(a defaulted[], b default_kind)",
            "(a text DEFAULT 'it''s, (', b integer)",
            "(\"a default b\" integer)",
            "(a double precision DEFAULT (1 + 2), b integer)",
            "()",
            "(a integer, b integer)",
        ]));
    }
    n
}

fn rel_taken(db: &Db, sch: &str) -> BTreeSet<String> {
    let mut v = BTreeSet::new();
    if let Some(sc) = db.schemas.get(sch) {
        for (n, r) in &sc.rels {
            v.insert(n.clone());
            if let Rel::Table(t) = r {
                for (c, k) in &t.cons {
                    if k.key().is_some() {
                        v.insert(c.clone());
                    }
                }
            }
        }
    }
    v
}

pub fn fresh_rel(s: &mut Src, o: &Opts, db: &Db, sch: &str, table: bool) -> String {
    let tk = rel_taken(db, sch);
    fresh(s, o, &|x| tk.contains(x) || table && !table_name_ok(x))
}

fn fresh_con(s: &mut Src, o: &Opts, db: &Db, sch: &str, tn: &str, kind: usize) -> String {
    let tk = rel_taken(db, sch);
    let t = db.table(sch, tn).unwrap();
    fresh(s, o, &|x| t.cons.contains_key(x) || kind < 2 && tk.contains(x))
}

pub fn gen_db(s: &mut Src, o: &Opts) -> Db {
    let mut db = Db::default();
    let ns = s.range(1, o.max_schemas);
    for i in 0..ns {
        let n = if i == 0 && s.chance(60) { "public".to_string() } else { fresh(s, o, &|x| db.schemas.contains_key(x)) };
        db.schemas.entry(n).or_default();
    }
    let schemas: Vec<String> = db.schemas.keys().cloned().collect();
    // now and then much of something
    let much = |s: &mut Src, n: usize| if s.chance(2) { s.n(8 * n) } else { s.n(n) };
    for sch in &schemas {
        for _ in 0..much(s, 3) {
            let n = func_name(s, o, &db.schemas[sch]);
            let f = gen_func(s);
            db.schemas.get_mut(sch).unwrap().funcs.insert(n, f);
        }
        for _ in 0..much(s, 3) {
            let n = fresh_rel(s, o, &db, sch, false);
            let q = gen_seq(s, &db, sch);
            db.schemas.get_mut(sch).unwrap().rels.insert(n, Rel::Seq(q));
        }
    }
    for sch in &schemas {
        for _ in 0..if s.chance(2) { s.n(6 * o.max_tables) } else { s.n(o.max_tables + 1) } {
            add_table(s, o, &mut db, sch);
        }
    }
    for (a, b) in db.tables() {
        for _ in 0..much(s, 3) {
            add_con(s, o, &mut db, &a, &b, 2);
        }
    }
    for sch in &schemas {
        for _ in 0..much(s, 4) {
            if let Some(ix) = gen_index(s, &db, sch) {
                let n = fresh_rel(s, o, &db, sch, false);
                db.schemas.get_mut(sch).unwrap().rels.insert(n, Rel::Index(ix));
            }
        }
        for _ in 0..much(s, 3) {
            let v = gen_view(s, &db);
            let n = fresh_rel(s, o, &db, sch, false);
            db.schemas.get_mut(sch).unwrap().rels.insert(n, Rel::View(v));
        }
        if s.chance(20) {
            // sequences made before the tables may own a column of one
            let q: Vec<String> = db.schemas[sch].rels.iter().filter(|(_, r)| r.kind() == "sequence").map(|(n, _)| n.clone()).collect();
            if !q.is_empty() {
                let n = s.pick(&q).clone();
                let v = gen_seq(s, &db, sch);
                db.schemas.get_mut(sch).unwrap().rels.insert(n, Rel::Seq(v));
            }
        }
    }
    if s.chance(25) && !db.rels_of("index").is_empty() {
        // keys made after the indexes can stand on a unique one
        for (a, b) in db.tables() {
            if s.chance(40) {
                add_con(s, o, &mut db, &a, &b, 2);
            }
        }
    }
    repair(&mut db, o);
    db
}

fn add_table(s: &mut Src, o: &Opts, db: &mut Db, sch: &str) {
    let n = fresh_rel(s, o, db, sch, true);
    let mut t = Table::default();
    let lo = if s.chance(4) { 0 } else { 1 };
    let hi = if s.chance(4) { 30 } else { 5 };
    for _ in 0..s.range(lo, hi) {
        let c = gen_col(s, o, &t, db);
        t.cols.push(c);
    }
    if s.n(250) == 249 {
        for i in 0..s.range(60, 280) {
            let name = format!("wide{i}");
            if t.col(&name).is_none() {
                t.cols.push(Col { name, ty: "integer".into(), not_null: i % 3 == 0, default: None });
            }
        }
    }
    db.schemas.get_mut(sch).unwrap().rels.insert(n.clone(), Rel::Table(t));
    if s.chance(60) {
        add_con(s, o, db, sch, &n, 0);
    }
    for _ in 0..if s.chance(2) { s.n(15) } else { s.n(3) } {
        add_con(s, o, db, sch, &n, 1);
    }
    for _ in 0..if s.chance(2) { s.n(15) } else { s.n(3) } {
        add_con(s, o, db, sch, &n, 3);
    }
}

fn add_con(s: &mut Src, o: &Opts, db: &mut Db, sch: &str, tn: &str, kind: usize) {
    if let Some(c) = gen_con(s, o, db, sch, tn, kind) {
        let n = fresh_con(s, o, db, sch, tn, kind);
        db.table_mut(sch, tn).unwrap().cons.insert(n, c);
    }
}

// ---------- repair ----------

fn dep_ok_expr(db: &Db, e: &str) -> bool {
    nextval_refs(e).iter().all(|(a, b)| matches!(db.schemas.get(a).and_then(|x| x.rels.get(b)), Some(Rel::Seq(_))))
        && func_refs(e).iter().all(|(a, b)| db.schemas.get(a).map(|x| x.funcs.contains_key(b)).unwrap_or(false))
}

/// Removes what cannot stand (dangling references and the like) until the database is valid.
pub fn repair(db: &mut Db, o: &Opts) {
    loop {
        let before = db.clone();
        for (a, b) in db.tables() {
            if !table_name_ok(&b) {
                db.schemas.get_mut(&a).unwrap().rels.remove(&b);
                continue;
            }
            let snap = db.clone();
            let t = db.table_mut(&a, &b).unwrap();
            let mut seen = BTreeSet::new();
            t.cols.retain(|c| seen.insert(c.name.clone()));
            for c in t.cols.iter_mut() {
                if let Some(d) = &c.default {
                    if !dep_ok_expr(&snap, d) {
                        c.default = None;
                    }
                }
            }
            let names: Vec<String> = t.cols.iter().map(|c| c.name.clone()).collect();
            let mut pk_seen = false;
            let mut keysets: BTreeSet<BTreeSet<String>> = BTreeSet::new();
            let mut drop = vec![];
            let mut not_null = vec![];
            for (n, c) in t.cons.iter_mut() {
                let ok = match c {
                    Con::Pk(k) | Con::Unique(k) => {
                        let set: BTreeSet<String> = k.cols.iter().cloned().collect();
                        if o.pg && k.deferred {
                            k.deferrable = true;
                        }
                        !k.cols.is_empty()
                            && set.len() == k.cols.len()
                            && k.cols.iter().all(|x| names.contains(x))
                            && keysets.insert(set)
                    }
                    Con::Fk(f) => {
                        if o.pg && f.deferred {
                            f.deferrable = true;
                        }
                        let set: BTreeSet<&String> = f.cols.iter().collect();
                        let tset: BTreeSet<&String> = f.tcols.iter().collect();
                        !f.cols.is_empty()
                            && set.len() == f.cols.len()
                            && f.cols.len() == f.tcols.len()
                            && f.cols.iter().all(|x| names.contains(x))
                            && !f.tschema.contains('.')
                            && !f.ttable.contains('.')
                            && tset.len() == f.tcols.len()
                            && standing(&snap, &f.tschema, &f.ttable, &f.tcols).len() > 0
                    }
                    Con::Check(k) => {
                        if o.pg {
                            k.deferrable = false;
                            k.deferred = false;
                        }
                        column_refs(&k.expr).iter().all(|x| names.contains(x)) && dep_ok_expr(&snap, &k.expr)
                    }
                };
                let ok = ok
                    && match c {
                        Con::Pk(_) => !std::mem::replace(&mut pk_seen, true),
                        _ => true,
                    };
                if !ok {
                    drop.push(n.clone());
                } else if let Con::Pk(k) = c {
                    not_null.extend(k.cols.clone());
                }
            }
            for n in drop {
                t.cons.remove(&n);
            }
            for n in not_null {
                t.col_mut(&n).unwrap().not_null = true;
            }
            // a constraint's index shares the schema's relation names
            let keys: Vec<String> = t.cons.iter().filter(|(_, c)| c.key().is_some()).map(|(n, _)| n.clone()).collect();
            for n in keys {
                let clash = snap.schemas[&a].rels.iter().any(|(rn, r)| {
                    *rn == n
                        || *rn < b && matches!(r, Rel::Table(x) if x.cons.get(&n).map(|c| c.key().is_some()).unwrap_or(false))
                });
                if clash {
                    db.table_mut(&a, &b).unwrap().cons.remove(&n);
                }
            }
        }
        let snap = db.clone();
        for (sn, sc) in db.schemas.iter_mut() {
            sc.rels.retain(|_, r| match r {
                Rel::Table(_) => true,
                Rel::Index(ix) => match snap.table(sn, &ix.table) {
                    Some(t) => {
                        if ix.method != "btree" {
                            ix.unique = false;
                        }
                        !ix.keys.is_empty() && ix.keys.iter().all(|k| column_refs(k).iter().all(|c| t.col(c).is_some()))
                    }
                    None => false,
                },
                Rel::View(v) => view_refs(&v.query)
                    .iter()
                    .all(|((a, b), cols)| snap.table(a, b).map(|t| cols.iter().all(|c| t.col(c).is_some())).unwrap_or(false)),
                Rel::Seq(q) => {
                    if let Some((t, c)) = &q.owned {
                        if snap.table(sn, t).and_then(|t| t.col(c)).is_none() {
                            q.owned = None;
                        }
                    }
                    true
                }
            });
            // two functions of one name and the same arguments are one function
            let mut seen = BTreeSet::new();
            sc.funcs.retain(|n, _| seen.insert(n.split('(').next().unwrap().trim().to_string()));
        }
        if *db == before {
            return;
        }
    }
}

// ---------- edits ----------

/// One edit; returns its name, or none when it found nothing to work on.
pub fn mutate(s: &mut Src, o: &Opts, db: &mut Db) -> Option<&'static str> {
    let schemas: Vec<String> = db.schemas.keys().cloned().collect();
    let op = s.weighted(&[
        /*0 add schema*/ 3, /*1 drop schema*/ 2, /*2 add table*/ 6, /*3 drop table*/ 4, /*4 add col*/ 8, /*5 drop col*/ 7, /*6 retype*/ 5,
        /*7 notnull*/ 6, /*8 default*/ 7, /*9 add con*/ 10, /*10 drop con*/ 6, /*11 alter con*/ 10, /*12 index add*/ 4, /*13 index drop*/ 3,
        /*14 index alter*/ 5, /*15 view add*/ 3, /*16 view drop*/ 2, /*17 view alter*/ 4, /*18 seq add*/ 3, /*19 seq drop*/ 3, /*20 seq alter*/ 5,
        /*21 func add*/ 3, /*22 func drop*/ 3, /*23 func alter*/ 5, /*24 kind swap*/ 4, /*25 rename rel*/ 3, /*26 rename con*/ 3,
        /*27 rename col*/ 3, /*28 reorder cols*/ 2, /*29 move rel*/ 2, /*30 con kind swap*/ 4, /*31 clear*/ 1,
        /*32 a text that hardly changes*/ 6,
    ]);
    let tabs = db.tables();
    let tab = if tabs.is_empty() { None } else { Some(s.pick(&tabs).clone()) };
    match op {
        0 => {
            let n = fresh(s, o, &|x| db.schemas.contains_key(x));
            db.schemas.insert(n, Schema::default());
            Some("add schema")
        }
        1 => {
            let k = s.pick(&schemas).clone();
            db.schemas.remove(&k);
            if db.schemas.is_empty() {
                db.schemas.insert("public".into(), Schema::default());
            }
            Some("drop schema")
        }
        2 => {
            let k = s.pick(&schemas).clone();
            add_table(s, o, db, &k);
            Some("add table")
        }
        3 => {
            let (a, b) = tab?;
            db.schemas.get_mut(&a)?.rels.remove(&b);
            Some("drop table")
        }
        4 => {
            let (a, b) = tab?;
            let t = db.table(&a, &b)?.clone();
            let c = gen_col(s, o, &t, db);
            let at = s.n(t.cols.len() + 1);
            let t = db.table_mut(&a, &b)?;
            t.cols.insert(t.cols.len() - at, c);
            Some("add column")
        }
        5..=8 | 27 => {
            let (a, b) = tab?;
            let n = db.table(&a, &b)?.cols.len();
            if n == 0 {
                return None;
            }
            let i = s.n(n);
            let old = db.table(&a, &b)?.cols[i].clone();
            match op {
                5 => {
                    db.table_mut(&a, &b)?.cols.remove(i);
                    Some("drop column")
                }
                6 => {
                    let ty = gen_type(s);
                    let c = &mut db.table_mut(&a, &b)?.cols[i];
                    if cls(&ty) != cls(&c.ty) {
                        c.default = None;
                    }
                    c.ty = ty;
                    Some("retype column")
                }
                7 => {
                    db.table_mut(&a, &b)?.cols[i].not_null ^= true;
                    Some("toggle not null")
                }
                8 => {
                    let d = if old.default.is_some() && s.flag() { None } else { Some(()) };
                    let d = match d {
                        None => None,
                        Some(()) => (0..4).find_map(|_| gen_col_default(s, &old.ty, db)).or(Some(gen_default(s, cls(&old.ty)))),
                    };
                    db.table_mut(&a, &b)?.cols[i].default = d;
                    Some("change default")
                }
                _ => {
                    let t = db.table(&a, &b)?.clone();
                    let n = fresh(s, o, &|x| t.col(x).is_some());
                    db.table_mut(&a, &b)?.cols[i].name = n;
                    Some("rename column")
                }
            }
        }
        9 => {
            let (a, b) = tab?;
            let k = s.n(4);
            add_con(s, o, db, &a, &b, k);
            Some("add constraint")
        }
        10 | 11 | 26 | 30 => {
            let mut all = vec![];
            for (a, b) in &tabs {
                for c in db.table(a, b)?.cons.keys() {
                    all.push((a.clone(), b.clone(), c.clone()));
                }
            }
            if all.is_empty() {
                return None;
            }
            let (a, b, c) = s.pick(&all).clone();
            let old = db.table(&a, &b)?.cons[&c].clone();
            match op {
                10 => {
                    db.table_mut(&a, &b)?.cons.remove(&c);
                    Some("drop constraint")
                }
                26 => {
                    let kind = match old {
                        Con::Pk(_) | Con::Unique(_) => 0,
                        _ => 3,
                    };
                    let n = fresh_con(s, o, db, &a, &b, kind);
                    let t = db.table_mut(&a, &b)?;
                    let v = t.cons.remove(&c)?;
                    t.cons.insert(n, v);
                    Some("rename constraint")
                }
                30 => {
                    let k = s.n(4);
                    let new = gen_con(s, o, db, &a, &b, k)?;
                    db.table_mut(&a, &b)?.cons.insert(c, new);
                    Some("replace constraint")
                }
                _ => {
                    let mut new = old.clone();
                    let t = db.table(&a, &b)?.clone();
                    let which = s.n(6);
                    let (df, dd) = gen_deferral(s, o);
                    match &mut new {
                        Con::Pk(k) | Con::Unique(k) => {
                            if which < 3 {
                                k.deferrable = df;
                                k.deferred = dd;
                            } else if which == 3 {
                                s.shuffle(&mut k.cols);
                            } else {
                                k.cols = subset(s, &t, 3);
                            }
                        }
                        Con::Fk(f) => match which {
                            0 | 1 => {
                                f.deferrable = df;
                                f.deferred = dd;
                            }
                            2 => f.upd = s.pick(RULES).to_string(),
                            3 => f.del = s.pick(RULES).to_string(),
                            4 => f.mat = if f.mat == "FULL" { "SIMPLE".into() } else { "FULL".into() },
                            _ => {
                                if let Some(Con::Fk(g)) = gen_con(s, o, db, &a, &b, 2) {
                                    *f = g;
                                }
                            }
                        },
                        Con::Check(k) => {
                            if which < 2 && !o.pg {
                                k.deferrable = df;
                                k.deferred = dd;
                            } else {
                                k.expr = gen_check(s, &t, db);
                            }
                        }
                    }
                    db.table_mut(&a, &b)?.cons.insert(c, new);
                    Some("alter constraint")
                }
            }
        }
        12 => {
            let k = s.pick(&schemas).clone();
            let ix = gen_index(s, db, &k)?;
            let n = fresh_rel(s, o, db, &k, false);
            db.schemas.get_mut(&k)?.rels.insert(n, Rel::Index(ix));
            Some("add index")
        }
        13 | 14 => {
            let all = db.rels_of("index");
            if all.is_empty() {
                return None;
            }
            let (a, b) = s.pick(&all).clone();
            if op == 13 {
                db.schemas.get_mut(&a)?.rels.remove(&b);
                return Some("drop index");
            }
            let new = gen_index(s, db, &a)?;
            let which = s.n(4);
            if let Some(Rel::Index(ix)) = db.schemas.get_mut(&a)?.rels.get_mut(&b) {
                match which {
                    0 => *ix = new,
                    1 => {
                        ix.unique ^= true;
                        if ix.unique {
                            ix.method = "btree".into();
                        }
                    }
                    2 => {
                        if ix.keys.len() > 1 {
                            ix.keys.rotate_left(1);
                        } else {
                            ix.keys = new.keys.clone();
                            ix.table = new.table.clone();
                            ix.method = new.method.clone();
                            ix.unique = new.unique;
                        }
                    }
                    _ => {
                        if ix.method == "brin" {
                            ix.method = "gist".into();
                        } else if !ix.keys.iter().any(|k| k.contains(' ') || k.contains('(')) {
                            ix.method = "brin".into();
                            ix.unique = false;
                        }
                    }
                }
            }
            Some("alter index")
        }
        15 => {
            let k = s.pick(&schemas).clone();
            let v = gen_view(s, db);
            let n = fresh_rel(s, o, db, &k, false);
            db.schemas.get_mut(&k)?.rels.insert(n, Rel::View(v));
            Some("add view")
        }
        16 | 17 => {
            let all = db.rels_of("view");
            if all.is_empty() {
                return None;
            }
            let (a, b) = s.pick(&all).clone();
            if op == 16 {
                db.schemas.get_mut(&a)?.rels.remove(&b);
                return Some("drop view");
            }
            let v = gen_view(s, db);
            db.schemas.get_mut(&a)?.rels.insert(b, Rel::View(v));
            Some("alter view")
        }
        18 => {
            let k = s.pick(&schemas).clone();
            let v = gen_seq(s, db, &k);
            let n = fresh_rel(s, o, db, &k, false);
            db.schemas.get_mut(&k)?.rels.insert(n, Rel::Seq(v));
            Some("add sequence")
        }
        19 | 20 => {
            let all = db.rels_of("sequence");
            if all.is_empty() {
                return None;
            }
            let (a, b) = s.pick(&all).clone();
            if op == 19 {
                db.schemas.get_mut(&a)?.rels.remove(&b);
                return Some("drop sequence");
            }
            let v = gen_seq(s, db, &a);
            let which = s.n(6);
            if let Some(Rel::Seq(q)) = db.schemas.get_mut(&a)?.rels.get_mut(&b) {
                match which {
                    0 => *q = v,
                    1 => q.cycle ^= true,
                    2 => q.cache = if q.cache == 1 { 7 } else { 1 },
                    3 => q.start = if q.start == q.min { q.max } else { q.min },
                    4 => {
                        if q.max - 1 > q.min && q.start < q.max {
                            q.max -= 1
                        }
                    }
                    _ => {
                        if q.min < q.start {
                            q.min += 1
                        }
                    }
                }
            }
            Some("alter sequence")
        }
        21 => {
            let k = s.pick(&schemas).clone();
            let n = func_name(s, o, &db.schemas[&k]);
            let f = gen_func(s);
            db.schemas.get_mut(&k)?.funcs.insert(n, f);
            Some("add function")
        }
        22 | 23 => {
            let all = db.funcs();
            if all.is_empty() {
                return None;
            }
            let (a, b) = s.pick(&all).clone();
            if op == 22 {
                db.schemas.get_mut(&a)?.funcs.remove(&b);
                return Some("drop function");
            }
            let v = gen_func(s);
            let which = s.n(5);
            let f = db.schemas.get_mut(&a)?.funcs.get_mut(&b)?;
            match which {
                0 => *f = v,
                1 => f.body = v.body,
                2 => f.lang = v.lang,
                3 => f.returns = v.returns,
                _ => f.vol = v.vol,
            }
            Some("alter function")
        }
        24 => {
            // another kind of relation under the same name
            let mut all = vec![];
            for k in ["table", "view", "index", "sequence"] {
                all.extend(db.rels_of(k));
            }
            if all.is_empty() {
                return None;
            }
            let (a, b) = s.pick(&all).clone();
            let was = db.schemas[&a].rels[&b].clone();
            db.schemas.get_mut(&a)?.rels.remove(&b);
            let new = match s.n(4) {
                0 => Rel::View(gen_view(s, db)),
                1 => Rel::Seq(gen_seq(s, db, &a)),
                2 => match gen_index(s, db, &a) {
                    Some(i) => Rel::Index(i),
                    None => Rel::Seq(gen_seq(s, db, &a)),
                },
                _ => {
                    let mut t = Table::default();
                    for _ in 0..s.range(1, 3) {
                        let c = gen_col(s, o, &t, db);
                        t.cols.push(c);
                    }
                    Rel::Table(t)
                }
            };
            let tn = !matches!(new, Rel::Table(_)) || table_name_ok(&b);
            db.schemas.get_mut(&a)?.rels.insert(b, if tn { new } else { was });
            Some("change kind")
        }
        25 | 29 => {
            let mut all = vec![];
            for k in ["table", "view", "index", "sequence"] {
                all.extend(db.rels_of(k));
            }
            if all.is_empty() {
                return None;
            }
            let (a, b) = s.pick(&all).clone();
            if op == 25 {
                let r = db.schemas.get_mut(&a)?.rels.remove(&b)?;
                let n = fresh_rel(s, o, db, &a, true);
                db.schemas.get_mut(&a)?.rels.insert(n, r);
                Some("rename relation")
            } else {
                let k = s.pick(&schemas).clone();
                if rel_taken(db, &k).contains(&b) {
                    return None;
                }
                let r = db.schemas.get_mut(&a)?.rels.remove(&b)?;
                db.schemas.get_mut(&k)?.rels.insert(b, r);
                Some("move relation")
            }
        }
        28 => {
            let (a, b) = tab?;
            let t = db.table_mut(&a, &b)?;
            s.shuffle(&mut t.cols);
            Some("reorder columns")
        }
        32 => {
            let k = s.pick(&schemas).clone();
            let sc = db.schemas.get_mut(&k)?;
            let mut at: Vec<(&mut String, bool)> = vec![];
            for r in sc.rels.values_mut() {
                match r {
                    Rel::View(v) => at.push((&mut v.query, true)),
                    Rel::Table(t) => {
                        at.extend(t.cols.iter_mut().filter_map(|c| c.default.as_mut()).map(|x| (x, false)));
                        at.extend(t.cons.values_mut().filter_map(|c| if let Con::Check(c) = c { Some((&mut c.expr, false)) } else { None }));
                    }
                    _ => {}
                }
            }
            at.extend(sc.funcs.values_mut().map(|f| (&mut f.body, true)));
            if at.is_empty() {
                return None;
            }
            let i = s.n(at.len());
            let (x, ends) = &mut at[i];
            nearly(s, x, *ends).then_some("hardly changed text")
        }
        _ => {
            let k = s.pick(&schemas).clone();
            let sc = db.schemas.get_mut(&k)?;
            sc.rels.clear();
            sc.funcs.clear();
            Some("clear schema")
        }
    }
}

/// Changes a text in a way that looks like none, and leaves it valid SQL.
fn nearly(s: &mut Src, x: &mut String, ends: bool) -> bool {
    if x.contains("nextval") {
        return false;
    }
    let c: Vec<char> = x.chars().collect();
    let (mut quoted, mut named) = (false, false);
    // the places within literals, and those where space stands
    let (mut lit, mut gap, mut wide) = (vec![], vec![], vec![]);
    for (i, k) in c.iter().enumerate() {
        match k {
            '\'' if !named => quoted = !quoted,
            '"' if !quoted => named = !named,
            _ if quoted => lit.push(i),
            ' ' if !named => gap.push(i),
            _ => {}
        }
        if *k == ' ' && i + 1 < c.len() && c[i + 1] == ' ' {
            wide.push(i);
        }
    }
    let put = |i: usize, k: &str| c[..i].iter().collect::<String>() + k + &c[i..].iter().collect::<String>();
    let y = match s.n(7) {
        0 if !gap.is_empty() => put(*s.pick(&gap), " "),
        1 if !gap.is_empty() => {
            let i = *s.pick(&gap);
            let k = *s.pick(&["\n", "\t", "\n\n", " -- x\n"]);
            put(i, k)
        }
        2 if !lit.is_empty() => put(*s.pick(&lit), " "),
        3 if !lit.is_empty() => {
            let i = *s.pick(&lit);
            let mut c = c.clone();
            c[i] = if c[i].is_lowercase() { c[i].to_ascii_uppercase() } else { c[i].to_ascii_lowercase() };
            c.into_iter().collect()
        }
        4 if !wide.is_empty() => {
            let i = *s.pick(&wide);
            let mut c = c.clone();
            c.remove(i);
            c.into_iter().collect()
        }
        5 if ends => format!("{x}\n"),
        _ if ends => match x.strip_suffix(['\n', ' ', ';']) {
            Some(y) if !y.trim().is_empty() => y.to_string(),
            _ => format!("{x};"),
        },
        _ => return false,
    };
    if y == *x {
        return false;
    }
    *x = y;
    true
}

/// A pair of databases to migrate between, and what edits led from the first to the second.
pub fn gen_pair(s: &mut Src, o: &Opts) -> (Db, Db, Vec<&'static str>) {
    let a = if s.chance(8) { Db::default() } else { gen_db(s, o) };
    let mut ops = vec![];
    let mut b;
    if a.schemas.is_empty() || s.chance(15) {
        b = if !a.schemas.is_empty() && s.chance(15) { Db::default() } else { gen_db(s, o) };
        ops.push("independent");
    } else {
        b = a.clone();
        for _ in 0..s.n(7) {
            if let Some(op) = mutate(s, o, &mut b) {
                ops.push(op);
            }
            repair(&mut b, o);
        }
    }
    if o.pg {
        repair_pair(&a, &mut b, o);
    }
    if s.flag() {
        // the other way round
        let (x, mut y) = (b, a);
        if o.pg {
            repair_pair(&x, &mut y, o);
        }
        return (x, y, ops);
    }
    (a, b, ops)
}

/// Whether the difference rebuilds this relation (drops it and creates it again).
fn rel_rebuilt(a: Option<&Rel>, b: Option<&Rel>) -> bool {
    match (a, b) {
        (Some(Rel::Table(_)), Some(Rel::Table(_))) => false,
        (Some(Rel::Seq(x)), Some(Rel::Seq(y))) => {
            let (mut x, mut y) = (x.clone(), y.clone());
            x.owned = None;
            y.owned = None;
            x != y
        }
        (x, y) => x != y,
    }
}

/// Takes out of the target what falls under the documented limits of what podo orders in PostgreSQL:
/// an unchanged object that depends on one which is dropped or rebuilt.
pub fn repair_pair(a: &Db, b: &mut Db, o: &Opts) {
    loop {
        repair(b, o);
        let before = b.clone();
        let snap = b.clone();
        let dep_rebuilt = |e: &str| -> bool {
            nextval_refs(e).iter().any(|(s, q)| {
                let g = |d: &Db| d.schemas.get(s).and_then(|x| x.rels.get(q)).cloned();
                let (x, y) = (g(a), g(&snap));
                x.is_some() && rel_rebuilt(x.as_ref(), y.as_ref())
            }) || func_refs(e).iter().any(|(s, f)| {
                let g = |d: &Db| d.schemas.get(s).and_then(|x| x.funcs.get(f)).cloned();
                let (x, y) = (g(a), g(&snap));
                x.is_some() && x != y
            })
        };
        for (s, t) in b.tables() {
            let old = match a.table(&s, &t) {
                Some(x) => x.clone(),
                None => continue,
            };
            let tb = b.table_mut(&s, &t).unwrap();
            // keys keep their deferral: ALTER CONSTRAINT is for foreign keys only
            for (n, c) in tb.cons.iter_mut() {
                if let (Some(x), Some(y)) = (old.cons.get(n).and_then(|c| c.key()).cloned(), match c {
                    Con::Pk(k) | Con::Unique(k) => Some(k),
                    _ => None,
                }) {
                    if x.cols == y.cols {
                        y.deferrable = x.deferrable;
                        y.deferred = x.deferred;
                    }
                }
            }
            let mut drop = vec![];
            for (n, c) in &tb.cons {
                let same = old.cons.get(n) == Some(c);
                match c {
                    Con::Fk(f) => {
                        let altered_only = matches!(old.cons.get(n), Some(Con::Fk(g)) if {
                            let mut g = g.clone();
                            g.deferrable = f.deferrable;
                            g.deferred = f.deferred;
                            g == *f
                        });
                        if same || altered_only {
                            // what it stands on has to stay
                            let find = |d: &Db| standing(d, &f.tschema, &f.ttable, &f.tcols);
                            if find(a) != find(&snap) {
                                drop.push(n.clone());
                            }
                        }
                    }
                    Con::Check(k) if same && dep_rebuilt(&k.expr) => drop.push(n.clone()),
                    _ => {}
                }
            }
            for n in drop {
                tb.cons.remove(&n);
            }
            for c in tb.cols.iter_mut() {
                let o = old.col(&c.name);
                let oldd = o.and_then(|x| x.default.clone());
                // a default that stays, or is replaced by another, holds on to the old one's sequence
                if let Some(d) = &c.default {
                    let holds = match &oldd {
                        Some(od) => dep_rebuilt(od) || (od == d && dep_rebuilt(d)),
                        None => false,
                    };
                    if holds {
                        c.default = None;
                    }
                }
            }
        }
        // unchanged views on a column that is retyped, or on a relation that is no longer the same table
        let mut drop = vec![];
        for (s, sc) in &b.schemas {
            for (n, r) in &sc.rels {
                if let Rel::View(v) = r {
                    if a.schemas.get(s).and_then(|x| x.rels.get(n)) == Some(r) {
                        for ((vs, vt), cols) in view_refs(&v.query) {
                            let (x, y) = (a.table(&vs, &vt), snap.table(&vs, &vt));
                            let bad = match (x, y) {
                                (Some(x), Some(y)) => cols.iter().any(|c| x.col(c).map(|k| &k.ty) != y.col(c).map(|k| &k.ty)),
                                _ => true,
                            };
                            if bad {
                                drop.push((s.clone(), n.clone()));
                            }
                        }
                    }
                }
            }
        }
        for (s, n) in drop {
            b.schemas.get_mut(&s).unwrap().rels.remove(&n);
        }
        if *b == before {
            return;
        }
    }
}

/// Counts of kinds, for the distribution in the evidence.
pub fn labels(db: &Db, out: &mut BTreeMap<String, u64>) {
    for sc in db.schemas.values() {
        *out.entry("schema".into()).or_insert(0) += 1;
        *out.entry("function".into()).or_insert(0) += sc.funcs.len() as u64;
        for r in sc.rels.values() {
            *out.entry(r.kind().into()).or_insert(0) += 1;
            if let Rel::Table(t) = r {
                *out.entry("column".into()).or_insert(0) += t.cols.len() as u64;
                for c in t.cons.values() {
                    *out.entry(c.kind().into()).or_insert(0) += 1;
                }
            }
        }
    }
}

/// Random texts in the places of a database that hold free text.
pub fn with_free_texts(s: &mut Src, db: &mut Db) {
    let alpha: Vec<char> = "ab zAZ09_\"'.;:,-#=!%$\\/()[]{}<>&|~^*+?@`éß日\n\n\t\r\u{7f}\u{85}\u{2028}\u{feff}😀".chars().collect();
    let text = |s: &mut Src, keep: bool| -> String {
        let n = s.range(1, 14);
        let t: String = (0..n).map(|_| *s.pick(&alpha)).collect();
        if keep {
            t
        } else {
            let t = t.trim().to_string();
            if t.is_empty() {
                "x".into()
            } else {
                t
            }
        }
    };
    for sc in db.schemas.values_mut() {
        for r in sc.rels.values_mut() {
            match r {
                Rel::Table(t) => {
                    for c in t.cols.iter_mut() {
                        if s.chance(30) {
                            let x: String = text(s, false).chars().filter(|c| !"=!".contains(*c)).collect();
                            let x = x.trim().to_string();
                            if !x.is_empty() {
                                c.ty = x;
                            }
                        }
                        if s.chance(30) {
                            c.default = Some(text(s, false));
                        }
                    }
                    for c in t.cons.values_mut() {
                        match c {
                            Con::Check(k) if s.chance(50) => k.expr = text(s, true),
                            Con::Fk(f) if s.chance(20) => {
                                f.mat = text(s, true);
                                f.upd = text(s, true);
                                f.del = text(s, true);
                            }
                            _ => {}
                        }
                    }
                }
                Rel::View(v) if s.chance(50) => v.query = text(s, true),
                Rel::Index(i) => {
                    if s.chance(40) {
                        for k in i.keys.iter_mut() {
                            *k = text(s, true);
                        }
                    }
                    if s.chance(20) {
                        i.method = text(s, true);
                    }
                }
                Rel::Seq(q) if s.chance(40) => {
                    let v = [i64::MIN, i64::MAX, 0, -1, 1, 1 << 53, (1 << 53) + 1, -9007199254740993];
                    q.min = *s.pick(&v);
                    q.max = *s.pick(&v);
                    q.start = *s.pick(&v);
                    q.cache = *s.pick(&v);
                    q.inc = *s.pick(&[i64::MIN, i64::MAX, -3, 3]);
                }
                _ => {}
            }
        }
        for f in sc.funcs.values_mut() {
            if s.chance(40) {
                f.body = text(s, true);
                f.lang = text(s, true);
                f.returns = text(s, true);
                f.vol = text(s, true);
            }
        }
    }
}
