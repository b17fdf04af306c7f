//! What the database side of commands is checked with: a project, a server, and readings of both.
use serde_json::Value;
use std::collections::BTreeMap;
use vcore::ddl::statements;
use vcore::pbt::*;
use vcore::pgsrv::*;
use vcore::query::{parse, Stmt};
use vcore::refchange::*;
use vcore::sqldb::*;
use vcore::sqltext::{lex, norm};
use vcore::world::*;

pub const METAS: &[&str] = &["podo_meta", "podo_meta", "public", "meta", "Has Space", "quo\"te", "select", "ünï", "a.b", "UPPER", "it's", "100", "$1", "semi;colon", "podo-meta", "x\ny", "%s", "{}", "--"];

pub struct Bed {
    pub w: World,
    pub p: Proj,
    pub srv: Server,
    pub meta: String,
}

pub fn engine(s: &mut Src) -> Engine {
    let mut e = Engine::new(&RVersion::init_db());
    e.seed = s.below(1 << 20);
    e.clock = 750_000_000_000_000 + s.below(1 << 30) as i64;
    run(&mut e, "CREATE TABLE public.journal (note TEXT NOT NULL, n SERIAL UNIQUE)").expect("journal");
    e
}

/// Schemas of others, with names much like that of the log's.
pub fn beside(meta: &str) -> Vec<String> {
    let mut v = vec!["other".to_string(), "other".to_string(), format!("{meta}2"), format!("x{meta}"), meta.to_uppercase(), meta.to_lowercase(), meta.replace('_', "x"), meta.replace('%', "xx"), meta.replace(['"', ' '], "")];
    v.retain(|n| n != meta && n != "public" && !n.is_empty());
    v
}

impl Bed {
    /// A schema that is not for definitions here.
    pub fn ours(&self, name: &str) -> bool {
        name == self.meta || beside(&self.meta).iter().any(|n| n == name)
    }
}

pub fn bed(s: &mut Src) -> Bed {
    let w = World::new(s);
    let srv = Server::new();
    let p = w.project(&srv.url("app"));
    let meta = s.pick(METAS).to_string();
    put(&p.root.join(".podo.yaml"), config(&[("database", &srv.url("app"), "database/history", "database/definitions", &meta)]));
    {
        let mut st = srv.state();
        let mut e = engine(s);
        if s.chance(15) && meta != "public" {
            // the schema for the log is there already
            run(&mut e, &format!("CREATE SCHEMA \"{}\"", meta.replace('"', "\"\""))).expect("schema");
        }
        if s.chance(15) {
            // somebody else's table of the same name
            let o = format!("\"{}\"", s.pick(&beside(&meta)).replace('"', "\"\""));
            run(&mut e, &format!("CREATE SCHEMA {o}")).expect("schema");
            run(&mut e, &format!("CREATE TABLE {o}.version (name TEXT UNIQUE, x SERIAL)")).expect("table");
            run(&mut e, &format!("INSERT INTO {o}.version (name) VALUES ('nine')")).expect("row");
        }
        if s.chance(12) && !meta.is_empty() && meta != "public" {
            // tables beside the log with names much like its own
            let q = format!("\"{}\"", meta.replace('"', "\"\""));
            if !e.pg.db.schemas.contains_key(&meta) {
                run(&mut e, &format!("CREATE SCHEMA {q}")).expect("schema");
            }
            for n in ["versions", "Version", "VERSION", "version_old", "pre_version", "version "] {
                if s.flag() {
                    run(&mut e, &format!("CREATE TABLE {q}.\"{n}\" (name TEXT UNIQUE, x SERIAL)")).expect("table");
                }
            }
        }
        st.put_db("app", e);
        st.put_db("postgres", Engine::new(&RVersion::init_db()));
        st.noise = s.chance(15);
        st.ticks = (0..s.n(4)).map(|_| *s.pick(&[1_500_000i64, 1_500_000, 0, 86_400_000_000, -3_600_000_000, -500])).collect();
    }
    Bed { w, p, srv, meta }
}

/// Executes one statement in a database directly.
pub fn run(e: &mut Engine, sql: &str) -> Result<(), String> {
    let p = e.prepare(sql).map_err(|x| format!("{} {}: {sql}", x.code, x.msg))?;
    e.execute(&p, vec![]).map_err(|x| format!("{} {}: {sql}", x.code, x.msg))?;
    Ok(())
}

#[derive(Clone, Debug, PartialEq)]
pub struct LogRow {
    pub name: String,
    pub previous: Option<String>,
    pub changes: Value,
    pub up: Vec<String>,
    pub down: Vec<String>,
}

impl LogRow {
    pub fn of(v: &RVersion) -> LogRow {
        LogRow { name: v.name.clone(), previous: v.previous.clone(), changes: bare(serde_json::to_value(&v.changes).unwrap()), up: v.up.clone(), down: v.down.clone() }
    }
}

/// The version log, in order of application; nothing where there is none.
/// Without the fields that are null: what is not written is null as well.
pub fn bare(v: Value) -> Value {
    match v {
        Value::Object(m) => Value::Object(m.into_iter().filter(|(_, v)| !v.is_null()).map(|(k, v)| (k, bare(v))).collect()),
        Value::Array(a) => Value::Array(a.into_iter().map(bare).collect()),
        v => v,
    }
}

pub fn log_of(e: &Engine, meta: &str) -> Result<Option<Vec<LogRow>>, Fail> {
    let t = match e.raw.get(&(meta.to_string(), "version".to_string())) {
        Some(t) => t,
        None => return Ok(None),
    };
    let col = |n: &str| match t.cols.iter().position(|c| c.name == n) {
        Some(i) => Ok(i),
        None => fail("log-table", format!("the version log has no column {n:?}")),
    };
    let (n, p, c, u, d, o) = (col("name")?, col("previous")?, col("changes")?, col("up")?, col("down")?, col("applied_order")?);
    let text = |v: &V| match v {
        V::Text(t) => t.clone(),
        v => format!("{v:?}"),
    };
    let list = |v: &V| match v {
        V::Arr(a) => a.iter().map(text).collect(),
        v => vec![format!("{v:?}")],
    };
    let mut rows: Vec<(i64, LogRow)> = vec![];
    for r in &t.rows {
        let order = match r[o] {
            V::Int(i) => i,
            _ => return fail("log-table", "the version log has a row without an order"),
        };
        let row = LogRow {
            name: text(&r[n]),
            previous: if r[p].is_null() { None } else { Some(text(&r[p])) },
            changes: serde_json::from_str(&text(&r[c])).map(bare).unwrap_or(Value::String(text(&r[c]))),
            up: list(&r[u]),
            down: list(&r[d]),
        };
        rows.push((order, row));
    }
    rows.sort_by_key(|r| r.0);
    Ok(Some(rows.into_iter().map(|r| r.1).collect()))
}

/// Everything a database holds, for comparing.
#[derive(Clone, PartialEq)]
pub struct Look {
    pub schemas: vcore::model::Db,
    pub rows: BTreeMap<(String, String), Vec<Vec<V>>>,
}
impl Look {
    pub fn of(e: &Engine) -> Look {
        Look { schemas: e.pg.db.clone(), rows: e.raw.iter().map(|(k, t)| (k.clone(), t.rows.clone())).collect() }
    }
    /// Without the version log and the schema made for it.
    pub fn without_log(&self, meta: &str) -> Look {
        let mut l = self.clone();
        l.rows.remove(&(meta.to_string(), "version".to_string()));
        if meta != "public" && l.schemas.schemas.get(meta).map(|x| x.rels.is_empty() && x.funcs.is_empty()).unwrap_or(false) && !l.rows.keys().any(|k| k.0 == meta) {
            l.schemas.schemas.remove(meta);
        }
        // numbers of rows go on where a transaction was undone
        for ((_, t), rows) in l.rows.iter_mut() {
            if t == "journal" {
                for r in rows {
                    r.truncate(1);
                }
            }
        }
        l
    }
    pub fn diff(&self, o: &Look) -> Option<String> {
        if self == o {
            return None;
        }
        let mut v = vec![];
        if self.schemas != o.schemas {
            v.push(vcore::model::describe_diff(&self.schemas, &o.schemas));
        }
        for (k, r) in &self.rows {
            match o.rows.get(k) {
                None => v.push(format!("table {k:?} is gone")),
                Some(x) if x != r => v.push(format!("rows of {k:?}: {r:?} -> {x:?}")),
                _ => {}
            }
        }
        for k in o.rows.keys() {
            if !self.rows.contains_key(k) {
                v.push(format!("table {k:?} is new"));
            }
        }
        Some(v.join("; "))
    }
}

impl Bed {
    pub fn engine(&self) -> Engine {
        self.srv.settle();
        self.srv.state().db("app").clone()
    }
    pub fn look(&self) -> Look {
        Look::of(&self.engine())
    }
    pub fn log(&self) -> Result<Option<Vec<LogRow>>, Fail> {
        log_of(&self.engine(), &self.meta)
    }
    /// Runs podo with a fresh record of what it does to the database.
    pub fn podo(&self, args: &[&str]) -> Result<Out, Fail> {
        self.srv.state().fresh();
        let o = self.w.podo(args);
        self.srv.settle();
        o
    }
    pub fn chain(&self) -> Vec<RVersion> {
        match read_chain(&self.p.history) {
            Ok((c, _)) => c,
            Err(e) => panic!("the harness's own history: {e}"),
        }
    }
    /// The statements of the migration itself that were executed, in order, those of
    /// transactions that were committed only.
    pub fn migration(&self) -> Vec<String> {
        let st = self.srv.state();
        let mut done = vec![];
        let mut open: BTreeMap<usize, Vec<String>> = BTreeMap::new();
        for e in &st.log {
            match e {
                Event::Begin { conn } => {
                    open.insert(*conn, vec![]);
                }
                Event::Stmt { conn, sql, result: Ok(_), .. } if !self.bookkeeping(sql) => match open.get_mut(conn) {
                    Some(v) => v.push(sql.clone()),
                    None => done.push(sql.clone()),
                },
                Event::Commit { conn } => done.extend(open.remove(conn).unwrap_or_default()),
                Event::Rollback { conn } | Event::End { conn } => {
                    open.remove(conn);
                }
                _ => {}
            }
        }
        done
    }
    fn bookkeeping(&self, sql: &str) -> bool {
        let toks = match statements(sql) {
            Ok(t) => t,
            Err(_) => return false,
        };
        if toks.is_empty() {
            return true;
        }
        let ours = |n: &[String]| n.len() == 2 && n[0] == self.meta && n[1] == "version";
        match parse(&toks[0]) {
            Ok(Stmt::Select(_) | Stmt::Show(_) | Stmt::Set | Stmt::Lock | Stmt::Begin | Stmt::Commit | Stmt::Rollback) => true,
            Ok(Stmt::Savepoint(_) | Stmt::Release(_) | Stmt::RollbackTo(_)) => true,
            Ok(Stmt::Insert { table, .. } | Stmt::Delete { table, .. } | Stmt::Update { table, .. } | Stmt::CreateTable { table, .. }) => ours(&table),
            Ok(Stmt::CreateSchema { name, .. }) => name == self.meta,
            _ => false,
        }
    }
    pub fn errors(&self) -> Vec<String> {
        self.srv
            .state()
            .log
            .iter()
            .filter_map(|e| match e {
                Event::Stmt { sql, result: Err(c), .. } => Some(format!("{c}: {sql}")),
                _ => None,
            })
            .collect()
    }
}

/// The same list of statements, whatever their spacing and final semicolons.
pub fn same_stmts(want: &[String], got: &[String]) -> bool {
    let f = |v: &[String]| -> Vec<String> { v.iter().filter(|x| !empty_stmt(x)).map(|x| norm(x)).collect() };
    f(want) == f(got)
}
pub fn empty_stmt(s: &str) -> bool {
    lex(s).map(|t| t.iter().all(|x| x.is_op(";"))).unwrap_or(false)
}

// ---------- versions ----------

const NOTES: &[&str] = &[
    "plain", "it's", "semi;colon", "$1", "$2 and $1", "%s", "{}", "two\nlines", "tab\t", "é日本", "emoji😀", "back\\slash", "\\n", "\"quoted\"", "-- no comment", "/* no", "*/", "", " ", "null",
    "NULL", "{a,b}", "{\"x\",NULL}", "','", "'');", "\u{1}", "\u{7f}", "line\r\nfeed", "${HOME}", "$HOME", "$$", "$q$", "a,b", "[]", "{", "\u{feff}", "\u{2028}", "\\'", "\\\\", "E'", "1", "t", "x: y", "# c",
    "- d", "trailing ", " leading", "'", "''", "\u{85}", "\u{a0}", "\u{10ffff}", "\u{fffd}",
];

fn note(s: &mut Src) -> String {
    if s.chance(70) {
        s.pick(NOTES).to_string()
    } else {
        (0..s.range(1, 3)).map(|_| s.pick(NOTES).to_string()).collect::<Vec<_>>().join(s.pick(&["", " ", "\n"]))
    }
}

fn literal(s: &mut Src, t: &str) -> String {
    match s.n(3) {
        0 if !t.contains("$zz") && !t.ends_with('$') => format!("$zz${t}$zz$"),
        1 => format!("E'{}'", t.replace('\\', "\\\\").replace('\'', "\\'").replace('\n', "\\n")),
        _ => format!("'{}'", t.replace('\'', "''")),
    }
}

/// A statement that leaves a trace in the journal.
pub fn trace(s: &mut Src) -> String {
    let kind = s.weighted(&[10, 2, 1, 1]);
    let mut n = note(s);
    if kind == 0 && s.below(300) == 299 {
        // more than a buffer's worth
        n = n.chars().chain("é-".chars()).cycle().take(s.range(1_000, 90_000)).collect();
    }
    let l = literal(s, &n);
    let core = match kind {
        0 => format!("INSERT INTO public.journal (note) VALUES ({l})"),
        1 => format!("UPDATE public.journal SET note = note || {l}"),
        2 => format!("DELETE FROM public.journal WHERE note = {l}"),
        _ => format!("insert into \"public\".\"journal\"(note)\n  select {l}"),
    };
    let pre = *s.pick(&["", "", "", "", "-- first; this\n", "/* a ; b */ ", "\n\n  ", "\t", "/* é */"]);
    let post = *s.pick(&["", ";", ";", ";", ";\n", " ; ", "\n", ";;", " -- last", "; -- last;", "  /* x */"]);
    format!("{pre}{core}{post}")
}

pub const NAMES: &[&str] = &[
    "v1", "v2", "v3", "a b", "é", "日本", "a.b", "20240101_000000-auto", "20240101_000000-auto-2", "-x", "--", "\"q\"", "'", "it's", "#c", "a: b", "- x", "~", "null", "2", "10", "9", "\\", "*", "$HOME", "$1", "emoji😀",
    "Init", "STAGE", "init2", "true", "1.0", "%s", "{}", "x;y", "zzz", "0", "tmp", "a.yaml", "public", "version", "&a", "!t", "{a}", "a,b", "NULL", "v1 ", " v2", "V1", "v1\t",
];

pub fn fresh_name(s: &mut Src, taken: &[RVersion]) -> String {
    for _ in 0..10 {
        let n = match s.weighted(&[12, 2, 1]) {
            0 => s.pick(NAMES).to_string(),
            1 => format!("v{}", s.below(1000)),
            _ => {
                // as long as the log takes
                let k = s.range(100, 128);
                s.pick(&["l", "é"]).chars().cycle().take(k).collect()
            }
        };
        if !taken.iter().any(|v| v.name == n) && n.len() < 245 {
            return n;
        }
    }
    let mut k = 0;
    while taken.iter().any(|v| v.name == format!("n{k}")) {
        k += 1;
    }
    format!("n{k}")
}

fn odd_changes(s: &mut Src, i: usize) -> Vec<RChange> {
    let mut v = vec![];
    for _ in 0..s.n(3) {
        let n = note(s);
        v.push(match s.n(6) {
            0 => RChange::CreateSchema { schema_name: n },
            1 => RChange::AddCheck { schema: "public".into(), table: "t".into(), constraint: "c".into(), expression: n, deferrable: s.flag(), initially_deferred: false },
            2 => RChange::CreateView { schema: "public".into(), view: "v".into(), query: n },
            3 => RChange::CreateFunction { schema: "public".into(), function: "f()".into(), body: n, language: "SQL".into(), returns: "void".into(), volatility: "STABLE".into() },
            4 => RChange::CreateSequence { schema: n, sequence: "q".into(), data_type: "bigint".into(), increment: -1, min_value: i64::MIN, max_value: i64::MAX, start: s.below(1 << 62) as i64, cache: 1, cycle: true },
            _ => RChange::AlterColumnSetDefault { schema: "public".into(), table: n, column: "c".into(), default: if s.flag() { None } else { Some("x".into()) } },
        });
    }
    if s.flag() {
        v.push(table_change(i));
    }
    v
}

pub fn table_change(i: usize) -> RChange {
    RChange::CreateTable {
        schema: "public".into(),
        table: format!("t{i}"),
        columns: vec![RCol { name: "id".into(), data_type: "integer".into(), not_null: i % 2 == 0, default: None }],
    }
}

/// A version whose statements can be run any number of times, up and down again.
pub fn marker(s: &mut Src, prev: &str, taken: &[RVersion], i: usize) -> RVersion {
    let name = fresh_name(s, taken);
    let most = if taken.len() > 8 { 2 } else if s.chance(2) { 140 } else { 4 };
    let mut up: Vec<String> = (0..s.n(most)).map(|_| trace(s)).collect();
    let mut down: Vec<String> = (0..s.n(most)).map(|_| trace(s)).collect();
    if s.chance(40) {
        let t = format!("m{i}_{}", s.below(100));
        let (c, d) = match s.n(4) {
            0 => (format!("CREATE TABLE \"public\".\"{t}\" (\"id\" integer);"), format!("DROP TABLE \"public\".\"{t}\";")),
            1 => (format!("CREATE SCHEMA \"{t}\""), format!("DROP SCHEMA \"{t}\"")),
            2 => (format!("CREATE SEQUENCE \"public\".\"{t}\";"), format!("DROP SEQUENCE \"public\".\"{t}\";")),
            _ => (format!("CREATE VIEW \"public\".\"{t}\" AS\nSELECT 1;"), format!("DROP VIEW \"public\".\"{t}\";")),
        };
        up.insert(s.n(up.len() + 1), c);
        down.insert(s.n(down.len() + 1), d);
    }
    if s.chance(4) {
        up.push(s.pick(&["", ";", "-- nothing", " "]).to_string());
    }
    if up.len() > 1 && s.chance(10) {
        // the same statement twice
        let k = s.n(up.len());
        let x = up[k].clone();
        if x.to_lowercase().contains("journal") {
            up.push(x.clone());
            if s.flag() {
                down.push(x);
            }
        }
    }
    let v = RVersion { name, previous: Some(prev.into()), changes: odd_changes(s, i), up, down };
    // what the YAML library itself does not carry is not podo's doing
    match serde_yaml::to_string(&v).ok().and_then(|t| serde_yaml::from_str::<RVersion>(&t).ok()) {
        Some(x) if x == v => v,
        _ => RVersion { changes: vec![], up: vec![], down: vec![], ..v },
    }
}

/// How many versions a history has; now and then a great many.
pub fn many(s: &mut Src, few: usize) -> usize {
    if s.chance(2) {
        s.range(9, 130)
    } else {
        few
    }
}

/// Puts versions in front of the stage.
pub fn extend(s: &mut Src, b: &Bed, n: usize) {
    let mut c = b.chain();
    let mut stage = c.pop().unwrap();
    for _ in 0..n {
        let prev = c.last().unwrap().name.clone();
        let v = marker(s, &prev, &c, c.len());
        b.p.write_version(&v);
        c.push(v);
    }
    stage.previous = Some(c.last().unwrap().name.clone());
    b.p.write_version(&stage);
}

/// The database after statements; the first one that fails, else.
pub fn after(e: &Engine, stmts: &[String]) -> Result<Engine, String> {
    let mut e = e.clone();
    for q in stmts {
        if !empty_stmt(q) {
            run(&mut e, q)?;
        }
    }
    Ok(e)
}
