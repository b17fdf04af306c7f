//! C16 and C02: cloning a database, and reading what was cloned: in process where podo's modules can be called
//! (feature inproc), and by staging it.
use crate::files::{replay, NOWHERE};
use std::collections::BTreeMap;
use vcore::catalog::{parse_type, split_key, split_opclass, Extras};
use vcore::ddl::{canonical, Pg};
use vcore::ensure;
use vcore::gen::*;
use vcore::model::*;
use vcore::pbt::*;
use vcore::pgsrv::*;
use vcore::sqldb::Engine;
use vcore::sqltext::*;
use vcore::world::*;
use vcore::yaml;

pub fn c16() -> Check {
    Check {
        id: "C16",
        level: "exploration",
        rule: "random databases, as PostgreSQL's catalogue shows them: tables with columns of many types (dropped columns in between), every kind of \
               constraint and deferral, indexes with options and operator classes, views, sequences owned or not, functions; beside them other schemas and \
               things definitions do not know (types, domains, aggregates, procedures, materialised views, foreign tables, triggers); cloned by the \
               podo binary, and the file it writes loaded and compared with the database's public schema; roundtrip: a new database migrated up \
               from what was cloned is the same, too; non-trivial: the public schema holds a table and five objects",
        assumptions: vec![
            "the harness's own server and catalogue stand for PostgreSQL's",
            "not expressible in definitions, hence not compared: owners, grants, comments, partial indexes and included columns, collations, \
             identity and generated columns, partition bounds, whether a check was validated",
        ],
        parts: vec![
            Part { name: "clone", quick: 3000, thorough: 60000, f: clone },
            Part { name: "roundtrip", quick: 500, thorough: 12000, f: roundtrip },
        ],
        fixed: vec![],
    }
}

/// C02 at the program: clone is what saves definitions.
pub fn saved() -> Part {
    Part { name: "program", quick: 1200, thorough: 30000, f: program }
}
#[cfg(not(feature = "inproc"))]
pub fn c02() -> Check {
    Check {
        id: "C02",
        level: "exploration",
        rule: "random databases cloned by the podo binary, and what it saved staged by it and compared (podo's modules could not be called in process); \
               non-trivial: the database holds a table and five objects",
        assumptions: vec!["the harness's own server and catalogue stand for PostgreSQL's", "sequence owners are set aside, which no change carries"],
        parts: vec![saved()],
        fixed: vec![],
    }
}

const WIDE: &[&str] = &[
    "char(3)", "character(5)", "char", "bit(3)", "bit", "bit varying(5)", "varbit", "time(2)", "time", "time(1) with time zone", "timetz", "timestamp(0)", "timestamptz(6)", "timestamptz",
    "timestamp without time zone", "interval", "interval(3)", "interval year to month", "interval day to second(2)", "interval hour", "numeric(5)", "numeric(38,38)", "numeric", "varchar", "real",
    "json", "xml", "inet", "point", "box", "lseg", "name", "oid", "\"char\"", "regclass", "tsvector", "char(3)[]", "varchar(9)[]", "numeric(7,3)[]", "timestamp(2)[]", "timestamptz(1)[]",
    "interval[]", "point[]", "name[]", "boolean[]", "bigint[]", "double precision[]", "time(3)[]", "bit(4)[]", "bit varying(8)[]", "\"char\"[]", "money", "cidr", "timetz(2)[]", "int4range", "jsonb[]",
    "interval(3)[]", "interval year to month[]", "interval second(3)[]", "interval day", "numeric(3,-2)", "numeric(2,5)[]", "numeric(1000,0)", "timestamptz(0)[]", "time(6)[]",
    "timestamp(6)", "time(0) with time zone", "uuid[]", "smallint[]", "bytea[]", "oid[]", "varchar(10485760)", "char(1)[]", "bit(1)", "bit varying(83886080)[]", "real[]", "json[]", "regclass[]",
];
const OWN: &[&str] = &["mood", "Mood", "a type", "weird\"type", "select"];

/// What a database means, whichever way its parts are written.
fn meaning(db: &Db) -> Db {
    let owners = db.clone();
    let mut d = canonical(db);
    for (sn, sc) in d.schemas.iter_mut() {
        for (rn, r) in sc.rels.iter_mut() {
            match r {
                Rel::Table(t) => {
                    let was = owners.table(sn, rn).unwrap();
                    for (c, w) in t.cols.iter_mut().zip(&was.cols) {
                        c.ty = type_meaning(&w.ty);
                    }
                }
                Rel::View(v) => v.query = v.query.trim_end_matches([';', ' ']).to_string(),
                Rel::Index(i) => {
                    for k in i.keys.iter_mut() {
                        let (e, o) = split_key(k);
                        let (e, c) = split_opclass(&e);
                        *k = format!("{} {} {o}", norm_expr(&e), c.unwrap_or_default());
                    }
                }
                Rel::Seq(q) => {
                    if let Some(Rel::Seq(w)) = owners.schemas[sn].rels.get(rn) {
                        q.owned = w.owned.clone();
                    }
                }
            }
        }
    }
    d
}
fn type_meaning(t: &str) -> String {
    let plain = t.split(['(', '[']).next().unwrap_or("").trim().to_lowercase();
    let m = parse_type(t);
    if m == (25, -1) && plain != "text" || m == (1009, -1) && plain != "text" {
        let n = norm(t);
        return n.strip_prefix("public . ").unwrap_or(&n).to_string();
    }
    format!("{m:?}")
}

struct Bed {
    w: World,
    p: Proj,
    srv: Server,
}

fn bed(s: &mut Src, db: Db, extras: Extras) -> Bed {
    let w = World::new(s);
    let srv = Server::new();
    let p = w.project(&srv.url("app"));
    let mut e = Engine::new(&Db::default());
    e.seed = s.below(1 << 20);
    e.pg = Pg { db };
    e.extras = extras;
    {
        let mut st = srv.state();
        st.put_db("app", e);
        st.noise = s.chance(15);
    }
    Bed { w, p, srv }
}

fn public(db: &Db) -> Db {
    Db { schemas: db.schemas.iter().filter(|x| x.0 == "public").map(|(k, v)| (k.clone(), v.clone())).collect() }
}

fn run_clone(b: &Bed, ctx: &mut Ctx, what: &str) -> Result<Db, Fail> {
    let text = saved_text(b, ctx, what)?;
    read(b, &text, what)
}

/// Clones, and returns the definitions written.
fn saved_text(b: &Bed, ctx: &mut Ctx, what: &str) -> Result<String, Fail> {
    let before = b.p.tree();
    let (db, raw) = {
        let st = b.srv.state();
        (st.db("app").pg.db.clone(), st.db("app").raw.clone())
    };
    b.srv.state().fresh();
    let o = b.w.podo(&["clone"])?;
    b.srv.settle();
    ctx.runs += 1;
    let errors: Vec<String> = b.srv.state().log.iter().filter_map(|e| if let Event::Stmt { sql, result: Err(c), .. } = e { Some(format!("{c}: {sql}")) } else { None }).collect();
    ensure!(o.ok(), "refused", "{what}: {} server: {errors:?}", o.show());
    {
        let st = b.srv.state();
        ensure!(st.db("app").pg.db == db && st.db("app").raw.len() == raw.len(), "database-changed", "{what}: the database has changed");
    }
    let after = b.p.tree();
    let mut path = None;
    for (k, v) in &after {
        let k = &String::from_utf8_lossy(k).to_string();
        if before.get(k.as_bytes()) != Some(v) && matches!(v, Entry::File(_)) {
            ensure!(k.starts_with("database/definitions/"), "other-file", "{what}: {k:?} was written");
            ensure!(path.is_none(), "other-file", "{what}: {k:?} was written beside {path:?}");
            path = Some(k.clone());
        }
    }
    for k in before.keys() {
        ensure!(after.contains_key(k), "file-lost", "{what}: {} is gone", String::from_utf8_lossy(k));
    }
    // the same content may have been there
    let path = match path.or_else(|| after.keys().find(|k| k.starts_with(b"database/definitions/") && matches!(after[*k], Entry::File(_))).map(|k| String::from_utf8_lossy(k).to_string())) {
        Some(p) => p,
        None => return fail("no-file", format!("{what}: wrote no definition file")),
    };
    Ok(std::fs::read_to_string(b.p.root.join(&path)).unwrap_or_default())
}

/// The database a definition file states, with podo's own reading.
#[cfg(feature = "inproc")]
fn read(_: &Bed, text: &str, what: &str) -> Result<Db, Fail> {
    use crate::convert::from_podo;
    use podo::verif_api::definition as pd;
    match guarded("loading", || pd::load_yaml_string(text).map_err(|e| e.to_string()))? {
        Err(e) => fail("load-refused", format!("{what}: what was cloned does not load: {e}\n{text}")),
        Ok(x) => match from_podo(&x) {
            Ok(m) => Ok(m),
            Err(e) => fail("inconsistent", format!("{what}: {e}")),
        },
    }
}
#[cfg(not(feature = "inproc"))]
fn read(_: &Bed, text: &str, what: &str) -> Result<Db, Fail> {
    staged(text, what)
}

/// What podo stages for the definitions of a project without a history.
fn staged(text: &str, what: &str) -> Result<Db, Fail> {
    let w = World::new(&mut Src::random(0));
    let p = w.project(NOWHERE);
    put(&p.definitions.join("public.yaml"), text);
    let o = w.podo(&["stage"])?;
    ensure!(o.ok(), "load-refused", "{what}: what was cloned is not staged: {}\n{text}", o.show());
    let h = p.hist(what)?;
    let d = replay(&h, what)?;
    Ok(d)
}

/// What lives in a database beside the things definitions know.
fn extras(s: &mut Src, db: &mut Db) -> Extras {
    let mut x = Extras::default();
    let schemas: Vec<String> = db.schemas.keys().cloned().collect();
    if schemas.is_empty() {
        return x;
    }
    let mut k = 0;
    let mut name = |s: &mut Src, n: &str| {
        k += 1;
        let n = if s.chance(20) { format!("Extra {n}") } else { n.to_string() };
        format!("{n}{k}")
    };
    let tables = db.tables();
    for (a, t) in &tables {
        if s.chance(15) {
            let n = db.table(a, t).unwrap().cols.len();
            x.dropped.insert((a.clone(), t.clone()), (0..s.range(1, 3)).map(|_| s.n(n + 1)).collect());
        }
        if s.chance(5) {
            x.partitioned.insert((a.clone(), t.clone()));
        }
        for (c, v) in &db.table(a, t).unwrap().cons {
            if matches!(v, Con::Check(_)) && s.chance(12) {
                x.check_suffix.insert((a.clone(), t.clone(), c.clone()), s.pick(&[" NOT VALID", " NO INHERIT", " NO INHERIT NOT VALID"]).to_string());
            }
        }
    }
    if s.chance(20) {
        for _ in 0..s.range(1, 2) {
            let a = s.pick(&schemas).clone();
            let n = if s.flag() { s.pick(OWN).to_string() } else { name(s, "kind") };
            if db.schemas[&a].rels.contains_key(&n) || x.enums.contains(&(a.clone(), n.clone())) {
                continue;
            }
            if a.contains(['!', '=']) || n.contains(['!', '=']) {
                continue;
            }
            x.enums.push((a.clone(), n.clone()));
            // and columns of it
            let ty = if a == "public" && s.flag() { qi(&n) } else { format!("{}.{}", qi(&a), qi(&n)) };
            for (b, t) in &tables {
                if s.chance(40) {
                    let t = db.table_mut(b, t).unwrap();
                    if !t.cols.is_empty() {
                        let c = s.n(t.cols.len());
                        t.cols[c].ty = if s.chance(25) { format!("{ty}[]") } else { ty.clone() };
                        t.cols[c].default = None;
                    }
                }
            }
        }
    }
    for f in 0..7 {
        if s.chance(12) {
            let a = s.pick(&schemas).clone();
            let n = name(s, "x");
            if db.schemas[&a].rels.contains_key(&n) || db.schemas[&a].funcs.contains_key(&n) {
                continue;
            }
            match f {
                0 => x.composites.push((a, n)),
                1 => x.domains.push((a, n)),
                2 => x.aggregates.push((a, n)),
                3 => x.procedures.push((a, n)),
                4 => x.matviews.push((a, n)),
                5 => x.foreign.push((a, n)),
                _ => x.triggers.extend(db.rels_of("view")),
            }
        }
    }
    if s.chance(10) {
        for (a, t) in &tables {
            for c in db.table_mut(a, t).unwrap().cols.iter_mut() {
                if s.chance(20) {
                    c.default = None;
                    x.generated.insert((a.clone(), t.clone(), c.name.clone()));
                }
            }
        }
    }
    if s.chance(40) {
        let mut taken = std::collections::BTreeSet::new();
        for (a, q) in db.rels_of("sequence") {
            let Some(Rel::Seq(seq)) = db.schemas[&a].rels.get(&q) else { continue };
            let Some((t, c)) = seq.owned.clone() else { continue };
            let at = (a.clone(), t.clone(), c.clone());
            let Some(col) = db.table_mut(&a, &t).and_then(|t| t.cols.iter_mut().find(|k| k.name == c)) else { continue };
            if col.default.is_none() && !x.generated.contains(&at) && s.chance(60) && taken.insert(at) {
                col.not_null = true;
                x.identities.insert((a, q));
            }
        }
    }
    x.role = s.weighted(&[6, 1, 1]) as u8;
    x.not_null_rows = s.chance(25);
    x.view_options = s.chance(15);
    x
}

/// Types and other things in forms the generator of definitions does not use.
fn widen(s: &mut Src, db: &mut Db) {
    for (a, t) in db.tables() {
        let n = db.table(&a, &t).unwrap().cols.len();
        for c in 0..n {
            if s.chance(25) {
                let c = &mut db.table_mut(&a, &t).unwrap().cols[c];
                c.ty = s.pick(WIDE).to_string();
                c.default = if s.chance(20) { Some(format!("'x'::{}", c.ty)) } else { None };
            }
        }
    }
    // keys that are indexes only, which foreign keys can point at as well
    if s.chance(15) {
        let fks: Vec<(String, String, Vec<String>)> = db
            .schemas
            .values()
            .flat_map(|sc| sc.rels.values())
            .flat_map(|r| if let Rel::Table(t) = r { t.cons.values().cloned().collect() } else { vec![] })
            .filter_map(|c| if let Con::Fk(f) = c { Some((f.tschema, f.ttable, f.tcols)) } else { None })
            .collect();
        for (a, t, cols) in fks {
            let (mut x, mut n) = (cols.clone(), None);
            x.sort();
            if let Some(t) = db.table_mut(&a, &t) {
                n = t.cons.iter().find(|(_, c)| matches!(c, Con::Unique(k) if { let mut y = k.cols.clone(); y.sort(); x == y })).map(|x| x.0.clone());
                if let Some(n) = &n {
                    t.cons.remove(n);
                }
            }
            let Some(n) = n else { continue };
            let sc = db.schemas.get_mut(&a).unwrap();
            if t.contains(['!', '=']) || sc.rels.contains_key(&n) {
                continue;
            }
            let keys = cols.iter().map(|c| qi(c)).collect();
            sc.rels.insert(n, Rel::Index(Index { table: t, unique: true, method: "btree".into(), keys }));
        }
    }
    for sc in db.schemas.values_mut() {
        // functions of one name
        for k in sc.funcs.keys().cloned().collect::<Vec<_>>() {
            if s.chance(20) {
                let base = vcore::ddl::func_base(&k).to_string();
                let f = gen_func(s);
                sc.funcs.entry(format!("{base}(over text, load integer[])")).or_insert(f);
            }
        }
        for r in sc.rels.values_mut() {
            if let Rel::Index(i) = r {
                for k in i.keys.iter_mut() {
                    if s.chance(10) {
                        let (e, o) = split_key(k);
                        let end = k[e.len()..].to_string();
                        let _ = o;
                        *k = format!("{e} {}{end}", s.pick(&["text_pattern_ops", "varchar_pattern_ops", "gin_trgm_ops", "jsonb_path_ops", "\"Own_ops\"", "\"my\"\"_ops\""]));
                    }
                }
            }
        }
    }
}

fn describe(db: &Db, x: &Extras) -> String {
    let mut t = yaml::simple(db);
    t.push_str(&format!("# {x:?}\n"));
    t
}

fn random_db(s: &mut Src, ctx: &mut Ctx) -> (Db, Extras) {
    let o = if s.flag() { Opts { max_schemas: 2, ..Opts::pg() } } else { Opts::small() };
    let mut db = gen_db(s, &o);
    if !db.schemas.contains_key("public") && s.chance(90) {
        db.schemas.insert("public".into(), Schema::default());
    }
    widen(s, &mut db);
    let x = extras(s, &mut db);
    ctx.case(describe(&db, &x));
    let mut l = BTreeMap::new();
    labels(&public(&db), &mut l);
    for (k, n) in l {
        *ctx.labels.entry(k).or_default() += n;
    }
    let p = public(&db);
    ctx.nontrivial = !p.tables().is_empty() && p.objects() >= 5;
    (db, x)
}

fn clone(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (db, x) = random_db(s, ctx);
    let want = public(&db);
    let b = bed(s, db, x);
    if s.chance(20) {
        put(&b.p.definitions.join("public.yaml"), s.pick(&["schema public:\n  table gone:\n    columns:\n      a: text\n", "", "]", "schema other:\n"]));
    }
    let got = run_clone(&b, ctx, "clone")?;
    same(&want, &got, "clone")?;
    if s.chance(15) {
        let got = run_clone(&b, ctx, "clone, again")?;
        same(&want, &got, "clone, again")?;
    }
    Ok(())
}

fn same(want: &Db, got: &Db, what: &str) -> Res {
    let (x, y) = (meaning(want), meaning(got));
    let (x, y) = if cfg!(feature = "inproc") { (x, y) } else { (x.without_owners(), y.without_owners()) };
    ensure!(x == y, "differs", "{what}: what was cloned is not the database: {}", describe_diff(&x, &y));
    Ok(())
}

/// What was cloned makes the same database anew.
fn roundtrip(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut db = gen_db(s, &Opts { max_schemas: 1, ..Opts::pg() });
    db.schemas.retain(|k, _| k == "public");
    db.schemas.entry("public".into()).or_default();
    ctx.case(yaml::simple(&db));
    ctx.nontrivial = !db.tables().is_empty() && db.objects() >= 5;
    let b = bed(s, db.clone(), Extras::default());
    let got = run_clone(&b, ctx, "clone")?;
    same(&db, &got, "clone")?;
    b.srv.state().put_db("fresh", Engine::new(&RVersion::init_db()));
    put(&b.p.root.join(".podo.yaml"), config(&[("database", &b.srv.url("fresh"), "database/history", "database/definitions", "podo_meta")]));
    b.w.podo(&["stage"])?.good("stage")?;
    b.w.podo(&["make"])?.good("make")?;
    b.srv.state().fresh();
    let o = b.w.podo(&["up"])?;
    b.srv.settle();
    ctx.runs += 3;
    let errors: Vec<String> = b.srv.state().log.iter().filter_map(|e| if let Event::Stmt { sql, result: Err(c), .. } = e { Some(format!("{c}: {sql}")) } else { None }).collect();
    ensure!(o.ok(), "refused", "up from what was cloned: {} server: {errors:?}", o.show());
    let now = public(&b.srv.state().db("fresh").pg.db);
    let (x, y) = (meaning(&db.without_owners().with_sorted_columns()), meaning(&now.with_sorted_columns()));
    ensure!(x == y, "roundtrip", "up from what was cloned: the new database is not the old one: {}", describe_diff(&x, &y));
    Ok(())
}

/// What clone saves states the same database to stage.
fn program(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (db, x) = if s.flag() {
        random_db(s, ctx)
    } else {
        let mut db = gen_db(s, &Opts { max_schemas: 1, ..Opts::pure() });
        db.schemas.retain(|k, _| k == "public");
        if s.chance(30) {
            for f in db.schemas.values_mut().flat_map(|x| x.funcs.values_mut()) {
                f.body = vcore::anychange::any_text(s);
            }
        }
        ctx.case(describe(&db, &Extras::default()));
        labels(&db, &mut ctx.labels);
        ctx.nontrivial = !db.tables().is_empty() && db.objects() >= 5;
        (db, Extras::default())
    };
    let want = public(&db);
    let b = bed(s, db, x);
    let text = saved_text(&b, ctx, "clone")?;
    let got = staged(&text, "what was cloned")?;
    ctx.runs += 1;
    let (x, y) = (meaning(&want).without_owners(), meaning(&got).without_owners());
    ensure!(x == y, "differs", "what was cloned is staged as another database: {}", describe_diff(&x, &y));
    Ok(())
}
