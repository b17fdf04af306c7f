//! PostgreSQL's system catalogue as it would look for a database.
use crate::ddl::{func_base, Pg};
use crate::model::*;
use crate::sqldb::{array_of, Cols, Engine, BOOL, CHAR, FLOAT8, INT2, INT2VECTOR, INT4, INT8, NAME, NODE_TREE, OID, OIDVECTOR, TEXT, V};
use crate::sqltext::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

type Name2 = (String, String);

/// What a database holds beside what definitions know of.
#[derive(Clone, Debug, Default)]
pub struct Extras {
    /// dropped columns of a table, each by the number of the columns before it
    pub dropped: BTreeMap<Name2, Vec<usize>>,
    pub composites: Vec<Name2>,
    /// domains with a constraint of their own
    pub domains: Vec<Name2>,
    /// columns may be of these types
    pub enums: Vec<Name2>,
    /// tables that are partitioned
    pub partitioned: std::collections::BTreeSet<Name2>,
    pub aggregates: Vec<Name2>,
    pub procedures: Vec<Name2>,
    pub matviews: Vec<Name2>,
    pub foreign: Vec<Name2>,
    pub triggers: Vec<Name2>,
    /// (schema, table, constraint): what pg_get_constraintdef appends
    pub check_suffix: BTreeMap<(String, String, String), String>,
    /// not-null constraints have rows of their own, as from PostgreSQL 18
    pub not_null_rows: bool,
    /// sequences with a default that uses them also have dependencies of their own
    pub view_options: bool,
    /// who asks: 0 the owner, 1 a reader, 2 somebody without privileges on the tables
    pub role: u8,
    /// columns computed from others, which definitions cannot state
    pub generated: std::collections::BTreeSet<(String, String, String)>,
    /// sequences, owned ones, that are the identity of their column
    pub identities: std::collections::BTreeSet<Name2>,
}

pub struct TypeRow {
    pub oid: i64,
    pub name: &'static str,
    pub len: i64,
    pub elem: i64,
    pub array: i64,
    pub long: &'static str,
}
const fn ty(oid: i64, array: i64, name: &'static str, len: i64, elem: i64, long: &'static str) -> TypeRow {
    TypeRow { oid, name, len, elem, array, long }
}
pub const TYPES: &[TypeRow] = &[
    ty(16, 1000, "bool", 1, 0, "boolean"),
    ty(17, 1001, "bytea", -1, 0, "bytea"),
    ty(18, 1002, "char", 1, 0, "\"char\""),
    ty(19, 1003, "name", 64, 18, "name"),
    ty(20, 1016, "int8", 8, 0, "bigint"),
    ty(21, 1005, "int2", 2, 0, "smallint"),
    ty(23, 1007, "int4", 4, 0, "integer"),
    ty(25, 1009, "text", -1, 0, "text"),
    ty(26, 1028, "oid", 4, 0, "oid"),
    ty(114, 199, "json", -1, 0, "json"),
    ty(142, 143, "xml", -1, 0, "xml"),
    ty(600, 1017, "point", 16, 701, "point"),
    ty(601, 1018, "lseg", 32, 600, "lseg"),
    ty(602, 1019, "path", -1, 0, "path"),
    ty(603, 1020, "box", 32, 600, "box"),
    ty(604, 1027, "polygon", -1, 0, "polygon"),
    ty(628, 629, "line", 24, 701, "line"),
    ty(650, 651, "cidr", -1, 0, "cidr"),
    ty(700, 1021, "float4", 4, 0, "real"),
    ty(701, 1022, "float8", 8, 0, "double precision"),
    ty(718, 719, "circle", 24, 0, "circle"),
    ty(790, 791, "money", 8, 0, "money"),
    ty(829, 1040, "macaddr", 6, 0, "macaddr"),
    ty(869, 1041, "inet", -1, 0, "inet"),
    ty(1042, 1014, "bpchar", -1, 0, "character"),
    ty(1043, 1015, "varchar", -1, 0, "character varying"),
    ty(1082, 1182, "date", 4, 0, "date"),
    ty(1083, 1183, "time", 8, 0, "time without time zone"),
    ty(1114, 1115, "timestamp", 8, 0, "timestamp without time zone"),
    ty(1184, 1185, "timestamptz", 8, 0, "timestamp with time zone"),
    ty(1186, 1187, "interval", 16, 0, "interval"),
    ty(1266, 1270, "timetz", 12, 0, "time with time zone"),
    ty(1560, 1561, "bit", -1, 0, "bit"),
    ty(1562, 1563, "varbit", -1, 0, "bit varying"),
    ty(1700, 1231, "numeric", -1, 0, "numeric"),
    ty(2205, 2210, "regclass", 4, 0, "regclass"),
    ty(2249, 2287, "record", -1, 0, "record"),
    ty(2278, 0, "void", 4, 0, "void"),
    ty(2279, 0, "trigger", 4, 0, "trigger"),
    ty(2281, 0, "internal", 8, 0, "internal"),
    ty(2283, 0, "anyelement", 4, 0, "anyelement"),
    ty(2277, 0, "anyarray", -1, 0, "anyarray"),
    ty(2950, 2951, "uuid", 16, 0, "uuid"),
    ty(3614, 3643, "tsvector", -1, 0, "tsvector"),
    ty(3615, 3645, "tsquery", -1, 0, "tsquery"),
    ty(3802, 3807, "jsonb", -1, 0, "jsonb"),
    ty(3904, 3905, "int4range", -1, 0, "int4range"),
    ty(3838, 0, "event_trigger", 4, 0, "event_trigger"),
];

/// A column type's oid and modifier: `varchar(10)[]`, `numeric(10,2)`, `timestamp(3) with time zone`.
pub fn parse_type(t: &str) -> (i64, i64) {
    let toks = match lex(t) {
        Ok(x) => x,
        Err(_) => return (25, -1),
    };
    let mut words = vec![];
    let mut args: Vec<String> = vec![];
    let (mut inside, mut array, mut has_args) = (false, false, false);
    for x in &toks {
        if x.is_op("(") {
            inside = true;
            has_args = true;
        } else if x.is_op(")") {
            inside = false;
        } else if x.is_op("[") || x.is_op("[]") {
            array = true;
        } else if x.is_op("]") || x.is_op(",") {
        } else if inside {
            match args.last_mut() {
                Some(a) if a == "-" => a.push_str(&x.text()),
                _ => args.push(x.text()),
            }
        } else if let Tok::Quoted(q) = x {
            words.push(format!("\"{q}\""));
        } else {
            words.push(x.text());
        }
    }
    let mut w = words.join(" ");
    for p in ["pg_catalog . "] {
        w = w.replace(p, "");
    }
    let args: Vec<i64> = args.iter().filter_map(|a| a.parse().ok()).collect();
    let mut fields = String::new();
    if let Some(r) = w.clone().strip_prefix("interval ") {
        fields = r.to_string();
        w = "interval".into();
    }
    let base = match w.as_str() {
        "boolean" => "bool",
        "bigint" | "bigserial" | "serial8" => "int8",
        "int" | "integer" | "serial" | "serial4" => "int4",
        "smallint" | "smallserial" => "int2",
        "real" => "float4",
        "double precision" | "float" => "float8",
        "char" | "character" => "bpchar1",
        "\"char\"" => "char",
        "\"bpchar\"" => "bpchar",
        "varchar" | "character varying" => "varchar",
        "decimal" | "dec" => "numeric",
        "timestamp without time zone" => "timestamp",
        "timestamp with time zone" => "timestamptz",
        "time without time zone" => "time",
        "time with time zone" => "timetz",
        "bit varying" => "varbit",
        x => x,
    };
    let typmod = match base {
        "bpchar1" => args.first().copied().unwrap_or(1) + 4,
        "bpchar" | "varchar" if has_args => args.first().copied().unwrap_or(1) + 4,
        "bit" => args.first().copied().unwrap_or(1),
        "varbit" | "time" | "timetz" | "timestamp" | "timestamptz" if has_args => args.first().copied().unwrap_or(6),
        "numeric" if has_args => ((args[0] << 16) | (args.get(1).copied().unwrap_or(0) & 0x7ff)) + 4,
        "interval" if has_args || !fields.is_empty() => (interval_range(&fields) << 16) | args.first().copied().unwrap_or(0xffff),
        _ => -1,
    };
    let base = if base == "bpchar1" { "bpchar" } else { base };
    match TYPES.iter().find(|r| r.name == base) {
        Some(r) => (if array { r.array } else { r.oid }, typmod),
        None => (if array { 1009 } else { 25 }, -1),
    }
}

const UNITS: &[(&str, i64)] = &[("year", 1 << 2), ("month", 1 << 1), ("day", 1 << 3), ("hour", 1 << 10), ("minute", 1 << 11), ("second", 1 << 12)];
fn unit(n: &str) -> i64 {
    UNITS.iter().find(|u| u.0 == n).map(|u| u.1).unwrap_or(0)
}
fn interval_range(f: &str) -> i64 {
    let w: Vec<&str> = f.split(' ').filter(|x| !x.is_empty()).collect();
    match w.as_slice() {
        [] => 0x7fff,
        [a] => unit(a),
        [a, "to", b] => {
            let i = UNITS.iter().position(|u| u.0 == *a).unwrap_or(0);
            let j = UNITS.iter().position(|u| u.0 == *b).unwrap_or(0);
            UNITS[i.min(j)..=j].iter().map(|u| u.1).sum()
        }
        _ => 0x7fff,
    }
}
pub fn interval_mod(m: i64) -> String {
    if m < 0 {
        return String::new();
    }
    let (range, prec) = ((m >> 16) & 0x7fff, m & 0xffff);
    let mut f = String::new();
    if range != 0x7fff {
        let used: Vec<&str> = UNITS.iter().filter(|u| range & u.1 != 0).map(|u| u.0).collect();
        f = match used.as_slice() {
            [a] => format!(" {a}"),
            [a, .., b] => format!(" {a} to {b}"),
            _ => "".into(),
        };
    }
    if prec == 0xffff {
        f
    } else {
        format!("{f}({prec})")
    }
}

fn b(x: bool) -> V {
    V::Bool(x)
}
fn i(x: i64) -> V {
    V::Int(x)
}

pub fn split_key(k: &str) -> (String, i64) {
    let u = k.to_uppercase();
    for (suffix, opt) in [
        (" ASC NULLS LAST", 0), (" DESC NULLS FIRST", 3), (" ASC NULLS FIRST", 2), (" DESC NULLS LAST", 1), (" NULLS FIRST", 2), (" NULLS LAST", 0), (" DESC", 3), (" ASC", 0),
    ] {
        if u.ends_with(suffix) && u.len() == k.len() {
            return (k[..k.len() - suffix.len()].trim_end().to_string(), opt);
        }
    }
    (k.to_string(), 0)
}

/// A key's expression and the operator class it names.
pub fn split_opclass(k: &str) -> (String, Option<String>) {
    match k.trim_end().rsplit_once(char::is_whitespace) {
        Some((e, o)) if o.ends_with("_ops") && is_simple(o) => (e.trim_end().to_string(), Some(o.to_string())),
        Some((e, o)) if o.starts_with('"') && o.ends_with("_ops\"") && o.len() > 6 => (e.trim_end().to_string(), Some(o[1..o.len() - 1].replace("\"\"", "\""))),
        _ => (k.to_string(), None),
    }
}

/// The name, arguments, returned type and whether it is a set, of a function as the model keys it.
pub fn func_parts(key: &str, f: &Func) -> (String, String, String, bool) {
    let name = func_base(key).to_string();
    let args = match key.split_once('(') {
        Some((_, r)) => r.trim_end().strip_suffix(')').unwrap_or(r).trim().to_string(),
        None => String::new(),
    };
    let r = f.returns.trim().to_string();
    let l = r.to_lowercase();
    if let Some(x) = l.strip_prefix("setof ") {
        (name, args, x.trim().to_string(), true)
    } else if l.starts_with("table") && l[5..].trim_start().starts_with('(') {
        (name, args, "record".to_string(), true)
    } else {
        (name, args, l, false)
    }
}

#[derive(Default)]
pub struct Catalog {
    pub tables: HashMap<&'static str, (Cols, Vec<Rc<Vec<V>>>)>,
    ns: BTreeMap<String, i64>,
    /// oid -> (namespace, name, kind)
    classes: BTreeMap<i64, (String, String, char)>,
    cons: BTreeMap<i64, String>,
    index_keys: BTreeMap<i64, (String, Vec<String>)>,
    views: BTreeMap<i64, String>,
    procs: BTreeMap<i64, (String, String, String)>,
}

fn columns(s: &str) -> Cols {
    Rc::new(
        s.split(',')
            .map(|c| {
                let (n, t) = c.trim().split_once(' ').unwrap_or((c.trim(), "oid"));
                let t = match t.trim() {
                    "oid" => OID,
                    "name" => NAME,
                    "bool" => BOOL,
                    "char" => CHAR,
                    "int2" => INT2,
                    "int4" => INT4,
                    "int8" => INT8,
                    "text" => TEXT,
                    "tree" => NODE_TREE,
                    "int2[]" => array_of(INT2),
                    "oid[]" => array_of(OID),
                    "text[]" => array_of(TEXT),
                    "char[]" => array_of(CHAR),
                    "int2vector" => INT2VECTOR,
                    "oidvector" => OIDVECTOR,
                    "float4" => FLOAT8,
                    x => panic!("column type {x}"),
                };
                (n.to_string(), t)
            })
            .collect(),
    )
}

const SHAPES: &[(&str, &str)] = &[
    ("pg_namespace", "oid, nspname name, nspowner"),
    ("pg_class", "oid, relname name, relnamespace, reltype, reloftype, relowner, relam, relfilenode, reltablespace, relpages int4, reltuples float4, relhasindex bool, relisshared bool, relpersistence char, relkind char, relnatts int2, relchecks int2, relhasrules bool, relhastriggers bool, relhassubclass bool, relrowsecurity bool, relispopulated bool, relispartition bool, reloptions text[]"),
    ("pg_attribute", "attrelid, attname name, atttypid, attlen int2, attnum int2, atttypmod int4, attndims int2, attnotnull bool, atthasdef bool, attidentity char, attgenerated char, attisdropped bool, attislocal bool, attcollation"),
    ("pg_attrdef", "oid, adrelid, adnum int2, adbin tree"),
    ("pg_type", "oid, typname name, typnamespace, typowner, typlen int2, typbyval bool, typtype char, typcategory char, typisdefined bool, typdelim char, typrelid, typelem, typarray, typnotnull bool, typbasetype, typtypmod int4, typdefault text"),
    ("pg_constraint", "oid, conname name, connamespace, contype char, condeferrable bool, condeferred bool, convalidated bool, conrelid, contypid, conindid, conparentid, confrelid, confupdtype char, confdeltype char, confmatchtype char, conislocal bool, coninhcount int2, connoinherit bool, conkey int2[], confkey int2[], conbin tree"),
    ("pg_index", "indexrelid, indrelid, indnatts int2, indnkeyatts int2, indisunique bool, indnullsnotdistinct bool, indisprimary bool, indisexclusion bool, indimmediate bool, indisvalid bool, indisready bool, indislive bool, indkey int2vector, indoption int2vector, indclass oidvector, indexprs tree, indpred tree"),
    ("pg_opclass", "oid, opcmethod, opcname name, opcnamespace, opcowner, opcfamily, opcintype, opcdefault bool, opckeytype"),
    ("pg_am", "oid, amname name, amtype char"),
    ("pg_sequence", "seqrelid, seqtypid, seqstart int8, seqincrement int8, seqmax int8, seqmin int8, seqcache int8, seqcycle bool"),
    ("pg_depend", "classid, objid, objsubid int4, refclassid, refobjid, refobjsubid int4, deptype char"),
    ("pg_proc", "oid, proname name, pronamespace, proowner, prolang, prokind char, prosecdef bool, proleakproof bool, proisstrict bool, proretset bool, provolatile char, proparallel char, pronargs int2, prorettype, prosrc text"),
    ("pg_language", "oid, lanname name, lanispl bool"),
    ("pg_trigger", "oid, tgrelid, tgname name, tgfoid, tgtype int2, tgisinternal bool"),
    ("pg_roles", "oid, rolname name, rolsuper bool"),
    ("pg_database", "oid, datname name"),
    ("pg_description", "objoid, classoid, objsubid int4, description text"),
    ("pg_tables", "schemaname name, tablename name, tableowner name, tablespace name, hasindexes bool, hasrules bool, hastriggers bool, rowsecurity bool"),
    ("pg_views", "schemaname name, viewname name, viewowner name, definition text"),
    ("pg_indexes", "schemaname name, tablename name, indexname name, indexdef text"),
    ("pg_sequences", "schemaname name, sequencename name, sequenceowner name, start_value int8, min_value int8, max_value int8, increment_by int8, cycle bool, cache_size int8"),
    ("information_schema.schemata", "catalog_name name, schema_name name, schema_owner name"),
    ("information_schema.tables", "table_catalog name, table_schema name, table_name name, table_type text"),
    ("information_schema.columns", "table_catalog name, table_schema name, table_name name, column_name name, ordinal_position int4, column_default text, is_nullable text, udt_name name"),
    ("information_schema.views", "table_catalog name, table_schema name, table_name name, view_definition text"),
];

struct Make {
    rows: HashMap<&'static str, Vec<Rc<Vec<V>>>>,
    next: i64,
    c: Catalog,
}

impl Make {
    fn oid(&mut self) -> i64 {
        self.next += 1;
        self.next
    }
    fn row(&mut self, t: &'static str, v: Vec<V>) {
        debug_assert!(SHAPES.iter().find(|s| s.0 == t).unwrap().1.split(',').count() == v.len(), "{t}: {v:?}");
        self.rows.entry(t).or_default().push(Rc::new(v));
    }
    fn class(&mut self, ns: &str, name: &str, kind: char, am: i64, natts: usize) -> i64 {
        let o = self.oid();
        self.class_at(o, ns, name, kind, am, natts, V::Null);
        o
    }
    fn class_at(&mut self, o: i64, ns: &str, name: &str, kind: char, am: i64, natts: usize, options: V) {
        let n = self.c.ns[ns];
        self.c.classes.insert(o, (ns.into(), name.into(), kind));
        self.row(
            "pg_class",
            vec![
                i(o), V::t(name), i(n), i(0), i(0), i(10), i(am), i(o), i(0), i(0), i(0), b(false), b(false), V::t("p"), V::Text(kind.to_string()), i(natts as i64), i(0), b(false), b(false),
                b(false), b(false), b(true), b(false), options,
            ],
        );
    }
    fn attr(&mut self, rel: i64, name: &str, ty: i64, num: i64, typmod: i64, not_null: bool, has_default: bool, dropped: bool) {
        self.attr_of(rel, name, ty, num, typmod, not_null, has_default, dropped, "")
    }
    fn attr_of(&mut self, rel: i64, name: &str, ty: i64, num: i64, typmod: i64, not_null: bool, has_default: bool, dropped: bool, generated: &str) {
        let len = TYPES.iter().find(|t| t.oid == ty).map(|t| t.len).unwrap_or(-1);
        self.row(
            "pg_attribute",
            vec![
                i(rel), V::t(name), i(ty), i(len), i(num), i(typmod), i(0), b(not_null), b(has_default), V::t(if generated == "d" { "d" } else { "" }),
                V::t(if generated == "d" { "" } else { generated }), b(dropped), b(true), i(0),
            ],
        );
    }
    fn system_attrs(&mut self, rel: i64) {
        for (n, name, ty) in [(-1, "ctid", 27), (-2, "xmin", 28), (-3, "cmin", 29), (-4, "xmax", 28), (-5, "cmax", 29), (-6, "tableoid", 26)] {
            self.attr(rel, name, ty, n, -1, true, false, false);
        }
    }
    fn depend(&mut self, class: i64, obj: i64, sub: i64, rclass: i64, robj: i64, rsub: i64, t: &str) {
        self.row("pg_depend", vec![i(class), i(obj), i(sub), i(rclass), i(robj), i(rsub), V::t(t)]);
    }
    fn opclass(&mut self, key: &str, am: i64) -> i64 {
        let (name, usual) = match split_opclass(key).1 {
            Some(n) => (n, false),
            None => (format!("any{am}_ops"), true),
        };
        if let Some(r) = self.rows.get("pg_opclass").and_then(|v| v.iter().find(|r| r[1] == i(am) && r[2] == V::t(&name))) {
            return to_oid(&r[0]).unwrap();
        }
        let o = self.oid();
        self.row("pg_opclass", vec![i(o), i(am), V::t(&name), i(11), i(10), i(1976), i(25), b(usual), i(0)]);
        o
    }
    fn index(&mut self, ns: &str, name: &str, table: i64, unique: bool, primary: bool, am: i64, nums: Vec<i64>, opts: Vec<i64>, keys: Vec<String>, attnames: &[String]) -> i64 {
        let n = nums.len();
        let kind = if self.c.classes.get(&table).map(|c| c.2) == Some('p') { 'I' } else { 'i' };
        let o = self.class(ns, name, kind, am, n);
        // how the keys compare, where that is not the usual way
        let classes: Vec<V> = keys.iter().map(|k| i(self.opclass(k, am))).collect();
        let keys: Vec<String> = keys.iter().map(|k| split_opclass(k).0).collect();
        for (k, a) in attnames.iter().enumerate() {
            self.attr(o, a, 25, k as i64 + 1, -1, false, false, false);
        }
        let exprs: Vec<String> = nums.iter().zip(&keys).filter(|(n, _)| **n == 0).map(|x| x.1.clone()).collect();
        self.row(
            "pg_index",
            vec![
                i(o), i(table), i(n as i64), i(n as i64), b(unique), b(false), b(primary), b(false), b(true), b(true), b(true), b(true), V::Arr(nums.iter().map(|x| i(*x)).collect()),
                V::Arr(opts.iter().map(|x| i(*x)).collect()), V::Arr(classes), if exprs.is_empty() { V::Null } else { V::Text(exprs.join(", ")) }, V::Null,
            ],
        );
        self.depend(1259, o, 0, 1259, table, 0, "a");
        let plain: Vec<String> = keys;
        self.c.index_keys.insert(o, (String::new(), plain));
        o
    }
    fn con(&mut self, name: &str, ns: i64, ty: &str, def: (bool, bool), rel: i64, typ: i64, ind: i64, f: (i64, &str, &str, &str), key: Vec<i64>, fkey: Vec<i64>, bin: V, text: String) -> i64 {
        let o = self.oid();
        let arr = |v: Vec<i64>| if v.is_empty() { V::Null } else { V::Arr(v.into_iter().map(i).collect()) };
        self.row(
            "pg_constraint",
            vec![
                i(o), V::t(name), i(ns), V::t(ty), b(def.0), b(def.1), b(true), i(rel), i(typ), i(ind), i(0), i(f.0), V::t(f.1), V::t(f.2), V::t(f.3), b(true), i(0), b(true), arr(key), arr(fkey), bin,
            ],
        );
        self.c.cons.insert(o, text);
        o
    }
}

fn rule(r: &str) -> &'static str {
    match r.to_uppercase().as_str() {
        "CASCADE" => "c",
        "SET NULL" => "n",
        "SET DEFAULT" => "d",
        "RESTRICT" => "r",
        _ => "a",
    }
}

impl Catalog {
    pub fn of(e: &Engine) -> Catalog {
        let mut m = Make { rows: HashMap::new(), next: 16383, c: Catalog::default() };
        let pg: &Pg = &e.pg;
        let x = &e.extras;
        let namespaces = [("pg_catalog", 11), ("pg_toast", 99), ("information_schema", 13000)];
        for (n, o) in namespaces {
            m.c.ns.insert(n.into(), o);
            m.row("pg_namespace", vec![i(o), V::t(n), i(10)]);
        }
        for n in pg.db.schemas.keys() {
            let o = m.oid();
            m.c.ns.insert(n.clone(), o);
            m.row("pg_namespace", vec![i(o), V::t(n), i(10)]);
            m.row("information_schema.schemata", vec![V::t("db"), V::t(n), V::t("podo")]);
        }
        for (o, n, k) in [(2, "heap", "t"), (403, "btree", "i"), (405, "hash", "i"), (783, "gist", "i"), (2742, "gin", "i"), (4000, "spgist", "i"), (3580, "brin", "i")] {
            m.row("pg_am", vec![i(o), V::t(n), V::t(k)]);
        }
        let mut am: BTreeMap<String, i64> = [("btree", 403), ("hash", 405), ("gist", 783), ("gin", 2742), ("spgist", 4000), ("brin", 3580)].iter().map(|(a, b)| (a.to_string(), *b)).collect();
        let mut langs: BTreeMap<String, i64> = [("internal", 12), ("c", 13), ("sql", 14), ("plpgsql", 13500)].iter().map(|(a, b)| (a.to_string(), *b)).collect();
        for t in TYPES {
            let kind = if [2249, 2278, 2279, 2281, 2283, 2277, 3838].contains(&t.oid) { "p" } else { "b" };
            m.row("pg_type", vec![i(t.oid), V::t(t.name), i(11), i(10), i(t.len), b(false), V::t(kind), V::t("X"), b(true), V::t(","), i(0), i(t.elem), i(t.array), b(false), i(0), i(-1), V::Null]);
            if t.array != 0 {
                m.row(
                    "pg_type",
                    vec![i(t.array), V::Text(format!("_{}", t.name)), i(11), i(10), i(-1), b(false), V::t("b"), V::t("A"), b(true), V::t(","), i(0), i(t.oid), i(0), b(false), i(0), i(-1), V::Null],
                );
            }
        }
        for (o, n) in [(27, "tid"), (28, "xid"), (29, "cid")] {
            m.row("pg_type", vec![i(o), V::t(n), i(11), i(10), i(4), b(false), V::t("b"), V::t("U"), b(true), V::t(","), i(0), i(0), i(0), b(false), i(0), i(-1), V::Null]);
        }
        // a part of what every database has
        for (o, n) in [(1259, "pg_class"), (1249, "pg_attribute"), (1247, "pg_type"), (1255, "pg_proc")] {
            m.class_at(o, "pg_catalog", n, 'r', 2, 1, V::Null);
            m.attr(o, "oid", 26, 1, -1, true, false, false);
            m.system_attrs(o);
        }
        m.class_at(2662, "pg_catalog", "pg_class_oid_index", 'i', 403, 1, V::Null);
        m.class_at(13001, "information_schema", "tables", 'v', 0, 1, V::Null);
        m.attr(13001, "table_name", 19, 1, -1, false, false, false);
        m.c.views.insert(13001, " SELECT 1 AS table_name;".into());
        m.row("pg_proc", vec![i(1299), V::t("now"), i(11), i(10), i(12), V::t("f"), b(false), b(false), b(true), b(false), V::t("s"), V::t("s"), i(0), i(1184), V::t("now")]);
        m.c.procs.insert(1299, ("now".into(), "".into(), "timestamp with time zone".into()));

        // types of the user's own, each with its array
        let mut own: BTreeMap<Name2, (i64, i64)> = BTreeMap::new();
        for (sn, n) in &x.enums {
            let (t, a) = (m.oid(), m.oid());
            let ns = m.c.ns[sn];
            m.row("pg_type", vec![i(t), V::t(n), i(ns), i(10), i(4), b(false), V::t("e"), V::t("E"), b(true), V::t(","), i(0), i(0), i(a), b(false), i(0), i(-1), V::Null]);
            m.row("pg_type", vec![i(a), V::Text(format!("_{n}")), i(ns), i(10), i(-1), b(false), V::t("b"), V::t("A"), b(true), V::t(","), i(0), i(t), i(0), b(false), i(0), i(-1), V::Null]);
            own.insert((sn.clone(), n.clone()), (t, a));
        }
        let type_of = |t: &str| -> (i64, i64) {
            let base = t.trim_end_matches("[]");
            if let Ok(w) = lex(base) {
                let n = match w.as_slice() {
                    [a] => a.ident().map(|n| ("public".to_string(), n.to_string())),
                    [a, d, n] if d.is_op(".") => a.ident().zip(n.ident()).map(|(a, n)| (a.to_string(), n.to_string())),
                    _ => None,
                };
                if let Some((e, a)) = n.and_then(|n| own.get(&n)) {
                    return (if base == t { *e } else { *a }, -1);
                }
            }
            parse_type(t)
        };

        // tables first, so that constraints and indexes know their columns
        let mut rels: BTreeMap<Name2, i64> = BTreeMap::new();
        let mut nums: BTreeMap<Name2, Vec<(String, i64)>> = BTreeMap::new();
        for (sn, sc) in &pg.db.schemas {
            for (rn, r) in &sc.rels {
                let k = (sn.clone(), rn.clone());
                let t = match r {
                    Rel::Table(t) => t,
                    _ => continue,
                };
                let parted = x.partitioned.contains(&k);
                let o = m.class(sn, rn, if parted { 'p' } else { 'r' }, if parted { 0 } else { 2 }, t.cols.len());
                rels.insert(k.clone(), o);
                m.row("pg_tables", vec![V::t(sn), V::t(rn), V::t("podo"), V::Null, b(false), b(false), b(false), b(false)]);
                m.row("information_schema.tables", vec![V::t("db"), V::t(sn), V::t(rn), V::t("BASE TABLE")]);
                // the row type and its array
                let ct = m.oid();
                m.row("pg_type", vec![i(ct), V::t(rn), i(m.c.ns[sn]), i(10), i(-1), b(false), V::t("c"), V::t("C"), b(true), V::t(","), i(o), i(0), i(0), b(false), i(0), i(-1), V::Null]);
                m.system_attrs(o);
                let dropped = x.dropped.get(&k).cloned().unwrap_or_default();
                let mut num = 0;
                let mut list = vec![];
                for at in 0..=t.cols.len() {
                    for _ in dropped.iter().filter(|d| **d == at) {
                        num += 1;
                        m.attr(o, &format!("........pg.dropped.{num}........"), 0, num, -1, false, false, true);
                    }
                    if let Some(c) = t.cols.get(at) {
                        num += 1;
                        let (ty, tm) = type_of(&c.ty);
                        let made = x.generated.contains(&(sn.clone(), rn.clone(), c.name.clone()));
                        let identity = x.identities.iter().any(|(is, iq)| {
                            is == sn && matches!(sc.rels.get(iq), Some(Rel::Seq(q)) if q.owned.as_ref() == Some(&(rn.clone(), c.name.clone())))
                        });
                        m.attr_of(o, &c.name, ty, num, tm, c.not_null, c.default.is_some() || made, false, if made { "s" } else if identity { "d" } else { "" });
                        let d = if made { Some("(1 + 1)".to_string()) } else { c.default.clone() };
                        if let Some(d) = &d {
                            let ad = m.oid();
                            m.row("pg_attrdef", vec![i(ad), i(o), i(num), V::t(d)]);
                            m.depend(2604, ad, 0, 1259, o, num, "a");
                        }
                        m.row(
                            "information_schema.columns",
                            vec![
                                V::t("db"), V::t(sn), V::t(rn), V::t(&c.name), i(num), c.default.clone().map(V::Text).unwrap_or(V::Null), V::t(if c.not_null { "NO" } else { "YES" }), V::t(&c.ty),
                            ],
                        );
                        if c.not_null && x.not_null_rows {
                            let ns = m.c.ns[sn];
                            m.con(&format!("{rn}_{}_not_null", c.name), ns, "n", (false, false), o, 0, 0, (0, " ", " ", " "), vec![num], vec![], V::Null, format!("NOT NULL {}", quote_ident(&c.name)));
                        }
                        list.push((c.name.clone(), num));
                    }
                }
                nums.insert(k, list);
            }
        }
        for ((sn, rn), t) in &e.raw {
            let o = m.class(sn, rn, 'r', 2, t.cols.len());
            rels.insert((sn.clone(), rn.clone()), o);
            m.row("pg_tables", vec![V::t(sn), V::t(rn), V::t("podo"), V::Null, b(true), b(false), b(false), b(false)]);
            m.row("information_schema.tables", vec![V::t("db"), V::t(sn), V::t(rn), V::t("BASE TABLE")]);
            m.system_attrs(o);
            for (k, c) in t.cols.iter().enumerate() {
                m.attr(o, &c.name, t.types[k] as i64, k as i64 + 1, -1, false, false, false);
            }
            for (k, key) in t.keys.iter().enumerate() {
                let names: Vec<String> = key.iter().map(|j| t.cols[*j].name.clone()).collect();
                let nm = format!("{rn}_key{k}");
                let cols: Vec<i64> = key.iter().map(|j| *j as i64 + 1).collect();
                let opts = vec![0; cols.len()];
                let ix = m.index(sn, &nm, o, true, k == 0, 403, cols.clone(), opts, names.clone(), &names);
                let ns = m.c.ns[sn];
                m.con(&nm, ns, if k == 0 { "p" } else { "u" }, (false, false), o, 0, ix, (0, " ", " ", " "), cols, vec![], V::Null, "KEY".into());
            }
        }
        let num = |nums: &BTreeMap<Name2, Vec<(String, i64)>>, k: &Name2, c: &str| nums.get(k).and_then(|v| v.iter().find(|x| x.0 == c)).map(|x| x.1).unwrap_or(0);

        // sequences, views, indexes and functions
        for (sn, sc) in &pg.db.schemas {
            let ns = m.c.ns[sn];
            for (rn, r) in &sc.rels {
                let k = (sn.clone(), rn.clone());
                match r {
                    Rel::Table(_) => {}
                    Rel::Seq(q) => {
                        let o = m.class(sn, rn, 'S', 0, 3);
                        for (j, c) in ["last_value", "log_cnt", "is_called"].iter().enumerate() {
                            m.attr(o, c, 20, j as i64 + 1, -1, true, false, false);
                        }
                        let ty = parse_type(&q.ty).0;
                        m.row("pg_sequence", vec![i(o), i(ty), i(q.start), i(q.inc), i(q.max), i(q.min), i(q.cache), b(q.cycle)]);
                        m.row("pg_sequences", vec![V::t(sn), V::t(rn), V::t("podo"), i(q.start), i(q.min), i(q.max), i(q.inc), b(q.cycle), i(q.cache)]);
                        m.depend(1259, o, 0, 2615, ns, 0, "n");
                        if let Some((t, c)) = &q.owned {
                            let tk = (sn.clone(), t.clone());
                            if let Some(to) = rels.get(&tk).copied() {
                                let n = num(&nums, &tk, c);
                                let identity = x.identities.contains(&k);
                                m.depend(1259, o, 0, 1259, to, n, if identity { "i" } else { "a" });
                            }
                        }
                        rels.insert(k, o);
                    }
                    Rel::View(v) => {
                        let opts = if x.view_options { V::Arr(vec![V::t("security_barrier=true"), V::t("check_option=local")]) } else { V::Null };
                        let o = m.oid();
                        m.class_at(o, sn, rn, 'v', 0, 1, opts);
                        m.attr(o, "c", 25, 1, -1, false, false, false);
                        m.c.views.insert(o, format!(" {};", v.query));
                        m.row("pg_views", vec![V::t(sn), V::t(rn), V::t("podo"), V::Text(format!(" {};", v.query))]);
                        m.row("information_schema.tables", vec![V::t("db"), V::t(sn), V::t(rn), V::t("VIEW")]);
                        m.row("information_schema.views", vec![V::t("db"), V::t(sn), V::t(rn), V::Text(format!(" {};", v.query))]);
                        rels.insert(k, o);
                    }
                    Rel::Index(ix) => {
                        let tk = (sn.clone(), ix.table.clone());
                        let t = rels.get(&tk).copied().unwrap_or(0);
                        let (mut ns_, mut opts, mut keys) = (vec![], vec![], vec![]);
                        for key in &ix.keys {
                            let (key, opt) = split_key(key);
                            let plain = match lex(&split_opclass(&key).0) {
                                Ok(v) if v.len() == 1 => v[0].ident().map(|x| x.to_string()),
                                _ => None,
                            };
                            ns_.push(plain.map(|c| num(&nums, &tk, &c)).unwrap_or(0));
                            opts.push(opt);
                            keys.push(key);
                        }
                        let l = norm(&ix.method);
                        let next = 5000 + am.len() as i64;
                        let a = match am.get(&l) {
                            Some(a) => *a,
                            None => {
                                am.insert(l.clone(), next);
                                m.row("pg_am", vec![i(next), V::t(&l), V::t("i")]);
                                next
                            }
                        };
                        let names = keys.clone();
                        m.row("pg_indexes", vec![V::t(sn), V::t(&ix.table), V::t(rn), V::t("")]);
                        let o = m.index(sn, rn, t, ix.unique, false, a, ns_, opts, keys, &names);
                        rels.insert(k, o);
                    }
                }
            }
            for (key, f) in &sc.funcs {
                let (name, args, ret, set) = func_parts(key, f);
                let l = match lex(&f.lang).ok().as_deref() {
                    Some([a]) => a.ident().map(|x| x.to_string()).unwrap_or_else(|| norm(&f.lang)),
                    _ => norm(&f.lang),
                };
                let next = 13600 + langs.len() as i64;
                let lang = *langs.entry(l).or_insert(next);
                let vol = match f.vol.to_uppercase().as_str() {
                    "IMMUTABLE" => "i",
                    "STABLE" => "s",
                    _ => "v",
                };
                let (rt, _) = parse_type(&ret);
                let o = m.oid();
                m.row(
                    "pg_proc",
                    vec![i(o), V::t(&name), i(ns), i(10), i(lang), V::t("f"), b(false), b(false), b(false), b(set), V::t(vol), V::t("u"), i(0), i(rt), V::t(&f.body)],
                );
                let result = if f.returns.trim().to_lowercase().starts_with("table") {
                    let r = f.returns.trim();
                    format!("TABLE{}", r[5..].trim_start())
                } else if set {
                    format!("SETOF {ret}")
                } else {
                    ret
                };
                m.c.procs.insert(o, (name, args, result));
                m.depend(1255, o, 0, 2615, ns, 0, "n");
            }
        }
        // constraints
        let mut key_index: BTreeMap<(Name2, Vec<String>), i64> = BTreeMap::new();
        for pass in 0..2 {
            for (sn, sc) in &pg.db.schemas {
                let ns = m.c.ns[sn];
                for (rn, r) in &sc.rels {
                    let t = match r {
                        Rel::Table(t) => t,
                        _ => continue,
                    };
                    let k = (sn.clone(), rn.clone());
                    let o = rels[&k];
                    for (cn, c) in &t.cons {
                        let d = c.deferral();
                        match c {
                            Con::Pk(key) | Con::Unique(key) if pass == 0 => {
                                let cols: Vec<i64> = key.cols.iter().map(|c| num(&nums, &k, c)).collect();
                                let names: Vec<String> = key.cols.iter().map(|c| if is_simple(c) { c.clone() } else { quote_ident(c) }).collect();
                                let pk = matches!(c, Con::Pk(_));
                                let opts = vec![0; cols.len()];
                                let ix = m.index(sn, cn, o, true, pk, 403, cols.clone(), opts, names.clone(), &key.cols);
                                let text = format!("{} ({})", if pk { "PRIMARY KEY" } else { "UNIQUE" }, names.join(", "));
                                m.con(cn, ns, if pk { "p" } else { "u" }, d, o, 0, ix, (0, " ", " ", " "), cols, vec![], V::Null, text);
                                key_index.insert((k.clone(), key.cols.clone()), ix);
                            }
                            Con::Check(key) if pass == 0 => {
                                let cols: Vec<i64> = t.cols.iter().filter(|c| column_refs(&key.expr).contains(&c.name)).map(|c| num(&nums, &k, &c.name)).collect();
                                // what definitions write, without the outermost parentheses
                                let inner = strip_parens(&key.expr);
                                let suffix = x.check_suffix.get(&(sn.clone(), rn.clone(), cn.clone())).cloned().unwrap_or_default();
                                m.con(cn, ns, "c", d, o, 0, 0, (0, " ", " ", " "), cols, vec![], V::Text(inner.clone()), format!("CHECK ({inner}){suffix}"));
                            }
                            Con::Fk(f) if pass == 1 => {
                                let tk = (f.tschema.clone(), f.ttable.clone());
                                let to = rels.get(&tk).copied().unwrap_or(0);
                                let cols: Vec<i64> = f.cols.iter().map(|c| num(&nums, &k, c)).collect();
                                let tcols: Vec<i64> = f.tcols.iter().map(|c| num(&nums, &tk, c)).collect();
                                let mut set = f.tcols.clone();
                                set.sort();
                                let ix = key_index
                                    .iter()
                                    .find(|((t, c), _)| {
                                        let mut c = c.clone();
                                        c.sort();
                                        *t == tk && c == set
                                    })
                                    .map(|x| *x.1)
                                    .or_else(|| {
                                        // a unique index without a constraint serves as well
                                        let same = |r: &&Rc<Vec<V>>| {
                                            r[1] == i(to) && r[4] == b(true) && matches!(&r[12], V::Arr(a) if a.len() == tcols.len() && tcols.iter().all(|c| a.contains(&i(*c))))
                                        };
                                        m.rows["pg_index"].iter().find(same).and_then(|r| to_oid(&r[0]))
                                    })
                                    .or_else(|| m.rows["pg_index"].iter().find(|r| r[1] == i(to)).and_then(|r| to_oid(&r[0])))
                                    .unwrap_or(0);
                                let mt = match f.mat.to_uppercase().as_str() {
                                    "FULL" => "f",
                                    "PARTIAL" => "p",
                                    _ => "s",
                                };
                                m.con(cn, ns, "f", d, o, 0, ix, (to, rule(&f.upd), rule(&f.del), mt), cols, tcols, V::Null, "FOREIGN KEY".into());
                                let tg = m.oid();
                                m.row("pg_trigger", vec![i(tg), i(o), V::Text(format!("RI_ConstraintTrigger_c_{tg}")), i(1644), i(5), b(true)]);
                            }
                            _ => {}
                        }
                    }
                }
            }
        }
        for (n, o) in &langs {
            m.row("pg_language", vec![i(*o), V::t(n), b(n == "plpgsql")]);
        }
        // the rest
        for (sn, n) in &x.composites {
            let o = m.class(sn, n, 'c', 0, 1);
            m.attr(o, "a", 23, 1, -1, false, false, false);
            let t = m.oid();
            m.row("pg_type", vec![i(t), V::t(n), i(m.c.ns[sn]), i(10), i(-1), b(false), V::t("c"), V::t("C"), b(true), V::t(","), i(o), i(0), i(0), b(false), i(0), i(-1), V::Null]);
        }
        for (sn, n) in &x.domains {
            let t = m.oid();
            let ns = m.c.ns[sn];
            m.row("pg_type", vec![i(t), V::t(n), i(ns), i(10), i(4), b(false), V::t("d"), V::t("N"), b(true), V::t(","), i(0), i(0), i(0), b(true), i(23), i(-1), V::Null]);
            m.con(&format!("{n}_check"), ns, "c", (false, false), 0, t, 0, (0, " ", " ", " "), vec![], vec![], V::t("(VALUE > 0)"), "CHECK ((VALUE > 0))".into());
        }
        for (sn, n) in &x.aggregates {
            let o = m.oid();
            let ns = m.c.ns[sn];
            m.row("pg_proc", vec![i(o), V::t(n), i(ns), i(10), i(12), V::t("a"), b(false), b(false), b(false), b(false), V::t("i"), V::t("u"), i(1), i(23), V::t("aggregate_dummy")]);
            m.c.procs.insert(o, (n.clone(), "integer".into(), "integer".into()));
        }
        for (sn, n) in &x.procedures {
            let o = m.oid();
            let ns = m.c.ns[sn];
            m.row("pg_proc", vec![i(o), V::t(n), i(ns), i(10), i(14), V::t("p"), b(false), b(false), b(false), b(false), V::t("v"), V::t("u"), i(1), i(0), V::t("SELECT 1")]);
            m.c.procs.insert(o, (n.clone(), "IN x integer".into(), "\u{0}".into()));
        }
        for (sn, n) in &x.matviews {
            let o = m.class(sn, n, 'm', 2, 1);
            m.attr(o, "a", 23, 1, -1, false, false, false);
            m.system_attrs(o);
            m.c.views.insert(o, " SELECT 1 AS a;".into());
            m.index(sn, &format!("{n}_a_ix"), o, false, false, 403, vec![1], vec![0], vec!["a".into()], &["a".into()]);
        }
        for (sn, n) in &x.foreign {
            let o = m.class(sn, n, 'f', 0, 1);
            m.attr(o, "a", 23, 1, -1, false, false, false);
        }
        for (sn, n) in &x.triggers {
            if let Some(o) = rels.get(&(sn.clone(), n.clone())).copied() {
                let t = m.oid();
                m.row("pg_trigger", vec![i(t), i(o), V::t("tr"), i(1299), i(81), b(false)]);
            }
        }
        // a toast table and its index, for good measure
        if let Some(o) = rels.values().next().copied() {
            let t = m.class("pg_toast", &format!("pg_toast_{o}"), 't', 2, 1);
            m.index("pg_toast", &format!("pg_toast_{o}_index"), t, true, true, 403, vec![1], vec![0], vec!["chunk_id".into()], &["chunk_id".into()]);
        }
        m.row("pg_roles", vec![i(10), V::t("podo"), b(true)]);
        m.row("pg_database", vec![i(5), V::t("db")]);

        let mut c = m.c;
        for (n, shape) in SHAPES {
            c.tables.insert(n, (columns(shape), m.rows.remove(n).unwrap_or_default()));
        }
        c
    }

    fn resolve(&self, s: &str) -> Option<(Option<String>, String)> {
        let t = lex(s).ok()?;
        match t.as_slice() {
            [a] => Some((None, a.ident()?.to_string())),
            [a, d, b] if d.is_op(".") => Some((Some(a.ident()?.to_string()), b.ident()?.to_string())),
            _ => None,
        }
    }
    pub fn class_named(&self, s: &str) -> Option<i64> {
        if let Ok(n) = s.parse() {
            return Some(n);
        }
        let (ns, n) = self.resolve(s)?;
        let find = |ns: &str| self.classes.iter().find(|(_, c)| c.0 == ns && c.1 == n).map(|x| *x.0);
        match ns {
            Some(ns) => find(&ns),
            None => find("pg_catalog").or_else(|| find("public")),
        }
    }
    pub fn namespace_named(&self, s: &str) -> Option<i64> {
        let (_, n) = self.resolve(s)?;
        self.ns.get(&n).copied()
    }
    pub fn type_named(&self, s: &str) -> Option<i64> {
        let (o, _) = parse_type(s);
        Some(o)
    }
    /// a name PostgreSQL would find in pg_catalog or public
    pub fn type_exists(&self, s: &str) -> bool {
        let (_, rows) = &self.tables["pg_type"];
        let n = match self.resolve(s) {
            Some((_, n)) => n,
            None => return false,
        };
        rows.iter().any(|r| r[1] == V::t(&n))
    }
    pub fn class_label(&self, o: i64) -> String {
        let q = |s: &str| if is_simple(s) { s.to_string() } else { quote_ident(s) };
        match self.classes.get(&o) {
            Some((ns, n, _)) if ns == "public" || ns == "pg_catalog" => q(n),
            Some((ns, n, _)) => format!("{}.{}", q(ns), q(n)),
            None => o.to_string(),
        }
    }
    pub fn namespace_label(&self, o: i64) -> String {
        self.ns.iter().find(|x| *x.1 == o).map(|x| x.0.clone()).unwrap_or(o.to_string())
    }
    pub fn type_label(&self, o: i64) -> String {
        self.format_type(o, -1)
    }
    pub fn class_visible(&self, o: i64) -> bool {
        match self.classes.get(&o) {
            Some((ns, n, _)) => ns == "pg_catalog" || ns == "public" && !self.classes.values().any(|c| c.0 == "pg_catalog" && c.1 == *n),
            None => false,
        }
    }
    pub fn proc_visible(&self, o: i64) -> bool {
        let (_, rows) = &self.tables["pg_proc"];
        let ns = [self.ns.get("public").copied().unwrap_or(-1), 11];
        rows.iter().any(|r| r[0] == i(o) && ns.iter().any(|n| r[2] == i(*n)))
    }
    pub fn format_type(&self, o: i64, typmod: i64) -> String {
        if o == 0 {
            return "-".into();
        }
        for t in TYPES {
            let array = t.array == o && o != 0;
            if t.oid != o && !array {
                continue;
            }
            let n = typmod - 4;
            let mut s = t.long.to_string();
            if typmod >= 0 {
                s = match t.name {
                    "bpchar" | "varchar" => format!("{}({n})", t.long),
                    "numeric" => format!("numeric({},{})", (n >> 16) & 0xffff, ((n & 0x7ff) ^ 1024) - 1024),
                    "bit" | "varbit" => format!("{}({typmod})", t.long),
                    "time" | "timestamp" | "timetz" | "timestamptz" => {
                        let (a, z) = t.long.split_once(' ').unwrap();
                        format!("{a}({typmod}) {z}")
                    }
                    "interval" => format!("interval{}", interval_mod(typmod)),
                    _ => s,
                };
            } else if t.name == "bpchar" {
                // without a modifier the name would mean one character
                s = if typmod == -1 { "bpchar".into() } else { s };
            }
            return if array { format!("{s}[]") } else { s };
        }
        let (_, rows) = &self.tables["pg_type"];
        match rows.iter().find(|r| r[0] == i(o)) {
            Some(r) => {
                if let (V::Int(e), V::Int(-1)) = (&r[11], &r[4]) {
                    if *e != 0 {
                        return format!("{}[]", self.format_type(*e, typmod));
                    }
                }
                let n = if let V::Text(n) = &r[1] { n.clone() } else { String::new() };
                let q = |s: &str| if is_simple(s) { s.to_string() } else { quote_ident(s) };
                let home = [self.ns.get("public").copied(), Some(11)].iter().any(|x| x.map(i) == Some(r[2].clone()));
                if home {
                    q(&n)
                } else {
                    let ns = to_oid(&r[2]).map(|o| self.namespace_label(o)).unwrap_or_default();
                    format!("{}.{}", q(&ns), q(&n))
                }
            }
            None => "???".into(),
        }
    }
    pub fn constraintdef(&self, o: i64) -> Option<String> {
        self.cons.get(&o).cloned()
    }
    pub fn indexdef(&self, o: i64, n: i64) -> Option<String> {
        let (_, keys) = self.index_keys.get(&o)?;
        if n == 0 {
            return Some(format!("CREATE INDEX {} ON ? ({})", self.class_label(o), keys.join(", ")));
        }
        Some(keys.get(n as usize - 1).cloned().unwrap_or_default())
    }
    pub fn viewdef(&self, o: i64) -> Option<String> {
        self.views.get(&o).cloned()
    }
    pub fn proc_args(&self, o: i64) -> Option<String> {
        self.procs.get(&o).map(|p| p.1.clone())
    }
    pub fn proc_result(&self, o: i64) -> Option<String> {
        self.procs.get(&o).map(|p| p.2.clone()).filter(|r| r != "\u{0}")
    }
}

fn to_oid(v: &V) -> Option<i64> {
    if let V::Int(n) = v {
        Some(*n)
    } else {
        None
    }
}

/// The expression as pg_get_expr prints it: in parentheses of its own, when it is in several.
pub fn strip_parens(e: &str) -> String {
    let t = e.trim();
    let c: Vec<char> = t.chars().collect();
    let pairs = |c: &[char]| -> bool {
        if c.first() != Some(&'(') || c.last() != Some(&')') {
            return false;
        }
        let mut d = 0;
        let mut q: Option<char> = None;
        for (j, x) in c.iter().enumerate() {
            match q {
                Some(k) => {
                    if *x == k {
                        q = None;
                    }
                }
                None => match x {
                    '\'' | '"' => q = Some(*x),
                    '(' => d += 1,
                    ')' => {
                        d -= 1;
                        if d == 0 && j + 1 < c.len() {
                            return false;
                        }
                    }
                    _ => {}
                },
            }
        }
        d == 0
    };
    if pairs(&c) && pairs(&c[1..c.len() - 1]) {
        return c[1..c.len() - 1].iter().collect();
    }
    t.to_string()
}
