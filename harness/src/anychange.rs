//! Random changes, and what can be said of one beside two databases.
use crate::gen::*;
use crate::model::*;
use crate::pbt::*;
use crate::refchange::*;

pub fn touches_unchanged(c: &RChange, a: &Db, b: &Db) -> Option<String> {
    use RChange::*;
    let both_table = |s: &str, t: &str| a.table(s, t).is_some() && b.table(s, t).is_some();
    let rel_same = |s: &str, r: &str| {
        let g = |d: &Db| d.schemas.get(s).and_then(|x| x.rels.get(r)).cloned();
        let (x, y) = (g(a), g(b));
        x.is_some() && x == y
    };
    let col = |d: &Db, s: &str, t: &str, c: &str| d.table(s, t).and_then(|x| x.col(c)).cloned();
    let con_same = |s: &str, t: &str, n: &str| {
        let g = |d: &Db| d.table(s, t).and_then(|x| x.cons.get(n)).cloned();
        let (x, y) = (g(a), g(b));
        x.is_some() && x == y
    };
    let bad = |w: &str| Some(w.to_string());
    match c {
        CreateSchema { schema_name } | DropSchema { schema_name } => {
            if a.schemas.contains_key(schema_name) && b.schemas.contains_key(schema_name) {
                return bad("the schema is on both sides");
            }
        }
        CreateTable { schema, table, .. } | DropTable { schema, table } => {
            if both_table(schema, table) {
                return bad("the table is on both sides");
            }
        }
        AddColumn { schema, table, column, .. } | DropColumn { schema, table, column } => {
            if col(a, schema, table, column).is_some() && col(b, schema, table, column).is_some() {
                return bad("the column is on both sides");
            }
        }
        RenameColumn { from_schema, from_table, from_column, to_column } => {
            if col(b, from_schema, from_table, from_column).is_some() || col(a, from_schema, from_table, to_column).is_some() {
                return bad("the column is on both sides");
            }
        }
        AlterColumnSetDataType { schema, table, column, .. } => {
            if let (Some(x), Some(y)) = (col(a, schema, table, column), col(b, schema, table, column)) {
                if x.ty == y.ty {
                    return bad("the type is the same");
                }
            }
        }
        AlterColumnSetNotNull { schema, table, column, .. } => {
            if let (Some(x), Some(y)) = (col(a, schema, table, column), col(b, schema, table, column)) {
                if x.not_null == y.not_null {
                    return bad("the nullability is the same");
                }
            }
        }
        AlterColumnSetDefault { schema, table, column, .. } => {
            if let (Some(x), Some(y)) = (col(a, schema, table, column), col(b, schema, table, column)) {
                if x.default == y.default {
                    return bad("the default is the same");
                }
            }
        }
        AddPrimaryKey { schema, table, constraint, .. }
        | AlterPrimaryKey { schema, table, constraint, .. }
        | DropPrimaryKey { schema, table, constraint }
        | AddUnique { schema, table, constraint, .. }
        | AlterUnique { schema, table, constraint, .. }
        | DropUnique { schema, table, constraint }
        | AddCheck { schema, table, constraint, .. }
        | AlterCheck { schema, table, constraint, .. }
        | DropCheck { schema, table, constraint }
        | AddForeignKey { schema, table, constraint, .. }
        | AlterForeignKey { schema, table, constraint, .. }
        | DropForeignKey { schema, table, constraint } => {
            if con_same(schema, table, constraint) {
                return bad("the constraint is the same on both sides");
            }
        }
        CreateIndex { schema, index, .. } | DropIndex { schema, index } => {
            if rel_same(schema, index) {
                return bad("the index is the same on both sides");
            }
        }
        CreateView { schema, view, .. } | DropView { schema, view } => {
            if rel_same(schema, view) {
                return bad("the view is the same on both sides");
            }
        }
        CreateSequence { schema, sequence, .. } | DropSequence { schema, sequence } => {
            if rel_same(schema, sequence) {
                return bad("the sequence is the same on both sides");
            }
        }
        CreateFunction { schema, function, .. } | DropFunction { schema, function } => {
            let g = |d: &Db| d.schemas.get(schema).and_then(|x| x.funcs.get(function)).cloned();
            let (x, y) = (g(a), g(b));
            if x.is_some() && x == y {
                return bad("the function is the same on both sides");
            }
        }
    }
    None
}

pub fn any_text(s: &mut Src) -> String {
    name(s, &Opts { quirky: 50, ..Opts::pure() })
}

struct Pools {
    schemas: Vec<String>,
    rels: Vec<(String, String)>,
    cols: Vec<(String, String, String)>,
    cons: Vec<(String, String, String)>,
    funcs: Vec<(String, String)>,
}

fn pools(db: &Db) -> Pools {
    let mut p = Pools { schemas: db.schemas.keys().cloned().collect(), rels: vec![], cols: vec![], cons: vec![], funcs: db.funcs() };
    for (s, sc) in &db.schemas {
        for (r, rel) in &sc.rels {
            p.rels.push((s.clone(), r.clone()));
            if let Rel::Table(t) = rel {
                for c in &t.cols {
                    p.cols.push((s.clone(), r.clone(), c.name.clone()));
                }
                for c in t.cons.keys() {
                    p.cons.push((s.clone(), r.clone(), c.clone()));
                }
            }
        }
    }
    p
}

/// A random change; `fit` percent of them are aimed at objects that are there.
pub fn random_change(s: &mut Src, db: &Db, fit: u64) -> RChange {
    use RChange::*;
    let p = pools(db);
    let o = Opts::pure();
    let schema = |s: &mut Src| if !p.schemas.is_empty() && s.chance(fit + 5) { s.pick(&p.schemas).clone() } else { any_text(s) };
    let rel = |s: &mut Src, kind: &str| -> (String, String) {
        if s.chance(fit) {
            let of: Vec<_> = db.rels_of(kind);
            if !of.is_empty() && s.chance(90) {
                return s.pick(&of).clone();
            }
            if !p.rels.is_empty() {
                return s.pick(&p.rels).clone();
            }
        }
        (schema(s), any_text(s))
    };
    let col = |s: &mut Src| -> (String, String, String) {
        if !p.cols.is_empty() && s.chance(fit) {
            return s.pick(&p.cols).clone();
        }
        let t = rel(s, "table");
        (t.0, t.1, any_text(s))
    };
    let con = |s: &mut Src, kind: &str| -> (String, String, String) {
        if !p.cons.is_empty() && s.chance(fit) {
            let of: Vec<_> = p.cons.iter().filter(|c| db.table(&c.0, &c.1).unwrap().cons[&c.2].kind() == kind).cloned().collect();
            if !of.is_empty() && s.chance(85) {
                return s.pick(&of).clone();
            }
            return s.pick(&p.cons).clone();
        }
        let t = rel(s, "table");
        (t.0, t.1, any_text(s))
    };
    let new_con = |s: &mut Src| -> (String, String, String) {
        if !p.cons.is_empty() && s.chance(15) {
            return s.pick(&p.cons).clone();
        }
        let t = rel(s, "table");
        (t.0, t.1, any_text(s))
    };
    let names = |s: &mut Src| (0..s.range(1, 3)).map(|_| any_text(s)).collect::<Vec<_>>();
    let ints = [i64::MIN, i64::MAX, 0, 1, -1, 42, 1 << 53, -9007199254740993];
    let opt = |s: &mut Src| if s.flag() { Some(any_text(s)) } else { None };
    match s.n(30) {
        0 => CreateSchema { schema_name: if s.chance(80) { any_text(s) } else { schema(s) } },
        1 => DropSchema { schema_name: schema(s) },
        2 => {
            let (sc, t) = if s.chance(80) { (schema(s), any_text(s)) } else { rel(s, "table") };
            let mut tb = Table::default();
            for _ in 0..s.n(4) {
                let c = gen_col(s, &o, &tb, db);
                tb.cols.push(c);
            }
            let mut columns: Vec<RCol> =
                tb.cols.into_iter().map(|c| RCol { name: c.name, data_type: c.ty, not_null: c.not_null, default: c.default }).collect();
            if columns.len() > 1 && s.chance(10) {
                columns[1].name = columns[0].name.clone();
            }
            CreateTable { schema: sc, table: t, columns }
        }
        3 => {
            let (schema, table) = rel(s, "table");
            DropTable { schema, table }
        }
        4 => {
            let (schema, table, column) = if s.chance(15) { col(s) } else { let t = rel(s, "table"); (t.0, t.1, any_text(s)) };
            AddColumn { schema, table, column, data_type: any_text(s), not_null: s.flag(), default: opt(s) }
        }
        5 => {
            let (schema, table, column) = col(s);
            DropColumn { schema, table, column }
        }
        6 => {
            let (a, b, c) = col(s);
            let to = if s.chance(25) { col(s).2 } else { any_text(s) };
            RenameColumn { from_schema: a, from_table: b, from_column: c, to_column: to }
        }
        7 => {
            let (schema, table, column) = col(s);
            AlterColumnSetDataType { schema, table, column, data_type: any_text(s) }
        }
        8 => {
            let (schema, table, column) = col(s);
            AlterColumnSetNotNull { schema, table, column, not_null: s.flag() }
        }
        9 => {
            let (schema, table, column) = col(s);
            AlterColumnSetDefault { schema, table, column, default: opt(s) }
        }
        k @ (10 | 11) => {
            let (schema, table, constraint) = new_con(s);
            let (columns, deferrable, initially_deferred) = (names(s), s.flag(), s.flag());
            if k == 10 {
                AddPrimaryKey { schema, table, constraint, columns, deferrable, initially_deferred }
            } else {
                AddUnique { schema, table, constraint, columns, deferrable, initially_deferred }
            }
        }
        12 => {
            let (schema, table, constraint) = new_con(s);
            AddCheck { schema, table, constraint, expression: any_text(s), deferrable: s.flag(), initially_deferred: s.flag() }
        }
        13 => {
            let (schema, table, constraint) = new_con(s);
            let cols = names(s);
            let mut tc = cols.clone();
            tc.reverse();
            AddForeignKey {
                schema, table, constraint, target_columns: tc, columns: cols, target_schema: any_text(s), target_table: any_text(s),
                match_option: any_text(s), update_rule: any_text(s), delete_rule: any_text(s), deferrable: s.flag(), initially_deferred: s.flag(),
            }
        }
        14 => {
            let (schema, table, constraint) = con(s, "primary key");
            AlterPrimaryKey { schema, table, constraint, deferrable: s.flag(), initially_deferred: s.flag() }
        }
        15 => {
            let (schema, table, constraint) = con(s, "unique");
            AlterUnique { schema, table, constraint, deferrable: s.flag(), initially_deferred: s.flag() }
        }
        16 => {
            let (schema, table, constraint) = con(s, "check");
            AlterCheck { schema, table, constraint, deferrable: s.flag(), initially_deferred: s.flag() }
        }
        17 => {
            let (schema, table, constraint) = con(s, "foreign key");
            AlterForeignKey { schema, table, constraint, deferrable: s.flag(), initially_deferred: s.flag() }
        }
        18 => {
            let (schema, table, constraint) = con(s, "primary key");
            DropPrimaryKey { schema, table, constraint }
        }
        19 => {
            let (schema, table, constraint) = con(s, "unique");
            DropUnique { schema, table, constraint }
        }
        20 => {
            let (schema, table, constraint) = con(s, "check");
            DropCheck { schema, table, constraint }
        }
        21 => {
            let (schema, table, constraint) = con(s, "foreign key");
            DropForeignKey { schema, table, constraint }
        }
        22 => {
            let (schema, table) = rel(s, "table");
            let index = if s.chance(20) { rel(s, "index").1 } else { any_text(s) };
            CreateIndex { schema, table, index, unique: s.flag(), method: any_text(s), key_expressions: names(s) }
        }
        23 => {
            let (schema, index) = rel(s, "index");
            DropIndex { schema, index }
        }
        24 => {
            let (sc, view) = if s.chance(80) { (schema(s), any_text(s)) } else { rel(s, "view") };
            CreateView { schema: sc, view, query: any_text(s) }
        }
        25 => {
            let (schema, view) = rel(s, "view");
            DropView { schema, view }
        }
        26 => {
            let (sc, sequence) = if s.chance(80) { (schema(s), any_text(s)) } else { rel(s, "sequence") };
            CreateSequence {
                schema: sc, sequence, data_type: any_text(s), increment: *s.pick(&ints), min_value: *s.pick(&ints), max_value: *s.pick(&ints),
                start: *s.pick(&ints), cache: *s.pick(&ints), cycle: s.flag(),
            }
        }
        27 => {
            let (schema, sequence) = rel(s, "sequence");
            DropSequence { schema, sequence }
        }
        28 => {
            let (sc, function) = if p.funcs.is_empty() || s.chance(80) { (schema(s), any_text(s)) } else { s.pick(&p.funcs).clone() };
            CreateFunction { schema: sc, function, body: gen_body(s), language: any_text(s), returns: any_text(s), volatility: any_text(s) }
        }
        _ => {
            let (schema, function) = if p.funcs.is_empty() || !s.chance(fit) { (schema(s), any_text(s)) } else { s.pick(&p.funcs).clone() };
            DropFunction { schema, function }
        }
    }
}

/// Dropping something that other things hang on: the reverse cannot bring those back, and whether
/// it is refused is the database's to say.
pub fn drops_more(c: &RChange, db: &Db) -> bool {
    match c {
        RChange::DropSchema { schema_name } => db.schemas.get(schema_name).map(|s| !s.rels.is_empty() || !s.funcs.is_empty()).unwrap_or(false),
        RChange::DropTable { schema, table } => {
            db.table(schema, table).map(|t| !t.cons.is_empty()).unwrap_or(false)
                || db.schemas.get(schema).map(|s| s.rels.values().any(|r| matches!(r, Rel::Index(i) if i.table == *table))).unwrap_or(false)
        }
        RChange::DropColumn { schema, table, column } => db
            .table(schema, table)
            .map(|t| {
                t.cons.values().any(|k| match k {
                    Con::Pk(k) | Con::Unique(k) => k.cols.contains(column),
                    Con::Fk(f) => f.cols.contains(column),
                    Con::Check(_) => true,
                })
            })
            .unwrap_or(false),
        _ => false,
    }
}

pub fn wild(s: &mut Src) -> String {
    let alpha: Vec<char> = "ab zAZ09_\"'.;:,-#=!%$\\/()[]{}<>&|~^*+?@`éß日\n\n\t\r\u{7f}\u{85}\u{2028}\u{feff}😀\u{1}".chars().collect();
    match s.n(4) {
        0 => any_text(s),
        1 => s.pick(&["", " ", "null", "~", "true", "1", "1.0", "0x10", "|", "- a", "\n", "a\n", "\n a", " a ", "---", "...", "%YAML", "!!str"]).to_string(),
        _ => (0..s.range(0, 16)).map(|_| *s.pick(&alpha)).collect(),
    }
}

/// every string of a change replaced by a wild one
pub fn wilden(s: &mut Src, c: RChange) -> RChange {
    fn walk(s: &mut Src, v: &mut serde_json::Value) {
        match v {
            serde_json::Value::String(t) => *t = wild(s),
            serde_json::Value::Array(a) => a.iter_mut().for_each(|x| walk(s, x)),
            serde_json::Value::Object(o) => o.values_mut().for_each(|x| walk(s, x)),
            _ => {}
        }
    }
    let mut v = serde_json::to_value(&c).unwrap();
    walk(s, &mut v["change"]);
    serde_json::from_value(v).unwrap()
}

