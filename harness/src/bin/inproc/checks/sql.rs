//! C06: the SQL of changes and of their reverses, executed by the model of PostgreSQL.
use super::*;
use ps::changes::Change;
use vcore::ddl::*;

pub fn c06() -> Check {
    Check {
        id: "C06",
        level: "exploration",
        rule: "pairs: random pairs of databases PostgreSQL accepts (edited from one another or independent); each statement of the computed \
               changes is executed by a strict model of PostgreSQL, whose catalog must then be the database the change describes, and at the \
               end the target; then the statements of the reverses, last to first, back to the start; rename: column renames, which no \
               difference produces; program: the statements the podo binary writes to the stage; non-trivial: at least one statement was executed",
        assumptions: vec![
            "the model of PostgreSQL: shared relation names incl. key constraints' indexes, refusal of drops others depend on, implied drops, \
             NOT NULL of primary keys, function identity by argument types, sequence limits, ALTER CONSTRAINT for foreign keys only",
            "pairs outside the documented limits (DESIGN.md) of what podo orders or PostgreSQL offers a statement for",
            "no rows: casts of data and violations of new constraints by data are out of scope",
        ],
        parts: vec![
            Part { name: "pairs", quick: 14000, thorough: 400000, f: pairs },
            Part { name: "small", quick: 14000, thorough: 400000, f: small },
            Part { name: "rename", quick: 2000, thorough: 40000, f: rename },
        ],
        fixed: vec![
            Fixed { id: "key-in-use", what: "the columns of a key that a foreign key of another table relies on change their order: PostgreSQL refuses to drop the key", f: key_in_use },
            Fixed { id: "key-deferral", what: "a unique constraint becomes deferrable: ALTER CONSTRAINT is for foreign keys only", f: key_deferral },
            Fixed { id: "view-on-view", what: "views that select from one another are not created in that order", f: view_on_view },
            Fixed { id: "view-on-column", what: "a column changes its type while a view that stays the same selects it", f: view_on_column },
            Fixed { id: "sequence-in-use", what: "a sequence changes while a column default that stays the same draws from it", f: sequence_in_use },
            Fixed { id: "plain", what: "a new table with a key, an index and a reference to it", f: plain },
        ],
    }
}

/// The statements from one definition to another, executed.
fn executed(a: &str, b: &str) -> Res {
    let get = |t: &str| -> Result<Db, Fail> { load(t)?.or_else(|e| fail("harness", e)) };
    let (a, b) = (get(a)?, get(b)?);
    let mut pg = Pg::of(&a);
    let all: Vec<String> = ps::compare_diff(&to_podo(&a), &to_podo(&b)).iter().map(|c| c.render_sql()).collect();
    for sql in &all {
        if let Err(e) = pg.exec(sql) {
            return fail("rejected", format!("up: a statement is rejected: {} {}\n{sql}\nall: {all:#?}", e.code, e.msg));
        }
    }
    same(&pg, &b.without_owners(), true, &format!("up: the target is not reached\nall: {all:#?}"))
}
fn key_in_use(_: &mut Ctx) -> Res {
    let t = |k: &str| {
        format!("schema public:\n  table a:\n    column x: integer!\n    column y: integer!\n    constraint k:\n      unique: {k}\n  table b:\n    column x: integer\n    column y: integer\n    constraint f:\n      foreign key: [x, y]\n      references public.a: [x, y]\n")
    };
    executed(&t("[x, y]"), &t("[y, x]"))
}
fn key_deferral(_: &mut Ctx) -> Res {
    let t = |k: &str| format!("schema public:\n  table a:\n    column x: integer!\n    constraint k:\n      unique: x\n      deferrable: {k}\n");
    executed(&t("false"), &t("true"))
}
fn view_on_view(_: &mut Ctx) -> Res {
    let mut d = String::from("schema public:\n  view v6:\n    as: SELECT 1 AS x\n");
    for i in 0..6 {
        d.push_str(&format!("  view v{i}:\n    as: SELECT x FROM \"public\".\"v{}\"\n", i + 1));
    }
    executed("schema public: {}\n", &d)
}
fn view_on_column(_: &mut Ctx) -> Res {
    let t = |k: &str| format!("schema public:\n  table a:\n    column x: {k}\n  view v:\n    as: SELECT \"x\" FROM \"public\".\"a\"\n");
    executed(&t("integer"), &t("text"))
}
fn sequence_in_use(_: &mut Ctx) -> Res {
    let t = |k: &str| format!("schema public:\n  sequence s:\n    increment: {k}\n  table a:\n    column x: int8 = nextval('\"public\".\"s\"'::regclass)\n");
    executed(&t("1"), &t("2"))
}
fn plain(_: &mut Ctx) -> Res {
    executed(
        "schema public: {}\n",
        "schema public:\n  table a:\n    column x: integer!\n    constraint k:\n      primary key: x\n  table b:\n    column x: integer = 1\n    constraint f:\n      foreign key: x\n      references public.a: x\n  index i:\n    on b: x\n  view v:\n    as: SELECT \"x\" FROM \"public\".\"a\"\n",
    )
}

fn rchange(c: &Change) -> Result<RChange, Fail> {
    match change_from_podo(c) {
        Ok(c) => Ok(c),
        Err(e) => fail("unreadable", e),
    }
}

fn pairs(s: &mut Src, ctx: &mut Ctx) -> Res {
    run(s, ctx, &Opts::pg())
}
fn small(s: &mut Src, ctx: &mut Ctx) -> Res {
    run(s, ctx, &Opts::small())
}

fn run(s: &mut Src, ctx: &mut Ctx, o: &Opts) -> Res {
    let (a, b, ops) = gen_pair(s, o);
    ctx.case(format!("--- source\n{}--- target\n{}", yaml::simple(&a), yaml::simple(&b)));
    for op in &ops {
        ctx.label(*op);
    }
    let mut d = to_podo(&a);
    let changes = guarded("computing the difference", || ps::compare_diff(&d, &to_podo(&b)))?;
    let mut pg = Pg::of(&a);
    let mut m = a.without_owners();
    let mut undo = vec![];
    let all: Vec<String> = changes.iter().map(|c| c.render_sql()).collect();
    for (i, c) in changes.iter().enumerate() {
        let rc = rchange(c)?;
        let r = match guarded("computing a reverse", || c.revert(&d).map_err(|e| e.to_string()))? {
            Ok(r) => r,
            Err(_) => {
                // C05's concern
                ctx.nontrivial = false;
                return Ok(());
            }
        };
        if guarded("applying a change", || c.apply(&mut d).map_err(|e| e.to_string()))?.is_err() || rc.apply(&mut m).is_err() {
            ctx.nontrivial = false; // C03's concern
            return Ok(());
        }
        let sql = guarded("rendering a change", || c.render_sql())?;
        if let Err(e) = pg.exec(&sql) {
            return fail("rejected", format!("up: statement {i} is rejected: {} {}\n{sql}\nall: {all:#?}", e.code, e.msg));
        }
        same(&pg, &m, false, &format!("up: after statement {i} {sql:?} of {rc:?}\nall: {all:#?}"))?;
        ctx.label(rc.name());
        undo.push(r);
    }
    ctx.nontrivial = !changes.is_empty();
    let goal = Pg::of(&b);
    same(&pg, &goal.db, true, &format!("up: the target is not reached\nall: {all:#?}"))?;
    let back: Vec<String> = undo.iter().rev().map(|c| c.render_sql()).collect();
    for (i, r) in undo.iter().enumerate().rev() {
        let rc = rchange(r)?;
        if rc.apply(&mut m).is_err() {
            return Ok(()); // C05's concern
        }
        let sql = guarded("rendering a change", || r.render_sql())?;
        if let Err(e) = pg.exec(&sql) {
            return fail("rejected-down", format!("down: the statement for change {i} is rejected: {} {}\n{sql}\nup: {all:#?}\ndown: {back:#?}", e.code, e.msg));
        }
        same(&pg, &m, false, &format!("down: after {sql:?} of {rc:?}\nup: {all:#?}\ndown: {back:#?}"))?;
    }
    same(&pg, &a.without_owners(), true, &format!("down: the start is not reached\nup: {all:#?}\ndown: {back:#?}"))?;
    Ok(())
}

fn same(pg: &Pg, m: &Db, any_order: bool, what: &str) -> Res {
    let (mut x, mut y) = (pg.canonical(), canonical(m));
    if any_order {
        x = x.with_sorted_columns();
        y = y.with_sorted_columns();
    }
    ensure!(x == y, "catalog", "{what}\nthe catalog differs: {}", describe_diff(&y, &x));
    Ok(())
}

fn rename(s: &mut Src, ctx: &mut Ctx) -> Res {
    let a = gen_db(s, &Opts::small());
    let mut pg = Pg::of(&a);
    let mut m = a.without_owners();
    for _ in 0..3 {
        let mut free = vec![];
        for (x, y) in m.tables() {
            for c in &m.table(&x, &y).unwrap().cols {
                let used = serde_json::to_string(&m).unwrap().matches(&serde_json::to_string(&c.name).unwrap()).count() > 1
                    || m.rels_of("view").len() + m.rels_of("index").len() > 0 && s.flag();
                if !used || m.table(&x, &y).unwrap().cons.is_empty() && m.rels_of("view").is_empty() && m.rels_of("index").is_empty() {
                    free.push((x.clone(), y.clone(), c.name.clone()));
                }
            }
        }
        if free.is_empty() {
            return Ok(());
        }
        let (x, y, c) = s.pick(&free).clone();
        let to = name(s, &Opts { quirky: 60, ..Opts::small() });
        let t = m.table(&x, &y).unwrap();
        let mut probe = pg.clone();
        let q = vcore::sqltext::quote_ident;
        if t.col(&to).is_some() || probe.exec(&format!("ALTER TABLE {}.{} RENAME COLUMN {} TO {}", q(&x), q(&y), q(&c), q(&to))).is_err() {
            return Ok(());
        }
        let rc = RChange::RenameColumn { from_schema: x, from_table: y, from_column: c, to_column: to };
        rc.apply(&mut m).unwrap();
        if canonical(&m) != probe.canonical() {
            return Ok(()); // referenced elsewhere: PostgreSQL renames it there too
        }
        ctx.case(format!("--- database\n{}--- change\n{rc:?}", yaml::simple(&a)));
        ctx.nontrivial = true;
        let pc = super::chg::podo_change(&rc)?;
        let sql = guarded("rendering a change", || pc.render_sql())?;
        if let Err(e) = pg.exec(&sql) {
            return fail("rejected", format!("{rc:?}: {} {}\n{sql}", e.code, e.msg));
        }
        same(&pg, &m, false, &format!("after {sql:?}"))?;
    }
    Ok(())
}
