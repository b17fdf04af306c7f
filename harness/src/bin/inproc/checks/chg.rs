use super::*;
use ps::changes::Change;
use std::collections::BTreeSet;
use vcore::anychange::*;

fn show_pair(a: &Db, b: &Db) -> String {
    format!("--- source\n{}--- target\n{}", yaml::simple(a), yaml::simple(b))
}

fn diff(a: &ps::Database, b: &ps::Database) -> Result<Vec<Change>, Fail> {
    guarded("computing the difference", || ps::compare_diff(a, b))
}

fn apply(c: &Change, d: &mut ps::Database) -> Result<Result<(), String>, Fail> {
    guarded("applying a change", || c.apply(d).map_err(|e| e.to_string()))
}

fn rchange(c: &Change) -> Result<RChange, Fail> {
    match change_from_podo(c) {
        Ok(c) => Ok(c),
        Err(e) => fail("unreadable", format!("a change that the stored form does not hold: {e}")),
    }
}

fn start_pair(s: &mut Src, ctx: &mut Ctx) -> (Db, Db) {
    let o = if s.chance(30) { Opts::pg() } else { Opts::pure() };
    let (a, b, ops) = gen_pair(s, &o);
    ctx.case(show_pair(&a, &b));
    for op in &ops {
        ctx.label(*op);
    }
    ctx.nontrivial = a.without_owners().with_sorted_columns() != b.without_owners().with_sorted_columns();
    (a, b)
}

/// What the difference is to reach: the target, with the columns of tables that were there before in any order.
fn aside(a: &Db, x: &Db) -> Db {
    let mut x = x.without_owners();
    for (s, t) in x.tables() {
        if a.table(&s, &t).is_some() {
            x.table_mut(&s, &t).unwrap().cols.sort_by(|p, q| p.name.cmp(&q.name));
        }
    }
    x
}

pub fn c03() -> Check {
    Check {
        id: "C03",
        level: "exploration",
        rule: "random pairs of valid databases (the second edited from the first by up to six random edits, or independent, both directions); \
               the computed changes are applied one after the other and the result compared with the target; program: the same through the files and the podo binary; non-trivial: the two differ",
        assumptions: vec!["column order of tables that existed before and sequence owners are set aside, as the property states"],
        parts: vec![
            Part { name: "pairs", quick: 18000, thorough: 500000, f: c03_pairs },
            Part { name: "equal", quick: 5000, thorough: 100000, f: c03_equal },
            Part { name: "chains", quick: 2500, thorough: 60000, f: c03_chains },
        ],
        fixed: vec![],
    }
}

fn reach(a: &Db, d: &mut ps::Database, b: &Db) -> Res {
    let t = to_podo(b);
    let changes = diff(d, &t)?;
    for (i, c) in changes.iter().enumerate() {
        if let Err(e) = apply(c, d)? {
            return fail("refused", format!("change {i} {} of {} is refused: {e}", c.display_name(), changes.len()));
        }
    }
    let (got, want) = (aside(a, &model(d)?), aside(a, b));
    ensure!(got == want, "misses", "the changes do not lead to the target: {}", describe_diff(&want, &got));
    Ok(())
}

fn c03_pairs(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (a, b) = start_pair(s, ctx);
    reach(&a, &mut to_podo(&a), &b)
}

fn c03_equal(s: &mut Src, ctx: &mut Ctx) -> Res {
    let o = if s.flag() { Opts::pg() } else { Opts::pure() };
    let mut a = gen_db(s, &o);
    if s.flag() {
        with_free_texts(s, &mut a);
    }
    ctx.case(yaml::simple(&a));
    ctx.nontrivial = a.objects() >= 4;
    let c = diff(&to_podo(&a), &to_podo(&a))?;
    ensure!(c.is_empty(), "not-empty", "two equal databases give changes: {:?}", c);
    Ok(())
}

/// A history of several steps, each difference computed from what the earlier changes left.
fn c03_chains(s: &mut Src, ctx: &mut Ctx) -> Res {
    let o = Opts::pure();
    let mut cur = Db::default();
    let mut d = to_podo(&cur);
    let mut txt = String::new();
    for _ in 0..s.range(2, 5) {
        let mut next = if cur.schemas.is_empty() { gen_db(s, &o) } else { cur.clone() };
        for _ in 0..s.n(4) {
            mutate(s, &o, &mut next);
            repair(&mut next, &o);
        }
        txt.push_str(&format!("--- step\n{}", yaml::simple(&next)));
        ctx.case(&txt);
        ctx.nontrivial = true;
        reach(&cur, &mut d, &next)?;
        cur = next;
        let again = diff(&d, &to_podo(&cur))?;
        ensure!(again.is_empty(), "not-empty", "once applied, the difference is not empty: {:?}", again);
    }
    Ok(())
}

pub fn c04() -> Check {
    Check {
        id: "C04",
        level: "exploration",
        rule: "random pairs of valid databases; every computed change must be about something that differs between them, and no table or \
               column on both sides is created or dropped; program: what the podo binary stages for such a pair; non-trivial: the two differ and at least one object is the same on both sides",
        assumptions: vec![],
        parts: vec![Part { name: "pairs", quick: 22000, thorough: 600000, f: c04_pairs }],
        fixed: vec![],
    }
}

fn c04_pairs(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (a, b) = start_pair(s, ctx);
    ctx.nontrivial = ctx.nontrivial && a.tables().iter().any(|(x, y)| b.table(x, y).is_some());
    let changes = diff(&to_podo(&a), &to_podo(&b))?;
    let (ao, bo) = (a.without_owners(), b.without_owners());
    for c in &changes {
        let c = rchange(c)?;
        if let Some(why) = touches_unchanged(&c, &ao, &bo) {
            return fail("touches", format!("{c:?}: {why}"));
        }
    }
    Ok(())
}

pub fn c05() -> Check {
    Check {
        id: "C05",
        level: "exploration",
        rule: "pairs: each change of a random difference is reverted from its precomputed reverse, in the whole sequence last to first, and \
               every intermediate database compared; single: a random change of any kind, with any field values, that applies to a random \
               database; program: the statements down in files written by the podo binary, undoing those up; non-trivial: at least one change was applied and reverted",
        assumptions: vec!["a table or schema is dropped when nothing else hangs on it, as every computed difference does"],
        parts: vec![
            Part { name: "pairs", quick: 12000, thorough: 300000, f: c05_pairs },
            Part { name: "single", quick: 12000, thorough: 300000, f: c05_single },
        ],
        fixed: vec![],
    }
}

/// columns that were dropped and restored stand last; all others keep their order
fn same_aside_restored(want: &Db, got: &Db, restored: &BTreeSet<(String, String, String)>) -> bool {
    let strip = |d: &Db| {
        let mut d = d.clone();
        for (s, t) in d.tables() {
            d.table_mut(&s, &t).unwrap().cols.retain(|c| !restored.contains(&(s.clone(), t.clone(), c.name.clone())));
        }
        d
    };
    want.with_sorted_columns() == got.with_sorted_columns() && strip(want) == strip(got)
}

fn c05_pairs(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (a, b) = start_pair(s, ctx);
    let mut d = to_podo(&a);
    let changes = diff(&d, &to_podo(&b))?;
    let mut undo = vec![];
    let mut restored = BTreeSet::new();
    for (i, c) in changes.iter().enumerate() {
        let before = model(&d)?.without_owners();
        let r = match guarded("computing a reverse", || c.revert(&d).map_err(|e| e.to_string()))? {
            Ok(r) => r,
            Err(e) => return fail("no-reverse", format!("change {i} {c:?} has no reverse: {e}")),
        };
        if apply(c, &mut d)?.is_err() {
            // C03's concern
            ctx.nontrivial = false;
            return Ok(());
        }
        if let RChange::DropColumn { schema, table, column } = rchange(c)? {
            restored.insert((schema, table, column));
        }
        undo.push((before, r));
    }
    ctx.nontrivial = !undo.is_empty();
    for (i, (before, r)) in undo.iter().enumerate().rev() {
        if let Err(e) = apply(r, &mut d)? {
            return fail("reverse-refused", format!("the reverse {r:?} of change {i} {:?} is refused: {e}", changes[i]));
        }
        let now = model(&d)?.without_owners();
        ensure!(
            same_aside_restored(before, &now, &restored),
            "not-restored",
            "reverting change {i} {:?} with {r:?} does not restore the database: {}",
            changes[i],
            describe_diff(before, &now)
        );
    }
    Ok(())
}

pub fn podo_change(c: &RChange) -> Result<Change, Fail> {
    match change_to_podo(c) {
        Ok(x) => Ok(x),
        Err(e) => fail("unreadable", format!("a stored change is not read: {c:?}: {e}")),
    }
}

fn c05_single(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut db = gen_db(s, &Opts::pure());
    // the odd sequence owner aside, which no change carries
    db = db.without_owners();
    for _ in 0..20 {
        let c = random_change(s, &db, 90);
        let mut after = db.clone();
        if c.apply(&mut after).is_err() || drops_more(&c, &db) {
            continue;
        }
        ctx.case(format!("--- database\n{}--- change\n{c:?}\n", yaml::simple(&db)));
        ctx.label(c.name());
        ctx.nontrivial = true;
        let pc = podo_change(&c)?;
        let mut d = to_podo(&db);
        let r = match guarded("computing a reverse", || pc.revert(&d).map_err(|e| e.to_string()))? {
            Ok(r) => r,
            Err(e) => return fail("no-reverse", format!("{c:?} has no reverse: {e}")),
        };
        ensure!(model(&d)? == db, "effect", "computing the reverse of {c:?} changed the database");
        if let Err(e) = apply(&pc, &mut d)? {
            return fail("refused", format!("{c:?} applies but is refused: {e}"));
        }
        if let Err(e) = apply(&r, &mut d)? {
            return fail("reverse-refused", format!("the reverse {r:?} of {c:?} is refused: {e}"));
        }
        let now = model(&d)?;
        let mut restored = BTreeSet::new();
        if let RChange::DropColumn { schema, table, column } = &c {
            restored.insert((schema.clone(), table.clone(), column.clone()));
        }
        ensure!(
            same_aside_restored(&db, &now, &restored),
            "not-restored",
            "reverting {c:?} with {r:?} does not restore the database: {}",
            describe_diff(&db, &now)
        );
        return Ok(());
    }
    Ok(())
}

pub fn c23() -> Check {
    Check {
        id: "C23",
        level: "exploration",
        rule: "a random database and a random sequence of up to 12 changes, applicable or not; podo's verdict and result after each are \
               compared with the reference semantics, and reverses are asked for throughout; program: histories whose changes do not apply, which the podo binary must refuse; non-trivial: at least one change was refused \
               and one applied",
        assumptions: vec![
            "dropping a schema, table or column that something else hangs on may either be refused or remove just what is named",
        ],
        parts: vec![Part { name: "sequences", quick: 14000, thorough: 400000, f: c23_seq }],
        fixed: vec![],
    }
}

fn c23_seq(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut db = if s.chance(10) { Db::default() } else { gen_db(s, &Opts::pure()) };
    let mut d = to_podo(&db);
    let mut txt = format!("--- database\n{}", yaml::simple(&db));
    let (mut ok, mut no) = (0, 0);
    for _ in 0..s.range(1, 12) {
        let fit = *s.pick(&[90, 60, 30]);
        let c = random_change(s, &db, fit);
        txt.push_str(&format!("--- {c:?}\n"));
        ctx.case(&txt);
        let pc = podo_change(&c)?;
        let _ = guarded("computing a reverse", || pc.revert(&d).map_err(|e| e.to_string()))?;
        let mut want = db.clone();
        let verdict = c.apply(&mut want);
        let ambiguous = drops_more(&c, &db);
        let got = apply(&pc, &mut d)?;
        let now = model(&d)?;
        match (&verdict, &got) {
            (Err(r), Err(m)) => {
                no += 1;
                ctx.label("refused");
                ensure!(now == db, "partial", "{c:?} is refused but changed the database: {}", describe_diff(&db, &now));
                // Where several things are wrong with a change, the refusal may name any of them.
                let mut names = vec![r.name.clone()];
                match &c {
                    RChange::RenameColumn { from_column, to_column, .. } => names.extend([from_column.clone(), to_column.clone()]),
                    RChange::CreateTable { table, columns, .. } => {
                        names.push(table.clone());
                        names.extend(columns.iter().map(|c| c.name.clone()));
                    }
                    RChange::CreateIndex { table, index, .. } => names.extend([table.clone(), index.clone()]),
                    _ => {}
                }
                ensure!(
                    names.iter().any(|n| m.contains(n.as_str())
                        || m.contains(&n.escape_debug().to_string())
                        || m.contains(&n.escape_default().to_string())),
                    "unnamed",
                    "the refusal of {c:?} does not name {:?}: {m}",
                    r.name
                );
            }
            (Err(r), Ok(())) => return fail("not-refused", format!("{c:?} does not apply ({} {:?}) but is not refused", r.why, r.name)),
            (Ok(()), Err(m)) => {
                if ambiguous {
                    ensure!(now == db, "partial", "{c:?} is refused but changed the database: {}", describe_diff(&db, &now));
                    continue;
                }
                return fail("refused", format!("{c:?} applies but is refused: {m}"));
            }
            (Ok(()), Ok(())) => {
                ok += 1;
                ctx.label(c.name());
                ensure!(now == want, "wrong-effect", "{c:?} has another effect than it names: {}", describe_diff(&want, &now));
                db = want;
            }
        }
    }
    ctx.nontrivial = ok > 0 && no > 0;
    Ok(())
}

pub fn c22() -> Check {
    Check {
        id: "C22",
        level: "exploration",
        rule: "values: random changes of every kind with any field values, through YAML and JSON and back; replay: the stored changes of \
               a random difference, read back, rebuild the target; broken: documents that are not a change; stored: random histories \
               written by the real commands, read back and replayed; program: random changes in files, replayed by the podo binary; non-trivial: the change or document was compared",
        assumptions: vec![],
        parts: vec![
            Part { name: "values", quick: 16000, thorough: 400000, f: c22_values },
            Part { name: "replay", quick: 3000, thorough: 80000, f: c22_replay },
            Part { name: "broken", quick: 6000, thorough: 100000, f: c22_broken },
        ],
        fixed: vec![],
    }
}

fn c22_values(s: &mut Src, ctx: &mut Ctx) -> Res {
    let db = gen_db(s, &Opts::small());
    let n = s.range(1, 4);
    let cs: Vec<RChange> = (0..n)
        .map(|_| {
            let c = random_change(s, &db, 50);
            wilden(s, c)
        })
        .collect();
    ctx.case(format!("{cs:?}"));
    ctx.nontrivial = true;
    let pcs: Vec<Change> = cs.iter().map(podo_change).collect::<Result<_, _>>()?;
    // a list of changes, as a version holds it
    let y = guarded("storing", || serde_yaml::to_string(&pcs).map_err(|e| e.to_string()))?;
    let y = y.or_else(|e| fail("not-stored", e))?;
    let back: Vec<Change> = match guarded("reading", || serde_yaml::from_str(&y).map_err(|e| e.to_string()))? {
        Ok(b) => b,
        Err(e) => return fail("not-read", format!("what was stored as YAML is not read back: {e}\n{y}")),
    };
    ensure!(back == pcs, "differs", "read back from YAML as {back:?}, stored was {pcs:?}");
    let j = guarded("storing", || serde_json::to_value(&pcs).map_err(|e| e.to_string()))?;
    let j = j.or_else(|e| fail("not-stored", e))?;
    let jt = j.to_string();
    let back: Vec<Change> = match guarded("reading", || serde_json::from_str(&jt).map_err(|e| e.to_string()))? {
        Ok(b) => b,
        Err(e) => return fail("not-read", format!("what was stored as JSON is not read back: {e}\n{jt}")),
    };
    ensure!(back == pcs, "differs", "read back from JSON as {back:?}, stored was {pcs:?}");
    // nothing was lost on the way in
    let direct: Vec<RChange> = match serde_json::from_value(j) {
        Ok(d) => d,
        Err(e) => return fail("form", format!("the stored form lacks something: {e}")),
    };
    ensure!(direct == cs, "differs", "stored {direct:?}, was {cs:?}");
    for c in cs {
        ctx.label(c.name());
    }
    Ok(())
}

fn c22_replay(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (a, b) = start_pair(s, ctx);
    let changes = diff(&to_podo(&a), &to_podo(&b))?;
    let mut d1 = to_podo(&a);
    let mut d2 = to_podo(&a);
    let y = guarded("storing", || serde_yaml::to_string(&changes).map_err(|e| e.to_string()))?.or_else(|e| fail("not-stored", e))?;
    let back: Vec<Change> = guarded("reading", || serde_yaml::from_str(&y).map_err(|e| e.to_string()))?.or_else(|e| fail("not-read", format!("{e}\n{y}")))?;
    ensure!(back.len() == changes.len(), "differs", "{} changes stored, {} read", changes.len(), back.len());
    for (x, y) in changes.iter().zip(&back) {
        let (p, q) = (apply(x, &mut d1)?, apply(y, &mut d2)?);
        ensure!(p.is_ok() == q.is_ok(), "replay", "{x:?}: {p:?}, but read back: {q:?}");
    }
    let (m1, m2) = (model(&d1)?, model(&d2)?);
    ensure!(m1 == m2, "replay", "replaying what was stored leads elsewhere: {}", describe_diff(&m1, &m2));
    Ok(())
}

fn c22_broken(s: &mut Src, ctx: &mut Ctx) -> Res {
    use serde_json::{json, Value};
    let db = gen_db(s, &Opts::small());
    let c = random_change(s, &db, 50);
    let mut v = serde_json::to_value(&c).unwrap();
    let keys: Vec<String> = v["change"].as_object().unwrap().keys().cloned().collect();
    let k = s.pick(&keys).clone();
    let how = s.n(6);
    match how {
        0 => v["type"] = json!(s.pick(&["", "CreateTables", "createtablechange", "CreateTable", "Drop", "x"])),
        1 => {
            v.as_object_mut().unwrap().remove("type");
        }
        2 => {
            v.as_object_mut().unwrap().remove("change");
        }
        3 => {
            // an optional field may be left out
            if k == "default" {
                return Ok(());
            }
            v["change"].as_object_mut().unwrap().remove(&k);
        }
        4 => {
            let was = &v["change"][&k];
            let new = match was {
                Value::String(_) => json!({"a": 1}),
                Value::Bool(_) => json!("maybe"),
                Value::Number(_) => json!("many"),
                Value::Array(_) => json!(7),
                Value::Null => json!([1]),
                _ => json!(null),
            };
            v["change"][&k] = new;
        }
        _ => v = s.pick(&[json!(null), json!([]), json!("x"), json!(5), json!({}), json!({"type": "CreateSchemaChange", "change": null})]).clone(),
    }
    let t = v.to_string();
    ctx.case(&t);
    ctx.nontrivial = true;
    ctx.label(format!("break {how}"));
    let r = guarded("reading", || serde_json::from_str::<Change>(&t).map_err(|e| e.to_string()))?;
    ensure!(r.is_err(), "accepted", "{t} is not a change but is read as {r:?}");
    let y = serde_yaml::to_string(&v).unwrap();
    let r = guarded("reading", || serde_yaml::from_str::<Change>(&y).map_err(|e| e.to_string()))?;
    ensure!(r.is_err(), "accepted", "{y} is not a change but is read as {r:?}");
    Ok(())
}
