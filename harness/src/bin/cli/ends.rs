//! C01, C03 to C06, C14, C22 and C23 at the program: definitions and histories in files, read by the podo binary, which writes what comes of them.
use crate::db::*;
use crate::files::*;
use std::collections::BTreeSet;
use vcore::anychange::*;
use vcore::damage::*;
use vcore::ddl::{self, Pg};
use vcore::ensure;
use vcore::gen::*;
use vcore::model::*;
use vcore::pbt::*;
use vcore::refchange::*;
use vcore::world::*;
use vcore::yaml::{self, Style};

pub fn parts(id: &str) -> Vec<Part> {
    let p = |name, quick, f| Part { name, quick, thorough: quick * 30, f };
    match id {
        "C01" => vec![p("program", 900, load)],
        "C03" => vec![p("program", 1200, reach)],
        "C04" => vec![p("program", 1200, alone)],
        "C05" => vec![p("program", 1200, back)],
        "C06" => vec![p("program", 600, sql)],
        "C14" => vec![p("program", 1500, malformed), p("program-text", 800, text)],
        "C22" => vec![p("stored", 600, stored), p("program", 900, replayed)],
        "C23" => vec![p("program", 900, refused)],
        _ => vec![],
    }
}

/// The same checks where podo's modules cannot be called: what can be seen at the program.
pub fn check(id: &str) -> Option<Check> {
    // these parts have the time to themselves
    let parts = parts(id).into_iter().map(|p| Part { quick: p.quick * 5, thorough: p.thorough * 2, ..p }).collect();
    let id = ["C01", "C03", "C04", "C05", "C06", "C14", "C22", "C23"].into_iter().find(|x| *x == id)?;
    Some(Check {
        id,
        level: "exploration",
        rule: "definitions and histories in files, read by the podo binary; what it writes to the stage and the log is compared with the model (podo's modules could not be called in process)",
        assumptions: vec!["sequence owners are set aside, which no change carries"],
        parts,
        fixed: vec![],
    })
}

// ---------- C01 ----------

fn load(s: &mut Src, ctx: &mut Ctx) -> Res {
    let w = World::new(s);
    let p = w.project(NOWHERE);
    let mut db = gen_db(s, &Opts::pure());
    if s.chance(30) {
        with_free_texts(s, &mut db);
    }
    let t = yaml::document(s, &Style::any(), &db);
    put(&p.definitions.join("public.yaml"), &t);
    ctx.case(&t);
    labels(&db, &mut ctx.labels);
    ctx.nontrivial = !db.tables().is_empty() && db.objects() >= 5;
    w.podo(&["stage"])?.good("a valid document")?;
    let h = p.hist("stage")?;
    let got = replay(&h, "staged")?;
    let want = db.without_owners();
    ensure!(got == want, "differs", "what is staged differs from what the document states: {}", describe_diff(&want, &got));
    Ok(())
}

// ---------- C03 to C06 ----------

struct Staged {
    src: Db,
    a: Db,
    b: Db,
    changes: Vec<RChange>,
    up: Vec<String>,
    down: Vec<String>,
}

/// A version for the first database, and the stage for the second.
fn staged(s: &mut Src, ctx: &mut Ctx, o: &Opts) -> Result<Option<Staged>, Fail> {
    let w = World::new(s);
    let p = w.project(NOWHERE);
    let (a, b, ops) = gen_pair(s, o);
    ctx.case(format!("--- source\n{}--- target\n{}", yaml::simple(&a), yaml::simple(&b)));
    for op in &ops {
        ctx.label(*op);
    }
    let st = Style::any();
    p.write_defs(s, &st, &a);
    if !w.podo(&["stage"])?.ok() || s.flag() && !w.podo(&["make", "--version=first"])?.ok() {
        return Ok(None);
    }
    let before = p.hist("the first")?;
    let src = match before.replay(before.versions.len()) {
        Ok(d) => d,
        Err(e) => return fail("does-not-apply", format!("staged for the first: {e}")),
    };
    p.write_defs(s, &st, &b);
    w.podo(&["stage"])?.good("stage")?;
    let after = p.hist("stage")?;
    // the newest stand last, and their reverses first
    let (x, y) = (before.stage(), after.stage());
    if !y.changes.starts_with(&x.changes) || !y.up.starts_with(&x.up) || !y.down.ends_with(&x.down) {
        return fail("stage-lost", format!("what was staged before is not kept: {x:?} -> {y:?}"));
    }
    let r = Staged {
        changes: y.changes[x.changes.len()..].to_vec(),
        up: y.up[x.up.len()..].to_vec(),
        down: y.down[..y.down.len() - x.down.len()].to_vec(),
        src,
        a,
        b,
    };
    ctx.nontrivial = settled(&r.a) != settled(&r.b);
    Ok(Some(r))
}

fn pair_opts(s: &mut Src) -> Opts {
    if s.chance(30) {
        Opts::pg()
    } else {
        Opts::pure()
    }
}

fn reach(s: &mut Src, ctx: &mut Ctx) -> Res {
    let o = pair_opts(s);
    let Some(r) = staged(s, ctx, &o)? else { return Ok(()) };
    same_db(&r.a, &r.src, "the changes from nothing do not lead to the first definitions")?;
    if settled(&r.src) == settled(&r.b) {
        ensure!(r.changes.is_empty(), "not-empty", "two equal databases give changes: {:?}", r.changes);
    }
    let mut d = r.src.clone();
    for (i, c) in r.changes.iter().enumerate() {
        if let Err(e) = c.apply(&mut d) {
            return fail("refused", format!("change {i} {c:?} of {} does not apply: {} {}", r.changes.len(), e.name, e.why));
        }
    }
    same_db(&r.b, &d, "the changes do not lead to the target")
}

fn alone(s: &mut Src, ctx: &mut Ctx) -> Res {
    let o = pair_opts(s);
    let Some(r) = staged(s, ctx, &o)? else { return Ok(()) };
    if settled(&r.src) != settled(&r.a) {
        return Ok(()); // C03's concern
    }
    ctx.nontrivial &= r.a.tables().iter().any(|(x, y)| r.b.table(x, y).is_some());
    let b = r.b.without_owners();
    for c in &r.changes {
        if let Some(why) = touches_unchanged(c, &r.src, &b) {
            return fail("touches", format!("{c:?}: {why}"));
        }
    }
    Ok(())
}

fn back(s: &mut Src, ctx: &mut Ctx) -> Res {
    let o = if s.flag() { Opts::pg() } else { Opts::small() };
    let Some(r) = staged(s, ctx, &o)? else { return Ok(()) };
    if settled(&r.src) != settled(&r.a) {
        return Ok(());
    }
    ctx.nontrivial = !r.changes.is_empty();
    ensure!(r.down.len() == r.changes.len(), "counts", "{} changes, {} reverse statements", r.changes.len(), r.down.len());
    let mut pg = Pg::of(&r.src);
    for q in &r.up {
        if pg.exec(q).is_err() {
            ctx.nontrivial = false; // C06's concern
            return Ok(());
        }
    }
    for q in &r.down {
        if let Err(e) = pg.exec(q) {
            return fail("reverse-refused", format!("the reverses as recorded, one after the other: {q:?}: {} {}; up {:?}, down {:?}", e.code, e.msg, r.up, r.down));
        }
    }
    let (x, y) = (pg.canonical().with_sorted_columns(), ddl::canonical(&r.src).with_sorted_columns());
    ensure!(x == y, "not-restored", "the reverses do not lead back: {}; up {:?}, down {:?}", describe_diff(&y, &x), r.up, r.down);
    Ok(())
}

fn sql(s: &mut Src, ctx: &mut Ctx) -> Res {
    let o = if s.flag() { Opts::pg() } else { Opts::small() };
    let Some(r) = staged(s, ctx, &o)? else { return Ok(()) };
    if settled(&r.src) != settled(&r.a) {
        return Ok(());
    }
    ctx.nontrivial = !r.changes.is_empty();
    let n = r.changes.len();
    ensure!(r.up.len() == n && r.down.len() == n, "counts", "{n} changes, {} statements, {} reverse statements", r.up.len(), r.down.len());
    let mut pg = Pg::of(&r.src);
    let mut m = r.src.clone();
    let mut states = vec![];
    for (c, q) in r.changes.iter().zip(&r.up) {
        states.push(m.clone());
        if c.apply(&mut m).is_err() {
            ctx.nontrivial = false; // C03's concern
            return Ok(());
        }
        if let Err(e) = pg.exec(q) {
            return fail("rejected", format!("up: the SQL of {c:?} is rejected: {} {}: {q}; all {:?}", e.code, e.msg, r.up));
        }
        let (x, y) = (pg.canonical(), ddl::canonical(&m));
        ensure!(x == y, "catalog", "up: {q:?} does not do {c:?}: {}", describe_diff(&y, &x));
    }
    for (q, (c, m)) in r.down.iter().zip(r.changes.iter().zip(&states).rev()) {
        if let Err(e) = pg.exec(q) {
            return fail("rejected-down", format!("down: the SQL for {c:?} is rejected: {} {}: {q}; up {:?}, down {:?}", e.code, e.msg, r.up, r.down));
        }
        let (x, y) = (pg.canonical().with_sorted_columns(), ddl::canonical(m).with_sorted_columns());
        ensure!(x == y, "catalog", "down: {q:?} does not reverse {c:?}: {}", describe_diff(&y, &x));
    }
    Ok(())
}

// ---------- C14 ----------

fn malformed(s: &mut Src, ctx: &mut Ctx) -> Res {
    for _ in 0..10 {
        let db = gen_db(s, &Opts::pure());
        let mut y = yaml::db_y(s, &Style { fancy: false, ..Style::any() }, &db);
        let Some(what) = damage(s, &mut y) else { continue };
        let t = yaml::emit(s, true, &y);
        let w = World::new(s);
        let p = w.project(NOWHERE);
        put(&p.definitions.join("public.yaml"), &t);
        ctx.case(format!("# {what}\n{t}"));
        ctx.label(what.split(|c: char| c == '"' || c == ':').next().unwrap_or("").trim().to_string());
        ctx.nontrivial = true;
        let files = p.tree();
        let c = *s.pick(&["stage", "stage", "status"]);
        w.podo(&[c])?.bad(&what)?;
        return unchanged(&files, &p.tree(), &what);
    }
    Ok(())
}

fn text(s: &mut Src, ctx: &mut Ctx) -> Res {
    let t = any_document(s);
    let w = World::new(s);
    let p = w.project(NOWHERE);
    put(&p.definitions.join("public.yaml"), &t);
    ctx.case(&t);
    ctx.nontrivial = serde_yaml::from_str::<serde_yaml::Value>(&t).is_ok();
    let files = p.tree();
    let o = w.podo(&["stage"])?;
    o.proper("stage")?;
    if o.ok() {
        ctx.label("loaded");
        p.hist("stage")?;
    } else {
        ctx.label("refused");
        unchanged(&files, &p.tree(), "a refused document")?;
    }
    Ok(())
}

// ---------- C22 ----------

/// Changes with any values, through the stage, a version, the log, and back.
fn stored(s: &mut Src, ctx: &mut Ctx) -> Res {
    let b = bed(s);
    let db = gen_db(s, &Opts::small());
    let mut log = String::new();
    let mut want: Vec<Vec<RChange>> = vec![];
    for _ in 0..s.range(1, 2) {
        let cs: Vec<RChange> = (0..s.range(1, 4))
            .map(|_| {
                let c = random_change(s, &db, 50);
                wilden(s, c)
            })
            .collect();
        let h = b.p.hist("before")?;
        b.p.write_version(&RVersion { changes: cs.clone(), ..RVersion::stage(h.stage().previous.as_deref().unwrap()) });
        log.push_str(&format!("{cs:?}\n"));
        ctx.case(&log);
        b.podo(&["make", &format!("--version=v{}", want.len())])?.good("make")?;
        for c in &cs {
            ctx.label(c.name());
        }
        want.push(cs);
    }
    ctx.nontrivial = true;
    let chain = b.chain();
    for (v, w) in chain[1..].iter().zip(&want) {
        ensure!(v.changes == *w, "differs", "version {:?} holds {:?}, staged was {w:?}", v.name, v.changes);
    }
    b.podo(&["up"])?.good("up")?;
    let rows = b.log()?.unwrap_or_default();
    ensure!(rows.len() == want.len() + 1, "log", "the log holds {} versions of {}", rows.len(), want.len() + 1);
    for (r, w) in rows[1..].iter().zip(&want) {
        ensure!(r.changes == bare(serde_json::to_value(w).unwrap()), "differs", "the log holds {:?} for {:?}, the version {w:?}", r.changes, r.name);
    }
    b.podo(&["status"])?.proper("status")?;
    b.podo(&["down", "--version=init"])?.good("down")?;
    Ok(())
}

/// A history of changes of any kind amounts to what its changes say.
fn replayed(s: &mut Src, ctx: &mut Ctx) -> Res {
    let w = World::new(s);
    let p = w.project(NOWHERE);
    let o = Opts::pure();
    let mut db = RVersion::init_db();
    let mut chain = vec![RVersion::init()];
    let mut log = String::new();
    for k in 0..s.range(1, 4) {
        let mut v = RVersion { name: format!("v{k}"), previous: Some(chain.last().unwrap().name.clone()), changes: vec![], up: vec![], down: vec![] };
        for _ in 0..s.range(0, 8) {
            let c = random_change(s, &db, 80);
            if drops_more(&c, &db) || c.apply(&mut db.clone()).is_err() {
                continue;
            }
            c.apply(&mut db).unwrap();
            ctx.label(c.name());
            v.up.push(format!("-- {}", v.changes.len()));
            v.down.insert(0, format!("-- {}", v.changes.len()));
            v.changes.push(c);
        }
        chain.push(v);
    }
    // the last of them may be staged only
    if s.chance(30) {
        let v = chain.last_mut().unwrap();
        v.name = "stage".into();
    } else {
        chain.push(RVersion::stage(&chain.last().unwrap().name));
    }
    for v in &chain {
        p.write_version(v);
        log.push_str(&format!("{} {:?}\n", v.name, v.changes));
    }
    // what the history amounts to, as far as definitions can say it, or something else
    let defs = if s.chance(70) { writable(&db) } else { gen_db(s, &o) };
    p.write_defs(s, &Style::any(), &defs);
    log.push_str(&yaml::simple(&defs));
    ctx.case(&log);
    ctx.nontrivial = chain.iter().map(|v| v.changes.len()).sum::<usize>() > 1;
    w.podo(&["stage"])?.good("stage on the history")?;
    let h = p.hist("stage")?;
    let was = chain.last().unwrap();
    ensure!(h.versions.len() == chain.len(), "versions", "{} versions, there were {}", h.versions.len(), chain.len());
    for (x, y) in h.made().iter().zip(&chain) {
        ensure!(x == y, "differs", "version {:?} is no longer as it was", y.name);
    }
    ensure!(h.stage().changes.starts_with(&was.changes), "differs", "staged changes are no longer as they were: {:?} -> {:?}", was.changes, h.stage().changes);
    ensure!(h.stage().up.starts_with(&was.up) && h.stage().down.ends_with(&was.down), "differs", "staged statements are no longer as they were");
    let got = replay(&h, "stage")?;
    if settled(&defs) == settled(&db) {
        ctx.label("nothing to stage");
        ensure!(h.stage().changes == was.changes, "needless", "the definitions are what the history amounts to, yet it stages {:?}", &h.stage().changes[was.changes.len()..]);
    }
    same_db(&defs, &got, "what is staged does not start from what the history amounts to")
}

/// What of a database definitions can state.
fn writable(db: &Db) -> Db {
    let mut db = db.clone();
    let plain = |t: &str| !t.contains(['!', '=', '.', '\n']) && t.trim() == t && !t.is_empty();
    for sc in db.schemas.values_mut() {
        sc.rels.retain(|_, r| !matches!(r, Rel::Seq(q) if !["int2", "int4", "int8"].contains(&&q.ty[..])));
        for r in sc.rels.values_mut() {
            if let Rel::Table(t) = r {
                t.cols.retain(|c| plain(&c.ty) && c.default.as_deref().map(plain).unwrap_or(true));
                t.cons.retain(|_, c| match c {
                    Con::Fk(f) => plain(&f.tschema) && plain(&f.ttable),
                    _ => true,
                });
            }
        }
    }
    db
}

// ---------- C23 ----------

/// A history with a change that does not apply.
fn refused(s: &mut Src, ctx: &mut Ctx) -> Res {
    let w = World::new(s);
    let p = w.project(NOWHERE);
    let mut db = RVersion::init_db();
    let mut chain = vec![RVersion::init()];
    let mut log = String::new();
    let mut bad = None;
    for k in 0..s.range(1, 4) {
        let mut v = RVersion { name: format!("v{k}"), previous: Some(chain.last().unwrap().name.clone()), changes: vec![], up: vec![], down: vec![] };
        for _ in 0..s.range(0, 6) {
            let fit = *s.pick(&[90, 80, 50]);
            let c = random_change(s, &db, fit);
            if bad.is_some() || drops_more(&c, &db) {
                continue;
            }
            match c.apply(&mut db) {
                Ok(()) => ctx.label(c.name()),
                Err(_) if s.chance(70) => continue,
                Err(e) => bad = Some((c.clone(), e)),
            }
            v.changes.push(c);
        }
        chain.push(v);
    }
    if s.chance(40) {
        chain.last_mut().unwrap().name = "stage".into();
    } else {
        chain.push(RVersion::stage(&chain.last().unwrap().name));
    }
    for v in &chain {
        p.write_version(v);
        log.push_str(&format!("{} {:?}\n", v.name, v.changes));
    }
    ctx.case(&log);
    let files = p.tree();
    let cmd = *s.pick(&["stage", "stage", "status"]);
    let o = w.podo(&[cmd])?;
    match bad {
        None => o.proper(cmd),
        Some((c, e)) => {
            ctx.nontrivial = true;
            ctx.label("refused");
            let what = format!("{cmd} on a history with {c:?}, which does not apply ({} {:?})", e.why, e.name);
            o.bad(&what)?;
            unchanged(&files, &p.tree(), &what)?;
            let names = named(&c, &e);
            ensure!(
                names.iter().any(|n| o.err.contains(n.as_str()) || o.err.contains(&n.escape_debug().to_string()) || o.err.contains(&n.escape_default().to_string())),
                "unnamed",
                "{what}: the message names none of {names:?}: {:?}",
                o.err
            );
            Ok(())
        }
    }
}

/// What the refusal of a change may name: where several things are wrong with it, any of them.
fn named(c: &RChange, e: &Refusal) -> BTreeSet<String> {
    let mut names = BTreeSet::from([e.name.clone()]);
    match c {
        RChange::RenameColumn { from_column, to_column, .. } => names.extend([from_column.clone(), to_column.clone()]),
        RChange::CreateTable { table, columns, .. } => {
            names.insert(table.clone());
            names.extend(columns.iter().map(|c| c.name.clone()));
        }
        RChange::CreateIndex { table, index, .. } => names.extend([table.clone(), index.clone()]),
        _ => {}
    }
    names
}
