//! C07, C08: what staging, resetting and making do to the history files.
use vcore::ddl::{self, Pg};
use vcore::ensure;
use vcore::gen::*;
use vcore::model::*;
use vcore::pbt::*;
use vcore::world::*;
use vcore::yaml::{self, Style};

/// No server listens there.
pub const NOWHERE: &str = "postgresql://nobody@127.0.0.1:1/none";

pub fn settled(d: &Db) -> Db {
    d.without_owners().with_sorted_columns()
}

pub fn same_db(want: &Db, got: &Db, what: &str) -> Res {
    let (x, y) = (settled(want), settled(got));
    ensure!(x == y, "not-the-definitions", "{what}: {}", describe_diff(&x, &y));
    Ok(())
}

/// New definitions after an edit, within the documented limits of what can be migrated from `from`.
pub fn edited(s: &mut Src, o: &Opts, from: &Db, defs: &Db, old: &[Db]) -> Db {
    let mut d = match s.weighted(&[12, 1, if old.is_empty() { 0 } else { 5 }]) {
        1 => gen_db(s, o),
        2 if !old.is_empty() => s.pick(old).clone(),
        _ => {
            let mut d = defs.clone();
            for _ in 0..s.range(1, 4) {
                mutate(s, o, &mut d);
                repair(&mut d, o);
            }
            d
        }
    };
    repair_pair(from, &mut d, o);
    d
}

pub fn replay(h: &Hist, what: &str) -> Result<Db, Fail> {
    match h.replay(h.versions.len()) {
        Ok(d) => Ok(d),
        Err(e) => fail("does-not-apply", format!("{what}: {e}")),
    }
}

/// Nothing of the versions made before is altered or lost; with `more`, versions may have been added.
pub fn made_kept(before: &Hist, after: &Hist, more: bool, what: &str) -> Res {
    for v in before.made() {
        match after.bytes.get(&v.name) {
            None => return fail("version-lost", format!("{what}: version {:?} is gone", v.name)),
            Some(b) => ensure!(*b == before.bytes[&v.name], "version-altered", "{what}: the file of version {:?} is altered", v.name),
        }
    }
    if !more {
        ensure!(before.made().len() == after.made().len(), "version-added", "{what}: versions {:?} -> {:?}",
            before.versions.iter().map(|v| &v.name).collect::<Vec<_>>(), after.versions.iter().map(|v| &v.name).collect::<Vec<_>>());
    }
    Ok(())
}

fn defs_tree(p: &Proj) -> Tree {
    tree(&p.definitions)
}

/// What the stage must hold after `podo stage`, and what its SQL does in PostgreSQL.
fn check_stage(before: &Hist, after: &Hist, src: &Db, defs: &Db, pg_ok: bool, ctx: &mut Ctx) -> Res {
    made_kept(before, after, false, "stage")?;
    let (b, a) = (before.stage(), after.stage());
    ensure!(a.previous == b.previous, "stage-moved", "stage: the stage follows {:?} instead of {:?}", a.previous, b.previous);
    ensure!(a.changes.starts_with(&b.changes), "stage-lost", "stage: what was staged before is not kept: {:?} -> {:?}", b.changes, a.changes);
    ensure!(a.up.starts_with(&b.up), "stage-lost", "stage: SQL staged before is not kept: {:?} -> {:?}", b.up, a.up);
    ensure!(a.down.ends_with(&b.down), "stage-lost", "stage: reverse SQL staged before is not kept: {:?} -> {:?}", b.down, a.down);
    let n = a.changes.len();
    let grown = n - b.changes.len();
    ensure!(a.up.len() == b.up.len() + grown && a.down.len() == b.down.len() + grown, "counts", "stage: {n} changes, {} statements, {} reverse statements", a.up.len(), a.down.len());
    let got = replay(after, "after stage")?;
    same_db(defs, &got, "after stage, made versions plus stage differ from the definitions")?;
    let new = &a.changes[b.changes.len()..];
    if settled(src) == settled(defs) {
        ensure!(new.is_empty(), "needless", "stage: nothing differs, yet it stages {new:?}");
    }
    // the SQL, statement by statement
    let mut pg = Pg::of(src);
    let mut m = src.without_owners();
    let k = b.up.len();
    let mut states = vec![];
    for (i, c) in new.iter().enumerate() {
        states.push(m.clone());
        if c.apply(&mut m).is_err() {
            return fail("does-not-apply", format!("stage: {c:?}"));
        }
        if let Err(e) = pg.exec(&a.up[k + i]) {
            if !pg_ok {
                ctx.label("outside what PostgreSQL takes");
                return Ok(());
            }
            return fail("rejected", format!("stage: the SQL of {c:?} is rejected: {} {}: {}", e.code, e.msg, a.up[k + i]));
        }
        ensure!(pg.canonical() == ddl::canonical(&m), "sql-differs", "stage: statement {:?} does not do {c:?}: {}", a.up[k + i],
            describe_diff(&ddl::canonical(&m), &pg.canonical()));
    }
    for (i, c) in new.iter().enumerate().rev() {
        let sql = &a.down[grown - 1 - i];
        if let Err(e) = pg.exec(sql) {
            if !pg_ok {
                return Ok(());
            }
            return fail("rejected", format!("stage: the reverse SQL of {c:?} is rejected: {} {}: {sql}\nall up {:?}\nall down {:?}", e.code, e.msg, a.up, a.down));
        }
        let (x, y) = (pg.canonical().with_sorted_columns(), ddl::canonical(&states[i]).with_sorted_columns());
        ensure!(x == y, "reverse-differs", "stage: {sql:?} does not reverse {c:?}: {}", describe_diff(&y, &x));
    }
    Ok(())
}

pub fn c07() -> Check {
    Check {
        id: "C07",
        level: "exploration",
        rule: "random histories of edits to the definitions, stage, reset, make and status run by the podo binary; after every command the \
               history files are read and replayed by the reference meaning of changes and the staged SQL is executed by the model of \
               PostgreSQL; non-trivial: some stage recorded changes",
        assumptions: vec![
            "definitions within the documented limits of what podo orders (DESIGN.md)",
            "reference meaning of changes and model of PostgreSQL as in C03 and C06",
        ],
        parts: vec![
            Part { name: "histories", quick: 700, thorough: 30000, f: c07_histories },
            Part { name: "small", quick: 900, thorough: 40000, f: c07_small },
        ],
        fixed: vec![],
    }
}

fn c07_histories(s: &mut Src, ctx: &mut Ctx) -> Res {
    c07_run(s, ctx, &Opts { max_tables: 3, max_schemas: 2, ..Opts::pg() }, 9)
}
fn c07_small(s: &mut Src, ctx: &mut Ctx) -> Res {
    c07_run(s, ctx, &Opts::small(), 6)
}

fn c07_run(s: &mut Src, ctx: &mut Ctx, o: &Opts, max: usize) -> Res {
    let w = World::new(s);
    let p = w.project(NOWHERE);
    let mut defs = RVersion::init_db();
    let mut olds: Vec<Db> = vec![];
    let mut log = String::new();
    let steps = s.range(2, max);
    for _ in 0..steps {
        if s.chance(7) {
            // statements written by hand, which no change stands for
            let mut v = p.hist("before")?.stage().clone();
            for side in [&mut v.up, &mut v.down] {
                for _ in 0..s.n(3) {
                    let at = s.n(side.len() + 1);
                    side.insert(at, s.pick(&["SELECT 1;", "UPDATE \"t\" SET \"a\" = 'x\ny';", "-- nothing\nSELECT ';'"]).to_string());
                }
            }
            p.write_version(&v);
            log.push_str(&format!("# by hand\n{:?} {:?}\n", v.up, v.down));
            ctx.label("statements by hand");
        }
        let before = p.hist("before")?;
        let src = replay(&before, "before")?;
        let t = p.tree();
        match s.weighted(&[8, 9, 2, 3, 1]) {
            0 | 1 => {
                if s.chance(80) {
                    let d = edited(s, o, &src, &defs, &olds);
                    olds.push(std::mem::replace(&mut defs, d));
                    p.write_defs(s, &Style::any(), &defs);
                    log.push_str(&format!("# definitions\n{}", yaml::simple(&defs)));
                }
                let dt = defs_tree(&p);
                let out = w.podo(&["stage"])?;
                log.push_str("# stage\n");
                ctx.case(&log);
                out.good("stage")?;
                ctx.runs += 1;
                let after = p.hist("stage")?;
                unchanged(&dt, &defs_tree(&p), "stage: definitions")?;
                let ok = {
                    let mut r = defs.clone();
                    repair_pair(&src, &mut r, o);
                    r == defs
                };
                check_stage(&before, &after, &src, &defs, ok, ctx)?;
                let new = after.stage().changes.len() - before.stage().changes.len();
                if new > 0 {
                    ctx.nontrivial = true;
                    ctx.label(if before.stage().is_empty() { "stage" } else { "stage on a stage" });
                } else {
                    ctx.label("nothing to stage");
                }
                if s.chance(30) {
                    w.podo(&["stage"])?.good("stage again")?;
                    let again = p.hist("stage again")?;
                    ensure!(again.versions == after.versions, "needless", "staging again without edits alters the history: {:?} -> {:?}", after.stage(), again.stage());
                }
            }
            2 => {
                log.push_str("# reset\n");
                ctx.case(&log);
                let dt = defs_tree(&p);
                w.podo(&["reset"])?.good("reset")?;
                let after = p.hist("reset")?;
                made_kept(&before, &after, false, "reset")?;
                unchanged(&dt, &defs_tree(&p), "reset: definitions")?;
                ensure!(after.stage().is_empty(), "not-reset", "reset leaves {:?} on the stage", after.stage());
                ensure!(after.stage().previous == before.stage().previous, "stage-moved", "reset: the stage follows {:?} instead of {:?}", after.stage().previous, before.stage().previous);
                ctx.label(if before.stage().is_empty() { "reset of nothing" } else { "reset" });
            }
            3 => {
                log.push_str("# make\n");
                ctx.case(&log);
                w.clock.set(w.clock.get() + s.n(3) as i64);
                w.podo(&["make"])?.good("make")?;
                let after = p.hist("make")?;
                check_make(&before, &after, &t, &p.tree(), None, "make")?;
                ctx.label(if before.stage().is_empty() { "make of nothing" } else { "make" });
            }
            _ => {
                log.push_str("# status\n");
                ctx.case(&log);
                w.podo(&["status"])?.good("status")?;
                unchanged(&t, &p.tree(), "status")?;
                ctx.label("status");
            }
        }
    }
    Ok(())
}

/// What a successful make must have done.
pub fn check_make(before: &Hist, after: &Hist, tb: &Tree, ta: &Tree, lab: Option<&str>, what: &str) -> Res {
    if before.stage().is_empty() {
        return unchanged(tb, ta, &format!("{what} with nothing staged"));
    }
    made_kept(before, after, true, what)?;
    let n = before.made().len();
    ensure!(after.made().len() == n + 1, "version-count", "{what}: {n} versions before, {} after", after.made().len());
    let v = after.last_made();
    let b = before.stage();
    ensure!(!before.bytes.contains_key(&v.name), "version-replaced", "{what}: the new version {:?} takes the name of another", v.name);
    ensure!(v.changes == b.changes && v.up == b.up && v.down == b.down, "content", "{what}: the version does not hold what was staged: {b:?} -> {v:?}");
    if let Some(l) = lab {
        ensure!(v.name.contains(l), "label", "{what}: the version is called {:?}", v.name);
    }
    ensure!(v.previous == b.previous, "previous", "{what}: the version follows {:?} instead of {:?}", v.previous, b.previous);
    ensure!(after.stage().is_empty(), "stage-kept", "{what}: the stage is not empty: {:?}", after.stage());
    ensure!(after.stage().previous.as_deref() == Some(&v.name[..]), "stage-previous", "{what}: the stage follows {:?}", after.stage().previous);
    Ok(())
}

// ---------- C08 ----------

pub fn c08() -> Check {
    Check {
        id: "C08",
        level: "exploration",
        rule: "random runs of commands (stage, make with any label, reset, status, init, up, down, clone, unknown ones) on histories that already \
               hold versions of any names, with the clock standing still, going on or back; after every command each version made before \
               is compared byte for byte and the chain is checked; non-trivial: at least one version was made",
        assumptions: vec!["one command at a time"],
        parts: vec![
            Part { name: "commands", quick: 1000, thorough: 50000, f: c08_commands },
            Part { name: "names", quick: 900, thorough: 40000, f: c08_names },
            Part { name: "database", quick: 300, thorough: 20000, f: c08_database },
        ],
        fixed: vec![],
    }
}

pub const LABELS: &[&str] = &[
    "v1", "v1", "auto", "auto-2", "init", "stage", "", "a b", "é", "日本", "a.b", ".", "..", "a/b", "../x", "/abs", "a.yaml", "x.yaml.tmp", "-x", "--", "a\nb",
    "a\tb", "%Y%m%d", "{}", "\"q\"", "'", "#c", "a: b", "- x", "~", "null", "2", "-2", "\\", "*", "$HOME", "emoji😀", "tmp", " ", " lead", "trail ", "\u{7f}", "true", "1.0", "!t", "&a",
];

pub fn label(s: &mut Src) -> String {
    match s.weighted(&[20, 2, 2]) {
        0 => s.pick(LABELS).to_string(),
        1 => "l".repeat(s.range(100, 300)),
        _ => {
            let al: Vec<char> = "ab-_./\\ :é日\"'#%\n0".chars().collect();
            (0..s.range(1, 10)).map(|_| *s.pick(&al)).collect()
        }
    }
}

/// A simple edit: one more or one fewer of a few tables.
fn tick(s: &mut Src, p: &Proj, on: &mut std::collections::BTreeSet<u64>) {
    let k = s.below(5);
    if !on.remove(&k) {
        on.insert(k);
    }
    let mut t = String::from("schema public:\n  sequence keep: {}\n");
    for k in on.iter() {
        t.push_str(&format!("  table t{k}:\n    column id: integer!\n"));
    }
    put(&p.definitions.join("public.yaml"), t);
}

fn c08_commands(s: &mut Src, ctx: &mut Ctx) -> Res {
    let w = World::new(s);
    let p = w.project(NOWHERE);
    c08_run(s, ctx, &w, &p, String::new())
}

/// On a history that already has versions, some of them named as make would name its own.
fn c08_names(s: &mut Src, ctx: &mut Ctx) -> Res {
    let w = World::new(s);
    let p = w.project(NOWHERE);
    let day = chrono_name(w.clock.get());
    let mut prev = "init".to_string();
    let mut names: Vec<String> = vec![];
    let l = label(s);
    // sometimes as after many makes within one second
    let busy = if s.chance(12) { s.range(8, 14) } else { 0 };
    for i in 0..busy + s.range(1, 5) {
        let n = match s.n(6) {
            _ if i == 0 && busy > 0 => format!("{day}-auto"),
            _ if i < busy => format!("{day}-auto-{}", i + 1),
            0 => format!("{day}-auto"),
            1 => format!("{day}-auto-{}", s.range(1, 4)),
            2 => format!("{day}-{l}"),
            3 => format!("{}-auto", chrono_name(w.clock.get() + s.n(3) as i64)),
            4 => s.pick(&["zzz", "v1", "0", "Init", "STAGE", "a.yaml", "a b", "é", ".x", "true", "~", "123", "1e3", "a: b", "#x"]).to_string(),
            _ => format!("v{i}"),
        };
        if n.contains('/') || n.len() > 200 || n.contains('\0') || names.contains(&n) || n.is_empty() {
            continue;
        }
        names.push(n.clone());
        p.write_version(&RVersion {
            name: n.clone(),
            previous: Some(prev),
            changes: vec![vcore::refchange::RChange::CreateSequence {
                schema: "public".into(), sequence: format!("q{i}"), data_type: "bigint".into(), increment: 1, min_value: 1, max_value: i64::MAX, start: 1, cache: 1, cycle: false,
            }],
            up: vec![format!("CREATE SEQUENCE q{i}")],
            down: vec![format!("DROP SEQUENCE q{i}")],
        });
        prev = n;
    }
    let mut st = RVersion::stage(&prev);
    if s.flag() {
        st.changes = vec![vcore::refchange::RChange::CreateSchema { schema_name: "more".into() }];
        st.up = vec!["CREATE SCHEMA more".into()];
        st.down = vec!["DROP SCHEMA more".into()];
    }
    if s.chance(30) {
        // statements of any kind, the same ones again among them
        let some = |s: &mut Src| -> Vec<String> { (0..s.n(5)).map(|_| s.pick(&["SELECT 1", "SELECT 1", "select 1", "", " SELECT 1;\n", "-- x", "INSERT INTO t VALUES ('é')"]).to_string()).collect() };
        st.up.extend(some(s));
        st.down.extend(some(s));
    }
    p.write_version(&st);
    if s.chance(15) && !names.contains(&format!("{day}-auto")) {
        // a directory where make would put its file
        put(&p.history.join(format!("{day}-auto.yaml")).join("x"), "");
    }
    if s.chance(15) {
        put(&p.history.join(format!("{day}-auto-2.yaml.tmp")), "left over");
    }
    let log = format!("# history {names:?} stage {} now {day}\n", st.changes.len());
    c08_run(s, ctx, &w, &p, log)
}

/// With a database: what up, down and clone do when they work.
fn c08_database(s: &mut Src, ctx: &mut Ctx) -> Res {
    let b = crate::db::bed(s);
    c08_run(s, ctx, &b.w, &b.p, "# with a database\n".into())
}

fn chrono_name(t: i64) -> String {
    let days = t.div_euclid(86400);
    let sec = t.rem_euclid(86400);
    let z = days + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    let y = yoe + era * 400 + if m <= 2 { 1 } else { 0 };
    format!("{y:04}{m:02}{d:02}_{:02}{:02}{:02}", sec / 3600, sec / 60 % 60, sec % 60)
}

fn c08_run(s: &mut Src, ctx: &mut Ctx, w: &World, p: &Proj, mut log: String) -> Res {
    let mut on = Default::default();
    let mut made = 0;
    for _ in 0..s.range(3, 12) {
        match s.weighted(&[10, 2, 1]) {
            0 => {}
            1 => w.clock.set(w.clock.get() + s.n(4) as i64),
            _ => w.clock.set(w.clock.get() - s.n(100_000) as i64),
        }
        let before = p.hist("before")?;
        let t = p.tree();
        let lab = label(s);
        let db = log.starts_with("# with a database") as u64;
        let args: Vec<String> = match s.weighted(&[8, 8, 4, 1, 1, 1 + 6 * db, 1 + 3 * db]) {
            0 => vec!["make".into()],
            1 => vec!["make".into(), format!("--version={lab}")],
            2 => vec!["stage".into()],
            3 => vec!["reset".into()],
            4 => vec!["status".into()],
            5 => vec![s.pick(if db > 0 { &["up", "down", "clone", "up", "down", "status"] } else { &["init", "up", "down", "clone", "print", "sync"] }).to_string()],
            _ => match s.n(5) {
                0 => vec!["make".into(), "--profile".into(), "other".into()],
                1 if db > 0 => vec![s.pick(&["up", "down"]).to_string(), format!("--version={}", s.pick(&before.versions).name)],
                1 => vec!["up".into(), format!("--version={}", before.last_made().name)],
                2 => vec!["down".into(), "--version=init".into()],
                3 => vec!["make".into(), "--version".into()],
                _ => vec!["nonsense".into()],
            },
        };
        if args[0] == "stage" || args[0] == "make" && before.stage().is_empty() && s.chance(80) {
            tick(s, p, &mut on);
            if args[0] == "make" {
                w.podo(&["stage"])?.good("stage")?;
                log.push_str("# edit, stage\n");
            }
        }
        let before = if args[0] == "make" { p.hist("stage")? } else { before };
        let t = if args[0] == "make" { p.tree() } else { t };
        log.push_str(&format!("# at {} {args:?}\n", chrono_name(w.clock.get())));
        ctx.case(&log);
        let a: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
        let out = w.podo(&a)?;
        out.proper(&args[0])?;
        ctx.runs += 1;
        let after = p.hist(&args[0])?;
        let what = format!("{args:?}");
        match (&args[0][..], out.ok()) {
            ("make", true) => {
                check_make(&before, &after, &t, &p.tree(), args.get(1).and_then(|a| a.strip_prefix("--version=")), &what)?;
                if !before.stage().is_empty() {
                    made += 1;
                    ctx.label("made");
                }
            }
            ("make", false) => {
                ctx.label("make refused");
                ensure!(lab.contains('/') || lab.len() > 90 || a.contains(&"other") || a.last() == Some(&"--version") || log.contains("# history"),
                    "refused", "{}", out.show());
                unchanged(&t, &p.tree(), &what)?;
            }
            ("stage", true) => made_kept(&before, &after, false, &what)?,
            ("reset", true) => {
                made_kept(&before, &after, false, &what)?;
                ensure!(after.stage().is_empty(), "not-reset", "reset leaves {:?}", after.stage());
            }
            ("stage" | "reset", false) => return fail("refused", out.show()),
            ("clone", true) => {
                let history = |t: &Tree| t.iter().filter(|(k, _)| !k.starts_with(b"database/definitions")).map(|(k, v)| (k.clone(), v.clone())).collect::<Tree>();
                unchanged(&history(&t), &history(&p.tree()), &what)?;
                ctx.label("cloned");
            }
            (x, true) if db > 0 && (x == "up" || x == "down") => {
                ctx.label(if x == "up" { "up" } else { "down" });
                unchanged(&t, &p.tree(), &what)?;
            }
            _ => unchanged(&t, &p.tree(), &what)?,
        }
    }
    ctx.nontrivial = made > 0;
    Ok(())
}
