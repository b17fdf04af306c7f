//! C10, C11, C13: what migrating up and down does to the database.
use crate::db::*;
use crate::files::*;
use vcore::ddl;
use vcore::ensure;
use vcore::gen::*;
use vcore::pbt::*;
use vcore::world::*;
use vcore::yaml::{self, Style};

#[derive(Clone, Copy, PartialEq)]
enum Focus {
    Up,
    Down,
    Log,
}

const SRV: &str = "the harness's own server stands for PostgreSQL: the wire protocol, transactions, rows by SQL's rules, definitions by the model of C06";

pub fn c10() -> Check {
    Check {
        id: "C10",
        level: "exploration",
        rule: "histories of versions with recorded statements of every form (quotes, dollars, comments, several lines, the same one twice, none) and \
               histories made by podo from random definitions; up and down to random targets, in any order, on a database that is new, up to date, \
               behind, ahead or on another history; the server's record of what was executed and the database afterwards are compared with the \
               harness's reading of the history; non-trivial: some up applied versions",
        assumptions: vec![SRV, "one migration at a time"],
        parts: vec![
            Part { name: "recorded", quick: 1500, thorough: 60000, f: c10_recorded },
            Part { name: "made", quick: 250, thorough: 12000, f: c10_made },
        ],
        fixed: vec![],
    }
}
pub fn c11() -> Check {
    Check {
        id: "C11",
        level: "exploration",
        rule: "as C10; before a down the history files are as they were, edited, or gone; the database's own log decides what a down has to execute; \
               non-trivial: some down undid versions",
        assumptions: vec![SRV, "one migration at a time"],
        parts: vec![
            Part { name: "recorded", quick: 1500, thorough: 60000, f: c11_recorded },
            Part { name: "made", quick: 250, thorough: 12000, f: c11_made },
        ],
        fixed: vec![],
    }
}
pub fn c13() -> Check {
    Check {
        id: "C13",
        level: "exploration",
        rule: "as C10, with metadata schemas of any name, there before or not; after every up and down the rows of the version log are compared \
               field by field with the versions applied; non-trivial: the log held an applied version",
        assumptions: vec![SRV, "version names of at most 128 characters"],
        parts: vec![
            Part { name: "recorded", quick: 1500, thorough: 60000, f: c13_recorded },
            Part { name: "made", quick: 200, thorough: 10000, f: c13_made },
        ],
        fixed: vec![],
    }
}

fn c10_recorded(s: &mut Src, ctx: &mut Ctx) -> Res {
    recorded(s, ctx, Focus::Up)
}
fn c11_recorded(s: &mut Src, ctx: &mut Ctx) -> Res {
    recorded(s, ctx, Focus::Down)
}
fn c13_recorded(s: &mut Src, ctx: &mut Ctx) -> Res {
    recorded(s, ctx, Focus::Log)
}
fn c10_made(s: &mut Src, ctx: &mut Ctx) -> Res {
    made(s, ctx, Focus::Up)
}
fn c11_made(s: &mut Src, ctx: &mut Ctx) -> Res {
    made(s, ctx, Focus::Down)
}
fn c13_made(s: &mut Src, ctx: &mut Ctx) -> Res {
    made(s, ctx, Focus::Log)
}

/// The log as it has to be, from the versions applied.
fn check_log(b: &Bed, want: &[LogRow], what: &str) -> Res {
    let got = match b.log()? {
        Some(g) => g,
        None => return fail("no-log", format!("{what}: there is no version log in schema {:?}", b.meta)),
    };
    ensure!(got.len() == want.len(), "log-rows", "{what}: the log holds {:?} instead of {:?}", names(&got), names(want));
    for (g, w) in got.iter().zip(want) {
        ensure!(g.name == w.name, "log-order", "{what}: the log holds {:?} instead of {:?}", names(&got), names(want));
        ensure!(g.previous == w.previous, "log-previous", "{what}: {:?} follows {:?} in the log, not {:?}", g.name, g.previous, w.previous);
        ensure!(g.changes == w.changes, "log-changes", "{what}: changes of {:?} in the log: {} not {}", g.name, g.changes, w.changes);
        ensure!(g.up == w.up, "log-up", "{what}: upward statements of {:?} in the log: {:?} not {:?}", g.name, g.up, w.up);
        ensure!(g.down == w.down, "log-down", "{what}: downward statements of {:?} in the log: {:?} not {:?}", g.name, g.down, w.down);
    }
    Ok(())
}
fn names(v: &[LogRow]) -> Vec<&str> {
    v.iter().map(|r| &r.name[..]).collect()
}
fn base(log: &Option<Vec<LogRow>>) -> Vec<LogRow> {
    log.clone().unwrap_or_else(|| vec![LogRow::of(&RVersion::init())])
}

fn unchanged_db(before: &Look, b: &Bed, what: &str) -> Res {
    if let Some(d) = before.diff(&b.look()) {
        return fail("database-changed", format!("{what}: the database is not as before: {d}"));
    }
    Ok(())
}

/// Runs an up and judges it. Returns how many versions it applied.
fn up(b: &Bed, target: Option<&str>, f: Focus, ctx: &mut Ctx) -> Result<usize, Fail> {
    let what = match target {
        Some(t) => format!("up to {t:?}"),
        None => "up".to_string(),
    };
    let chain = b.chain();
    let before = b.engine();
    let log = log_of(&before, &b.meta)?;
    let rows = base(&log);
    let cur = rows.last().unwrap().name.clone();
    let look = Look::of(&before);
    let made = &chain[..chain.len() - 1];
    let from = made.iter().position(|v| v.name == cur);
    let to = match target {
        Some(t) => made.iter().position(|v| v.name == t),
        None => Some(made.len() - 1),
    };
    let files = b.p.tree();
    let arg = format!("--version={}", target.unwrap_or(""));
    let o = match target {
        Some(_) => b.podo(&["up", &arg])?,
        None => b.podo(&["up"])?,
    };
    ctx.runs += 1;
    let what = format!("{what} (database at {cur:?}, history {:?})", chain.iter().map(|v| &v.name).collect::<Vec<_>>());
    unchanged(&files, &b.p.tree(), &what)?;
    let todo: Vec<RVersion> = match (from, to) {
        (Some(a), Some(b)) if b > a => made[a + 1..=b].to_vec(),
        (Some(x), Some(y)) if x == y => {
            if f == Focus::Up {
                if target.is_none() {
                    o.good(&format!("{what}, nothing to apply"))?;
                }
                o.proper(&what)?;
                unchanged_db(&look, b, &format!("{what}, nothing to apply"))?;
            }
            ctx.label("nothing to apply");
            return Ok(0);
        }
        _ => {
            if f == Focus::Up {
                o.bad(&format!("{what}, which is not ahead"))?;
                unchanged_db(&look, b, &format!("{what}, which is not ahead"))?;
            }
            ctx.label("target refused");
            return Ok(0);
        }
    };
    let stmts: Vec<String> = todo.iter().flat_map(|v| v.up.clone()).collect();
    let want = match after(&before, &stmts) {
        Ok(e) => e,
        Err(e) => {
            if f == Focus::Up {
                o.bad(&format!("{what}, a statement of which fails ({e})"))?;
            }
            ctx.label("a statement fails");
            return Ok(0);
        }
    };
    let errors = b.errors();
    ensure!(o.ok(), "refused", "{what}: {} server: {errors:?}", o.show());
    let now = b.engine();
    if f == Focus::Up {
        let got = b.migration();
        ensure!(same_stmts(&stmts, &got), "statements", "{what}: executed {got:?} instead of {stmts:?}");
        if let Some(d) = Look::of(&want).without_log(&b.meta).diff(&Look::of(&now).without_log(&b.meta)) {
            return fail("effect", format!("{what}: the database is not what the statements make of it: {d}"));
        }
        let cur = base(&b.log()?).last().unwrap().name.clone();
        ensure!(cur == todo.last().unwrap().name, "current", "{what}: afterwards the database is at {cur:?}");
        ctx.nontrivial = true;
    }
    if f == Focus::Log {
        let mut rows = rows;
        rows.extend(todo.iter().map(LogRow::of));
        check_log(b, &rows, &what)?;
        if log.is_none() {
            one_log(&Look::of(&want), b, &what)?;
        }
        ctx.nontrivial = true;
    }
    ctx.label(if todo.len() == 1 { "up by one" } else { "up by several" });
    if log.is_none() {
        ctx.label("first up");
    }
    Ok(todo.len())
}

/// The log was created where it belongs, and nothing else.
fn one_log(want: &Look, b: &Bed, what: &str) -> Res {
    for k in b.look().rows.keys() {
        ensure!(
            want.rows.contains_key(k) || *k == (b.meta.clone(), "version".to_string()),
            "other-table", "{what}: table {k:?} was created"
        );
    }
    for k in b.look().schemas.schemas.keys() {
        ensure!(want.schemas.schemas.contains_key(k) || *k == b.meta, "other-schema", "{what}: schema {k:?} was created");
    }
    Ok(())
}

fn down(b: &Bed, target: Option<&str>, f: Focus, ctx: &mut Ctx) -> Result<usize, Fail> {
    let what = match target {
        Some(t) => format!("down to {t:?}"),
        None => "down".to_string(),
    };
    let before = b.engine();
    let log = log_of(&before, &b.meta)?;
    let rows = base(&log);
    let look = Look::of(&before);
    let last = rows.len() - 1;
    let to = match target {
        Some(t) => rows.iter().position(|v| v.name == t),
        None => Some(last.saturating_sub(1)),
    };
    let files = b.p.tree();
    let arg = format!("--version={}", target.unwrap_or(""));
    let o = match target {
        Some(_) => b.podo(&["down", &arg])?,
        None => b.podo(&["down"])?,
    };
    ctx.runs += 1;
    let what = format!("{what} (database log {:?})", names(&rows));
    unchanged(&files, &b.p.tree(), &what)?;
    let todo: Vec<LogRow> = match to {
        Some(k) if k < last => rows[k + 1..].iter().rev().cloned().collect(),
        Some(_) => {
            if f == Focus::Down {
                if target.is_none() {
                    o.good(&format!("{what}, at the initial version"))?;
                }
                o.proper(&what)?;
                unchanged_db(&look, b, &format!("{what}, nothing to undo"))?;
            }
            ctx.label("nothing to undo");
            return Ok(0);
        }
        None => {
            if f == Focus::Down {
                o.bad(&format!("{what}, an unknown target"))?;
                unchanged_db(&look, b, &format!("{what}, an unknown target"))?;
            }
            ctx.label("target refused");
            return Ok(0);
        }
    };
    let stmts: Vec<String> = todo.iter().flat_map(|v| v.down.clone()).collect();
    let want = match after(&before, &stmts) {
        Ok(e) => e,
        Err(e) => {
            if f == Focus::Down {
                o.bad(&format!("{what}, a statement of which fails ({e})"))?;
            }
            ctx.label("a statement fails");
            return Ok(0);
        }
    };
    let errors = b.errors();
    ensure!(o.ok(), "refused", "{what}: {} server: {errors:?}", o.show());
    let now = b.engine();
    if f == Focus::Down {
        let got = b.migration();
        ensure!(same_stmts(&stmts, &got), "statements", "{what}: executed {got:?} instead of {stmts:?}");
        if let Some(d) = Look::of(&want).without_log(&b.meta).diff(&Look::of(&now).without_log(&b.meta)) {
            return fail("effect", format!("{what}: the database is not what the statements make of it: {d}"));
        }
        let left = base(&b.log()?);
        let (want, got) = (names(&rows[..rows.len() - todo.len()]), names(&left));
        ensure!(want == got, "not-forgotten", "{what}: afterwards the log holds {got:?} instead of {want:?}");
        ctx.nontrivial = true;
    }
    if f == Focus::Log {
        check_log(b, &rows[..rows.len() - todo.len()], &what)?;
        ctx.nontrivial = true;
    }
    ctx.label(if todo.len() == 1 { "down by one" } else { "down by several" });
    Ok(todo.len())
}

fn target(s: &mut Src, known: &[String]) -> Option<String> {
    match s.weighted(&[8, 10, 2]) {
        0 => None,
        1 => Some(s.pick(known).clone()),
        _ => Some(match s.n(9) {
            0 => "nowhere".to_string(),
            1 => "".to_string(),
            2 => format!("./{}", s.pick(known)),
            3 => format!("../history/{}", s.pick(known)),
            4 => format!("{}.yaml", s.pick(known)),
            5 => s.pick(known).to_uppercase(),
            6 => format!("{} ", s.pick(known)),
            7 => "stage".to_string(),
            _ => "%".to_string(),
        }),
    }
}

fn case(ctx: &mut Ctx, b: &Bed, log: &str) {
    let mut t = format!("metadata schema {:?}\n", b.meta);
    for v in b.chain() {
        t.push_str(&format!("{:?} after {:?}: up {:?} down {:?}\n", v.name, v.previous, v.up, v.down));
    }
    ctx.case(format!("{t}{log}"));
}

fn recorded(s: &mut Src, ctx: &mut Ctx, f: Focus) -> Res {
    let b = bed(s);
    let n = if f == Focus::Up { s.n(5) } else { 1 + s.n(4) };
    let n = many(s, n);
    extend(s, &b, n);
    let mut log = String::new();
    case(ctx, &b, &log);
    if f != Focus::Up {
        let c = b.chain();
        let t = if s.flag() { None } else { Some(c[1 + s.n(c.len() - 2)].name.clone()) };
        log.push_str(&format!("up {t:?}\n"));
        case(ctx, &b, &log);
        up(&b, t.as_deref(), f, ctx)?;
    }
    if s.chance(40) {
        // what is staged is not a version yet
        let mut c = b.chain();
        let st = c.pop().unwrap();
        let mut v = marker(s, &st.previous.unwrap(), &c, 900);
        v.name = "stage".into();
        log.push_str("the stage is not empty\n");
        b.p.write_version(&v);
    }
    for _ in 0..s.range(2, 6) {
        let known: Vec<String> = b.chain().iter().map(|v| v.name.clone()).chain(base(&b.log()?).into_iter().map(|r| r.name)).collect();
        match s.weighted(&[6, 6, 2, 1, if f == Focus::Down { 2 } else { 1 }, 1, 1]) {
            0 => {
                let t = target(s, &known);
                log.push_str(&format!("up {t:?}\n"));
                case(ctx, &b, &log);
                up(&b, t.as_deref(), f, ctx)?;
            }
            1 => {
                let t = target(s, &known);
                log.push_str(&format!("down {t:?}\n"));
                case(ctx, &b, &log);
                down(&b, t.as_deref(), f, ctx)?;
            }
            2 => {
                let n = s.range(1, 2);
                let n = many(s, n);
                extend(s, &b, n);
                log.push_str(&format!("{n} more versions\n"));
            }
            3 => {
                // the file of a version is edited after the fact
                let c = b.chain();
                let k = s.n(c.len() - 1);
                if k > 0 {
                    let mut v = c[k].clone();
                    if s.flag() {
                        v.up.push(trace(s));
                    }
                    if s.flag() {
                        v.down.insert(0, trace(s));
                    }
                    log.push_str(&format!("the file of {:?} is edited\n", v.name));
                    b.p.write_version(&v);
                }
            }
            4 => {
                // without the files
                let keep = b.w.dir.join("kept");
                std::fs::rename(&b.p.history, &keep).unwrap();
                match s.n(3) {
                    0 => put(&b.p.history.join("init.yaml"), "]"),
                    1 => std::fs::create_dir(&b.p.history).unwrap(),
                    _ => {}
                }
                let defs = b.w.dir.join("defs");
                std::fs::rename(&b.p.definitions, &defs).unwrap();
                let t = target(s, &known);
                log.push_str(&format!("down {t:?} without history files\n"));
                let r = down(&b, t.as_deref(), f, ctx);
                let _ = std::fs::remove_dir_all(&b.p.history);
                std::fs::rename(&keep, &b.p.history).unwrap();
                std::fs::rename(&defs, &b.p.definitions).unwrap();
                case(ctx, &b, &log);
                if r? > 0 {
                    ctx.label("down without files");
                }
            }
            5 => {
                // another history: the last versions are replaced by others
                let mut c = b.chain();
                let mut stage = c.pop().unwrap();
                let k = 1 + s.n(c.len());
                for v in c.drain(k..) {
                    std::fs::remove_file(b.p.history.join(format!("{}.yaml", v.name))).unwrap();
                }
                stage.previous = Some(c.last().unwrap().name.clone());
                b.p.write_version(&stage);
                let n = s.n(3);
                extend(s, &b, n);
                log.push_str("another history\n");
            }
            _ => {
                // the file of a version is kept elsewhere, and linked
                let c = b.chain();
                let v = &c[s.n(c.len() - 1)].name;
                let f = b.p.history.join(format!("{v}.yaml"));
                let to = b.w.dir.join(format!("linked {}", std::fs::read_dir(&b.w.dir).unwrap().count()));
                if !f.is_symlink() {
                    std::fs::rename(&f, &to).unwrap();
                    std::os::unix::fs::symlink(&to, &f).unwrap();
                    log.push_str(&format!("the file of {v:?} is a link\n"));
                    ctx.label("a linked version file");
                }
            }
        }
    }
    Ok(())
}

/// With versions podo makes from definitions.
fn made(s: &mut Src, ctx: &mut Ctx, f: Focus) -> Res {
    let b = bed(s);
    let o = if s.flag() { Opts::small() } else { Opts { max_tables: 3, max_schemas: 2, ..Opts::pg() } };
    let mut defs = RVersion::init_db();
    let mut states = vec![defs.clone()];
    let mut log = String::new();
    let rounds = s.range(1, 4);
    for r in 0..rounds {
        let d = edited(s, &o, &defs, &defs, &states);
        if d.schemas.keys().any(|k| b.ours(k)) {
            continue;
        }
        if settled(&d) == settled(&defs) || d.schemas.get("public").map(|x| x.rels.contains_key("journal") || x.rels.contains_key("version")).unwrap_or(true) {
            continue;
        }
        defs = d;
        if s.chance(25) {
            // by way of something else
            let src = replay(&b.p.hist("made")?, "made")?;
            let mut by = edited(s, &o, &src, &src, &states);
            if by.schemas.contains_key("public") && !by.schemas.iter().any(|(k, x)| b.ours(k) || x.rels.contains_key("journal") || x.rels.contains_key("version")) {
                repair_pair(&by, &mut defs, &o);
                std::mem::swap(&mut by, &mut defs);
                b.p.write_defs(s, &Style::any(), &defs);
                b.podo(&["stage"])?.good("stage")?;
                log.push_str(&format!("# by way of\n{}", yaml::simple(&defs)));
                ctx.label("by way of something else");
                std::mem::swap(&mut by, &mut defs);
            }
        }
        log.push_str(&format!("# definitions {r}\n{}", yaml::simple(&defs)));
        ctx.case(format!("metadata schema {:?}\n{log}", b.meta));
        b.p.write_defs(s, &Style::any(), &defs);
        b.podo(&["stage"])?.good("stage")?;
        b.podo(&["make", &format!("--version=r{r}")])?.good("make")?;
        states.push(defs.clone());
        if s.chance(40) {
            up(&b, None, f, ctx)?;
            at(&b, &states, f)?;
        }
    }
    for _ in 0..s.range(1, 4) {
        let chain = b.chain();
        let known: Vec<String> = chain[..chain.len() - 1].iter().map(|v| v.name.clone()).collect();
        let t = if s.flag() { None } else { Some(s.pick(&known).clone()) };
        log.push_str(&format!("# up or down {t:?}\n"));
        ctx.case(format!("metadata schema {:?}\n{log}", b.meta));
        if s.chance(55) {
            up(&b, t.as_deref(), f, ctx)?;
        } else {
            down(&b, t.as_deref(), f, ctx)?;
        }
        at(&b, &states, f)?;
    }
    Ok(())
}

/// The database holds what the definitions of its version say.
fn at(b: &Bed, states: &[vcore::model::Db], f: Focus) -> Res {
    if f == Focus::Log {
        return Ok(());
    }
    let rows = base(&b.log()?);
    let want = &states[rows.len() - 1];
    let got = b.look().without_log(&b.meta);
    let mut got = got.schemas;
    for n in beside(&b.meta) {
        got.schemas.remove(&n);
    }
    if b.meta != "public" {
        got.schemas.remove(&b.meta);
    }
    let (x, y) = (ddl::canonical(&settled(want)).with_sorted_columns(), ddl::canonical(&settled(&got)).with_sorted_columns());
    ensure!(x == y, "not-the-definitions", "at {:?} the database is not what the definitions say: {}", rows.last().unwrap().name, vcore::model::describe_diff(&x, &y));
    Ok(())
}
