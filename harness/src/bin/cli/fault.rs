//! C12: migrations that fail.
use crate::db::*;
use crate::files::*;
use vcore::ensure;
use vcore::gen::*;
use vcore::model::*;
use vcore::pbt::*;
use vcore::pgsrv::*;
use vcore::sqldb::Engine;
use vcore::world::*;
use vcore::yaml::{self, Style};

pub fn c12() -> Check {
    Check {
        id: "C12",
        level: "fault-injection",
        rule: "random up and down runs of several versions; one run without a fault counts the messages podo sends, then the same run meets a fault \
               (an error, a fatal error, a connection lost before or after the message takes effect, also at the commit) at chosen messages; \
               or a recorded statement itself fails, at any place of any version, or the database has drifted away; the database afterwards is \
               compared with the one before, and the run is repeated without the cause; non-trivial: the fault struck before the commit",
        assumptions: vec![
            "the harness's own server stands for PostgreSQL: a transaction takes effect at its commit or not at all",
            "a connection lost after the commit took effect is not a migration that failed",
        ],
        parts: vec![
            Part { name: "messages", quick: 700, thorough: 25000, f: messages },
            Part { name: "statements", quick: 900, thorough: 40000, f: statements },
            Part { name: "drift", quick: 200, thorough: 10000, f: drift },
        ],
        fixed: vec![],
    }
}

struct Run {
    args: Vec<String>,
    before: Engine,
}

impl Run {
    fn go(&self, b: &Bed) -> Result<Out, Fail> {
        let a: Vec<&str> = self.args.iter().map(|x| &x[..]).collect();
        let o = b.w.podo(&a);
        b.srv.settle();
        o
    }
    fn restore(&self, b: &Bed) {
        let mut st = b.srv.state();
        st.put_db("app", self.before.clone());
        st.fresh();
    }
}

/// Some history, some of it applied, and a command that has something to do.
fn scene(s: &mut Src, ctx: &mut Ctx, log: &mut String) -> Result<Option<(Bed, Run)>, Fail> {
    let b = bed(s);
    let n = length(s, 2);
    extend(s, &b, n);
    bulk(s, &b);
    scene_on(s, ctx, log, b)
}

/// How many versions; now and then more than a handful.
fn length(s: &mut Src, pct: u64) -> usize {
    if s.chance(pct) {
        s.range(5, 28)
    } else {
        s.range(1, 4)
    }
}

/// Now and then, versions of many statements each.
fn bulk(s: &mut Src, b: &Bed) {
    if !s.chance(8) {
        return;
    }
    for mut v in b.chain().into_iter().skip(1) {
        if v.name == "stage" || s.chance(20) {
            continue;
        }
        for l in [&mut v.up, &mut v.down] {
            for i in 0..s.range(10, 70) {
                l.push(format!("INSERT INTO public.journal (note) VALUES ('{i}');"));
            }
        }
        b.p.write_version(&v);
    }
}

fn scene_on(s: &mut Src, ctx: &mut Ctx, log: &mut String, b: Bed) -> Result<Option<(Bed, Run)>, Fail> {
    let chain = b.chain();
    let made = chain.len() - 1;
    let down = s.flag() && made > 1;
    // where the database is, and where the command takes it
    let (from, to) = if down {
        let f = 1 + s.n(made - 1);
        (f, s.n(f))
    } else {
        let f = s.n(made - 1);
        (f, f + 1 + s.n(made - 1 - f))
    };
    if from > 0 {
        let o = b.podo(&["up", &format!("--version={}", chain[from].name)])?;
        if !o.ok() {
            ctx.label("no scene");
            return Ok(None);
        }
    }
    let args = vec![if down { "down" } else { "up" }.to_string(), format!("--version={}", chain[to].name)];
    for v in &chain {
        log.push_str(&format!("{:?} after {:?}: up {:?} down {:?}\n", v.name, v.previous, v.up, v.down));
    }
    log.push_str(&format!("metadata schema {:?}; database at {:?}; {}\n", b.meta, chain[from].name, args.join(" ")));
    ctx.case(&*log);
    let before = b.engine();
    Ok(Some((b, Run { args, before })))
}

fn same(a: &Look, alog: &Option<Vec<LogRow>>, b: &Look, blog: &Option<Vec<LogRow>>, meta: &str) -> Option<String> {
    if let Some(d) = a.without_log(meta).diff(&b.without_log(meta)) {
        return Some(d);
    }
    if alog != blog {
        return Some(format!("version log {:?} -> {:?}", alog.as_ref().map(|v| v.iter().map(|r| r.name.clone()).collect::<Vec<_>>()), blog.as_ref().map(|v| v.iter().map(|r| r.name.clone()).collect::<Vec<_>>())));
    }
    None
}

fn untouched(r: &Run, b: &Bed, what: &str) -> Res {
    if let Some(d) = Look::of(&r.before).diff(&b.look()) {
        return fail("not-as-before", format!("{what}: the database is not as before: {d}"));
    }
    Ok(())
}

const CODES: &[&str] = &["40001", "40P01", "57014", "53100", "23505", "42501", "55P03", "XX000", "25006"];

fn messages(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut log = String::new();
    let (b, r) = match scene(s, ctx, &mut log)? {
        Some(x) => x,
        None => return Ok(()),
    };
    b.srv.state().fresh();
    let o = r.go(&b)?;
    ctx.runs += 1;
    if !o.ok() {
        ctx.label("no scene");
        return Ok(());
    }
    let files = b.p.tree();
    let (want, want_log) = (b.look(), b.log()?);
    let (steps, kinds) = {
        let st = b.srv.state();
        (st.steps, st.kinds.clone())
    };
    let commit = kinds.iter().rposition(|k| k.to_lowercase().starts_with("q commit")).unwrap_or(0);
    for _ in 0..s.range(1, 6) {
        r.restore(&b);
        let at = if s.chance(12) { commit } else { s.n(steps) };
        let fault = match s.weighted(&[4, 2, 3, 3]) {
            0 => Fault::Error(s.pick(CODES)),
            1 => Fault::Fatal("57P01"),
            2 => Fault::Drop,
            _ => Fault::DropAfter,
        };
        let what = format!("{} with {fault:?} at message {at} of {steps} ({})", r.args.join(" "), kinds.get(at).map(|x| &x[..]).unwrap_or("?"));
        ctx.case(format!("{log}{what}\n"));
        b.srv.state().fault = Some((at, fault.clone()));
        let o = r.go(&b)?;
        ctx.runs += 1;
        let fired = b.srv.state().fired;
        unchanged(&files, &b.p.tree(), &what)?;
        o.proper(&what)?;
        let (now, now_log) = (b.look(), b.log()?);
        let whole = same(&want, &want_log, &now, &now_log, &b.meta);
        if o.ok() {
            if let Some(d) = whole {
                return fail("reported-done", format!("{what}: reports success, but the database is not as a whole run leaves it: {d}"));
            }
            ctx.label(if fired { "after the work" } else { "not struck" });
            continue;
        }
        ensure!(fired, "refused", "{what}: fails without a fault: {}", o.show());
        if whole.is_none() && at >= commit {
            ctx.label("after the work");
            continue;
        }
        untouched(&r, &b, &what)?;
        ctx.nontrivial = true;
        ctx.label(match fault {
            Fault::Error(_) => "error",
            Fault::Fatal(_) => "fatal error",
            Fault::Drop => "lost before the message",
            Fault::DropAfter => "lost after the message",
        });
        if at == commit {
            ctx.label("at the commit");
        }
        // once more, from where it left off
        b.srv.state().fresh();
        let o = r.go(&b)?;
        ctx.runs += 1;
        o.good(&format!("{what}, then again without it"))?;
        if let Some(d) = same(&want, &want_log, &b.look(), &b.log()?, &b.meta) {
            return fail("not-repeatable", format!("{what}, then again without it: the database is not as a whole run leaves it: {d}"));
        }
    }
    Ok(())
}

/// A recorded statement fails.
fn statements(s: &mut Src, ctx: &mut Ctx) -> Res {
    let b = bed(s);
    let n = length(s, 10);
    extend(s, &b, n);
    bulk(s, &b);
    let chain = b.chain();
    let k = 1 + s.n(chain.len() - 2);
    let mut v = chain[k].clone();
    // whether the cause can be taken away
    let mut curable = true;
    let bad = match s.weighted(&[10, 2, 1, 1, 1]) {
        0 => "INSERT INTO public.gate (note) VALUES ('x');".to_string(),
        1 => {
            curable = false;
            s.pick(&["SELEC 1;", "INSERT INTO public.journal (note) VALUES (NULL)", "CREATE TABLE public.t (", "'", "INSERT INTO public.journal (none) VALUES ('x')", "DROP SCHEMA \"no such\"", "\u{0}"]).to_string()
        }
        2 => {
            curable = false;
            "INSERT INTO public.journal (note) VALUES ('a\u{0}b')".into()
        }
        3 => "DELETE FROM public.gate".into(),
        _ => "UPDATE public.gate SET note = 'y'".into(),
    };
    for l in [&mut v.up, &mut v.down] {
        let at = s.n(l.len());
        l.insert(at.min(l.len()), bad.clone());
    }
    // the log does not take the version itself
    let long = s.chance(8);
    if long {
        curable = false;
        v = chain[k].clone();
        let mut next = chain[k + 1].clone();
        std::fs::remove_file(b.p.history.join(format!("{}.yaml", v.name))).unwrap();
        v.name = "n".repeat(s.range(129, 200));
        next.previous = Some(v.name.clone());
        b.p.write_version(&next);
    }
    b.p.write_version(&v);
    let chain = b.chain();
    let made = chain.len() - 1;
    let mut log = String::new();
    for v in &chain {
        log.push_str(&format!("{:?} after {:?}: up {:?} down {:?}\n", v.name, v.previous, v.up, v.down));
    }
    log.push_str(&format!("metadata schema {:?}\n", b.meta));
    let down = !long && curable && s.flag();
    let gate = |b: &Bed| {
        let mut st = b.srv.state();
        run(st.db_mut("app"), "CREATE TABLE public.gate (note TEXT, n SERIAL UNIQUE)").expect("gate");
    };
    let args: Vec<String>;
    if down {
        // let it through on the way up, not on the way down
        gate(&b);
        let f = k + s.n(made - k);
        let o = b.podo(&["up", &format!("--version={}", chain[f].name)])?;
        if !o.ok() {
            ctx.label("no scene");
            return Ok(());
        }
        run(b.srv.state().db_mut("app"), "DROP TABLE public.gate").expect("gate");
        args = vec!["down".into(), format!("--version={}", chain[s.n(k)].name)];
        log.push_str(&format!("at {:?}; ", chain[f].name));
    } else {
        let f = s.n(k);
        if f > 0 && !b.podo(&["up", &format!("--version={}", chain[f].name)])?.ok() {
            ctx.label("no scene");
            return Ok(());
        }
        log.push_str(&format!("at {:?}; ", chain[f].name));
        args = vec!["up".into(), format!("--version={}", chain[k + s.n(made - k)].name)];
    }
    log.push_str(&args.join(" "));
    ctx.case(&log);
    let r = Run { args, before: b.engine() };
    b.srv.state().fresh();
    let files = b.p.tree();
    let o = r.go(&b)?;
    ctx.runs += 1;
    let what = format!("{} where {bad:?} fails", r.args.join(" "));
    o.bad(&what)?;
    untouched(&r, &b, &what)?;
    unchanged(&files, &b.p.tree(), &what)?;
    ctx.nontrivial = true;
    ctx.label(if down { "down fails" } else { "up fails" });
    if long {
        ctx.label("the log refuses");
    }
    if curable {
        gate(&b);
        let e = b.engine();
        b.srv.state().fresh();
        let o = r.go(&b)?;
        ctx.runs += 1;
        o.good(&format!("{what}, then again with the cause gone"))?;
        let log = log_of(&e, &b.meta)?.unwrap_or_else(|| vec![LogRow::of(&RVersion::init())]);
        let t = r.args[1].trim_start_matches("--version=").to_string();
        let now: Vec<String> = b.log()?.unwrap_or_default().iter().map(|r| r.name.clone()).collect();
        let want: Vec<String> = if down {
            let i = log.iter().position(|r| r.name == t).unwrap();
            log[..=i].iter().map(|r| r.name.clone()).collect()
        } else {
            let i = chain.iter().position(|v| v.name == t).unwrap();
            chain[..=i].iter().map(|v| v.name.clone()).collect()
        };
        ensure!(now == want, "not-repeatable", "{what}, then again with the cause gone: the log holds {now:?} instead of {want:?}");
        ctx.label("repeated");
    }
    Ok(())
}

/// The database is not quite what its version says.
fn drift(s: &mut Src, ctx: &mut Ctx) -> Res {
    let b = bed(s);
    let o = Opts { max_tables: 3, max_schemas: 1, ..Opts::small() };
    let mut defs = RVersion::init_db();
    let mut log = String::new();
    for r in 0..s.range(2, 3) {
        let d = edited(s, &o, &defs, &defs, &[]);
        if !d.schemas.contains_key("public") || settled(&d) == settled(&defs) || d.schemas.iter().any(|(k, x)| b.ours(k) || x.rels.contains_key("journal") || x.rels.contains_key("version")) {
            continue;
        }
        defs = d;
        log.push_str(&format!("# definitions {r}\n{}", yaml::simple(&defs)));
        b.p.write_defs(s, &Style::plain(), &defs);
        b.podo(&["stage"])?.good("stage")?;
        b.podo(&["make", &format!("--version=r{r}")])?.good("make")?;
    }
    ctx.case(&log);
    if b.chain().len() < 3 {
        return Ok(());
    }
    let (b, r) = match scene_on(s, ctx, &mut log, b)? {
        Some(x) => x,
        None => return Ok(()),
    };
    let mut e = r.before.clone();
    let clean = e.clone();
    {
        let db: &mut Db = &mut e.pg.db;
        let rels: Vec<(String, String)> = db.schemas.iter().flat_map(|(a, x)| x.rels.keys().map(move |k| (a.clone(), k.clone()))).collect();
        if !rels.is_empty() && s.chance(60) {
            let (a, k) = s.pick(&rels).clone();
            db.schemas.get_mut(&a).unwrap().rels.remove(&k);
            log.push_str(&format!("# {k:?} is gone from the database\n"));
        } else {
            // something of the name is there already
            let names: Vec<String> = b.chain().iter().flat_map(|v| v.changes.iter()).filter_map(|c| c.target().1).collect();
            if names.is_empty() {
                return Ok(());
            }
            let n = s.pick(&names).clone();
            if let Some(x) = db.schemas.get_mut("public") {
                x.rels.entry(n.clone()).or_insert(Rel::View(View { query: "SELECT 1".into() }));
            }
            log.push_str(&format!("# {n:?} is in the database already\n"));
        }
    }
    let r = Run { before: e, ..r };
    r.restore(&b);
    ctx.case(&log);
    let chain = b.chain();
    let t = r.args[1].trim_start_matches("--version=").to_string();
    let rows = log_of(&r.before, &b.meta)?.unwrap_or_else(|| vec![LogRow::of(&RVersion::init())]);
    let stmts: Vec<String> = if r.args[0] == "up" {
        let i = chain.iter().position(|v| v.name == t).unwrap();
        chain[rows.len()..=i].iter().flat_map(|v| v.up.clone()).collect()
    } else {
        let i = rows.iter().position(|v| v.name == t).unwrap();
        rows[i + 1..].iter().rev().flat_map(|v| v.down.clone()).collect()
    };
    let fails = after(&r.before, &stmts).is_err();
    let o = r.go(&b)?;
    ctx.runs += 1;
    let what = format!("{} on a database that has drifted", r.args.join(" "));
    if !fails {
        o.good(&what)?;
        ctx.label("drift does not matter");
        return Ok(());
    }
    o.bad(&what)?;
    untouched(&r, &b, &what)?;
    ctx.nontrivial = true;
    ctx.label("drift");
    b.srv.state().put_db("app", clean);
    let o = r.go(&b)?;
    ctx.runs += 1;
    o.good(&format!("{what}, then on one that has not"))
}
