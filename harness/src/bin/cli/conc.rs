//! C24: several commands at one database at the same time.
use crate::db::*;
use crate::files::*;
use vcore::ensure;
use vcore::gen::Opts;
use vcore::pbt::*;
use vcore::pgsrv::*;
use vcore::sqldb::Engine;
use vcore::world::*;
use vcore::yaml::{self, Style};

pub fn c24() -> Check {
    Check {
        id: "C24",
        level: "exploration",
        rule: "two or three podo processes started on one database, whose messages a model of the server handles one at a time in a generated order, \
               with transactions that see what others commit as PostgreSQL's do; migrations: what is in the database and in its log at the end is \
               compared with what those that succeeded make of it one after another, in every order; clone: its file is compared with what it \
               writes before and after the migration it ran beside; non-trivial: a migration with something to do ran beside another command",
        assumptions: vec!["a write that must wait for another transaction in PostgreSQL is tried again when that one is committed", "every process works in one order of messages"],
        parts: vec![
            Part { name: "migrations", quick: 700, thorough: 30000, f: migrations },
            Part { name: "clone", quick: 250, thorough: 12000, f: clone },
        ],
        fixed: vec![],
    }
}

struct Party {
    args: Vec<String>,
    chain: Vec<RVersion>,
}

/// The command on its own.
fn alone(p: &Party, e: &Engine, rows: &[LogRow]) -> Option<(Engine, Vec<LogRow>)> {
    let target = p.args.iter().find_map(|a| a.strip_prefix("--version="));
    let last = rows.len() - 1;
    match &p.args[0][..] {
        "up" => {
            let made = &p.chain[..p.chain.len() - 1];
            let from = made.iter().position(|v| v.name == rows[last].name)?;
            let to = match target {
                Some(t) => made.iter().position(|v| v.name == t)?,
                None => made.len() - 1,
            };
            if to < from {
                return None;
            }
            let todo = &made[from + 1..=to];
            let e = after(e, &todo.iter().flat_map(|v| v.up.clone()).collect::<Vec<_>>()).ok()?;
            Some((e, rows.iter().cloned().chain(todo.iter().map(LogRow::of)).collect()))
        }
        "down" => {
            let to = match target {
                Some(t) => rows.iter().position(|v| v.name == t)?,
                None => last.saturating_sub(1),
            };
            let e = after(e, &rows[to + 1..].iter().rev().flat_map(|v| v.down.clone()).collect::<Vec<_>>()).ok()?;
            Some((e, rows[..=to].to_vec()))
        }
        _ => Some((e.clone(), rows.to_vec())),
    }
}

fn orders(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut v = vec![];
    for o in orders(n - 1) {
        for i in 0..=o.len() {
            let mut x = o.clone();
            x.insert(i, n - 1);
            v.push(x);
        }
    }
    v
}

/// Who goes next, as often as it is asked: mostly for a while the same.
fn schedule(s: &mut Src) -> Vec<u64> {
    let mut v = vec![];
    for _ in 0..s.range(1, 12) {
        let who = s.below(3);
        let long = if s.flag() { s.range(1, 3) } else { s.range(1, 25) };
        v.extend(std::iter::repeat(who).take(long));
    }
    v
}

fn together(b: &Bed, s: &mut Src, all: &[Vec<String>]) -> Result<Option<(Vec<Out>, Sched)>, Fail> {
    b.srv.settle();
    {
        let order = schedule(s);
        let mut st = b.srv.state();
        st.fresh();
        st.sched = Some(Sched::new(all.len(), order));
    }
    let started: Vec<Started> = all
        .iter()
        .map(|a| {
            let a: Vec<&str> = a.iter().map(|x| &x[..]).collect();
            b.w.start(&a, &How::default())
        })
        .collect();
    let srv = &b.srv;
    let outs: Vec<Result<Out, Fail>> = std::thread::scope(|sc| {
        let hs: Vec<_> = started
            .into_iter()
            .enumerate()
            .map(|(i, p)| {
                sc.spawn(move || {
                    let r = p.finish();
                    srv.gone(i);
                    r
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("thread")).collect()
    });
    b.srv.settle();
    let q = match b.srv.state().sched.take() {
        Some(q) => q,
        // someone kept the others waiting for too long
        None => return Ok(None),
    };
    Ok(Some((outs.into_iter().collect::<Result<_, _>>()?, q)))
}

fn short(taken: &[usize]) -> String {
    taken.iter().map(|t| char::from(b'a' + *t as u8)).collect()
}

fn migrations(s: &mut Src, ctx: &mut Ctx) -> Res {
    let b = bed(s);
    let n = 1 + s.n(4);
    extend(s, &b, n);
    let mut chain = b.chain();
    for (i, v) in chain.iter_mut().enumerate().filter(|(i, _)| (1..=n).contains(i)) {
        // status reads these
        v.changes = vec![crate::db::table_change(i)];
        b.p.write_version(v);
    }
    let mut log = format!("metadata schema {:?}\n", b.meta);
    for v in &chain {
        log.push_str(&format!("{:?}: up {:?} down {:?}\n", v.name, v.up, v.down));
    }
    let parties = if s.chance(75) { 2 } else { 3 };
    // one profile each, by which the server tells them apart; a history may be an older one
    let mut cfg = vec![("database".to_string(), b.srv.url("app"), "database/history".to_string())];
    let mut chains = vec![];
    for i in 0..parties {
        let mut c = chain.clone();
        let mut dir = "database/history".to_string();
        if s.chance(20) && n > 1 {
            let k = 1 + s.n(n);
            let mut st = c.pop().unwrap();
            c.truncate(k + 1);
            st.previous = Some(c[k].name.clone());
            c.push(st);
            dir = format!("history{i}");
            let p = Proj { root: b.p.root.clone(), history: b.p.root.join(&dir), definitions: b.p.definitions.clone() };
            std::fs::create_dir_all(&p.history).unwrap();
            crate::hist::write(&p, &c);
            log.push_str(&format!("{}: history to {:?} only\n", char::from(b'a' + i as u8), c[k].name));
        }
        cfg.push((format!("p{i}"), b.srv.url_as(&format!("u{i}"), "app"), dir));
        chains.push(c);
    }
    let view: Vec<(&str, &str, &str, &str, &str)> = cfg.iter().map(|c| (&c.0[..], &c.1[..], &c.2[..], "database/definitions", &b.meta[..])).collect();
    put(&b.p.root.join(".podo.yaml"), config(&view));
    // where the database is
    let at = s.n(n + 1);
    if at > 0 || s.chance(30) {
        let t = format!("--version={}", chain[at].name);
        let o = b.podo(&["up", &t])?;
        if !o.ok() {
            return Ok(());
        }
        log.push_str(&format!("database at {:?}\n", chain[at].name));
    }
    for round in 0..s.range(1, 2) {
        let before = b.engine();
        let had = log_of(&before, &b.meta)?;
        let rows = had.clone().unwrap_or_else(|| vec![LogRow::of(&RVersion::init())]);
        let all: Vec<Party> = (0..parties)
            .map(|i| {
                let c = *s.pick(&["up", "up", "up", "down", "down", "status"]);
                let mut args = vec![c.to_string(), format!("--profile=p{i}")];
                if c != "status" && s.chance(30) {
                    let v = &chain[s.n(chain.len() - 1)].name;
                    args.push(format!("--version={v}"));
                }
                Party { args, chain: chains[i].clone() }
            })
            .collect();
        for p in &all {
            log.push_str(&format!("at once: {}\n", p.args.join(" ")));
        }
        ctx.case(&log);
        let files = b.p.tree();
        let Some((outs, q)) = together(&b, s, &all.iter().map(|p| p.args.clone()).collect::<Vec<_>>())? else {
            ctx.label("given up");
            return Ok(());
        };
        ctx.runs += parties as u64;
        log.push_str(&format!("in the order {}\n", short(&q.taken)));
        ctx.case(&log);
        let what = format!("{} at once", all.iter().map(|p| p.args.join(" ")).collect::<Vec<_>>().join(", "));
        unchanged(&files, &b.p.tree(), &what)?;
        for o in &outs {
            o.proper(&what)?;
        }
        let now = b.engine();
        let mut won: Vec<usize> = (0..parties).filter(|i| outs[*i].ok()).collect();
        let after_rows = log_of(&now, &b.meta)?;
        let look = Look::of(&now).without_log(&b.meta);
        let mut why = vec![];
        // a down that found nothing to take down may have looked at two moments
        let idle: Vec<usize> = won.iter().copied().filter(|i| all[*i].args[0] == "down" && !q.wrote.contains(i)).collect();
        won.retain(|i| !idle.contains(i));
        let fits = orders(won.len()).into_iter().any(|o| {
            let mut st = (before.clone(), rows.clone());
            for i in &o {
                match alone(&all[won[*i]], &st.0, &st.1) {
                    Some(x) => st = x,
                    None => {
                        why.push(format!("{:?} cannot come then", all[won[*i]].args));
                        return false;
                    }
                }
            }
            let names = |v: &[LogRow]| v.iter().map(|r| r.name.clone()).collect::<Vec<_>>();
            let got = after_rows.clone().unwrap_or_else(|| vec![LogRow::of(&RVersion::init())]);
            if got != st.1 {
                why.push(format!("the log would hold {:?}, it holds {:?}", names(&st.1), names(&got)));
                return false;
            }
            match Look::of(&st.0).without_log(&b.meta).diff(&look) {
                Some(d) => {
                    why.push(d);
                    false
                }
                None => true,
            }
        });
        let said: Vec<String> = outs.iter().map(|o| o.show()).collect();
        ensure!(fits, "mixed", "{what} ({}): the database is not as after those that succeeded, one after another: {why:?}; {said:?}", short(&q.taken));
        let works = all.iter().filter(|p| matches!(alone(p, &before, &rows), Some((_, r)) if r != rows)).count();
        if won.is_empty() && idle.is_empty() && works > 0 {
            ensure!(all.iter().any(|p| alone(p, &before, &rows).is_none()), "none", "{what} ({}): each would do on its own, together none does: {said:?}", short(&q.taken));
        }
        ctx.nontrivial |= works > 0;
        ctx.label(format!("{} of {parties} succeed", won.len()));
        if works > 1 {
            ctx.label("several with something to do");
        }
        if had.is_none() && works > 1 {
            ctx.label("first migrations");
        }
        if round > 0 {
            ctx.label("again");
        }
    }
    // none of them stands in the way of the next
    let before = b.engine();
    let rows = log_of(&before, &b.meta)?.unwrap_or_else(|| vec![LogRow::of(&RVersion::init())]);
    if let Some((e, r)) = alone(&Party { args: vec!["up".into()], chain }, &before, &rows) {
        let o = b.podo(&["up"])?;
        o.good("up afterwards")?;
        let now = b.engine();
        if r != rows {
            ensure!(log_of(&now, &b.meta)? == Some(r), "log-afterwards", "up afterwards: the log holds {:?}", log_of(&now, &b.meta)?);
        }
        if let Some(d) = Look::of(&e).without_log(&b.meta).diff(&Look::of(&now).without_log(&b.meta)) {
            return fail("effect-afterwards", format!("up afterwards: {d}"));
        }
    }
    Ok(())
}

fn lines(t: &str) -> Vec<String> {
    let mut v: Vec<String> = t.lines().map(|l| l.to_string()).collect();
    v.sort();
    v
}

/// A clone beside a migration shows the database before or after it.
fn clone(s: &mut Src, ctx: &mut Ctx) -> Res {
    let b = bed(s);
    let o = Opts { max_tables: 3, max_schemas: 1, ..Opts::pg() };
    let mut defs = RVersion::init_db();
    let mut log = String::new();
    let mut states = vec![];
    for r in 0..s.range(1, 2) {
        let mut d = edited(s, &o, &defs, &defs, &states);
        for _ in 0..4 {
            if settled(&d) != settled(&defs) {
                break;
            }
            d = edited(s, &o, &defs, &defs, &states);
        }
        if d.schemas.keys().any(|k| b.ours(k)) || d.schemas.get("public").map(|x| x.rels.contains_key("journal") || x.rels.contains_key("version")).unwrap_or(true) {
            continue;
        }
        states.push(std::mem::replace(&mut defs, d));
        log.push_str(&format!("# definitions {r}\n{}", yaml::simple(&defs)));
        ctx.case(&log);
        b.p.write_defs(s, &Style::any(), &defs);
        b.podo(&["stage"])?.good("stage")?;
        b.podo(&["make", &format!("--version=r{r}")])?.good("make")?;
    }
    let chain = b.chain();
    let made = &chain[..chain.len() - 1];
    let at = s.n(made.len());
    if at > 0 && !b.podo(&["up", &format!("--version={}", made[at].name)])?.ok() {
        return Ok(());
    }
    let to = s.n(made.len());
    let (url0, url1) = (b.srv.url_as("u0", "app"), b.srv.url_as("u1", "app"));
    put(
        &b.p.root.join(".podo.yaml"),
        config(&[
            ("database", &b.srv.url("app"), "database/history", "database/definitions", &b.meta),
            ("p0", &url0, "database/history", "clone", &b.meta),
            ("p1", &url1, "database/history", "database/definitions", &b.meta),
            ("still", &b.srv.url("app"), "database/history", "still", &b.meta),
        ]),
    );
    for d in ["clone", "still"] {
        std::fs::create_dir_all(b.p.root.join(d)).unwrap();
    }
    let still = |what: &str| -> Result<Vec<String>, Fail> {
        b.podo(&["clone", "--profile=still"])?.good(what)?;
        Ok(lines(&std::fs::read_to_string(b.p.root.join("still/public.yaml")).unwrap()))
    };
    let first = still("clone before")?;
    let args = vec![if to > at { "up".to_string() } else { "down".to_string() }, "--profile=p1".into(), format!("--version={}", made[to].name)];
    log.push_str(&format!("# at {:?}, clone and at the same time {}\n", made[at].name, args.join(" ")));
    ctx.case(&log);
    let Some((outs, q)) = together(&b, s, &[vec!["clone".to_string(), "--profile=p0".into()], args.clone()])? else {
        ctx.label("given up");
        return Ok(());
    };
    ctx.runs += 2;
    log.push_str(&format!("# in the order {}\n", short(&q.taken)));
    ctx.case(&log);
    let what = format!("clone beside {} ({})", args.join(" "), short(&q.taken));
    let then = still("clone after")?;
    for o in &outs {
        o.proper(&what)?;
    }
    if !outs[0].ok() {
        ctx.label("clone gave up");
        ensure!(!b.p.root.join("clone/public.yaml").exists(), "left", "{what}: it fails, and yet writes: {}", outs[0].show());
        return Ok(());
    }
    let got = lines(&std::fs::read_to_string(b.p.root.join("clone/public.yaml")).unwrap_or_default());
    ensure!(got == first || got == then, "mixed", "{what}: the definitions are those of neither: {got:?}, before {first:?}, after {then:?}");
    if first != then {
        ctx.nontrivial = true;
        ctx.label(if got == first { "as before" } else { "as after" });
    }
    Ok(())
}
