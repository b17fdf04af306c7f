//! C20: what status reports.
use crate::db::*;
use crate::files::*;
use vcore::ensure;
use vcore::gen::*;
use vcore::pbt::*;
use vcore::pgsrv::*;
use vcore::world::*;
use vcore::yaml::{self, Style};

pub fn c20() -> Check {
    Check {
        id: "C20",
        level: "exploration",
        rule: "workspaces with random definitions (also a history made before, gone up and down along by a clock that may go back), some of it staged, some made, some only edited; the database new, at any version, without a log, \
               failing at any message, refusing or unreachable; the sections of what status prints are compared with the stage file, with what \
               the stage command then adds, and with the database's log; non-trivial: something was staged or not yet staged",
        assumptions: vec!["a section begins with a line that names it as staged or not staged"],
        parts: vec![
            Part { name: "workspace", quick: 1000, thorough: 30000, f: workspace },
            Part { name: "versions", quick: 500, thorough: 20000, f: versions },
        ],
        fixed: vec![],
    }
}

fn squeeze(t: &str) -> String {
    t.split_whitespace().collect::<Vec<_>>().join(" ")
}
fn no_colours(t: &str) -> String {
    let mut o = String::new();
    let mut it = t.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\u{1b}' && it.peek() == Some(&'[') {
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            o.push(c);
        }
    }
    o
}

struct Sections {
    head: String,
    staged: Option<String>,
    unstaged: Option<String>,
}

fn sections(out: &str) -> Sections {
    let mut x = Sections { head: String::new(), staged: None, unstaged: None };
    let mut at = 0;
    for l in no_colours(out).split('\n') {
        let low = l.to_lowercase();
        let heading = !l.starts_with(char::is_whitespace) && l.trim_end().ends_with(':') && low.contains("staged");
        if heading {
            at = if low.contains("not staged") || low.contains("unstaged") { 2 } else { 1 };
            let part = if at == 1 { &mut x.staged } else { &mut x.unstaged };
            part.get_or_insert(String::new());
            continue;
        }
        let part = match at {
            0 => &mut x.head,
            1 => x.staged.as_mut().unwrap(),
            _ => x.unstaged.as_mut().unwrap(),
        };
        part.push_str(l);
        part.push('\n');
    }
    x
}

fn list(v: &[String]) -> String {
    squeeze(&v.join(" "))
}

fn workspace(s: &mut Src, ctx: &mut Ctx) -> Res {
    let b = bed(s);
    let o = if s.flag() { Opts::small() } else { Opts { max_tables: 3, max_schemas: 2, ..Opts::pg() } };
    let mut defs = RVersion::init_db();
    let mut log = format!("metadata schema {:?}\n", b.meta);
    let mut r = 0;
    let mut last = 9;
    let mut olds = vec![];
    for i in 0..s.range(2, 9) {
        let before = b.p.hist("before")?;
        let src = replay(&before, "before")?;
        // often the next step of a usual day
        let step = match (i, last) {
            (0, _) => 0,
            (_, 1) if s.chance(40) => 0,
            (_, k) if k < 3 && s.chance(60) => k + 1,
            _ => s.weighted(&[10, 4, 2, 3]),
        };
        last = step;
        match step {
            0 => {
                let mut d = edited(s, &o, &src, &defs, &olds);
                for _ in 0..4 {
                    if settled(&d) != settled(&defs) {
                        break;
                    }
                    d = edited(s, &o, &src, &defs, &olds);
                }
                if d.schemas.iter().any(|(k, x)| b.ours(k) || x.rels.contains_key("journal") || x.rels.contains_key("version")) {
                    continue;
                }
                olds.push(std::mem::replace(&mut defs, d));
                b.p.write_defs(s, &Style::any(), &defs);
                log.push_str(&format!("# definitions\n{}", yaml::simple(&defs)));
            }
            1 => {
                log.push_str("# stage\n");
                b.podo(&["stage"])?.good("stage")?;
            }
            2 => {
                log.push_str(&format!("# make vq{r}x\n"));
                b.podo(&["make", &format!("--version=vq{r}x")])?.good("make")?;
                r += 1;
            }
            _ => {
                log.push_str("# up\n");
                b.podo(&["up"])?;
            }
        }
        ctx.case(&log);
        if s.chance(60) {
            report(s, &b, &log, ctx)?;
        }
    }
    report(s, &b, &log, ctx)?;
    // what staging would add is what was reported as not staged
    Ok(())
}

/// A history made before, and a database that went up and down along it, by a clock that need not go forward.
fn versions(s: &mut Src, ctx: &mut Ctx) -> Res {
    let b = bed(s);
    b.srv.state().ticks = (0..s.range(1, 5)).map(|_| *s.pick(&[1_500_000i64, 0, 86_400_000_000, -3_600_000_000, -500])).collect();
    let mut vs = crate::hist::chain(s);
    for v in vs.iter_mut() {
        if v.name == "a b" {
            v.name = "a-b".into();
        }
        if v.previous.as_deref() == Some("a b") {
            v.previous = Some("a-b".into());
        }
    }
    crate::hist::write(&b.p, &vs);
    let mut log = format!("metadata schema {:?}, history {:?}\n", b.meta, vs.iter().map(|v| &v.name).collect::<Vec<_>>());
    for _ in 0..s.range(1, 6) {
        let c = *s.pick(&["up", "up", "down"]);
        let mut args = vec![c.to_string()];
        if s.chance(60) {
            args.push(format!("--version={}", vs[s.n(vs.len() - 1)].name));
        }
        log.push_str(&format!("# {}\n", args.join(" ")));
        ctx.case(&log);
        let a: Vec<&str> = args.iter().map(|x| &x[..]).collect();
        b.podo(&a)?.proper(c)?;
        if s.chance(40) {
            report(s, &b, &log, ctx)?;
        }
    }
    report(s, &b, &log, ctx)
}

fn report(s: &mut Src, b: &Bed, log: &str, ctx: &mut Ctx) -> Res {
    let rows = b.log()?;
    let mut reachable = true;
    let how = match s.weighted(&[6, 1, 1, 1, 2]) {
        0 => "",
        1 => {
            b.srv.state().refuse = Some(s.pick(&["57P03", "53300", "28000"]));
            reachable = false;
            "a server that refuses"
        }
        2 => {
            let e = b.engine();
            b.srv.state().dbs.remove("app");
            b.srv.state().put_db("elsewhere", e);
            reachable = false;
            "no such database"
        }
        3 => {
            put(&b.p.root.join(".podo.yaml"), config(&[("database", NOWHERE, "database/history", "database/definitions", &b.meta)]));
            reachable = false;
            "no server"
        }
        _ => {
            reachable = false;
            "a failing server"
        }
    };
    let before = b.srv.state().dbs.values().map(|d| Look::of(&d.engine)).collect::<Vec<_>>();
    let files = b.p.tree();
    ctx.case(format!("{log}# status with {how}\n"));
    b.srv.state().fresh();
    if how == "a failing server" {
        let f = match s.n(3) {
            0 => Fault::Error("42501"),
            1 => Fault::Fatal("57P01"),
            _ => Fault::Drop,
        };
        let at = s.n(6);
        b.srv.state().fault = Some((at, f));
    }
    let o = b.w.podo(&["status"])?;
    b.srv.settle();
    ctx.runs += 1;
    let fired = b.srv.state().fired;
    let what = format!("status with {how}");
    unchanged(&files, &b.p.tree(), &what)?;
    let now = b.srv.state().dbs.values().map(|d| Look::of(&d.engine)).collect::<Vec<_>>();
    for (x, y) in before.iter().zip(&now) {
        if let Some(d) = x.diff(y) {
            return fail("database-changed", format!("{what}: the database is not as before: {d}"));
        }
    }
    {
        let mut st = b.srv.state();
        st.refuse = None;
        st.fault = None;
        if let Some(e) = st.dbs.remove("elsewhere") {
            st.put_db("app", e.engine);
        }
    }
    put(&b.p.root.join(".podo.yaml"), config(&[("database", &b.srv.url("app"), "database/history", "database/definitions", &b.meta)]));
    o.good(&what)?;
    let x = sections(&o.out);
    let h = b.p.hist("status")?;
    // what is not staged is what staging adds now
    let keep = b.p.tree();
    b.podo(&["stage"])?.good("stage")?;
    let h2 = b.p.hist("stage")?;
    crate::defs::restore(&b.p.root, &keep);
    let staged = h.stage().up.clone();
    let unstaged = h2.stage().up[staged.len()..].to_vec();
    let (a, d) = (x.staged.unwrap_or_default(), x.unstaged.unwrap_or_default());
    let mut rest = squeeze(&a);
    let mut rest2 = squeeze(&d);
    if staged.is_empty() && unstaged.is_empty() {
        ensure!(no_colours(&o.out).to_lowercase().contains("no change"), "says-nothing", "{what}: there is nothing to stage, and it does not say so: {:?}", o.out);
        rest = rest.replace("No changes.", "");
        rest2 = rest2.replace("No changes.", "");
    } else {
        ensure!(!squeeze(&no_colours(&o.out)).ends_with("No changes."), "says-none", "{what}: says there are no changes: {:?}", o.out);
        ctx.nontrivial = true;
    }
    ensure!(rest.trim() == list(&staged), "staged", "{what}: staged is {staged:?}, it shows {a:?}");
    // in whichever order: what can be done first is not settled
    let mut parts: Vec<String> = unstaged.iter().map(|x| squeeze(x)).collect();
    parts.sort_by_key(|x| std::cmp::Reverse(x.len()));
    let mut missing = false;
    for p in parts {
        match rest2.find(&p) {
            Some(i) => rest2.replace_range(i..i + p.len(), ""),
            None => missing = true,
        }
    }
    ensure!(!missing && rest2.trim().is_empty(), "unstaged", "{what}: not staged is {unstaged:?}, it shows {d:?}");
    ctx.label(match (staged.is_empty(), unstaged.is_empty()) {
        (true, true) => "nothing",
        (false, true) => "staged",
        (true, false) => "not staged",
        _ => "staged and not staged",
    });
    let shown = |n: &str| x.head.split(|c: char| c.is_whitespace() || c == ':' || c == '"').any(|t| t.trim_end_matches('.') == n);
    if reachable || (how == "a failing server" && !fired) {
        match &rows {
            Some(r) => {
                let cur = &r.last().unwrap().name;
                ensure!(shown(cur), "version", "{what}: the database is at {cur:?}; it shows {:?}", x.head);
                for v in h.versions.iter().filter(|v| v.name != *cur && v.name != "stage" && v.name != "init") {
                    ensure!(!shown(&v.name), "version", "{what}: the database is at {cur:?}; it shows {:?}", x.head);
                }
                ctx.label("at a version");
            }
            None => ctx.label("no version log"),
        }
    } else {
        // the connection may also have been lost after the answer
        if how != "a failing server" {
            for v in h.made().iter().skip(1) {
                ensure!(!shown(&v.name), "version", "{what}: it shows {:?}", x.head);
            }
        }
        ctx.label("no answer");
    }
    Ok(())
}
