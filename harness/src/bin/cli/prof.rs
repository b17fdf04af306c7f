//! C18 on the side of the database: which server, database, user and metadata schema a command uses.
use crate::db::*;
use crate::proj::expand;
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::path::PathBuf;
use vcore::ensure;
use vcore::pbt::*;
use vcore::pgsrv::*;
use vcore::sqldb::*;
use vcore::world::*;

const DBS: &[&str] = &["app", "app2", "App", "a b", "é", "db$-A", "x$y", "postgres", "${A-b}", "template1", "100%", "it's", "a=b", "v1"];
const USERS: &[&str] = &["postgres", "u", "a b", "é", "user$", "o'neil", "A", "v1", "u+1", "root"];
const PWS: &[&str] = &["secret", "p$-w", "a b", "é", "it's", "v1", "p@ss/wo:rd", "$", "100%", "x\\y"];

struct Prof {
    name: String,
    user: String,
    pw: Option<String>,
    db: String,
    meta: String,
    hist: PathBuf,
    defs: PathBuf,
    tag: String,
}

struct Writer<'a> {
    /// what all of it stands for
    plain: String,
    env: &'a mut Vec<(String, OsString)>,
    k: usize,
}

impl Writer<'_> {
    /// The text as it is, or a reference to a variable that holds it (or a piece of it).
    fn put(&mut self, s: &mut Src, out: &mut String, text: &str, braces: bool) {
        self.plain.push_str(text);
        match s.weighted(&[5, 3, 2]) {
            0 => out.push_str(text),
            1 => {
                let n = self.var(text);
                out.push_str(&self.refer(s, &n, braces));
            }
            _ => {
                let c: Vec<char> = text.chars().collect();
                let at = s.n(c.len() + 1);
                let a: String = c[..at].iter().collect();
                let b: String = c[at..].iter().collect();
                if s.flag() {
                    out.push_str(&a);
                    let n = self.var(&b);
                    out.push_str(&self.refer(s, &n, braces));
                } else {
                    let n = self.var(&a);
                    out.push_str(&self.refer(s, &n, true));
                    out.push_str(&b);
                }
            }
        }
    }
    fn lit(&mut self, out: &mut String, t: &str) {
        self.plain.push_str(t);
        out.push_str(t);
    }
    fn var(&mut self, v: &str) -> String {
        self.k += 1;
        let names = ["DB_", "PG", "x", "_", "Z9_", "É"];
        let n = format!("{}{}", names[self.k % names.len()], self.k);
        self.env.push((n.clone(), v.into()));
        n
    }
    fn refer(&mut self, s: &mut Src, n: &str, braces: bool) -> String {
        if braces || s.flag() {
            format!("${{{n}}}")
        } else {
            format!("${n}")
        }
    }
}

fn percent(t: &str) -> String {
    let mut o = String::new();
    for b in t.bytes() {
        if b.is_ascii_alphanumeric() || b"$-_.{}!+".contains(&b) {
            o.push(b as char);
        } else {
            o.push_str(&format!("%{b:02X}"));
        }
    }
    o
}
fn quoted(t: &str) -> String {
    format!("'{}'", t.replace('\\', "\\\\").replace('\'', "\\'"))
}

/// An address in one of the forms there are, with references in it.
fn address(s: &mut Src, w: &mut Writer, port: u16, user: &str, pw: Option<&str>, db: &str) -> String {
    let port = port.to_string();
    let mut o = String::new();
    if s.flag() {
        let scheme = *s.pick(&["postgresql", "postgres"]);
        w.put(s, &mut o, scheme, true);
        w.lit(&mut o, "://");
        w.put(s, &mut o, &percent(user), true);
        if let Some(p) = pw {
            w.lit(&mut o, &':'.to_string());
            w.put(s, &mut o, &percent(p), true);
        }
        w.lit(&mut o, &'@'.to_string());
        w.put(s, &mut o, "127.0.0.1", true);
        w.lit(&mut o, &':'.to_string());
        w.put(s, &mut o, &port, false);
        w.lit(&mut o, &'/'.to_string());
        w.put(s, &mut o, &percent(db), false);
        if s.chance(15) {
            w.lit(&mut o, "?connect_timeout=20");
        }
    } else {
        let mut parts = vec![("host", "127.0.0.1".to_string()), ("port", port), ("user", quoted(user)), ("dbname", quoted(db))];
        if let Some(p) = pw {
            parts.push(("password", quoted(p)));
        }
        s.shuffle(&mut parts);
        for (i, (k, v)) in parts.iter().enumerate() {
            if i > 0 {
                w.lit(&mut o, &' '.to_string());
            }
            if s.chance(20) {
                w.put(s, &mut o, &format!("{k}={v}"), false);
            } else {
                w.lit(&mut o, k);
                w.lit(&mut o, &'='.to_string());
                w.put(s, &mut o, v, false);
            }
        }
    }
    if s.chance(25) || expand(&o, w.env) != w.plain {
        // all of it from the environment; what a value holds is not looked at again
        let whole = w.plain.clone();
        let n = w.var(&whole);
        o = w.refer(s, &n, false);
    }
    o
}

pub fn databases(s: &mut Src, ctx: &mut Ctx) -> Res {
    let w = World::new(s);
    let root = w.root();
    let srv = Server::new();
    let second = Server::new();
    let mut env: Vec<(String, OsString)> = vec![("A".into(), "other".into()), ("b".into(), "c".into()), ("y".into(), "z".into()), ("VAR".into(), "$A".into())];
    let with_pw = s.chance(30);
    let mut pool: Vec<&str> = DBS.to_vec();
    s.shuffle(&mut pool);
    pool.truncate(s.range(2, 4));
    let servers = [&srv, &second];
    for (k, v) in servers.iter().enumerate() {
        let mut st = v.state();
        st.ask = with_pw;
        for (i, d) in pool.iter().enumerate() {
            let mut e = engine(s);
            run(&mut e, &format!("CREATE TABLE public.only_{k}_{i} (id integer)")).unwrap();
            st.put_db(d, e);
        }
        // where one gets by taking the text too literally, or not literally enough
        for x in ["other", "dbother", "xz", "db$-other", "", "A"] {
            if !st.dbs.contains_key(x) {
                st.put_db(x, engine(s));
            }
        }
    }
    let mut log = String::new();
    let mut projects: Vec<(PathBuf, Vec<Prof>)> = vec![];
    let mut n = 0;
    let mut port_of: BTreeMap<String, usize> = BTreeMap::new();
    for pl in ["", "in", "in/ner"] {
        let dir = if pl.is_empty() { root.clone() } else { root.join(pl) };
        std::fs::create_dir_all(&dir).unwrap();
        if !pl.is_empty() && !s.chance(35) {
            continue;
        }
        let mut profs: Vec<Prof> = vec![];
        let mut cfg: Vec<[String; 5]> = vec![];
        for pn in ["database", "prod", "a b", "Database"] {
            if !(pn == "database" && s.chance(80) || s.chance(45)) {
                continue;
            }
            n += 1;
            let at = s.n(2);
            let db = s.pick(&pool).to_string();
            let user = s.pick(USERS).to_string();
            let pw = if with_pw { Some(s.pick(PWS).to_string()) } else { None };
            let mut meta = s.pick(METAS).to_string();
            if s.chance(15) {
                meta = s.pick(&["$A", "${VAR}", "m$A", "meta$"]).to_string();
            }
            let url = address(s, &mut Writer { plain: String::new(), env: &mut env, k: n * 100 }, servers[at].port, &user, pw.as_deref(), &db);
            // profiles may share their database
            let (at, db, user, pw, url) = match (profs.last(), cfg.last()) {
                (Some(p), Some(c)) if s.chance(25) => (port_of[&format!("{} {}", dir.display(), p.name)], p.db.clone(), p.user.clone(), p.pw.clone(), c[1].clone()),
                _ => (at, db, user, pw, url),
            };
            // profiles may share their files
            let (ht, dt, tag) = match profs.last() {
                Some(p) if s.chance(30) => (p.hist.to_str().unwrap().to_string(), p.defs.to_str().unwrap().to_string(), p.tag.clone()),
                _ => (format!("h{n}"), format!("d{n}"), format!("p{n}")),
            };
            let (hist, defs) = (dir.join(&ht), dir.join(&dt));
            cfg.push([pn.into(), url, ht, dt, meta.clone()]);
            let p = Prof { name: pn.into(), user, pw, db, meta, hist, defs, tag };
            if !p.hist.is_dir() {
                std::fs::create_dir_all(&p.hist).unwrap();
                std::fs::create_dir_all(&p.defs).unwrap();
                let pj = Proj { root: root.clone(), history: p.hist.clone(), definitions: p.defs.clone() };
                pj.write_version(&RVersion::init());
                let mut prev = "init".to_string();
                for i in 0..s.range(1, 3) {
                    // the names are the same in every history, what they do is not
                    let v = RVersion {
                        name: format!("v{i}"),
                        previous: Some(prev.clone()),
                        changes: vec![],
                        up: vec![format!("INSERT INTO public.journal (note) VALUES ('{} up {i}')", p.tag)],
                        down: vec![format!("INSERT INTO public.journal (note) VALUES ('{} down {i}')", p.tag)],
                    };
                    prev = v.name.clone();
                    pj.write_version(&v);
                }
                pj.write_version(&RVersion::stage(&prev));
                put(&p.defs.join("public.yaml"), format!("schema public:\n  table of_{}:\n    column id: integer\n", p.tag));
            }
            port_of.insert(format!("{} {}", dir.display(), pn), at);
            profs.push(p);
        }
        s.shuffle(&mut cfg);
        let view: Vec<(&str, &str, &str, &str, &str)> = cfg.iter().map(|c| (&c[0][..], &c[1][..], &c[2][..], &c[3][..], &c[4][..])).collect();
        put(&dir.join(".podo.yaml"), config(&view));
        log.push_str(&format!("# {pl:?}\n{}", config(&view)));
        projects.push((dir, profs));
    }
    let froms = ["", "in", "in/ner", "in/deep/er", "side"];
    for _ in 0..s.range(1, 5) {
        let f = *s.pick(&froms);
        let cwd = if f.is_empty() { root.clone() } else { root.join(f) };
        std::fs::create_dir_all(&cwd).unwrap();
        let (pdir, profs) = projects.iter().filter(|(d, _)| cwd.starts_with(d)).max_by_key(|(d, _)| d.as_os_str().len()).unwrap();
        let pn = match s.n(8) {
            0 => s.pick(&["nope", "", "data", "Prod", "database "]).to_string(),
            1 => "database".into(),
            _ if profs.is_empty() => "database".into(),
            _ => s.pick(profs).name.clone(),
        };
        let cmd = *s.pick(&["up", "up", "up", "down", "status", "clone"]);
        let mut args = vec![cmd.to_string()];
        if pn != "database" || s.flag() {
            args.push(format!("--profile={pn}"));
        }
        let mut to = None;
        if matches!(cmd, "up" | "down") && s.chance(25) {
            to = Some(s.pick(&["init", "v0", "v1"]).to_string());
            args.push(format!("--version={}", to.as_ref().unwrap()));
        }
        let what = format!("{args:?} in {f:?}");
        log.push_str(&format!("# {what}\n"));
        ctx.case(format!("env {env:?}\n{log}"));
        let before: Vec<BTreeMap<String, Engine>> = servers.iter().map(|v| v.state().dbs.iter().map(|(k, d)| (k.clone(), d.engine.clone())).collect()).collect();
        servers.iter().for_each(|v| v.state().fresh());
        let t = tree(&root);
        let a: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
        let o = w.run(&a, &How { cwd: Some(cwd.clone()), env: env.clone(), ..Default::default() })?;
        ctx.runs += 1;
        servers.iter().for_each(|v| v.settle());
        let now = tree(&root);
        let target = profs.iter().find(|p| p.name == pn);
        let at = port_of.get(&format!("{} {}", pdir.display(), pn)).copied();
        // whom it talked to
        for (k, v) in servers.iter().enumerate() {
            let st = v.state();
            for (u, d) in st.connects() {
                let want = target.filter(|_| at == Some(k)).map(|p| (p.user.clone(), p.db.clone()));
                ensure!(want.as_ref() == Some(&(u.clone(), d.clone())), "other-database", "{what}: connected to database {d:?} as {u:?} of server {k}, expected {want:?} of server {at:?}");
            }
            if let Some(p) = target {
                for g in &st.given {
                    ensure!(Some(g) == p.pw.as_ref(), "other-password", "{what}: gave the password {g:?} instead of {:?}", p.pw);
                }
            }
            for (n, d) in &st.dbs {
                if at == Some(k) && target.map(|p| p.db == *n).unwrap_or(false) {
                    continue;
                }
                if let Some(x) = Look::of(&before[k][n]).diff(&Look::of(&d.engine)) {
                    return fail("other-database", format!("{what}: database {n:?} of server {k} is not as before: {x}"));
                }
            }
        }
        let p = match target {
            None => {
                o.bad(&format!("{what}: there is no such profile"))?;
                unchanged(&t, &now, &what)?;
                ctx.label("unknown profile");
                continue;
            }
            Some(p) => p,
        };
        let e0 = &before[at.unwrap()][&p.db];
        let e1 = servers[at.unwrap()].state().db(&p.db).clone();
        ensure!(!servers[at.unwrap()].state().connects().is_empty(), "no-connection", "{what} with {env:?}: did not connect to {:?} as {:?}: {}", p.db, p.user, o.show());
        if cmd != "clone" {
            unchanged(&t, &now, &what)?;
        }
        let names = |e: &Engine| -> Result<Vec<String>, Fail> { Ok(log_of(e, &p.meta)?.map(|v| v.iter().map(|r| r.name.clone()).collect()).unwrap_or_else(|| vec!["init".to_string()])) };
        let had = names(e0)?;
        let cur = had.last().unwrap().clone();
        let chain = match read_chain(&p.hist) {
            Ok((c, _)) => c,
            Err(e) => panic!("{e}"),
        };
        // every other table of versions stays as it is
        for (k, t0) in &e0.raw {
            if k.1 == "version" && k.0 != p.meta {
                ensure!(e1.raw.get(k).map(|x| x.rows == t0.rows).unwrap_or(false), "other-log", "{what}: the log in schema {:?} changed, the profile's is {:?}", k.0, p.meta);
            }
        }
        for k in e1.raw.keys() {
            ensure!(e0.raw.contains_key(k) || *k == (p.meta.clone(), "version".to_string()), "other-log", "{what}: table {k:?} was created, the profile's metadata schema is {:?}", p.meta);
        }
        match cmd {
            "up" => {
                let made = &chain[..chain.len() - 1];
                let from = made.iter().position(|v| v.name == cur);
                let to = match &to {
                    Some(t) => made.iter().position(|v| v.name == *t),
                    None => Some(made.len() - 1),
                };
                let (x, y) = match (from, to) {
                    (Some(x), Some(y)) if y > x => (x, y),
                    _ => {
                        o.proper(&what)?;
                        if let Some(d) = Look::of(e0).diff(&Look::of(&e1)) {
                            return fail("database-changed", format!("{what}: nothing to apply, but: {d}"));
                        }
                        ctx.label("nothing to apply");
                        continue;
                    }
                };
                o.good(&format!("{what} with {env:?}"))?;
                let stmts: Vec<String> = made[x + 1..=y].iter().flat_map(|v| v.up.clone()).collect();
                let want = after(e0, &stmts).map_err(|e| Fail { sig: "harness".into(), msg: e })?;
                if let Some(d) = Look::of(&want).without_log(&p.meta).diff(&Look::of(&e1).without_log(&p.meta)) {
                    return fail("other-history", format!("{what}: the database is not what the history of the profile makes of it: {d}"));
                }
                let got = names(&e1)?;
                ensure!(got.last() == Some(&made[y].name) && got.len() == had.len() + y - x, "other-log", "{what}: the log in {:?} holds {got:?}, before {had:?}", p.meta);
            }
            "down" => {
                let last = had.len() - 1;
                let k = match &to {
                    Some(t) => had.iter().position(|v| v == t),
                    None => Some(last.saturating_sub(1)),
                };
                match k {
                    Some(k) if k < last => {
                        o.good(&format!("{what} with {env:?}"))?;
                        let rows = log_of(e0, &p.meta)?.unwrap();
                        let stmts: Vec<String> = rows[k + 1..].iter().rev().flat_map(|v| v.down.clone()).collect();
                        let want = after(e0, &stmts).map_err(|e| Fail { sig: "harness".into(), msg: e })?;
                        if let Some(d) = Look::of(&want).without_log(&p.meta).diff(&Look::of(&e1).without_log(&p.meta)) {
                            return fail("other-history", format!("{what}: the database is not what the log of the profile makes of it: {d}"));
                        }
                        ensure!(names(&e1)? == had[..=k], "other-log", "{what}: the log in {:?} holds {:?}, before {had:?}", p.meta, names(&e1)?);
                    }
                    _ => {
                        o.proper(&what)?;
                        if let Some(d) = Look::of(e0).diff(&Look::of(&e1)) {
                            return fail("database-changed", format!("{what}: nothing to undo, but: {d}"));
                        }
                        ctx.label("nothing to undo");
                        continue;
                    }
                }
            }
            _ => {
                o.good(&format!("{what} with {env:?}"))?;
                if let Some(d) = Look::of(e0).diff(&Look::of(&e1)) {
                    return fail("database-changed", format!("{what}: the database is not as before: {d}"));
                }
                if cmd == "status" {
                    if log_of(e0, &p.meta)?.is_some() {
                        let line = o.out.lines().next().unwrap_or("");
                        ensure!(line.contains(&cur), "other-status", "{what}: the database is at {cur:?}, status says {line:?}");
                    }
                    let q = format!("\"of_{}\"", p.tag);
                    let cloned = !std::fs::read_to_string(p.defs.join("public.yaml")).unwrap().contains(&format!("of_{}", p.tag));
                    ensure!(o.out.contains(&q) != cloned, "other-status", "{what}: {q} in {:?}", o.out);
                } else {
                    let own = p.defs.strip_prefix(&root).unwrap().to_path_buf();
                    let strip = |t: &Tree| -> Tree { t.iter().filter(|(k, _)| std::path::Path::new(&os(k)).parent() != Some(&own)).map(|(a, b)| (a.clone(), b.clone())).collect() };
                    unchanged(&strip(&t), &strip(&now), &format!("{what}: outside the definitions of its profile"))?;
                    let text = std::fs::read_to_string(p.defs.join("public.yaml")).unwrap_or_default();
                    let i = pool.iter().position(|x| *x == p.db).unwrap();
                    let own = format!("only_{}_{i}", at.unwrap());
                    ensure!(text.contains(&own), "other-database", "{what}: {own} is not in the cloned definitions: {text}");
                }
            }
        }
        ctx.nontrivial = true;
        ctx.label(cmd);
    }
    Ok(())
}
