//! C18, C19, C21: which project and profile a command acts on, initialising, and errors.
use crate::files::*;
use crate::hist;
use std::ffi::OsString;
use std::path::{Path, PathBuf};
use vcore::ensure;
use vcore::pbt::*;
use vcore::refchange::*;
use vcore::world::*;

// ---------- C18 ----------

pub fn c18() -> Check {
    Check {
        id: "C18",
        level: "exploration",
        rule: "trees of nested projects with several profiles each, every profile with directories of its own written as relative, absolute or \
               parent paths with references to environment variables between other text; a command is run from any directory with any \
               profile; the harness's own reading of the project files says which history and definitions it has to use; everything else must \
               stay as it is; non-trivial: the command did its work",
        assumptions: vec!["references to variables that are not set are left out"],
        parts: vec![
            Part { name: "files", quick: 2200, thorough: 80000, f: c18_files },
            Part { name: "databases", quick: 500, thorough: 25000, f: crate::prof::databases },
        ],
        fixed: vec![],
    }
}

/// A text with references, and what it stands for.
pub fn text_with_refs(s: &mut Src, env: &mut Vec<(String, OsString)>, plain: &[&str], vals: &[&str]) -> (String, String) {
    let (mut t, mut v) = (String::new(), String::new());
    for _ in 0..s.range(1, 3) {
        match s.n(5) {
            0 | 1 => {
                let names = ["A", "DIR", "podo_x", "_u", "X9", "Z_Z", "lower", "HOME", "USER", "A1"];
                let n = *s.pick(&names);
                let val = match env.iter().find(|(k, _)| k == n) {
                    Some((_, v)) => v.to_str().unwrap().to_string(),
                    None => {
                        let v = s.pick(vals).to_string();
                        env.push((n.to_string(), v.clone().into()));
                        v
                    }
                };
                if s.flag() {
                    t.push_str(&format!("${{{n}}}"));
                } else {
                    t.push_str(&format!("${n}"));
                    // what follows must not read as part of the name
                    let sep = *s.pick(&["-", ".", " ", "+"]);
                    t.push_str(sep);
                    v.push_str(&val);
                    v.push_str(sep);
                    continue;
                }
                v.push_str(&val);
            }
            _ => {
                let p = *s.pick(plain);
                t.push_str(p);
                v.push_str(p);
            }
        }
    }
    (t, v)
}

const PLAIN: &[&str] = &["db", "hist", "a b", "é", "x.y", "$", "$$", "a$", "$-", "${", "${a-b}", "{A}", "%A%", "~", "$(A)", "${}", "日本", "#x", "A", "\\$", "x=1", "$ A", "${A", "}"];
const VALS: &[&str] = &["v1", "a b", "é", "", "$A", "${DIR}", "x.y", "$", "{A}", "\\", "$0", "$1", "${1}", "日本", "w$$w"];

struct Prof {
    name: String,
    history: PathBuf,
    definitions: PathBuf,
    table: String,
}

/// A fragment that ends in text, so that what stands around it cannot run into it.
fn dir_text(s: &mut Src, env: &mut Vec<(String, OsString)>, stem: &str, root: &Path, base: &Path) -> (String, PathBuf) {
    let (mut t, mut v) = (String::new(), String::new());
    match s.n(6) {
        0 => {
            // absolute
            t.push_str(root.to_str().unwrap());
            t.push_str("/abs/");
            v.push_str(root.to_str().unwrap());
            v.push_str("/abs/");
        }
        1 => {
            t.push_str("./");
            v.push_str("./");
        }
        2 => {
            t.push_str("in/../");
            v.push_str("in/../");
        }
        3 => {
            // the whole base from a variable
            let n = "BASE_DIR";
            if !env.iter().any(|(k, _)| k == n) {
                env.push((n.into(), root.join("fromenv").into_os_string()));
            }
            t.push_str("$BASE_DIR/");
            v.push_str(env.iter().find(|(k, _)| k == n).unwrap().1.to_str().unwrap());
            v.push('/');
        }
        _ => {}
    }
    if s.chance(70) {
        let (a, b) = text_with_refs(s, env, PLAIN, VALS);
        // "${" and "$" followed by more text would read as a reference
        t.push_str(&a);
        v.push_str(&b);
        t.push('/');
        v.push('/');
    }
    t.push_str(stem);
    v.push_str(stem);
    (t, base.join(v))
}

/// The harness's own reading of references: $NAME and ${NAME}, all other text as it is.
pub fn expand(t: &str, env: &[(String, OsString)]) -> String {
    let c: Vec<char> = t.chars().collect();
    let word = |x: char| x == '_' || x.is_alphanumeric();
    let val = |n: &str| env.iter().find(|(k, _)| k == n).map(|(_, v)| v.to_str().unwrap().to_string());
    let mut out = String::new();
    let mut i = 0;
    while i < c.len() {
        if c[i] == '$' {
            let brace = c.get(i + 1) == Some(&'{');
            let from = i + 1 + brace as usize;
            let mut j = from;
            while j < c.len() && word(c[j]) {
                j += 1;
            }
            if j > from && (!brace || c.get(j) == Some(&'}')) {
                let n: String = c[from..j].iter().collect();
                out.push_str(&val(&n).unwrap_or_else(|| "\u{0}unset".into()));
                i = j + brace as usize;
                continue;
            }
        }
        out.push(c[i]);
        i += 1;
    }
    out
}

/// Files that are not project files.
const AROUND: &[&str] = &[
    ".git/config", ".git/HEAD", ".git", ".hg/store", ".svn/entries", "Cargo.toml", "package.json", "podo.yaml", ".podo.yml", ".podo.yaml.bak", ".podo.yaml.tmp", ".podo", ".podo.json", ".editorconfig",
    ".env", ".envrc", ".podorc", "podo.toml", ".projectile", ".gitignore", "Makefile", "go.mod", "database/history/init.yaml", ".vscode/settings.json", "node_modules/x/package.json", ".podo.yaml~", "..podo.yaml", ".PODO.YAML",
];

fn around(s: &mut Src, at: &Path, name: &str) {
    let f = at.join(name);
    // another one may be in the way already
    if std::fs::create_dir_all(f.parent().unwrap()).is_ok() {
        let _ = std::fs::write(&f, *s.pick(&["", "A=wrong\nBASE_DIR=/nowhere\n", "root = true\n", "profiles: {}\n", "gitdir: ../x\n"]));
    }
}

fn c18_files(s: &mut Src, ctx: &mut Ctx) -> Res {
    let w = World::new(s);
    let root = w.root();
    std::fs::create_dir(&root).unwrap();
    let mut env: Vec<(String, OsString)> = vec![];
    // projects at some of these places
    let places = ["", "one", "one/two", "one/two/three/four", "side", "one/other"];
    let mut projects: Vec<(PathBuf, Vec<Prof>)> = vec![];
    let mut log = String::new();
    let mut n = 0;
    for pl in places {
        let dir = if pl.is_empty() { root.clone() } else { root.join(pl) };
        std::fs::create_dir_all(&dir).unwrap();
        if !s.chance(50) && !pl.is_empty() || projects.len() > 3 {
            continue;
        }
        let mut profs = vec![];
        let mut cfg: Vec<(String, String, String)> = vec![];
        for pn in ["database", "other", "staging", "a b", "é", "Database", "profile"] {
            if !(pn == "database" && s.chance(85) || s.chance(25)) {
                continue;
            }
            n += 1;
            let (ht, h) = dir_text(s, &mut env, &format!("history{n}"), &root, &dir);
            let (dt, d) = dir_text(s, &mut env, &format!("definitions{n}"), &root, &dir);
            // as it is to be read, given all variables
            cfg.push((pn.to_string(), ht, dt));
            profs.push(Prof { name: pn.into(), history: h, definitions: d, table: format!("t{n}") });
        }
        s.shuffle(&mut cfg);
        let view: Vec<(&str, &str, &str, &str, &str)> = cfg.iter().map(|(a, b, c)| (&a[..], NOWHERE, &b[..], &c[..], "meta")).collect();
        if s.chance(6) {
            put(&dir.join("shared.yaml"), config(&view));
            std::os::unix::fs::symlink("shared.yaml", dir.join(".podo.yaml")).unwrap();
            log.push_str("# by a symbolic link\n");
        } else {
            put(&dir.join(".podo.yaml"), config(&view));
        }
        log.push_str(&format!("# {pl:?}\n{}", config(&view)));
        // the reading of the texts, once all variables are known
        for p in profs.iter_mut() {
            let (_, ht, dt) = cfg.iter().find(|c| c.0 == p.name).unwrap();
            p.history = dir.join(expand(ht, &env));
            p.definitions = dir.join(expand(dt, &env));
        }
        projects.push((dir, profs));
    }
    for (_, profs) in &projects {
        for p in profs {
            let hs = p.history.to_str().unwrap();
            let ds = p.definitions.to_str().unwrap();
            if !p.history.starts_with(&root) || !p.definitions.starts_with(&root) {
                return Ok(()); // an empty value before a slash
            }
            if hs.contains('\u{0}') || ds.contains('\u{0}') || hs.len() > 3000 {
                return Ok(()); // a reference to a variable that is not set
            }
            std::fs::create_dir_all(&p.history).unwrap();
            std::fs::create_dir_all(&p.definitions).unwrap();
            // for paths with "in/.."
            let pj = Proj { root: root.clone(), history: p.history.clone(), definitions: p.definitions.clone() };
            pj.write_version(&RVersion::init());
            pj.write_version(&RVersion::stage("init"));
            put(&p.definitions.join("public.yaml"), format!("schema public:\n  table {}:\n    column id: integer\n", p.table));
        }
    }
    for (dir, _) in &projects {
        std::fs::create_dir_all(dir.join("in")).unwrap();
    }
    // from where
    let mut froms: Vec<PathBuf> = places.iter().map(|p| if p.is_empty() { root.clone() } else { root.join(p) }).collect();
    for f in froms.clone() {
        froms.push(f.join("deeper/down"));
    }
    if s.chance(20) {
        froms.extend(projects.iter().flat_map(|(_, v)| v.iter().flat_map(|p| [p.history.clone(), p.definitions.clone()])));
    }
    if s.chance(15) {
        let f = s.pick(&froms).join("a/b c/d/e/f/g/h/i/j/k/l/m/n/o/p");
        froms.push(f);
    }
    for f in &froms {
        std::fs::create_dir_all(f).unwrap();
    }
    // what else lies about in a tree has no say in which project it belongs to
    for _ in 0..s.n(5) {
        let mut at = s.pick(&froms).clone();
        for _ in 0..s.n(4) {
            if at != root {
                at.pop();
            }
        }
        let c = *s.pick(AROUND);
        if projects.iter().any(|(_, v)| v.iter().any(|p| at.starts_with(&p.history) || at.starts_with(&p.definitions))) {
            continue;
        }
        log.push_str(&format!("# {c} in {:?}\n", at.strip_prefix(&root).unwrap()));
        around(s, &at, c);
    }
    for _ in 0..s.range(1, 4) {
        let cwd = s.pick(&froms).clone();
        let cwd = std::fs::canonicalize(&cwd).unwrap();
        let near = projects.iter().filter(|(d, _)| cwd.starts_with(d)).max_by_key(|(d, _)| d.as_os_str().len());
        let names = ["database", "database", "other", "staging", "a b", "é", "Database", "profile", "nope", "", "data"];
        let pn = *s.pick(&names);
        let cmd = *s.pick(&["stage", "stage", "stage", "reset", "make", "status"]);
        let mut args = vec![cmd.to_string()];
        if pn != "database" || s.flag() {
            match s.n(2) {
                0 => args.push(format!("--profile={pn}")),
                _ => args.extend(["--profile".to_string(), pn.to_string()]),
            }
        }
        let what = format!("{args:?} in {:?}", cwd.strip_prefix(&root).unwrap());
        log.push_str(&format!("# {what}\n"));
        ctx.case(format!("env {env:?}\n{log}"));
        let t = tree(&root);
        let a: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
        let o = w.run(&a, &How { cwd: Some(cwd.clone()), env: env.clone(), ..Default::default() })?;
        ctx.runs += 1;
        let now = tree(&root);
        let target = near.and_then(|(_, v)| v.iter().find(|p| p.name == pn));
        let target = match target {
            None => {
                o.bad(&format!("{what}: there is no such profile"))?;
                unchanged(&t, &now, &what)?;
                ctx.label("unknown profile");
                continue;
            }
            Some(p) => p,
        };
        o.good(&format!("{what} with {env:?}"))?;
        ctx.nontrivial = true;
        ctx.label(cmd);
        let pj = Proj { root: root.clone(), history: target.history.clone(), definitions: target.definitions.clone() };
        let h = pj.hist(&what)?;
        let own = std::fs::canonicalize(&target.history).unwrap();
        let own = own.strip_prefix(&root).unwrap();
        let key = |n: &str| own.join(n).to_str().unwrap().as_bytes().to_vec();
        let strip = |t: &Tree| -> Tree { t.iter().filter(|(k, _)| !(cmd != "status" && Path::new(&os(k)).parent() == Some(own))).map(|(a, b)| (a.clone(), b.clone())).collect() };
        unchanged(&strip(&t), &strip(&now), &format!("{what}: outside the history of its profile"))?;
        let _ = key;
        match cmd {
            "stage" => {
                let d = replay(&h, &what)?;
                let ts = d.tables();
                ensure!(ts == vec![("public".to_string(), target.table.clone())], "other-definitions", "{what}: expected table {:?}, got {ts:?}", target.table);
            }
            "reset" => ensure!(h.stage().is_empty(), "not-reset", "{what}"),
            "make" => {}
            _ => {
                // the table shows up unless it is made already
                let made = h.replay(h.versions.len() - 1).map(|d| !d.tables().is_empty()).unwrap_or(false);
                for (_, v) in &projects {
                    for p in v {
                        let want = p.table == target.table && !made;
                        let q = format!("\"{}\"", p.table);
                        ensure!(o.out.contains(&q) == want, "other-status", "{what}: table {:?} {} in {:?}", p.table, if want { "is missing" } else { "appears" }, o.out);
                    }
                }
            }
        }
    }
    Ok(())
}

// ---------- C19 ----------

pub fn c19() -> Check {
    Check {
        id: "C19",
        level: "exploration",
        rule: "init in directories with any other content, followed by every offline command, and init inside projects at any depth, whole or \
               broken in some way; all files are compared before and after; non-trivial: every case",
        assumptions: vec!["unreadable project files are tried when the harness can run podo as an unprivileged user"],
        parts: vec![
            Part { name: "fresh", quick: 500, thorough: 20000, f: fresh },
            Part { name: "inside", quick: 700, thorough: 30000, f: inside },
        ],
        fixed: vec![],
    }
}

const CLUTTER: &[&str] = &["README.md", "src/main.rs", ".git/config", "podo.yaml", ".podo.yml", "database.txt", "db/history/init.yaml", ".podo.yaml.bak", "history/stage.yaml", "a b/c", "é.yaml", ".podo", "sub/.podo.yaml"];

fn fresh(s: &mut Src, ctx: &mut Ctx) -> Res {
    let w = World::new(s);
    let root = w.root();
    std::fs::create_dir(&root).unwrap();
    let mut log = String::new();
    for _ in 0..s.n(4) {
        let c = *s.pick(CLUTTER);
        put(&root.join(c), *s.pick(&["", "text\n", "schema x: {}\n", "[", "profiles: {}\n"]));
        log.push_str(&format!("{c} "));
    }
    // remains of an earlier project
    let mut remains = false;
    if s.chance(30) {
        remains = true;
        for f in ["database/history/init.yaml", "database/history/stage.yaml", "database/history/v1.yaml", "database/definitions/public.yaml", "database/definitions/more.yaml", "database/x"] {
            if s.chance(40) {
                put(&root.join(f), *s.pick(&["", "text\n", "schema x: {}\n", "["]));
                log.push_str(&format!("{f} "));
            }
        }
    } else if s.chance(20) {
        std::fs::create_dir_all(root.join("database/history")).unwrap();
        log.push_str("database/history/ ");
    }
    let t = tree(&root);
    ctx.case(&log);
    ctx.nontrivial = true;
    let o = w.podo(&["init"])?;
    o.proper("init")?;
    let now = tree(&root);
    for (k, e) in &t {
        ensure!(now.get(k) == Some(e), "overwritten", "init changes {}: {:?} -> {:?}", String::from_utf8_lossy(k), e, now.get(k));
    }
    if remains {
        ctx.label("on the remains of a project");
        return Ok(());
    }
    o.good("init in a directory outside any project")?;
    let p = Proj { root: root.clone(), history: root.join("database/history"), definitions: root.join("database/definitions") };
    let h = p.hist("init")?;
    ensure!(h.stage().is_empty() && h.made().len() == 1, "not-fresh", "init makes the history {:?}", h.versions);
    let dirs = ["", "database", "database/definitions", "database/history", "deep/in/it"];
    let mut cmds = vec!["status", "stage", "reset", "make", "status", "stage", "init", "make"];
    s.shuffle(&mut cmds);
    for c in cmds {
        let cwd = root.join(s.pick(&dirs));
        std::fs::create_dir_all(&cwd).unwrap();
        let o = w.run(&[c], &How { cwd: Some(cwd), ..Default::default() })?;
        ctx.runs += 1;
        o.good(&format!("{c} on a new project"))?;
        let h2 = p.hist(c)?;
        ensure!(h2.versions == h.versions, "not-idle", "{c} on a new project changes the history to {:?}", h2.versions);
        if c == "status" || c == "stage" {
            ensure!(!o.out.contains("CREATE") && !o.out.contains("DROP"), "something-staged", "{c} on a new project reports changes: {:?}", o.out);
        }
        ctx.label(c);
    }
    // and it can be worked with
    put(&p.definitions.join("public.yaml"), "schema public:\n  table t:\n    column id: integer\n");
    w.podo(&["stage"])?.good("stage on a new project")?;
    let before = p.hist("stage")?;
    let t = p.tree();
    ensure!(before.stage().changes.len() == 1, "not-staged", "a table added to a new project: {:?}", before.stage());
    w.podo(&["make"])?.good("make on a new project")?;
    check_make(&before, &p.hist("make")?, &t, &p.tree(), None, "make")?;
    Ok(())
}

fn inside(s: &mut Src, ctx: &mut Ctx) -> Res {
    use std::os::unix::fs::PermissionsExt;
    let w = World::new(s);
    let p = w.project(NOWHERE);
    let vs = hist::chain(s);
    hist::write(&p, &vs);
    let cfg = p.root.join(".podo.yaml");
    let what = match s.n(14) {
        0 => {
            put(&cfg, "");
            "empty project file"
        }
        1 => {
            put(&cfg, "profiles: [");
            "malformed project file"
        }
        2 => {
            put(&cfg, [0xff, 0xfe, 0, 1]);
            "project file that is not text"
        }
        3 => {
            put(&cfg, "profiles: {}\n");
            "project without profiles"
        }
        4 if unprivileged() => {
            std::fs::set_permissions(&cfg, std::fs::Permissions::from_mode(0o000)).unwrap();
            "unreadable project file"
        }
        5 => {
            std::fs::remove_file(&cfg).unwrap();
            std::fs::create_dir(&cfg).unwrap();
            "directory for a project file"
        }
        6 => {
            put(&cfg, "profiles:\n  database:\n    database_url: x\n");
            "project file with fields missing"
        }
        7 => {
            put(&cfg, config(&[("other", NOWHERE, "database/history", "database/definitions", "m")]));
            "project without the default profile"
        }
        8 => {
            put(&cfg, config(&[("database", NOWHERE, "nowhere/h", "nowhere/d", "m")]));
            "project whose directories do not exist"
        }
        9 => {
            std::fs::remove_file(p.history.join("stage.yaml")).unwrap();
            "project without a stage"
        }
        10 => {
            put(&p.definitions.join("public.yaml"), "[");
            "project with malformed definitions"
        }
        _ => "whole project",
    };
    ctx.label(what);
    ctx.nontrivial = true;
    let dirs = ["", "", "database", "database/definitions", "database/history", "sub", "sub/deep/er", "database/history/x", ".git", "a/b/c/d/e/f/g/h/i/j/k/l/m/n/o/p/q"];
    let d = *s.pick(&dirs);
    let cwd = p.root.join(d);
    std::fs::create_dir_all(&cwd).unwrap();
    let mut lie = String::new();
    for _ in 0..s.n(3) {
        let mut at = cwd.clone();
        for _ in 0..s.n(4) {
            if at != p.root {
                at.pop();
            }
        }
        let c = *s.pick(AROUND);
        if at.starts_with(&p.history) || at.starts_with(&p.definitions) || c.starts_with("database") {
            continue;
        }
        lie.push_str(&format!(", {c} in {:?}", at.strip_prefix(&p.root).unwrap()));
        around(s, &at, c);
    }
    ctx.case(format!("{what}{lie}, init in {d:?}"));
    let t = p.tree();
    for _ in 0..2 {
        let o = w.run(&["init"], &How { cwd: Some(cwd.clone()), ..Default::default() })?;
        ctx.runs += 1;
        o.proper("init")?;
        unchanged(&t, &p.tree(), &format!("{what}, init in {d:?}"))?;
    }
    Ok(())
}

// ---------- C21 ----------

pub fn c21() -> Check {
    Check {
        id: "C21",
        level: "fault-injection",
        rule: "every command in a project with one or more of the causes of failure there are (no project, project file, profile, definitions, \
               history, version, directory, permission, database, standard output); whether the command must fail follows from what it needs; its exit status, its \
               message, the files and the database are compared; non-trivial: a command that had to fail, or all of them on a whole project",
        assumptions: vec!["permission failures are tried when the harness can run podo as an unprivileged user"],
        parts: vec![
            Part { name: "matrix", quick: 2600, thorough: 80000, f: matrix },
            Part { name: "server", quick: 800, thorough: 40000, f: crate::srvfail::server },
            Part { name: "output", quick: 400, thorough: 20000, f: crate::srvfail::output },
        ],
        fixed: vec![],
    }
}

fn matrix(s: &mut Src, ctx: &mut Ctx) -> Res {
    use std::os::unix::fs::PermissionsExt;
    let w = World::new(s);
    let p = w.project(NOWHERE);
    let vs = hist::chain(s);
    hist::write(&p, &vs);
    // definitions that agree with the history, or not
    let mut defs = String::from("schema public:\n  sequence q: {}\n");
    for i in 0..s.n(4) {
        defs.push_str(&format!("  table t{i}:\n    column id: integer\n"));
    }
    put(&p.definitions.join("public.yaml"), &defs);
    let cfg = p.root.join(".podo.yaml");
    let cmd = *s.pick(&["stage", "stage", "status", "status", "reset", "make", "make", "up", "down", "clone", "init", "print", "sync", "bogus", "--bogus", ""]);
    let (mut need_defs, mut need_hist, mut writes) = (false, false, false);
    let mut need_db = false;
    let staged = !vs.last().unwrap().is_empty();
    match cmd {
        "stage" => (need_defs, need_hist, writes) = (true, true, true),
        "status" => (need_defs, need_hist) = (true, true),
        "reset" => (need_hist, writes) = (true, true),
        "make" => (need_hist, writes) = (true, staged),
        "up" | "down" | "clone" => need_db = true,
        _ => {}
    }
    let mut must = matches!(cmd, "bogus" | "--bogus" | "" | "print" | "sync") || need_db; // no server here
    let mut maybe = false;
    let mut args: Vec<String> = vec![];
    if !cmd.is_empty() {
        args.push(cmd.into());
    }
    let any = p.history.join(format!("{}.yaml", s.pick(&vs).name));
    let chmod = |f: &Path, m: u32| std::fs::set_permissions(f, std::fs::Permissions::from_mode(m)).unwrap();
    let needs_project = !matches!(cmd, "init" | "bogus" | "--bogus" | "" | "print");
    let mut cwd = p.root.clone();
    let causes = s.weighted(&[2, 8, 2]);
    let mut log = format!("{cmd}: ");
    let mut locked: Vec<PathBuf> = vec![];
    for _ in 0..causes {
        let c = s.n(22);
        let (what, hits): (&str, bool) = match c {
            0 => {
                cwd = w.dir.clone();
                ("no project", needs_project)
            }
            1 => {
                put(&cfg, *s.pick(&["", "[", "profiles: 5", "profiles:\n- a\n", "x: y\n", "profiles:\n  database:\n    history: h\n", "\u{0}", "profiles: {database: null}\n", "a: &a [*a]\n"]));
                ("bad project file", needs_project || cmd == "init")
            }
            2 => {
                let at = args.len();
                if needs_project && !args.iter().any(|a| a.starts_with("--profile")) {
                    args.insert(at, format!("--profile={}", s.pick(&["nope", "", "Database", "database ", "history"])));
                    ("unknown profile", true)
                } else {
                    ("-", false)
                }
            }
            3 => {
                let bad = *s.pick(&[
                    "[", "schema public: 5\n", "schema public:\n  tabel t: {}\n", "table t: {}\n", "schema public:\n  table t:\n    column: integer\n",
                    "schema public:\n  sequence q:\n    as: bignum\n", "schema public:\n  table t:\n    foreign key f:\n      on: a\n", "\u{0}", "- a\n", "schema public:\n  view v: {}\n",
                    "schema public:\n  table t:\n    column a: integer\n    column a: integer\n",
                ]);
                put(&p.definitions.join(s.pick(&["bad.yaml", "public.yaml", "sub/x.yaml"])), bad);
                ("bad definitions", need_defs)
            }
            4 => {
                put(&p.definitions.join("twice.yaml"), &defs);
                ("objects defined twice", need_defs)
            }
            5 => {
                let _ = std::fs::remove_dir_all(&p.definitions);
                ("no definitions directory", need_defs)
            }
            6 => {
                let _ = std::fs::remove_dir_all(&p.history);
                ("no history directory", need_hist)
            }
            7 => {
                if !p.history.is_dir() {
                    continue;
                }
                put(&any, *s.pick(&["[", "", "name: x\n", "null\n"]));
                ("malformed version", need_hist)
            }
            8 => {
                let _ = std::fs::remove_file(&any);
                ("missing version", need_hist)
            }
            9 => {
                if !p.history.is_dir() {
                    continue;
                }
                p.write_version(&hist::version("extra", s.pick(&vs[..vs.len() - 1]).name.as_str(), 60));
                ("branched history", need_hist)
            }
            10 if unprivileged() && causes == 1 && any.is_file() => {
                chmod(&any, 0o000);
                ("unreadable version", need_hist)
            }
            11 if unprivileged() && p.history.is_dir() && causes == 1 => {
                chmod(&p.history, 0o555);
                locked.push(p.history.clone());
                ("history directory that cannot be written", writes)
            }
            12 if unprivileged() && causes == 1 && p.definitions.is_dir() && !p.definitions.join("locked.yaml").exists() => {
                put(&p.definitions.join("locked.yaml"), "schema zzz: {}\n");
                chmod(&p.definitions.join("locked.yaml"), 0o000);
                ("unreadable definition", need_defs)
            }
            13 if unprivileged() && causes == 1 && p.definitions.is_dir() && locked.is_empty() => {
                let d = p.definitions.join("lockeddir");
                let _ = std::fs::create_dir(&d);
                chmod(&d, 0o000);
                locked.push(d);
                ("unreadable definitions directory", need_defs)
            }
            14 if unprivileged() && causes == 1 && cfg.is_file() => {
                chmod(&cfg, 0o000);
                ("unreadable project file", needs_project || cmd == "init")
            }
            15 if p.definitions.is_dir() => {
                put(&p.definitions.join("bytes.yaml"), [0xff, 0xfe]);
                ("definition that is not text", need_defs)
            }
            16 if p.history.is_dir() => {
                // a version whose changes cannot follow
                let last = vs.len() - 1;
                let k = if last > 1 { s.range(1, last) } else { last };
                let mut v = vs[k].clone();
                v.changes.push(s.pick(&[
                    RChange::DropTable { schema: "public".into(), table: "never".into() },
                    RChange::CreateSchema { schema_name: "public".into() },
                    RChange::AddColumn { schema: "no".into(), table: "t".into(), column: "c".into(), data_type: "text".into(), not_null: false, default: None },
                    RChange::DropView { schema: "public".into(), view: "t0".into() },
                    RChange::AlterCheck { schema: "public".into(), table: "t0".into(), constraint: "none".into(), deferrable: true, initially_deferred: false },
                ]).clone());
                v.up.push("SELECT 1".into());
                v.down.push("SELECT 1".into());
                p.write_version(&v);
                ("version whose changes do not apply", matches!(cmd, "stage" | "status"))
            }
            19 | 20 if cfg.is_file() => {
                // one entry of the profile is not there, or is no text
                let t = std::fs::read_to_string(&cfg).unwrap_or_default();
                let field = *s.pick(&["database_url", "history", "definitions", "metadata_schema"]);
                let key = format!("{field}:");
                if t.lines().filter(|l| l.trim_start().starts_with(&key)).count() != 1 {
                    continue;
                }
                let sub = *s.pick(&[None, None, None, Some("[]"), Some("{}"), Some("[a]"), Some("{a: b}")]);
                let new: Vec<String> = t
                    .lines()
                    .filter_map(|l| match (l.trim_start().starts_with(&key), sub) {
                        (false, _) => Some(l.to_string()),
                        (true, None) => None,
                        (true, Some(x)) => Some(format!("{}{key} {x}", &l[..l.len() - l.trim_start().len()])),
                    })
                    .collect();
                put(&cfg, new.join("\n") + "\n");
                log.push_str(&format!("{field} {} ", sub.unwrap_or("missing")));
                ("project file without an entry", needs_project || cmd == "init")
            }
            17 if cmd == "make" => {
                let l = *s.pick(&["a/b", "../../x", "/", "x/"]);
                if args.iter().any(|a| a.starts_with("--version")) {
                    continue;
                }
                args.push(format!("--version={l}"));
                ("label that is no file name", staged)
            }
            18 if !args.is_empty() => {
                args.push(s.pick(&["--nope", "extra", "--profile", "-x", "--version"]).to_string());
                ("wrong arguments", true)
            }
            _ => ("-", false),
        };
        if what != "-" {
            log.push_str(what);
            log.push_str(", ");
            ctx.label(what);
        }
        if hits {
            must = true;
        }
        maybe |= what != "-";
    }
    if cwd != p.root && cmd == "init" {
        return Ok(()); // a new project: C19
    }
    ctx.case(format!("{log}{args:?} on {:?}", vs.iter().map(|v| &v.name).collect::<Vec<_>>()));
    let t = tree(&w.dir);
    let a: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
    let o = w.run(&a, &How { cwd: Some(cwd), ..Default::default() })?;
    let now = tree(&w.dir);
    for l in locked {
        chmod(&l, 0o755);
    }
    ctx.label(format!("{cmd}: {}", if o.ok() { "done" } else { "refused" }));
    if must {
        // two causes may undo one another: only single ones are certain
        if o.ok() && causes > 1 {
            return Ok(());
        }
        ctx.nontrivial = true;
        o.bad(&log)?;
        unchanged(&t, &now, &log)
    } else {
        o.proper(&log)?;
        if !o.ok() {
            ensure!(maybe, "refused", "nothing stands in its way, yet: {}", o.show());
            ensure!(causes > 1, "refused", "{log}does not concern it, yet: {}", o.show());
            unchanged(&t, &now, &log)?;
        }
        ctx.nontrivial = o.ok();
        Ok(())
    }
}
