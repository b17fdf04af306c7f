//! C15: definitions spread over files. C17: interrupted commands.
use crate::files::*;
use crate::hist;
use std::collections::BTreeMap;
use std::path::PathBuf;
use vcore::ensure;
use vcore::gen::*;
use vcore::model::*;
use vcore::pbt::*;
use vcore::world::*;
use vcore::yaml::{self, Style, Y};

pub fn c15() -> Check {
    Check {
        id: "C15",
        level: "exploration",
        rule: "random databases whose objects are dealt at random over files in nested directories with names of any kind, among files that are not \
               definitions; staged by podo from an empty history and replayed: the result is the database; with one object written into a second \
               file the command is refused and changes nothing; non-trivial: at least two files",
        assumptions: vec!["read back through stage and the reference meaning of changes, so without the owners of sequences"],
        parts: vec![
            Part { name: "split", quick: 4000, thorough: 60000, f: split },
            Part { name: "duplicate", quick: 2200, thorough: 40000, f: duplicate },
        ],
        fixed: vec![],
    }
}

type Item = (String, (String, Y)); // schema, object

fn items(s: &mut Src, st: &Style, db: &Db) -> Vec<Item> {
    let mut v = vec![];
    for (sn, sc) in &db.schemas {
        for (n, r) in &sc.rels {
            v.push((sn.clone(), yaml::rel_y(s, st, sn, n, r)));
        }
        for (n, f) in &sc.funcs {
            v.push((sn.clone(), yaml::func_y(s, st, n, f)));
        }
    }
    v
}

const DIRS: &[&str] = &["", "", "", "sub", "sub/deep", "sub/deep/er/est", "x.yaml", "x.yaml/y.yaml", ".hidden", "a b", "é", "日本", "public.yaml.d", "UPPER", "yaml", "...", "1/2/3/4/5/6/7/8/9/10/11/12", "d/d/d/d/d/d/d/d/d/d/d/d/d/d/d/d/d/d/d/d/d/d/d/d/d/d/d/d/d/d/d/d/d/d/d/d/d/d/d/d"];
const FILES: &[&[u8]] = &[
    b"a.yaml", b"b.yaml", b"public.yaml", b"z.z.yaml", b".dot.yaml", b"a b.yaml", b"\xc3\xa9.yaml", b"\xff\xfe.yaml", b"-.yaml", b"yaml.yaml", b"a.yml.yaml", b"#.yaml", b"~.yaml",
    b"A.yaml", b"01.yaml", b"very-long-name-very-long-name-very-long-name-very-long-name.yaml", b"x.yaml.yaml", b" .yaml", b"stage.yaml", b"init.yaml", b"a'\"b.yaml", b"*.yaml", b"\n.yaml",
];
const OTHERS: &[&[u8]] = &[
    b"x.yml", b"x.YAML", b"x.Yaml", b"x.yaml.bak", b"x.yaml~", b"x.yaml.tmp", b"yaml", b"x.json", b"README.md", b".gitkeep", b"x.yamlx", b"xyaml", b"public.sql", b"\xff.yml", b"x.yaml ", b"x.yaml.swp",
];

fn place(s: &mut Src, p: &Proj) -> PathBuf {
    p.definitions.join(s.pick(DIRS)).join(os(s.pick(FILES)))
}

fn collide(files: &BTreeMap<PathBuf, Vec<Item>>, f: &PathBuf) -> bool {
    files.keys().any(|k| k != f && (k.starts_with(f) || f.starts_with(k)))
}

fn deal(s: &mut Src, p: &Proj, all: Vec<Item>, db: &Db) -> BTreeMap<PathBuf, Vec<Item>> {
    let mut files: BTreeMap<PathBuf, Vec<Item>> = BTreeMap::new();
    let n = match s.weighted(&[89, 10, 1]) {
        0 => s.range(1, 6),
        1 => s.range(10, 30),
        _ => s.range(100, 400),
    };
    let mut names = vec![];
    for _ in 0..n {
        let f = place(s, p);
        if !collide(&files, &f) {
            files.entry(f.clone()).or_default();
            names.push(f);
        }
    }
    for it in all {
        let f = s.pick(&names).clone();
        files.get_mut(&f).unwrap().push(it);
    }
    // schemas without objects
    for (sn, sc) in &db.schemas {
        if sc.rels.is_empty() && sc.funcs.is_empty() {
            let f = s.pick(&names).clone();
            files.get_mut(&f).unwrap().push((sn.clone(), (String::new(), Y::Null)));
        }
    }
    files
}

fn write_file(s: &mut Src, f: &PathBuf, its: &[Item], db: &Db) -> String {
    let mut top: Vec<(String, Vec<(String, Y)>)> = vec![];
    for (sn, (k, y)) in its {
        let i = match top.iter().position(|(n, _)| n == sn) {
            Some(i) => i,
            None => {
                top.push((sn.clone(), vec![]));
                top.len() - 1
            }
        };
        if !k.is_empty() {
            top[i].1.push((k.clone(), y.clone()));
        }
    }
    // a schema may be named again without anything in it
    if s.chance(20) {
        for sn in db.schemas.keys() {
            if !top.iter().any(|(n, _)| n == sn) {
                top.push((sn.clone(), vec![]));
                break;
            }
        }
    }
    let y = Y::Map(top.into_iter().map(|(n, m)| (format!("schema {n}"), if m.is_empty() { Y::Null } else { Y::Map(m) })).collect());
    let t = match &y {
        Y::Map(m) if m.is_empty() => "{}\n".to_string(),
        _ => yaml::emit(s, true, &y),
    };
    put(f, &t);
    t
}

fn setup(s: &mut Src, ctx: &mut Ctx, p: &Proj, db: &Db, dup: bool) -> Result<bool, Fail> {
    let st = Style::any();
    let all = items(s, &st, db);
    std::fs::remove_file(p.definitions.join("public.yaml")).unwrap();
    let mut files = deal(s, p, all.clone(), db);
    let mut twice = String::new();
    if dup {
        if all.is_empty() {
            return Ok(false);
        }
        let it = s.pick(&all).clone();
        // in a file that does not hold it yet
        let mut f = place(s, p);
        for _ in 0..10 {
            if !collide(&files, &f) && !files.get(&f).map(|v| v.contains(&it)).unwrap_or(false) {
                break;
            }
            f = place(s, p);
        }
        if collide(&files, &f) || files.get(&f).map(|v| v.contains(&it)).unwrap_or(false) {
            return Ok(false);
        }
        twice = format!("{}.{} twice", it.0, it.1 .0);
        let mut again = it.clone();
        if s.flag() {
            // the same object with other contents
            if let Y::Map(m) = &mut again.1 .1 {
                if again.1 .0.to_lowercase().starts_with("table") {
                    m.clear();
                }
            }
        }
        files.entry(f).or_default().push(again);
    }
    let mut log = format!("# {twice}\n");
    let used = files.values().filter(|v| !v.is_empty()).count();
    for (f, its) in &files {
        let t = write_file(s, f, its, db);
        log.push_str(&format!("--- {:?}\n{t}", f.strip_prefix(&p.definitions).unwrap()));
    }
    if s.chance(15) {
        // kept elsewhere, and linked from here
        let f = s.pick(&files.keys().collect::<Vec<_>>()).to_path_buf();
        let up = f.parent().unwrap().to_path_buf();
        let f = if s.flag() && up != p.definitions { up } else { f };
        let to = p.root.join("kept elsewhere");
        std::fs::rename(&f, &to).unwrap();
        std::os::unix::fs::symlink(&to, &f).unwrap();
        log.push_str(&format!("--- {:?} is a link\n", f.strip_prefix(&p.definitions).unwrap()));
        ctx.label("with a link");
    }
    for _ in 0..s.n(4) {
        let f = p.definitions.join(s.pick(DIRS)).join(os(s.pick(OTHERS)));
        if collide(&files, &f) || f.exists() || f.ancestors().take_while(|a| *a != p.definitions).any(|a| a.is_file()) {
            continue;
        }
        let t = *s.pick(&["[ not yaml", "schema zzz:\n  table extra: {}\n", "schema public: 5\n", "", "\u{0}"]);
        put(&f, t);
        log.push_str(&format!("--- {:?}\n{t}\n", f.strip_prefix(&p.definitions).unwrap()));
        ctx.label("with other files");
    }
    if s.chance(20) {
        let d = p.definitions.join("empty.yaml");
        if !d.exists() {
            std::fs::create_dir(d).unwrap();
        }
    }
    ctx.case(log);
    ctx.nontrivial = used > 1;
    ctx.label(format!("{used} files"));
    Ok(true)
}

fn split(s: &mut Src, ctx: &mut Ctx) -> Res {
    let w = World::new(s);
    let p = w.project(NOWHERE);
    let db = gen_db(s, &Opts::pure());
    setup(s, ctx, &p, &db, false)?;
    labels(&db, &mut ctx.labels);
    let t = tree(&p.definitions);
    let o = w.podo(&["stage"])?;
    o.good("definitions in several files")?;
    unchanged(&t, &tree(&p.definitions), "stage: definitions")?;
    let h = p.hist("stage")?;
    let mut got = Db::default();
    for v in &h.versions {
        for c in &v.changes {
            if let Err(e) = c.apply(&mut got) {
                return fail("does-not-apply", format!("{c:?}: {} {}", e.name, e.why));
            }
        }
    }
    let want = db.without_owners();
    ensure!(got == want, "not-the-definitions", "split over files, the definitions load as something else: {}", describe_diff(&want, &got));
    Ok(())
}

fn duplicate(s: &mut Src, ctx: &mut Ctx) -> Res {
    let w = World::new(s);
    let p = w.project(NOWHERE);
    let db = gen_db(s, &Opts::pure());
    if !setup(s, ctx, &p, &db, true)? {
        ctx.nontrivial = false;
        return Ok(());
    }
    let t = p.tree();
    let cmd = *s.pick(&["stage", "stage", "status"]);
    let o = w.podo(&[cmd])?;
    o.bad("an object in two files")?;
    unchanged(&t, &p.tree(), "an object in two files")?;
    Ok(())
}

// ---------- C17 ----------

pub fn c17() -> Check {
    Check {
        id: "C17",
        level: "fault-injection",
        rule: "stage, make, reset, init and clone (of a database on the model server) are run once undisturbed with their file operations counted, then again from the same start with one of \
               these operations failing (EIO, ENOSPC) or being the last the process does (killed before it, or in the middle of a write); the files \
               are then compared with both outcomes, and stage and reset are run again; non-trivial: the fault was reached",
        assumptions: vec![
            "an interruption is the death of the process or an error of one operation; what the disk keeps after a loss of power is out of scope",
            "file operations as the C library offers them",
        ],
        parts: vec![
            Part { name: "faults", quick: 1200, thorough: 30000, f: faults },
            Part { name: "clone", quick: 200, thorough: 8000, f: clone },
        ],
        fixed: vec![],
    }
}

fn is_tmp(k: &[u8]) -> bool {
    !k.ends_with(b".yaml")
}

pub fn restore(root: &std::path::Path, t: &Tree) {
    let _ = std::fs::remove_dir_all(root);
    std::fs::create_dir(root).expect("mkdir");
    for (k, e) in t {
        let f = root.join(os(k));
        match e {
            Entry::Dir => std::fs::create_dir(&f).expect("mkdir"),
            Entry::File(b) => put(&f, b),
            _ => {}
        }
    }
}

fn faults(s: &mut Src, ctx: &mut Ctx) -> Res {
    let w = World::new(s);
    let mut p = w.project(NOWHERE);
    let cmd = *s.pick(&["stage", "stage", "make", "make", "reset", "init"]);
    let mut defs = RVersion::init_db();
    let mut log = format!("# {cmd}\n");
    if cmd == "init" {
        let d = w.dir.join("p");
        std::fs::remove_dir_all(&d).unwrap();
        std::fs::create_dir(&d).unwrap();
        if s.chance(30) {
            put(&d.join("README"), "mine");
        }
        p.root = d;
    } else {
        if s.flag() {
            let vs = hist::chain(s);
            hist::write(&p, &vs);
            defs = replay(&p.hist("setup")?, "setup")?;
        }
        let o = Opts::small();
        let rounds = if cmd == "stage" { s.n(2) } else { s.range(1, 2) };
        for _ in 0..rounds {
            let src = replay(&p.hist("setup")?, "setup")?;
            defs = edited(s, &o, &src, &defs, &[]);
            p.write_defs(s, &Style::any(), &defs);
            w.podo(&["stage"])?.good("stage")?;
            if s.flag() && cmd == "stage" {
                w.podo(&["make"])?.good("make")?;
            }
        }
        if cmd == "stage" {
            let src = replay(&p.hist("setup")?, "setup")?;
            defs = edited(s, &o, &src, &defs, &[]);
            p.write_defs(s, &Style::any(), &defs);
        }
        if s.chance(10) {
            put(&p.history.join("stage.yaml.tmp"), "left over");
        }
        log.push_str(&yaml::simple(&defs));
    }
    let start = p.tree();
    let before = if cmd == "init" { None } else { Some(p.hist("start")?) };
    let args: Vec<&str> = vec![cmd];
    let seed = w.seed.get();
    let how = How { log: true, ..Default::default() };
    let o = w.run(&args, &how)?;
    o.good("undisturbed")?;
    let n = o.ops.len();
    let end = p.tree();
    ensure!(n > 0, "no-ops", "no file operations seen: {}", o.show());
    let tries = 6.min(n);
    for _ in 0..tries {
        // the later operations are the ones that write
        let k = if s.flag() { n - s.n(12.min(n)) } else { 1 + s.n(n) };
        let kind = *s.pick(&["kill", "torn", "eio", "enospc"]);
        restore(&p.root, &start);
        w.seed.set(seed);
        let what = format!("{cmd} with {kind} at operation {k} of {n} ({})", o.ops[k - 1]);
        ctx.case(format!("{log}# {what}"));
        ctx.label(format!("{cmd} {kind}"));
        ctx.label(format!("at {}", o.ops[k - 1].split(' ').next().unwrap()));
        let r = w.run(&args, &How { fault: Some((k, kind)), ..Default::default() })?;
        ctx.runs += 1;
        ctx.nontrivial = true;
        let now = p.tree();
        if r.signal.is_none() {
            r.proper(&what)?;
            if r.ok() {
                // it got by: then it has done its work
                let f = |t: &Tree| -> Tree { t.iter().filter(|(k, _)| !is_tmp(k)).map(|(a, b)| (a.clone(), b.clone())).collect() };
                unchanged(&f(&end), &f(&now), &format!("{what}: it reports success, but its work is not done"))?;
                ctx.label("the fault makes no difference");
            } else {
                ctx.label("reported");
            }
        } else {
            ctx.label("killed");
        }
        // every file is either as before or complete
        for (f, e) in &now {
            let name = String::from_utf8_lossy(f).into_owned();
            if is_tmp(f) || *e == Entry::Dir {
                continue;
            }
            let fine = start.get(f) == Some(e) || end.get(f) == Some(e);
            ensure!(fine, "torn", "{what}: {name} is neither as before nor complete: {:?}", e);
        }
        for f in start.keys() {
            ensure!(now.contains_key(f) || is_tmp(f) || !end.contains_key(f), "lost", "{what}: {} is gone", String::from_utf8_lossy(f));
        }
        if let Some(b) = &before {
            // versions made before
            for v in b.made() {
                let f = format!("database/history/{}.yaml", v.name).into_bytes();
                ensure!(now.get(&f) == start.get(&f), "version-altered", "{what}: version {:?} is altered", v.name);
            }
            // what was staged
            if cmd != "reset" {
                let mut held = false;
                for (f, e) in &now {
                    if let (true, Entry::File(x)) = (f.starts_with(b"database/history/") && f.ends_with(b".yaml"), e) {
                        if let Ok(v) = serde_yaml::from_slice::<RVersion>(x) {
                            let st = b.stage();
                            let is_new = v.name == "stage" || !b.bytes.contains_key(&v.name);
                            if is_new && v.changes.starts_with(&st.changes) && v.up.starts_with(&st.up) && v.down.ends_with(&st.down) {
                                held = true;
                            }
                        }
                    }
                }
                ensure!(held, "stage-lost", "{what}: what was staged is no longer held by the stage or a version");
            }
            let d = |t: &Tree| -> Tree { t.iter().filter(|(k, _)| k.starts_with(b"database/definitions")).map(|(a, b)| (a.clone(), b.clone())).collect() };
            unchanged(&d(&start), &d(&now), &format!("{what}: definitions"))?;
        }
        // the same command again
        if cmd == "stage" || cmd == "reset" {
            let again = w.podo(&args)?;
            again.good(&format!("{what}, then {cmd} again"))?;
            let h = p.hist(&format!("{what}, then {cmd} again"))?;
            made_kept(before.as_ref().unwrap(), &h, false, &what)?;
            if cmd == "stage" {
                same_db(&defs, &replay(&h, &what)?, &format!("{what}, then stage again"))?;
                let full: Hist = {
                    restore(&p.root, &end);
                    p.hist("undisturbed")?
                };
                ensure!(full.stage().changes.len() == h.stage().changes.len(), "again-differs", "{what}, then stage again: {:?} instead of {:?}", h.stage(), full.stage());
            } else {
                ensure!(h.stage().is_empty(), "not-reset", "{what}, then reset again: {:?}", h.stage());
            }
        }
    }
    Ok(())
}

/// Cloning writes definitions: they are as before or as an undisturbed clone leaves them.
fn clone(s: &mut Src, ctx: &mut Ctx) -> Res {
    let b = crate::db::bed(s);
    let mut log = String::new();
    for i in 0..s.n(4) {
        let q = match s.n(3) {
            0 => format!("CREATE TABLE public.t{i} (id integer NOT NULL, note text DEFAULT 'it''s')"),
            1 => format!("CREATE VIEW public.t{i} AS SELECT 1"),
            _ => format!("CREATE SEQUENCE public.t{i}"),
        };
        log.push_str(&format!("{q};\n"));
        crate::db::run(b.srv.state().db_mut("app"), &q).expect("object");
    }
    let f = b.p.definitions.join("public.yaml");
    match s.n(5) {
        0 => {
            let _ = std::fs::remove_file(&f);
            log.push_str("# no file yet\n");
        }
        1 => {
            std::fs::remove_dir_all(&b.p.definitions).unwrap();
            log.push_str("# no directory yet\n");
        }
        2 => put(&f, "schema public:\n  table before:\n    column id: integer\n"),
        3 => put(&f, format!("# {}\nschema public: {{}}\n", "long ".repeat(2000))),
        _ => put(&b.p.definitions.join("other.yaml"), "schema other: {}\n"),
    }
    if b.p.definitions.is_dir() && s.chance(10) {
        put(&b.p.definitions.join("public.yaml.tmp"), "left over");
    }
    let start = b.p.tree();
    let db = b.look();
    let seed = b.w.seed.get();
    let args = ["clone"];
    let o = b.w.run(&args, &How { log: true, ..Default::default() })?;
    b.srv.settle();
    if !o.ok() {
        // the definitions have to be there already
        ensure!(!start.keys().any(|k| k == b"database/definitions"), "refused", "clone: {}", o.show());
        ctx.label("no scene");
        return Ok(());
    }
    let end = b.p.tree();
    let n = o.ops.len();
    let tries = 6.min(n);
    for _ in 0..tries {
        let k = if s.chance(65) { n - s.n(10.min(n)) } else { 1 + s.n(n) };
        let kind = *s.pick(&["kill", "torn", "eio", "enospc"]);
        restore(&b.p.root, &start);
        b.w.seed.set(seed);
        let what = format!("clone with {kind} at operation {k} of {n} ({})", o.ops[k - 1]);
        ctx.case(format!("{log}# {what}"));
        ctx.label(format!("clone {kind}"));
        ctx.label(format!("at {}", o.ops[k - 1].split(' ').next().unwrap()));
        let r = b.w.run(&args, &How { fault: Some((k, kind)), ..Default::default() })?;
        b.srv.settle();
        ctx.runs += 1;
        ctx.nontrivial = true;
        let now = b.p.tree();
        let whole = |t: &Tree| -> Tree { t.iter().filter(|(k, _)| !is_tmp(k)).map(|(a, b)| (a.clone(), b.clone())).collect() };
        if r.signal.is_none() {
            r.proper(&what)?;
            if r.ok() {
                unchanged(&whole(&end), &whole(&now), &format!("{what}: it reports success, but its work is not done"))?;
            }
        }
        for (f, e) in &now {
            if is_tmp(f) || *e == Entry::Dir {
                continue;
            }
            ensure!(start.get(f) == Some(e) || end.get(f) == Some(e), "torn", "{what}: {} is neither as before nor complete: {e:?}", String::from_utf8_lossy(f));
        }
        for f in start.keys() {
            ensure!(now.contains_key(f) || is_tmp(f), "lost", "{what}: {} is gone", String::from_utf8_lossy(f));
        }
        if let Some(d) = db.diff(&b.look()) {
            return fail("database-changed", format!("{what}: the database is not as before: {d}"));
        }
        b.w.seed.set(seed);
        b.w.podo(&args)?.good(&format!("{what}, then clone again"))?;
        b.srv.settle();
        unchanged(&whole(&end), &whole(&b.p.tree()), &format!("{what}, then clone again"))?;
    }
    Ok(())
}
