//! C09: histories that are not one chain, and ones that only look odd.
use crate::db::{bed, table_change};
use crate::files::*;
use vcore::ensure;
use vcore::pbt::*;
use vcore::world::*;

pub fn c09() -> Check {
    Check {
        id: "C09",
        level: "exploration",
        rule: "histories written by the harness, then damaged (branch, gap, cycle, lost or misnamed or unreadable or malformed file, bytes changed \
               at random) or only decorated (files that are not versions, another YAML form); what is a chain is decided by the harness's own \
               reader; every command that needs the history is run on each; non-trivial: the history was damaged or decorated",
        assumptions: vec!["unreadable files are tried when the harness can run podo as an unprivileged user"],
        parts: vec![
            Part { name: "damaged", quick: 1300, thorough: 60000, f: damaged },
            Part { name: "decorated", quick: 400, thorough: 20000, f: decorated },
            Part { name: "bytes", quick: 700, thorough: 40000, f: bytes },
            Part { name: "database", quick: 500, thorough: 25000, f: database },
        ],
        fixed: vec![],
    }
}

pub fn version(name: &str, prev: &str, i: usize) -> RVersion {
    RVersion {
        name: name.into(),
        previous: Some(prev.into()),
        changes: vec![table_change(i)],
        up: vec![format!("CREATE TABLE \"public\".\"t{i}\" (\"id\" integer{});", if i % 2 == 0 { " NOT NULL" } else { "" })],
        down: vec![format!("DROP TABLE \"public\".\"t{i}\";")],
    }
}

/// A chain of a few versions; their order on the chain has nothing to do with their names.
pub fn chain(s: &mut Src) -> Vec<RVersion> {
    let mut pool = vec!["a", "zz", "m1", "2023-x", "0", "Beta", "stage2", "init0", "é", "a b", "v1.0"];
    let mut vs = vec![RVersion::init()];
    let n = s.range(0, 5);
    let n = if s.chance(3) { s.range(9, 120) } else { n };
    for i in 0..n {
        let n = if pool.is_empty() || i > 11 { format!("{}{i}", s.pick(&["n", "", "-", "Z"])) } else { pool.remove(s.n(pool.len())).to_string() };
        let prev = vs.last().unwrap().name.clone();
        vs.push(version(&n, &prev, i));
    }
    let prev = vs.last().unwrap().name.clone();
    let mut st = RVersion::stage(&prev);
    if s.flag() {
        st = RVersion { name: "stage".into(), ..version("stage", &prev, 900) };
    }
    vs.push(st);
    vs
}

pub fn write(p: &Proj, vs: &[RVersion]) {
    for v in vs {
        p.write_version(v);
    }
}

fn file(p: &Proj, n: &str) -> std::path::PathBuf {
    p.history.join(format!("{n}.yaml"))
}
fn chmod(f: &std::path::Path, m: u32) {
    use std::os::unix::fs::PermissionsExt;
    std::fs::set_permissions(f, std::fs::Permissions::from_mode(m)).expect("chmod");
}

/// Runs the commands that need the history; none may do anything.
fn all_refuse(w: &World, p: &Proj, what: &str, ctx: &mut Ctx, s: &mut Src) -> Res {
    let t = p.tree();
    let mut cmds: Vec<&[&str]> = vec![&["stage"], &["reset"], &["make"], &["status"]];
    s.shuffle(&mut cmds);
    for c in cmds {
        let o = w.podo(c)?;
        ctx.runs += 1;
        o.bad(&format!("history with {what}: {}", c.join(" ")))?;
        unchanged(&t, &p.tree(), &format!("history with {what}: {}", c.join(" ")))?;
    }
    Ok(())
}

/// Damages a history in one place; what was done, and at which version.
fn damage(s: &mut Src, p: &Proj, vs: &[RVersion]) -> Option<(&'static str, String)> {
    let n = vs.len();
    let any = s.n(n);
    let name = vs[any].name.clone();
    let made = n - 2;
    let pick_made = |s: &mut Src| 1 + s.n(made.max(1)).min(made.saturating_sub(1));
    // or a file that is no part of the chain
    let stray = s.chance(25);
    let torn = if stray { s.pick(&["notes", "x", "0", "Stage", ".dot"]).to_string() } else { name.clone() };
    let what = match s.n(24) {
        0 => {
            let k = s.n(n - 1); // two versions after vs[k]
            p.write_version(&version("extra", &vs[k].name, 50));
            "a branch"
        }
        1 => {
            std::fs::remove_file(file(p, &name)).unwrap();
            if name == "stage" { "no stage" } else { "a missing version" }
        }
        2 => {
            let mut v = vs[0].clone();
            v.previous = Some(vs[n - 1 - s.n(n)].name.clone());
            p.write_version(&v);
            "a cycle"
        }
        3 => {
            let k = s.range(1, n - 1);
            let mut v = vs[k].clone();
            v.previous = Some(v.name.clone());
            p.write_version(&v);
            "a version that follows itself"
        }
        4 => {
            p.write_version(&version("x1", "x2", 51));
            p.write_version(&version("x2", "x1", 52));
            "a cycle beside the chain"
        }
        5 => {
            p.write_version(&version("x1", "nowhere", 51));
            "a version after a missing one"
        }
        6 => {
            put(&file(p, &torn), "");
            "an empty file"
        }
        7 => {
            let t = std::fs::read(file(p, &name)).unwrap();
            let k = s.n(t.len() - 1);
            put(&file(p, &torn), &t[..k]);
            "a truncated file"
        }
        8 => {
            let bad = *s.pick(&["[", "{", "a: b: c", "\t- x", "name: *x", "\u{0}", "- 1\n- 2\n", "5", "null", "name: stage\nprevious: init\n", "%YAML 9.9\n---\n", "&a [*a]"]);
            put(&file(p, &torn), bad);
            "a malformed file"
        }
        9 => {
            put(&file(p, &torn), [0xff, 0xfe, 0x00, 0x80]);
            "a file that is not text"
        }
        10 => {
            let mut t = serde_yaml::to_value(&vs[any]).unwrap();
            let k = *s.pick(&["name", "changes", "up", "down"]);
            match s.n(3) {
                0 => {
                    t.as_mapping_mut().unwrap().remove(k);
                }
                1 => t[k] = serde_yaml::Value::Sequence(vec![serde_yaml::Value::Sequence(vec![])]),
                _ => {
                    let mut m = serde_yaml::Mapping::new();
                    m.insert("a".into(), 1.into());
                    t[k] = m.into()
                }
            }
            put(&file(p, &name), serde_yaml::to_string(&t).unwrap());
            "a version without a required field"
        }
        11 => {
            let mut t = serde_yaml::to_value(&vs[any]).unwrap();
            let c = *s.pick(&["type: NoSuchChange\nchange: {}", "type: CreateSchemaChange\nchange: {}", "type: CreateTableChange\nchange:\n  schema: public\n  table: x", "change:\n  schema_name: x", "CreateSchemaChange", "type: CreateSchemaChange\nchange:\n  schema_name: [x]"]);
            t["changes"] = serde_yaml::Value::Sequence(vec![serde_yaml::from_str(c).unwrap()]);
            put(&file(p, &name), serde_yaml::to_string(&t).unwrap());
            "something that is not a change"
        }
        12 => {
            let to = *s.pick(&["renamed", "STAGE", "Init", "stage ", "zzz"]);
            std::fs::rename(file(p, &name), file(p, to)).unwrap();
            "a file named unlike its version"
        }
        13 => {
            let mut v = vs[any].clone();
            v.name = s.pick(&["other", "", "stage2x", "../stage"]).to_string();
            put(&file(p, &name), serde_yaml::to_string(&v).unwrap());
            "a version named unlike its file"
        }
        14 if unprivileged() => {
            chmod(&file(p, &name), 0o000);
            "an unreadable file"
        }
        15 => {
            std::fs::remove_file(file(p, &name)).unwrap();
            std::os::unix::fs::symlink("nowhere.yaml", file(p, &name)).unwrap();
            "a dangling link"
        }
        16 if made > 0 => {
            let k = pick_made(s);
            let mut v = vs[k].clone();
            v.previous = None;
            p.write_version(&v);
            "a version without a predecessor"
        }
        17 => {
            p.write_version(&version("late", "stage", 53));
            "a version after the stage"
        }
        18 => {
            let mut v = vs[n - 1].clone();
            v.previous = if s.flag() { None } else { Some("nowhere".into()) };
            p.write_version(&v);
            "a stage after no version"
        }
        19 if made > 0 => {
            // the stage is not at the end
            let k = s.n(made);
            let mut v = vs[n - 1].clone();
            v.previous = Some(vs[k].name.clone());
            p.write_version(&v);
            "a stage that follows an earlier version"
        }
        20 if made > 1 => {
            // two neighbours follow each other
            let k = s.range(1, made - 1);
            let mut v = vs[k].clone();
            v.previous = Some(vs[k + 1].name.clone());
            p.write_version(&v);
            "two versions that follow each other"
        }
        21 => {
            let mut v = vs[any].clone();
            v.name = "copy".into();
            p.write_version(&v);
            if any == 0 { "two initial versions" } else { "a copy of a version" }
        }
        22 => {
            std::fs::remove_dir_all(&p.history).unwrap();
            match s.n(3) {
                0 => "no directory",
                1 => {
                    put(&p.history, "a file");
                    "a file for a directory"
                }
                _ => {
                    std::fs::create_dir(&p.history).unwrap();
                    "nothing in it"
                }
            }
        }
        23 => {
            let mut t = std::fs::read_to_string(file(p, &name)).unwrap();
            match s.n(3) {
                0 => t.push_str("name: again\n"),
                1 => t.push_str("---\nname: second\n"),
                _ => t = format!("{}{}", "[".repeat(3000), t),
            }
            put(&file(p, &name), t);
            "a malformed file"
        }
        _ => {
            p.write_version(&version("extra", "init", 50));
            if made == 0 && vs[1].previous.as_deref() != Some("init") {
                return None;
            }
            "a branch at the start"
        }
    };
    Some((what, if torn != name && matches!(what, "an empty file" | "a malformed file" | "a file that is not text" | "a truncated file") { torn } else { name }))
}

fn damaged(s: &mut Src, ctx: &mut Ctx) -> Res {
    let w = World::new(s);
    let p = w.project(NOWHERE);
    let vs = chain(s);
    write(&p, &vs);
    let (what, name) = match damage(s, &p, &vs) {
        Some(x) => x,
        None => return Ok(()),
    };
    ctx.case(format!("chain {:?}, damaged at {name:?}: {what}", vs.iter().map(|v| &v.name).collect::<Vec<_>>()));
    ctx.label(what);
    // by the harness's own reader it is no chain
    if p.read_history().is_ok() {
        ctx.label("(still a chain)");
        return Ok(());
    }
    ctx.nontrivial = true;
    all_refuse(&w, &p, what, ctx, s)
}

/// The database is not touched on account of a history that is no chain.
fn database(s: &mut Src, ctx: &mut Ctx) -> Res {
    let b = bed(s);
    let vs = chain(s);
    write(&b.p, &vs);
    let made = vs.len() - 1;
    let at = s.n(made);
    if at > 0 || s.chance(30) {
        b.podo(&["up", &format!("--version={}", vs[at].name)])?.proper("up")?;
    }
    let (what, name) = match damage(s, &b.p, &vs) {
        Some(x) => x,
        None => return Ok(()),
    };
    ctx.case(format!("chain {:?}, database at {:?} (log in {:?}), damaged at {name:?}: {what}", vs.iter().map(|v| &v.name).collect::<Vec<_>>(), vs[at].name, b.meta));
    ctx.label(what);
    if b.p.read_history().is_ok() {
        ctx.label("(still a chain)");
        return Ok(());
    }
    ctx.nontrivial = true;
    let t = b.p.tree();
    let before = b.look();
    for _ in 0..s.range(1, 3) {
        let mut args = vec!["up".to_string()];
        if s.flag() {
            let mut to: Vec<&str> = vs.iter().map(|v| &v.name[..]).collect();
            to.extend(["extra", "x1", "late", "nowhere"]);
            args.push(format!("--version={}", s.pick(&to)));
        }
        if s.chance(20) {
            args = vec!["status".into()];
        }
        let a: Vec<&str> = args.iter().map(|x| &x[..]).collect();
        let o = b.podo(&a)?;
        ctx.runs += 1;
        let what = format!("history with {what}: {}", args.join(" "));
        o.bad(&what)?;
        unchanged(&t, &b.p.tree(), &what)?;
        if let Some(d) = before.diff(&b.look()) {
            return fail("database-changed", format!("{what}: the database is not as before: {d}"));
        }
    }
    Ok(())
}

/// Files that are not versions make no difference, nor does the YAML form of those that are.
fn decorated(s: &mut Src, ctx: &mut Ctx) -> Res {
    let w = World::new(s);
    let p = w.project(NOWHERE);
    let vs = chain(s);
    write(&p, &vs);
    let mut log = format!("chain {:?}", vs.iter().map(|v| &v.name).collect::<Vec<_>>());
    for _ in 0..s.range(1, 4) {
        let any = s.pick(&vs).clone();
        let what = match s.n(10) {
            0 => {
                put(&p.history.join("notes.txt"), "not: [yaml");
                "a text file"
            }
            1 => {
                put(&p.history.join(s.pick(&["x.yml", "x.YAML", "yaml", "x.yaml.bak", "x.yaml~", "stage.yaml.tmp", ".yamlx", "x.json", "x.yaml.yaml.old"])), "[");
                "another extension"
            }
            2 => {
                put(&p.history.join("dir.yaml").join("x.yaml"), "[");
                "a directory named like a version"
            }
            3 => {
                put(&p.history.join("sub").join("stage.yaml"), "[");
                "a directory"
            }
            4 => {
                put(&p.history.join(os(b"\xff\xfe.yaml")), "[");
                "a name that is not text"
            }
            5 => {
                put(&file(&p, &any.name), serde_json::to_string(&any).unwrap());
                "a version in flow form"
            }
            6 => {
                put(&file(&p, &any.name), format!("# comment\n---\n{}", serde_yaml::to_string(&any).unwrap()));
                "a comment"
            }
            7 => {
                let v = serde_yaml::to_value(&any).unwrap();
                let mut m = serde_yaml::Mapping::new();
                let mut items: Vec<_> = v.as_mapping().unwrap().iter().collect();
                items.reverse();
                for (k, x) in items {
                    m.insert(k.clone(), x.clone());
                }
                put(&file(&p, &any.name), serde_yaml::to_string(&m).unwrap());
                "keys in another order"
            }
            8 => {
                put(&file(&p, &any.name), serde_yaml::to_string(&any).unwrap().replace('\n', "\r\n"));
                "other line ends"
            }
            _ => {
                put(&p.history.join(s.pick(&[".gitkeep", ".gitignore", "README.md", "init", "stage"])), "");
                "a hidden file"
            }
        };
        log.push_str(&format!(" + {what} ({:?})", any.name));
        ctx.label(what);
    }
    let h = match p.read_history() {
        Ok(h) => h,
        Err(_) => return Ok(()),
    };
    ctx.case(&log);
    ctx.nontrivial = true;
    let keep = |t: Tree| -> Tree { t.into_iter().filter(|(k, _)| !k.ends_with(b".tmp") && (!k.starts_with(b"database/history/") || !h.bytes.keys().any(|n| *k == format!("database/history/{n}.yaml").into_bytes()))).collect() };
    let t = keep(p.tree());
    let full = p.tree();
    w.podo(&["status"])?.good(&format!("{log}: status"))?;
    unchanged(&full, &p.tree(), "status")?;
    let cmd = *s.pick(&["stage", "reset", "make"]);
    w.podo(&[cmd])?.good(&format!("{log}: {cmd}"))?;
    ctx.runs += 2;
    let after = p.hist(cmd)?;
    made_kept(&h, &after, cmd == "make", &format!("{log}: {cmd}"))?;
    let t2: Tree = keep(p.tree()).into_iter().filter(|(k, _)| t.contains_key(k) || !k.starts_with(b"database/history/")).collect();
    unchanged(&t, &t2, &format!("{log}: {cmd}"))?;
    match cmd {
        "stage" => {
            let mut d = RVersion::init_db();
            d.schemas.get_mut("public").unwrap().rels.clear();
            same_db(&d, &replay(&after, "stage")?, &format!("{log}: stage"))?;
        }
        "reset" => ensure!(after.stage().is_empty(), "not-reset", "{log}: reset leaves {:?}", after.stage()),
        _ => check_make(&h, &after, &full, &p.tree(), None, &format!("{log}: make"))?,
    }
    Ok(())
}

/// Bytes of the files changed at random.
fn bytes(s: &mut Src, ctx: &mut Ctx) -> Res {
    let w = World::new(s);
    let p = w.project(NOWHERE);
    let vs = chain(s);
    write(&p, &vs);
    for _ in 0..s.range(1, 3) {
        let v = s.pick(&vs).clone();
        let mut t = std::fs::read(file(&p, &v.name)).unwrap();
        let k = s.n(t.len());
        match s.n(5) {
            0 => {
                t.remove(k);
            }
            1 => t[k] = *s.pick(b" \n:-'\"[]{}#&*!|>%@`\t\0\xff0aZ~?,.") as u8,
            2 => t.insert(k, *s.pick(b" \n:-'\"[]{}#&*!|>%@`\t\0\xff0aZ~?,.") as u8),
            3 => {
                let j = (k + s.range(1, 40)).min(t.len());
                t.drain(k..j);
            }
            _ => {
                let j = (k + s.range(1, 40)).min(t.len());
                let part = t[k..j].to_vec();
                let at = s.n(t.len());
                t.splice(at..at, part);
            }
        }
        put(&file(&p, &v.name), &t);
        ctx.case(format!("{:?}: {}", v.name, String::from_utf8_lossy(&t)));
        if t.is_empty() {
            break;
        }
    }
    ctx.nontrivial = true;
    match p.read_history() {
        Err(_) => {
            ctx.label("no chain");
            all_refuse(&w, &p, "bytes changed", ctx, s)
        }
        Ok(h) => {
            ctx.label("still a chain");
            for cmd in ["status", "stage", "make", "reset"] {
                let t = p.tree();
                let o = w.podo(&[cmd])?;
                ctx.runs += 1;
                o.proper(cmd)?;
                if !o.ok() {
                    unchanged(&t, &p.tree(), cmd)?;
                }
                made_kept(&h, &p.hist(cmd)?, true, cmd)?;
            }
            Ok(())
        }
    }
}
