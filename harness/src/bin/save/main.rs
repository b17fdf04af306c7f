//! C02: what is saved as a definition file loads as the same database.
#![allow(dead_code)]
#[path = "../cli/clone.rs"]
mod clone;
#[path = "../inproc/convert.rs"]
mod convert;
#[path = "../cli/db.rs"]
mod db;
#[path = "../cli/files.rs"]
mod files;
use convert::*;
use podo::verif_api::definition as pd;
use vcore::gen::*;
use vcore::model::*;
use vcore::pbt::*;
use vcore::{ensure, yaml};

fn main() {
    std::process::exit(main_run(Check {
        id: "C02",
        level: "exploration",
        rule: "random databases (every kind of object, attributes at and away from their defaults, quirky names, random free texts and boundary \
               numbers), built as snapshots, saved by podo as a definition file, loaded by podo and compared; overwrite: the file was there \
               before, holding another database; program: random databases cloned by the podo binary, and what it saved staged by it; non-trivial: the database holds a table and five objects",
        assumptions: vec![
            "names begin and end with non-blank characters, foreign keys point to names without dots, column types hold no = or !, \
             function bodies and the like any text (documented limits of the definition format)",
        ],
        parts: vec![
            Part { name: "snapshots", quick: 14000, thorough: 300000, f: snapshots },
            Part { name: "free-texts", quick: 10000, thorough: 250000, f: free_texts },
            Part { name: "overwrite", quick: 2000, thorough: 50000, f: overwrite },
            clone::saved(),
        ],
        fixed: vec![],
    }))
}

fn file(k: &str) -> std::path::PathBuf {
    use std::sync::atomic::*;
    static N: AtomicU64 = AtomicU64::new(0);
    static ROOT: std::sync::OnceLock<std::path::PathBuf> = std::sync::OnceLock::new();
    ROOT.get_or_init(scratch_dir).join(format!("{k}{}.yaml", N.fetch_add(1, Ordering::Relaxed)))
}

fn round(db: &Db, path: &std::path::Path) -> Res {
    let d = to_podo(db);
    if let Err(e) = guarded("saving", || pd::save_snapshot(path, &d).map_err(|e| e.to_string()))? {
        return fail("save-refused", format!("saving fails: {e}"));
    }
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => return fail("no-file", format!("no file was written: {e}")),
    };
    match guarded("loading", || pd::load_yaml_string(&text).map_err(|e| e.to_string()))? {
        Err(e) => fail("load-refused", format!("what was saved does not load: {e}\n{text}")),
        Ok(x) => {
            match from_podo(&x) {
                Ok(m) => ensure!(m == *db, "differs", "what was saved loads differently: {}\n{text}", describe_diff(db, &m)),
                Err(e) => return fail("inconsistent", e),
            }
            ensure!(x == d, "differs", "what was saved loads as another snapshot\n{text}");
            Ok(())
        }
    }
}

fn note(db: &Db, ctx: &mut Ctx) {
    ctx.case(yaml::simple(db));
    labels(db, &mut ctx.labels);
    ctx.nontrivial = !db.tables().is_empty() && db.objects() >= 5;
}

fn snapshots(s: &mut Src, ctx: &mut Ctx) -> Res {
    let db = gen_db(s, &Opts::pure());
    note(&db, ctx);
    let p = file("a");
    let r = round(&db, &p);
    let _ = std::fs::remove_file(&p);
    r
}

fn free_texts(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut db = gen_db(s, &Opts::pure());
    with_free_texts(s, &mut db);
    note(&db, ctx);
    let p = file("b");
    let r = round(&db, &p);
    let _ = std::fs::remove_file(&p);
    r
}

fn overwrite(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (a, b, _) = gen_pair(s, &Opts::pure());
    note(&b, ctx);
    let p = file("c");
    let r = round(&a, &p).and_then(|_| round(&b, &p));
    let _ = std::fs::remove_file(&p);
    r
}
