//! Checks that call podo's definition and snapshot modules in process (hook: --cfg podo_verif).
#![allow(dead_code)]
mod checks;
mod convert;
#[path = "../cli/db.rs"]
mod db;
#[path = "../cli/ends.rs"]
mod ends;
#[path = "../cli/files.rs"]
mod files;
fn main() {
    let id = std::env::args().nth(1).expect("usage: inproc <property> [--replay FILE]");
    let check = checks::check(&id).unwrap_or_else(|| {
        eprintln!("no in-process check for {id}");
        std::process::exit(2)
    });
    std::process::exit(vcore::pbt::main_run(check));
}
