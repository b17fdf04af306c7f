//! C16, with podo's own reading of what was cloned.
#![allow(dead_code)]
#[path = "../cli/clone.rs"]
mod clone;
#[path = "../inproc/convert.rs"]
mod convert;
#[path = "../cli/db.rs"]
mod db;
#[path = "../cli/files.rs"]
mod files;

fn main() {
    std::process::exit(vcore::pbt::main_run(clone::c16()))
}
