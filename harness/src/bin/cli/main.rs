//! Checks that run the podo binary in scratch projects.
#[cfg(not(feature = "inproc"))]
mod clone;
mod conc;
mod db;
mod defs;
mod ends;
mod fault;
mod files;
mod hist;
mod mig;
mod prof;
mod proj;
mod srvfail;
mod status;
use vcore::pbt::Check;

fn check(id: &str) -> Option<Check> {
    match id {
        "C24" => Some(conc::c24()),
        #[cfg(not(feature = "inproc"))]
        "C02" => Some(clone::c02()),
        #[cfg(not(feature = "inproc"))]
        "C16" => Some(clone::c16()),
        "C07" => Some(files::c07()),
        "C08" => Some(files::c08()),
        "C09" => Some(hist::c09()),
        "C10" => Some(mig::c10()),
        "C11" => Some(mig::c11()),
        "C12" => Some(fault::c12()),
        "C20" => Some(status::c20()),
        "C13" => Some(mig::c13()),
        "C15" => Some(defs::c15()),
        "C17" => Some(defs::c17()),
        "C18" => Some(proj::c18()),
        "C19" => Some(proj::c19()),
        "C21" => Some(proj::c21()),
        _ => ends::check(id),
    }
}

fn main() {
    let id = std::env::args().nth(1).expect("usage: cli <property> [--replay FILE]");
    let check = check(&id).unwrap_or_else(|| {
        eprintln!("no check for {id}");
        std::process::exit(2)
    });
    std::process::exit(vcore::pbt::main_run(check));
}
