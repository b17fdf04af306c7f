use crate::convert::*;
use podo::verif_api::definition as pd;
use podo::verif_api::snapshot as ps;
use vcore::gen::*;
use vcore::model::*;
use vcore::pbt::*;
use vcore::refchange::*;
use vcore::{ensure, yaml};

mod c14;
mod chg;
mod load;
mod sql;

pub fn check(id: &str) -> Option<Check> {
    let mut c = match id {
        "C01" => load::c01(),
        "C03" => chg::c03(),
        "C04" => chg::c04(),
        "C05" => chg::c05(),
        "C06" => sql::c06(),
        "C14" => c14::c14(),
        "C22" => chg::c22(),
        "C23" => chg::c23(),
        _ => return None,
    };
    c.parts.extend(crate::ends::parts(id));
    Some(c)
}

/// Loads a definition text: podo's verdict, as a model.
pub fn load(text: &str) -> Result<Result<Db, String>, Fail> {
    match guarded("loading", || pd::load_yaml_string(text))? {
        Ok(d) => match from_podo(&d) {
            Ok(m) => Ok(Ok(m)),
            Err(e) => fail("inconsistent", e),
        },
        Err(e) => Ok(Err(guarded("the error's message", || e.to_string())?)),
    }
}

pub fn model(d: &ps::Database) -> Result<Db, Fail> {
    match from_podo(d) {
        Ok(m) => Ok(m),
        Err(e) => fail("inconsistent", e),
    }
}

