//! Whether the server model understands the statements podo makes on its own account at all.
//!
//! The model reads a part of PostgreSQL's SQL that is wider than what podo uses, but a part. Where podo was rewritten to ask for
//! the same in words the model does not have, nothing can be said about it, so the cases with a server are passed over. This is
//! found out with the plainest use there is, before any case: a podo that gets this far is judged by all of them.
use crate::pgsrv::{Event, Server};
use crate::sqldb::Engine;
use crate::world::*;
use crate::pbt::Src;
use std::sync::OnceLock;

pub const OUTSIDE: &str = "podo speaks to the server in SQL that the model does not have";
pub const UNSUPPORTED: &str = "not supported by this server";

pub fn outside() -> Option<String> {
    static X: OnceLock<Option<String>> = OnceLock::new();
    X.get_or_init(|| {
        let x = probe();
        if let Some(e) = &x {
            eprintln!("note: {OUTSIDE}: {e}");
        }
        x
    })
    .clone()
}

fn beyond(code: &str, sql: &str) -> bool {
    matches!(code, "42601" | "0A000" | "42883" | "42704" | "XX000") || matches!(code, "42703" | "42P01" | "3F000") && (sql.contains("pg_") || sql.contains("information_schema"))
}

fn probe() -> Option<String> {
    let w = World::new(&mut Src::random(0));
    let srv = Server::plain();
    let p = w.project(&srv.url("app"));
    let mut v = RVersion::stage("init");
    v.name = "first".into();
    v.up = vec!["CREATE TABLE public.t (id INTEGER NOT NULL)".into()];
    v.down = vec!["DROP TABLE public.t".into()];
    p.write_version(&v);
    p.write_version(&RVersion::stage("first"));
    srv.state().put_db("app", Engine::new(&RVersion::init_db()));
    for cmd in ["status", "up", "status", "up", "clone", "down", "status", "up", "clone"] {
        srv.state().fresh();
        let o = w.podo(&[cmd]).ok()?;
        srv.settle();
        if !o.ok() {
            let st = srv.state();
            return st.log.iter().find_map(|e| match e {
                Event::Stmt { sql, result: Err(c), .. } if beyond(c, sql) => Some(format!("{c}: {sql}")),
                _ => None,
            });
        }
    }
    None
}
