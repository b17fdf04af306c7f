pub mod pbt;
pub mod model;
pub mod refchange;
pub mod gen;
pub mod yaml;
pub mod anychange;
pub mod damage;
pub mod sqltext;
pub mod ddl;
pub mod world;
pub mod query;
pub mod sqldb;
pub mod catalog;
pub mod pgsrv;
pub mod probe;
