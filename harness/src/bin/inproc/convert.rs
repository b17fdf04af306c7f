//! Between podo's snapshot and the model.
use podo::verif_api::snapshot as p;
use vcore::model::*;
use vcore::refchange::RChange;

/// Building a snapshot goes through the operations under test: where they refuse a valid one, that is a failure of theirs.
fn refused<T>(what: &str, e: impl std::fmt::Debug) -> T {
    panic!("{}: {what}: {e:?}", vcore::pbt::REFUSES)
}

pub fn to_podo(db: &Db) -> p::Database {
    let mut d = p::Database::new();
    for (sn, sc) in &db.schemas {
        let mut s = p::Schema::new(sn);
        for (rn, r) in &sc.rels {
            let rel: p::Relation = match r {
                Rel::Table(t) => {
                    let mut x = p::Table::new(sn, rn);
                    for c in &t.cols {
                        x.add_column(p::Column {
                            schema_name: sn.clone(),
                            table_name: rn.clone(),
                            name: c.name.clone(),
                            data_type: c.ty.clone(),
                            not_null: c.not_null,
                            default: c.default.clone(),
                        })
                        .unwrap_or_else(|e| refused("column", e));
                    }
                    for (n, c) in &t.cons {
                        let (schema_name, table_name, name) = (sn.clone(), rn.clone(), n.clone());
                        x.add_constraint(match c.clone() {
                            Con::Pk(k) => p::Constraint::PrimaryKey(p::PrimaryKey {
                                schema_name, table_name, name, columns: k.cols, deferrable: k.deferrable, initially_deferred: k.deferred,
                            }),
                            Con::Unique(k) => p::Constraint::Unique(p::Unique {
                                schema_name, table_name, name, columns: k.cols, deferrable: k.deferrable, initially_deferred: k.deferred,
                            }),
                            Con::Check(k) => p::Constraint::Check(p::Check {
                                schema_name, table_name, name, expression: k.expr, deferrable: k.deferrable, initially_deferred: k.deferred,
                            }),
                            Con::Fk(f) => p::Constraint::ForeignKey(p::ForeignKey {
                                schema_name, table_name, name, columns: f.cols, target_schema: f.tschema, target_table: f.ttable,
                                target_columns: f.tcols, match_option: f.mat, update_rule: f.upd, delete_rule: f.del,
                                deferrable: f.deferrable, initially_deferred: f.deferred,
                            }),
                        })
                        .unwrap_or_else(|e| refused("constraint", e));
                    }
                    p::Relation::Table(x)
                }
                Rel::View(v) => p::Relation::View(p::View { schema_name: sn.clone(), name: rn.clone(), query: v.query.clone() }),
                Rel::Index(i) => p::Relation::Index(p::Index {
                    schema_name: sn.clone(), name: rn.clone(), table_name: i.table.clone(), unique: i.unique, method: i.method.clone(),
                    key_expressions: i.keys.clone(),
                }),
                Rel::Seq(q) => p::Relation::Sequence(p::Sequence {
                    schema_name: sn.clone(), name: rn.clone(), data_type: q.ty.clone(), increment: q.inc, min_value: q.min, max_value: q.max,
                    start: q.start, cache: q.cache, cycle: q.cycle,
                    owned_by_table: q.owned.as_ref().map(|o| o.0.clone()),
                    owned_by_column: q.owned.as_ref().map(|o| o.1.clone()),
                }),
            };
            s.add_relation(rel).unwrap_or_else(|e| refused("relation", e));
        }
        for (n, f) in &sc.funcs {
            s.add_function(p::Function {
                schema_name: sn.clone(), name: n.clone(), body: f.body.clone(), language: f.lang.clone(), returns: f.returns.clone(),
                volatility: f.vol.clone(),
            })
            .unwrap_or_else(|e| refused("function", e));
        }
        d.add_schema(s).unwrap_or_else(|e| refused("schema", e));
    }
    d
}

/// The model of a snapshot, or what in it contradicts itself (an object that names another place than it is in).
pub fn from_podo(d: &p::Database) -> Result<Db, String> {
    let mut db = Db::default();
    for s in d.iter_schemas() {
        let sn = s.name.clone();
        let mut sc = Schema::default();
        for r in s.iter_relations() {
            let here = |a: &str, what: &str, n: &str| if a == sn { Ok(()) } else { Err(format!("{what} {n:?} of schema {sn:?} says it is in {a:?}")) };
            let (n, rel) = match r {
                p::Relation::Table(t) => {
                    here(&t.schema_name, "table", &t.name)?;
                    let mut x = Table::default();
                    for c in t.iter_columns() {
                        here(&c.schema_name, "column", &c.name)?;
                        if c.table_name != t.name {
                            return Err(format!("column {:?} of {:?} says it is of {:?}", c.name, t.name, c.table_name));
                        }
                        x.cols.push(Col { name: c.name.clone(), ty: c.data_type.clone(), not_null: c.not_null, default: c.default.clone() });
                    }
                    for c in t.iter_constraints() {
                        let (cs, ct, cn, con) = match c {
                            p::Constraint::PrimaryKey(k) => (&k.schema_name, &k.table_name, &k.name,
                                Con::Pk(Key { cols: k.columns.clone(), deferrable: k.deferrable, deferred: k.initially_deferred })),
                            p::Constraint::Unique(k) => (&k.schema_name, &k.table_name, &k.name,
                                Con::Unique(Key { cols: k.columns.clone(), deferrable: k.deferrable, deferred: k.initially_deferred })),
                            p::Constraint::Check(k) => (&k.schema_name, &k.table_name, &k.name,
                                Con::Check(CheckCon { expr: k.expression.clone(), deferrable: k.deferrable, deferred: k.initially_deferred })),
                            p::Constraint::ForeignKey(f) => (&f.schema_name, &f.table_name, &f.name,
                                Con::Fk(Fk {
                                    cols: f.columns.clone(), tschema: f.target_schema.clone(), ttable: f.target_table.clone(),
                                    tcols: f.target_columns.clone(), mat: f.match_option.clone(), upd: f.update_rule.clone(),
                                    del: f.delete_rule.clone(), deferrable: f.deferrable, deferred: f.initially_deferred,
                                })),
                        };
                        here(cs, "constraint", cn)?;
                        if *ct != t.name {
                            return Err(format!("constraint {cn:?} of {:?} says it is of {ct:?}", t.name));
                        }
                        if x.cons.insert(cn.clone(), con).is_some() {
                            return Err(format!("constraint {cn:?} of {:?} is there twice", t.name));
                        }
                    }
                    (t.name.clone(), Rel::Table(x))
                }
                p::Relation::View(v) => {
                    here(&v.schema_name, "view", &v.name)?;
                    (v.name.clone(), Rel::View(View { query: v.query.clone() }))
                }
                p::Relation::Index(i) => {
                    here(&i.schema_name, "index", &i.name)?;
                    (i.name.clone(), Rel::Index(Index { table: i.table_name.clone(), unique: i.unique, method: i.method.clone(), keys: i.key_expressions.clone() }))
                }
                p::Relation::Sequence(q) => {
                    here(&q.schema_name, "sequence", &q.name)?;
                    let owned = match (&q.owned_by_table, &q.owned_by_column) {
                        (Some(a), Some(b)) => Some((a.clone(), b.clone())),
                        (None, None) => None,
                        x => return Err(format!("sequence {:?} is half owned: {x:?}", q.name)),
                    };
                    (q.name.clone(), Rel::Seq(Seq {
                        ty: q.data_type.clone(), inc: q.increment, min: q.min_value, max: q.max_value, start: q.start, cache: q.cache, cycle: q.cycle, owned,
                    }))
                }
            };
            if sc.rels.insert(n.clone(), rel).is_some() {
                return Err(format!("relation {n:?} is there twice"));
            }
            if s.get_relation(&n).is_err() {
                return Err(format!("relation {n:?} is not found under its name"));
            }
        }
        for f in s.iter_functions() {
            if f.schema_name != sn {
                return Err(format!("function {:?} of {sn:?} says it is in {:?}", f.name, f.schema_name));
            }
            sc.funcs.insert(f.name.clone(), Func { body: f.body.clone(), lang: f.language.clone(), returns: f.returns.clone(), vol: f.volatility.clone() });
        }
        if db.schemas.insert(sn.clone(), sc).is_some() {
            return Err(format!("schema {sn:?} is there twice"));
        }
    }
    Ok(db)
}

pub fn change_to_podo(c: &RChange) -> Result<p::changes::Change, String> {
    let v = serde_json::to_value(c).expect("harness: change");
    serde_json::from_value(v).map_err(|e| e.to_string())
}

pub fn change_from_podo(c: &p::changes::Change) -> Result<RChange, String> {
    let v = serde_json::to_value(c).map_err(|e| e.to_string())?;
    serde_json::from_value(v.clone()).map_err(|e| format!("{e}: {v}"))
}
