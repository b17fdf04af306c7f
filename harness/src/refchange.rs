//! Reference meaning of the changes a version records, written from their names and fields.
use crate::model::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(tag = "type", content = "change")]
pub enum RChange {
    #[serde(rename = "CreateSchemaChange")]
    CreateSchema { schema_name: String },
    #[serde(rename = "DropSchemaChange")]
    DropSchema { schema_name: String },
    #[serde(rename = "CreateTableChange")]
    CreateTable { schema: String, table: String, columns: Vec<RCol> },
    #[serde(rename = "DropTableChange")]
    DropTable { schema: String, table: String },
    #[serde(rename = "AddColumnChange")]
    AddColumn { schema: String, table: String, column: String, data_type: String, not_null: bool, default: Option<String> },
    #[serde(rename = "DropColumnChange")]
    DropColumn { schema: String, table: String, column: String },
    #[serde(rename = "RenameColumnChange")]
    RenameColumn { from_schema: String, from_table: String, from_column: String, to_column: String },
    #[serde(rename = "AlterColumnSetDataTypeChange")]
    AlterColumnSetDataType { schema: String, table: String, column: String, data_type: String },
    #[serde(rename = "AlterColumnSetNotNullChange")]
    AlterColumnSetNotNull { schema: String, table: String, column: String, not_null: bool },
    #[serde(rename = "AlterColumnSetDefaultChange")]
    AlterColumnSetDefault { schema: String, table: String, column: String, default: Option<String> },
    #[serde(rename = "AddPrimaryKeyChange")]
    AddPrimaryKey { schema: String, table: String, constraint: String, columns: Vec<String>, deferrable: bool, initially_deferred: bool },
    #[serde(rename = "AlterPrimaryKeyChange")]
    AlterPrimaryKey { schema: String, table: String, constraint: String, deferrable: bool, initially_deferred: bool },
    #[serde(rename = "DropPrimaryKeyChange")]
    DropPrimaryKey { schema: String, table: String, constraint: String },
    #[serde(rename = "AddUniqueChange")]
    AddUnique { schema: String, table: String, constraint: String, columns: Vec<String>, deferrable: bool, initially_deferred: bool },
    #[serde(rename = "AlterUniqueChange")]
    AlterUnique { schema: String, table: String, constraint: String, deferrable: bool, initially_deferred: bool },
    #[serde(rename = "DropUniqueChange")]
    DropUnique { schema: String, table: String, constraint: String },
    #[serde(rename = "AddCheckChange")]
    AddCheck { schema: String, table: String, constraint: String, expression: String, deferrable: bool, initially_deferred: bool },
    #[serde(rename = "AlterCheckChange")]
    AlterCheck { schema: String, table: String, constraint: String, deferrable: bool, initially_deferred: bool },
    #[serde(rename = "DropCheckChange")]
    DropCheck { schema: String, table: String, constraint: String },
    #[serde(rename = "AddForeignKeyChange")]
    AddForeignKey {
        schema: String, table: String, constraint: String, columns: Vec<String>, target_schema: String, target_table: String,
        target_columns: Vec<String>, match_option: String, update_rule: String, delete_rule: String, deferrable: bool, initially_deferred: bool,
    },
    #[serde(rename = "AlterForeignKeyChange")]
    AlterForeignKey { schema: String, table: String, constraint: String, deferrable: bool, initially_deferred: bool },
    #[serde(rename = "DropForeignKeyChange")]
    DropForeignKey { schema: String, table: String, constraint: String },
    #[serde(rename = "CreateIndexChange")]
    CreateIndex { schema: String, table: String, index: String, unique: bool, method: String, key_expressions: Vec<String> },
    #[serde(rename = "DropIndexChange")]
    DropIndex { schema: String, index: String },
    #[serde(rename = "CreateViewChange")]
    CreateView { schema: String, view: String, query: String },
    #[serde(rename = "DropViewChange")]
    DropView { schema: String, view: String },
    #[serde(rename = "CreateSequenceChange")]
    CreateSequence {
        schema: String, sequence: String, data_type: String, increment: i64, min_value: i64, max_value: i64, start: i64, cache: i64, cycle: bool,
    },
    #[serde(rename = "DropSequenceChange")]
    DropSequence { schema: String, sequence: String },
    #[serde(rename = "CreateFunctionChange")]
    CreateFunction { schema: String, function: String, body: String, language: String, returns: String, volatility: String },
    #[serde(rename = "DropFunctionChange")]
    DropFunction { schema: String, function: String },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct RCol {
    pub name: String,
    pub data_type: String,
    pub not_null: bool,
    pub default: Option<String>,
}

/// Why a change does not apply, and the name of the object that stands in its way.
#[derive(Clone, Debug)]
pub struct Refusal {
    pub name: String,
    pub why: String,
}

fn no(name: &str, why: &str) -> Refusal {
    Refusal { name: name.to_string(), why: why.to_string() }
}
fn e<T>(name: &str, why: &str) -> Result<T, Refusal> {
    Err(no(name, why))
}

fn schema<'a>(db: &'a mut Db, s: &str) -> Result<&'a mut Schema, Refusal> {
    db.schemas.get_mut(s).ok_or(no(s, "schema not found"))
}
fn rel<'a>(db: &'a mut Db, s: &str, r: &str) -> Result<&'a mut Rel, Refusal> {
    schema(db, s)?.rels.get_mut(r).ok_or(no(r, "relation not found"))
}
fn table<'a>(db: &'a mut Db, s: &str, t: &str) -> Result<&'a mut Table, Refusal> {
    rel(db, s, t)?.table_mut().ok_or(no(t, "not a table"))
}
fn col<'a>(db: &'a mut Db, s: &str, t: &str, c: &str) -> Result<&'a mut Col, Refusal> {
    table(db, s, t)?.col_mut(c).ok_or(no(c, "column not found"))
}
fn con<'a>(db: &'a mut Db, s: &str, t: &str, c: &str, kind: &str) -> Result<&'a mut Con, Refusal> {
    let x = table(db, s, t)?.cons.get_mut(c).ok_or(no(c, "constraint not found"))?;
    if x.kind() != kind {
        return e(c, "constraint of another kind");
    }
    Ok(x)
}
fn add_rel(db: &mut Db, s: &str, r: &str, x: Rel) -> Result<(), Refusal> {
    let sc = schema(db, s)?;
    if sc.rels.contains_key(r) {
        return e(r, "relation exists");
    }
    sc.rels.insert(r.to_string(), x);
    Ok(())
}
fn drop_rel(db: &mut Db, s: &str, r: &str, kind: &str) -> Result<(), Refusal> {
    if rel(db, s, r)?.kind() != kind {
        return e(r, "relation of another kind");
    }
    schema(db, s)?.rels.remove(r);
    Ok(())
}
fn add_con(db: &mut Db, s: &str, t: &str, c: &str, x: Con) -> Result<(), Refusal> {
    let tb = table(db, s, t)?;
    if tb.cons.contains_key(c) {
        return e(c, "constraint exists");
    }
    tb.cons.insert(c.to_string(), x);
    Ok(())
}
fn drop_con(db: &mut Db, s: &str, t: &str, c: &str, kind: &str) -> Result<(), Refusal> {
    con(db, s, t, c, kind)?;
    table(db, s, t)?.cons.remove(c);
    Ok(())
}

impl RChange {
    pub fn name(&self) -> String {
        let v = serde_json::to_value(self).unwrap();
        v["type"].as_str().unwrap().to_string()
    }

    /// Applies the change, or refuses it without effect.
    pub fn apply(&self, db: &mut Db) -> Result<(), Refusal> {
        use RChange::*;
        match self {
            CreateSchema { schema_name } => {
                if db.schemas.contains_key(schema_name) {
                    return e(schema_name, "schema exists");
                }
                db.schemas.insert(schema_name.clone(), Schema::default());
            }
            DropSchema { schema_name } => {
                schema(db, schema_name)?;
                db.schemas.remove(schema_name);
            }
            CreateTable { schema: s, table: t, columns } => {
                schema(db, s)?;
                let mut tb = Table::default();
                for c in columns {
                    if tb.col(&c.name).is_some() {
                        return e(&c.name, "column exists");
                    }
                    tb.cols.push(Col { name: c.name.clone(), ty: c.data_type.clone(), not_null: c.not_null, default: c.default.clone() });
                }
                add_rel(db, s, t, Rel::Table(tb))?;
            }
            DropTable { schema: s, table: t } => drop_rel(db, s, t, "table")?,
            AddColumn { schema: s, table: t, column, data_type, not_null, default } => {
                let tb = table(db, s, t)?;
                if tb.col(column).is_some() {
                    return e(column, "column exists");
                }
                tb.cols.push(Col { name: column.clone(), ty: data_type.clone(), not_null: *not_null, default: default.clone() });
            }
            DropColumn { schema: s, table: t, column } => {
                col(db, s, t, column)?;
                table(db, s, t)?.cols.retain(|c| c.name != *column);
            }
            RenameColumn { from_schema: s, from_table: t, from_column, to_column } => {
                col(db, s, t, from_column)?;
                if table(db, s, t)?.col(to_column).is_some() {
                    return e(to_column, "column exists");
                }
                col(db, s, t, from_column)?.name = to_column.clone();
            }
            AlterColumnSetDataType { schema: s, table: t, column, data_type } => col(db, s, t, column)?.ty = data_type.clone(),
            AlterColumnSetNotNull { schema: s, table: t, column, not_null } => col(db, s, t, column)?.not_null = *not_null,
            AlterColumnSetDefault { schema: s, table: t, column, default } => col(db, s, t, column)?.default = default.clone(),
            AddPrimaryKey { schema: s, table: t, constraint, columns, deferrable, initially_deferred } => add_con(
                db, s, t, constraint,
                Con::Pk(Key { cols: columns.clone(), deferrable: *deferrable, deferred: *initially_deferred }),
            )?,
            AddUnique { schema: s, table: t, constraint, columns, deferrable, initially_deferred } => add_con(
                db, s, t, constraint,
                Con::Unique(Key { cols: columns.clone(), deferrable: *deferrable, deferred: *initially_deferred }),
            )?,
            AddCheck { schema: s, table: t, constraint, expression, deferrable, initially_deferred } => add_con(
                db, s, t, constraint,
                Con::Check(CheckCon { expr: expression.clone(), deferrable: *deferrable, deferred: *initially_deferred }),
            )?,
            AddForeignKey {
                schema: s, table: t, constraint, columns, target_schema, target_table, target_columns, match_option, update_rule,
                delete_rule, deferrable, initially_deferred,
            } => add_con(
                db, s, t, constraint,
                Con::Fk(Fk {
                    cols: columns.clone(),
                    tschema: target_schema.clone(),
                    ttable: target_table.clone(),
                    tcols: target_columns.clone(),
                    mat: match_option.clone(),
                    upd: update_rule.clone(),
                    del: delete_rule.clone(),
                    deferrable: *deferrable,
                    deferred: *initially_deferred,
                }),
            )?,
            AlterPrimaryKey { schema: s, table: t, constraint, deferrable, initially_deferred } => {
                if let Con::Pk(k) = con(db, s, t, constraint, "primary key")? {
                    k.deferrable = *deferrable;
                    k.deferred = *initially_deferred;
                }
            }
            AlterUnique { schema: s, table: t, constraint, deferrable, initially_deferred } => {
                if let Con::Unique(k) = con(db, s, t, constraint, "unique")? {
                    k.deferrable = *deferrable;
                    k.deferred = *initially_deferred;
                }
            }
            AlterCheck { schema: s, table: t, constraint, deferrable, initially_deferred } => {
                if let Con::Check(k) = con(db, s, t, constraint, "check")? {
                    k.deferrable = *deferrable;
                    k.deferred = *initially_deferred;
                }
            }
            AlterForeignKey { schema: s, table: t, constraint, deferrable, initially_deferred } => {
                if let Con::Fk(k) = con(db, s, t, constraint, "foreign key")? {
                    k.deferrable = *deferrable;
                    k.deferred = *initially_deferred;
                }
            }
            DropPrimaryKey { schema: s, table: t, constraint } => drop_con(db, s, t, constraint, "primary key")?,
            DropUnique { schema: s, table: t, constraint } => drop_con(db, s, t, constraint, "unique")?,
            DropCheck { schema: s, table: t, constraint } => drop_con(db, s, t, constraint, "check")?,
            DropForeignKey { schema: s, table: t, constraint } => drop_con(db, s, t, constraint, "foreign key")?,
            CreateIndex { schema: s, table: t, index, unique, method, key_expressions } => {
                table(db, s, t)?;
                add_rel(
                    db, s, index,
                    Rel::Index(Index { table: t.clone(), unique: *unique, method: method.clone(), keys: key_expressions.clone() }),
                )?;
            }
            DropIndex { schema: s, index } => drop_rel(db, s, index, "index")?,
            CreateView { schema: s, view, query } => add_rel(db, s, view, Rel::View(View { query: query.clone() }))?,
            DropView { schema: s, view } => drop_rel(db, s, view, "view")?,
            CreateSequence { schema: s, sequence, data_type, increment, min_value, max_value, start, cache, cycle } => add_rel(
                db, s, sequence,
                Rel::Seq(Seq {
                    ty: data_type.clone(), inc: *increment, min: *min_value, max: *max_value, start: *start, cache: *cache, cycle: *cycle,
                    owned: None,
                }),
            )?,
            DropSequence { schema: s, sequence } => drop_rel(db, s, sequence, "sequence")?,
            CreateFunction { schema: s, function, body, language, returns, volatility } => {
                let sc = schema(db, s)?;
                if sc.funcs.contains_key(function) {
                    return e(function, "function exists");
                }
                sc.funcs.insert(
                    function.clone(),
                    Func { body: body.clone(), lang: language.clone(), returns: returns.clone(), vol: volatility.clone() },
                );
            }
            DropFunction { schema: s, function } => {
                let sc = schema(db, s)?;
                if sc.funcs.remove(function).is_none() {
                    return e(function, "function not found");
                }
            }
        }
        Ok(())
    }

    /// (schema, object, sub-object) the change is about
    pub fn target(&self) -> (String, Option<String>, Option<String>) {
        let v = serde_json::to_value(self).unwrap();
        let c = &v["change"];
        let g = |k: &str| c[k].as_str().map(|s| s.to_string());
        let s = g("schema").or(g("schema_name")).or(g("from_schema")).unwrap();
        match self {
            RChange::CreateIndex { index, .. } | RChange::DropIndex { index, .. } => (s, Some(index.clone()), None),
            _ => (
                s,
                g("table").or(g("from_table")).or(g("view")).or(g("sequence")).or(g("function")),
                g("column").or(g("from_column")).or(g("constraint")),
            ),
        }
    }
}
