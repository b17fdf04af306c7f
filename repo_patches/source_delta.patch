From 82a923d97ebe7380910f282c8448ec29bd127f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:51 +0000
Subject: [PATCH 01/71] hook: library target for harnesses, guarded by
 cfg(podo_verif)

---
 src/lib.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)
 create mode 100644 src/lib.rs

diff --git a/src/lib.rs b/src/lib.rs
new file mode 100644
index 0000000..cc25bda
--- /dev/null
+++ b/src/lib.rs
@@ -0,0 +1,17 @@
+// Library target for verification harnesses only: empty unless the crate is
+// built with `--cfg podo_verif`, in which case it holds the program's modules
+// and re-exports the ones a harness calls in process.
+#![allow(unexpected_cfgs)]
+
+#[cfg(podo_verif)]
+include!("main.rs");
+
+#[cfg(podo_verif)]
+pub mod verif_api {
+    pub mod definition {
+        pub use crate::definition::*;
+    }
+    pub mod snapshot {
+        pub use crate::snapshot::*;
+    }
+}
-- 
2.43.0


From 7ec8315833ee6943ee04ae5198c0205e5358b826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:03 +0000
Subject: [PATCH 02/71] fix: know the keywords of an index method and a
 sequence increment

---
 src/definition/base/yaml.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/definition/base/yaml.rs b/src/definition/base/yaml.rs
index a2cd5e1..3f12c6d 100644
--- a/src/definition/base/yaml.rs
+++ b/src/definition/base/yaml.rs
@@ -5,7 +5,7 @@ use super::{
     error::Error,
 };
 
-static KEYWORDS: [&str; 33] = [
+static KEYWORDS: [&str; 35] = [
     "foreign key",
     "initially deferred",
     "not null",
@@ -23,6 +23,7 @@ static KEYWORDS: [&str; 33] = [
     "deferrable",
     "function",
     "volatility",
+    "increment",
     "index",
     "language",
     "match",
@@ -38,6 +39,7 @@ static KEYWORDS: [&str; 33] = [
     "table",
     "type",
     "unique",
+    "using",
     "view",
 ];
 
-- 
2.43.0


From ca3cb75016b7264adeac4cccdecd668cd4f49ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:08 +0000
Subject: [PATCH 03/71] fix: a key starts with a keyword only at a word
 boundary

---
 src/definition/base/yaml.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/definition/base/yaml.rs b/src/definition/base/yaml.rs
index 3f12c6d..51dd201 100644
--- a/src/definition/base/yaml.rs
+++ b/src/definition/base/yaml.rs
@@ -78,7 +78,7 @@ fn create_node_from_mapping_key(key: &str) -> Result<Node, Error> {
 
     let mut found = false;
     for keyword in KEYWORDS.iter() {
-        if key.to_lowercase().starts_with(keyword) {
+        if starts_with_keyword(key, keyword) {
             node.r#type = keyword;
             found = true;
             break;
@@ -94,6 +94,18 @@ fn create_node_from_mapping_key(key: &str) -> Result<Node, Error> {
     Ok(node)
 }
 
+/// A key is a keyword alone, or a keyword, white space and a name.
+fn starts_with_keyword(key: &str, keyword: &str) -> bool {
+    match key.get(..keyword.len()) {
+        Some(head) => {
+            let rest = &key[keyword.len()..];
+            head.eq_ignore_ascii_case(keyword)
+                && (rest.is_empty() || rest.starts_with(char::is_whitespace))
+        }
+        None => false,
+    }
+}
+
 fn parse_serde_sequence_to_ddl_list(val: &serde_yaml::Sequence) -> Result<Vec<Value>, Error> {
     let mut result: Vec<Value> = Vec::with_capacity(val.len());
     for v in val {
-- 
2.43.0


From 9d76a998c3879f902ea72f1c2af0a3c7127fa538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:12 +0000
Subject: [PATCH 04/71] fix: load an index on a table whose name begins with
 update or delete

---
 src/definition/ddl/index.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/definition/ddl/index.rs b/src/definition/ddl/index.rs
index 198cbc9..718da29 100644
--- a/src/definition/ddl/index.rs
+++ b/src/definition/ddl/index.rs
@@ -3,7 +3,7 @@ use crate::{
         base::Node,
         ddl::coerce::{
             coerce_boolean_value, coerce_name, coerce_name_and_string_varargs_value, coerce_nodes,
-            coerce_string_value,
+            coerce_string_value, coerce_string_varargs_value,
         },
         defaults,
     },
@@ -32,6 +32,15 @@ pub fn parse_index_definition(ctx: &Context, n: &Node) -> Result<Index, Error> {
                 key_expressions = Some(v);
                 Ok(())
             }),
+            // The table of "on update log" or "on delete" is "update log" or "delete".
+            "on update" | "on delete" => {
+                let name = cn.display_string()["on ".len()..].to_owned();
+                coerce_string_varargs_value(cn).and_then(|v| {
+                    table_name = Some(name);
+                    key_expressions = Some(v);
+                    Ok(())
+                })
+            }
             "using" => coerce_string_value(cn).and_then(|v| Ok(method = Some(v))),
             _ => Err(Error::new_unexpected_node(cn)),
         } {
-- 
2.43.0


From bddda147ef0cd4062a3e7bc0effb0d9cecb8c454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:16 +0000
Subject: [PATCH 05/71] fix: find the kind of a constraint whatever its first
 attribute is

---
 src/definition/ddl/constraint.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/definition/ddl/constraint.rs b/src/definition/ddl/constraint.rs
index d1a4560..b07ff17 100644
--- a/src/definition/ddl/constraint.rs
+++ b/src/definition/ddl/constraint.rs
@@ -42,10 +42,13 @@ pub fn parse_constraint_definition(
                 let def = parse_check_constraint_definition(schema_name, table_name, n)?;
                 return Ok(Constraint::Check(def));
             }
-            _ => unreachable!(),
+            _ => continue,
         }
     }
-    unreachable!()
+    Err(Error::new_attribute_required(
+        n,
+        "primary key, unique, foreign key or check",
+    ))
 }
 
 pub fn render_constraint_definition(ctx: &Context, c: &Constraint) -> Node {
-- 
2.43.0


From 3687b1efc9f109a82b628217fcdf4a4c38143897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:20 +0000
Subject: [PATCH 06/71] fix: report the errors of an index definition

---
 src/definition/ddl/index.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/definition/ddl/index.rs b/src/definition/ddl/index.rs
index 718da29..0b5315a 100644
--- a/src/definition/ddl/index.rs
+++ b/src/definition/ddl/index.rs
@@ -58,6 +58,10 @@ pub fn parse_index_definition(ctx: &Context, n: &Node) -> Result<Index, Error> {
         errors.push(Error::new_attribute_required(n, "on"));
     }
 
+    if !errors.is_empty() {
+        return Err(Error::new_has_errors(n, errors));
+    }
+
     Ok(Index {
         schema_name: ctx.schema_name.clone(),
         table_name: table_name.unwrap(),
-- 
2.43.0


From 28b1458a9bd453e88a105846e898ae6a60003984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:24 +0000
Subject: [PATCH 07/71] fix: display snapshot errors instead of panicking

---
 src/snapshot/error.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/snapshot/error.rs b/src/snapshot/error.rs
index 5f30cbd..c84dc16 100644
--- a/src/snapshot/error.rs
+++ b/src/snapshot/error.rs
@@ -104,7 +104,27 @@ impl SnapshotError {
 
 impl std::fmt::Display for SnapshotError {
     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
-        panic!("unimplemented")
+        match self {
+            SnapshotError::ObjectNotFound { path, r#type } => {
+                write!(f, "{} not found: {}", r#type, path.join("."))
+            }
+            SnapshotError::ObjectAlreadyExists { path, r#type } => {
+                write!(f, "{} already exists: {}", r#type, path.join("."))
+            }
+            SnapshotError::ObjectHasUnexpectedType {
+                path,
+                expected,
+                actual,
+            } => {
+                write!(
+                    f,
+                    "expected {} to be a {}, but it is a {}",
+                    path.join("."),
+                    expected,
+                    actual
+                )
+            }
+        }
     }
 }
 
-- 
2.43.0


From 892175fab65715a481b3667f3c12b23e9a21b712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:31 +0000
Subject: [PATCH 08/71] fix: refuse objects defined twice instead of panicking

---
 src/definition/ddl/error.rs  | 13 +++++++++++++
 src/definition/ddl/schema.rs |  4 ++--
 src/definition/ddl/table.rs  |  4 ++--
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/definition/ddl/error.rs b/src/definition/ddl/error.rs
index 04c5782..354f7e8 100644
--- a/src/definition/ddl/error.rs
+++ b/src/definition/ddl/error.rs
@@ -1,4 +1,5 @@
 use super::super::base::Node;
+use crate::snapshot::SnapshotError;
 
 #[derive(Debug, PartialEq)]
 pub enum Error {
@@ -28,12 +29,21 @@ pub enum Error {
     InvalidColumnReference {
         column_reference: String,
     },
+    SnapshotError {
+        error: SnapshotError,
+    },
     HasErrors {
         node_display_string: String,
         errors: Vec<Error>,
     },
 }
 
+impl From<SnapshotError> for Error {
+    fn from(error: SnapshotError) -> Self {
+        Error::SnapshotError { error }
+    }
+}
+
 impl Error {
     pub fn new_unexpected_node(node: &Node) -> Error {
         Error::UnexpectedNode {
@@ -126,6 +136,9 @@ impl std::fmt::Display for Error {
             Error::InvalidColumnReference { column_reference } => {
                 write!(f, "invalid column reference: {}", column_reference)
             }
+            Error::SnapshotError { error } => {
+                write!(f, "{}", error)
+            }
             Error::HasErrors {
                 node_display_string,
                 errors,
diff --git a/src/definition/ddl/schema.rs b/src/definition/ddl/schema.rs
index 9419292..ca79357 100644
--- a/src/definition/ddl/schema.rs
+++ b/src/definition/ddl/schema.rs
@@ -61,10 +61,10 @@ pub fn parse_schema_definition(n: &Node) -> Result<Schema, Error> {
 
     let mut schema = Schema::new(&name);
     for relation in relations {
-        schema.add_relation(relation).unwrap();
+        schema.add_relation(relation)?;
     }
     for function in functions {
-        schema.add_function(function).unwrap();
+        schema.add_function(function)?;
     }
 
     Ok(schema)
diff --git a/src/definition/ddl/table.rs b/src/definition/ddl/table.rs
index 3477ff7..b00a9e6 100644
--- a/src/definition/ddl/table.rs
+++ b/src/definition/ddl/table.rs
@@ -43,10 +43,10 @@ pub fn parse_table_definition(schema_name: &str, n: &Node) -> Result<Table, Erro
 
     let mut table = Table::new(schema_name, &name);
     for column in columns {
-        table.add_column(column).unwrap();
+        table.add_column(column)?;
     }
     for pk in constraints {
-        table.add_constraint(pk).unwrap();
+        table.add_constraint(pk)?;
     }
 
     Ok(table)
-- 
2.43.0


From 51427e876308c325f07e1e931260aae37cfb59d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 09/71] fix: refuse top-level objects that are not schemas

---
 src/definition/ddl/schema.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/definition/ddl/schema.rs b/src/definition/ddl/schema.rs
index ca79357..c5ef0e7 100644
--- a/src/definition/ddl/schema.rs
+++ b/src/definition/ddl/schema.rs
@@ -21,7 +21,9 @@ use super::{
 };
 
 pub fn parse_schema_definition(n: &Node) -> Result<Schema, Error> {
-    assert_eq!(n.r#type, "schema");
+    if n.r#type != "schema" {
+        return Err(Error::new_unexpected_node(n));
+    }
 
     let name = coerce_name(n)?;
     let child_nodes = coerce_nodes(n)?;
-- 
2.43.0


From 820bf328d17303bbe53b173d65f538537b0b6a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:39 +0000
Subject: [PATCH 10/71] fix: refuse mappings inside lists

---
 src/definition/base/yaml.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/definition/base/yaml.rs b/src/definition/base/yaml.rs
index 51dd201..46ca434 100644
--- a/src/definition/base/yaml.rs
+++ b/src/definition/base/yaml.rs
@@ -127,9 +127,6 @@ fn parse_serde_value_to_ddl_value(val: &serde_yaml::Value) -> Result<Value, Erro
         serde_yaml::Value::Bool(val_bool) => {
             return Ok(Value::Boolean(*val_bool));
         }
-        serde_yaml::Value::Mapping(_) => {
-            unreachable!()
-        }
         serde_yaml::Value::Sequence(val_sequence) => {
             let parsed = parse_serde_sequence_to_ddl_list(val_sequence)?;
             return Ok(Value::List(parsed));
-- 
2.43.0


From fffd9f3c1d890d6c8e1b531613d3737c6a6af3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:13 +0000
Subject: [PATCH 11/71] fix: refuse unknown sequence types instead of panicking

---
 src/definition/ddl/sequence.rs | 22 ++++++++++++----------
 src/definition/defaults.rs     | 34 ++++++++++++++++------------------
 2 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/src/definition/ddl/sequence.rs b/src/definition/ddl/sequence.rs
index 33ac05f..282e103 100644
--- a/src/definition/ddl/sequence.rs
+++ b/src/definition/ddl/sequence.rs
@@ -55,17 +55,19 @@ pub fn parse_sequence_definition(ctx: &Context, n: &Node) -> Result<Sequence, Er
     if increment.is_none() {
         increment = Some(defaults::get_sequence_increment());
     }
+    let default_min_value =
+        defaults::get_sequence_min_value(increment.unwrap(), data_type.as_ref().unwrap());
+    let default_max_value =
+        defaults::get_sequence_max_value(increment.unwrap(), data_type.as_ref().unwrap());
+    if default_min_value.is_none() || default_max_value.is_none() {
+        errors.push(Error::new_invalid_type_attribute(n, "int2, int4 or int8"));
+        return Err(Error::new_has_errors(n, errors));
+    }
     if min_value.is_none() {
-        min_value = Some(defaults::get_sequence_min_value(
-            increment.unwrap(),
-            data_type.as_ref().unwrap(),
-        ));
+        min_value = default_min_value;
     }
     if max_value.is_none() {
-        max_value = Some(defaults::get_sequence_max_value(
-            increment.unwrap(),
-            data_type.as_ref().unwrap(),
-        ));
+        max_value = default_max_value;
     }
     if start.is_none() {
         start = Some(defaults::get_sequence_start(
@@ -109,10 +111,10 @@ pub fn render_sequence_definition(_ctx: &Context, def: &Sequence) -> Node {
     if def.increment != defaults::get_sequence_increment() {
         subnodes.push(Node::new("increment").with_number_integer_value(def.increment));
     }
-    if def.min_value != defaults::get_sequence_min_value(def.increment, &def.data_type) {
+    if Some(def.min_value) != defaults::get_sequence_min_value(def.increment, &def.data_type) {
         subnodes.push(Node::new("minvalue").with_number_integer_value(def.min_value));
     }
-    if def.max_value != defaults::get_sequence_max_value(def.increment, &def.data_type) {
+    if Some(def.max_value) != defaults::get_sequence_max_value(def.increment, &def.data_type) {
         subnodes.push(Node::new("maxvalue").with_number_integer_value(def.max_value));
     }
     if def.start != defaults::get_sequence_start(def.increment, def.min_value, def.max_value) {
diff --git a/src/definition/defaults.rs b/src/definition/defaults.rs
index ca8a973..3656652 100644
--- a/src/definition/defaults.rs
+++ b/src/definition/defaults.rs
@@ -74,28 +74,26 @@ pub fn get_sequence_cycle() -> bool {
     false
 }
 
-pub fn get_sequence_min_value(increment: i64, data_type: &str) -> i64 {
-    if increment >= 0 {
-        return 1;
-    }
-    return match data_type {
-        "int2" => -32768,
-        "int4" => -2147483648,
-        "int8" => -9223372036854775808,
-        _ => panic!(r#"invalid sequence datatype: "{}""#, data_type),
+/// None if the data type is not one a sequence can have.
+pub fn get_sequence_min_value(increment: i64, data_type: &str) -> Option<i64> {
+    let lowest = match data_type {
+        "int2" | "smallint" => -32768,
+        "int4" | "int" | "integer" => -2147483648,
+        "int8" | "bigint" => -9223372036854775808,
+        _ => return None,
     };
+    Some(if increment >= 0 { 1 } else { lowest })
 }
 
-pub fn get_sequence_max_value(increment: i64, data_type: &str) -> i64 {
-    if increment < 0 {
-        return -1;
-    }
-    return match data_type {
-        "int2" => 32767,
-        "int4" => 2147483647,
-        "int8" => 9223372036854775807,
-        _ => panic!(r#"invalid sequence datatype: "{}""#, data_type),
+/// None if the data type is not one a sequence can have.
+pub fn get_sequence_max_value(increment: i64, data_type: &str) -> Option<i64> {
+    let highest = match data_type {
+        "int2" | "smallint" => 32767,
+        "int4" | "int" | "integer" => 2147483647,
+        "int8" | "bigint" => 9223372036854775807,
+        _ => return None,
     };
+    Some(if increment < 0 { -1 } else { highest })
 }
 
 pub fn get_sequence_start(increment: i64, min_value: i64, max_value: i64) -> i64 {
-- 
2.43.0


From 85f34efaa0629df1134750911a5012817687b0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:17 +0000
Subject: [PATCH 12/71] fix: accept column defaults of several lines

---
 src/definition/ddl/column.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/definition/ddl/column.rs b/src/definition/ddl/column.rs
index 4253a37..d7cc427 100644
--- a/src/definition/ddl/column.rs
+++ b/src/definition/ddl/column.rs
@@ -33,7 +33,7 @@ pub fn render_column_definition(ctx: &Context, def: &Column) -> Node {
 }
 
 fn parse_column_expression(input: &str) -> Result<(String, bool, Option<String>), Error> {
-    let re = Regex::new(r"^(?P<type>[^=!]+)(?P<notnull>!)?(?:\s*=\s*(?P<default>.+))?$").unwrap();
+    let re = Regex::new(r"(?s)^(?P<type>[^=!]+)(?P<notnull>!)?(?:\s*=\s*(?P<default>.+))?$").unwrap();
     if let Some(caps) = re.captures(input) {
         let data_type = caps.name("type").unwrap().as_str().trim().to_string();
         let not_null = caps.name("notnull").is_some();
-- 
2.43.0


From 145d58fe96c0feea5e593579c9bf511e112ddb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:21 +0000
Subject: [PATCH 13/71] fix: exit with a failure status when a command fails

---
 src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.rs b/src/main.rs
index b97e8f7..aa8d24f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -87,6 +87,7 @@ fn main() {
     };
     if let Err(e) = res {
         eprintln!("{}", e);
+        std::process::exit(1);
     }
 }
 
-- 
2.43.0


From bfd244484b133fe5fe0afa0963861c0e6215b85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:25 +0000
Subject: [PATCH 14/71] fix: let clone take a profile

---
 src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.rs b/src/main.rs
index aa8d24f..28d9dce 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -58,6 +58,7 @@ fn main() {
         .subcommand(
           Command::new("clone")
           .about("inspects the database and creates snapshot and the initial migration")
+          .arg(clap::arg!(--"profile" <String>).default_value("database"))
         )
         .subcommand(
           Command::new("print")
-- 
2.43.0


From 038ddc121af298e6cc42f023b10a2ce9ddd4de9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:29 +0000
Subject: [PATCH 15/71] fix: use the directories of the given profile in up,
 status and clone

---
 src/cmd/clone.rs  | 2 +-
 src/cmd/status.rs | 4 ++--
 src/cmd/up.rs     | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cmd/clone.rs b/src/cmd/clone.rs
index 143d505..3c780cb 100644
--- a/src/cmd/clone.rs
+++ b/src/cmd/clone.rs
@@ -8,7 +8,7 @@ pub fn clone(profile_name: &str) -> Result<(), AnyError> {
     let cwd: std::path::PathBuf = std::env::current_dir()?;
     let project = discover_project(cwd.clone())?;
     let database_url = project.resolve_database_url(profile_name)?;
-    let definition_dir = project.resolve_default_definitions_dir()?;
+    let definition_dir = project.resolve_definitions_dir(profile_name)?;
 
     let mut pg_client = Client::connect(&database_url, NoTls)?;
     let mut tx = pg_client.transaction()?;
diff --git a/src/cmd/status.rs b/src/cmd/status.rs
index 46b53b0..ec1197a 100644
--- a/src/cmd/status.rs
+++ b/src/cmd/status.rs
@@ -15,8 +15,8 @@ use postgres::{Client, NoTls};
 pub fn status(profile_name: &str) -> Result<(), AnyError> {
     let cwd = std::env::current_dir()?;
     let project = discover_project(cwd.clone())?;
-    let history_dir = project.resolve_default_history_dir()?;
-    let definition_dir = project.resolve_default_definitions_dir()?;
+    let history_dir = project.resolve_history_dir(profile_name)?;
+    let definition_dir = project.resolve_definitions_dir(profile_name)?;
     let database_url = project.resolve_database_url(profile_name)?;
 
     let fsh = FSHistory::from_dir(&history_dir)?;
diff --git a/src/cmd/up.rs b/src/cmd/up.rs
index 4bc8edf..d187d41 100644
--- a/src/cmd/up.rs
+++ b/src/cmd/up.rs
@@ -9,7 +9,7 @@ use postgres::{Client, NoTls};
 pub fn up(profile_name: &str, version: Option<&str>) -> Result<(), AnyError> {
     let cwd: std::path::PathBuf = std::env::current_dir()?;
     let project = discover_project(cwd.clone())?;
-    let history_dir = project.resolve_default_history_dir()?;
+    let history_dir = project.resolve_history_dir(profile_name)?;
     let database_url = project.resolve_database_url(profile_name)?;
     let metadata_schema = project.resolve_metadata_schema(&profile_name)?;
 
-- 
2.43.0


From ebeab9ada15b8d7989ab68060448cb7d4c8b12dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 16/71] fix: report unimplemented commands instead of panicking

---
 src/cmd/sync.rs | 2 +-
 src/main.rs     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cmd/sync.rs b/src/cmd/sync.rs
index d3d2f73..cf9a0d8 100644
--- a/src/cmd/sync.rs
+++ b/src/cmd/sync.rs
@@ -3,5 +3,5 @@ use crate::error::AnyError;
 /// sync calculates the changes between the definition snapshot and the database snapshot.
 /// and sets the database version it to the given version
 pub fn sync(profile_name: &str) -> Result<(), AnyError> {
-    todo!()
+    Err("sync is not implemented".into())
 }
diff --git a/src/main.rs b/src/main.rs
index 28d9dce..6a7a6d7 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -82,7 +82,7 @@ fn main() {
         Some(("down", args)) => cmd::down(get_profile(args), get_version(args)),
         Some(("clone", args)) => cmd::clone(get_profile(args)),
         Some(("sync", args)) => cmd::sync(get_profile(args)),
-        // Some(("print", _)) => cmd::print(),
+        Some(("print", _)) => Err("print is not implemented".into()),
         // Some(("compare", _)) => cmd::compare(),
         _ => unreachable!(),
     };
-- 
2.43.0


From 923730c1bcd6c6cbc22cd253a59842972e4aa0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:03 +0000
Subject: [PATCH 17/71] fix: rebuild an index whose table, uniqueness or method
 changed

---
 src/snapshot/diff.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/snapshot/diff.rs b/src/snapshot/diff.rs
index 56a32fe..029639c 100644
--- a/src/snapshot/diff.rs
+++ b/src/snapshot/diff.rs
@@ -448,7 +448,11 @@ fn diff_index_create(t: &Index) -> Changeset {
 fn diff_index_update(s: &Index, t: &Index) -> Changeset {
     let mut changes = Changeset::new();
 
-    if s.key_expressions != t.key_expressions {
+    if s.table_name != t.table_name
+        || s.unique != t.unique
+        || s.method != t.method
+        || s.key_expressions != t.key_expressions
+    {
         changes.push(DropIndexChange::new(s));
         changes.push(CreateIndexChange::new(t));
     }
-- 
2.43.0


From 2b3d16b208d1249595f91acc8bba0c5cc59fc2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:07 +0000
Subject: [PATCH 18/71] fix: drop the constraints of a dropped table, so that a
 revert restores them

---
 src/snapshot/diff.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/snapshot/diff.rs b/src/snapshot/diff.rs
index 029639c..288daab 100644
--- a/src/snapshot/diff.rs
+++ b/src/snapshot/diff.rs
@@ -200,6 +200,11 @@ fn diff_table_update(s: &Table, t: &Table) -> Changeset {
 fn diff_table_drop(s: &Table) -> Changeset {
     let mut changes = Changeset::new();
 
+    // constraints, so that reverting the changes restores them
+    for si in s.iter_constraints() {
+        changes.append(&mut diff_constraint_drop(si));
+    }
+
     changes.push(DropTableChange::new(s));
 
     return changes;
-- 
2.43.0


From 76327210f2e37de13695639a0eb0c08791ec342a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:12 +0000
Subject: [PATCH 19/71] fix: order the changes so that each finds the objects
 it depends on

---
 src/snapshot/diff.rs | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/src/snapshot/diff.rs b/src/snapshot/diff.rs
index 288daab..98704ac 100644
--- a/src/snapshot/diff.rs
+++ b/src/snapshot/diff.rs
@@ -18,7 +18,43 @@ impl Changeset {
 }
 
 pub fn compare_diff(s: &Database, t: &Database) -> Vec<Change> {
-    return diff_database_update(s, t).changes;
+    let mut changes = diff_database_update(s, t).changes;
+    changes.sort_by_key(get_phase);
+    return changes;
+}
+
+/// Changes are made in phases, so that every object is dropped before the ones
+/// it depends on and created after them. The sort is stable.
+fn get_phase(change: &Change) -> u8 {
+    match change {
+        Change::DropForeignKeyChange(_) => 0,
+        Change::DropViewChange(_) => 1,
+        Change::DropIndexChange(_) => 2,
+        Change::DropCheckChange(_)
+        | Change::DropUniqueChange(_)
+        | Change::DropPrimaryKeyChange(_) => 3,
+        Change::DropTableChange(_) => 4,
+        Change::DropColumnChange(_) => 5,
+        Change::DropFunctionChange(_) | Change::DropSequenceChange(_) => 6,
+        Change::DropSchemaChange(_) => 7,
+        Change::CreateSchemaChange(_) => 8,
+        Change::CreateSequenceChange(_) | Change::CreateFunctionChange(_) => 9,
+        Change::CreateTableChange(_) => 10,
+        Change::RenameColumnChange(_)
+        | Change::AddColumnChange(_)
+        | Change::AlterColumnSetDataTypeChange(_)
+        | Change::AlterColumnSetDefaultChange(_)
+        | Change::AlterColumnSetNotNullChange(_) => 11,
+        Change::AddPrimaryKeyChange(_)
+        | Change::AddUniqueChange(_)
+        | Change::AddCheckChange(_)
+        | Change::AlterPrimaryKeyChange(_)
+        | Change::AlterUniqueChange(_)
+        | Change::AlterCheckChange(_) => 12,
+        Change::CreateIndexChange(_) => 13,
+        Change::AddForeignKeyChange(_) | Change::AlterForeignKeyChange(_) => 14,
+        Change::CreateViewChange(_) => 15,
+    }
 }
 
 fn diff_database_update(s: &Database, t: &Database) -> Changeset {
-- 
2.43.0


From 506e3973a22715146b95faa4e89f1bcc337c8e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:54 +0000
Subject: [PATCH 20/71] fix: render NOT NULL for the columns that have it, and
 only for them

---
 src/snapshot/changes/column/add_column_change.rs  | 2 +-
 src/snapshot/changes/table/create_table_change.rs | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/snapshot/changes/column/add_column_change.rs b/src/snapshot/changes/column/add_column_change.rs
index bb62237..1fc3800 100644
--- a/src/snapshot/changes/column/add_column_change.rs
+++ b/src/snapshot/changes/column/add_column_change.rs
@@ -49,7 +49,7 @@ impl AddColumnChange {
             sql_qn(&self.column),
             self.data_type,
         )];
-        if !self.not_null {
+        if self.not_null {
             tokens.push("NOT NULL".to_string());
         }
         if let Some(default) = &self.default {
diff --git a/src/snapshot/changes/table/create_table_change.rs b/src/snapshot/changes/table/create_table_change.rs
index a16fcf7..d7fb00f 100644
--- a/src/snapshot/changes/table/create_table_change.rs
+++ b/src/snapshot/changes/table/create_table_change.rs
@@ -68,7 +68,9 @@ impl CreateTableChange {
             sql_qa(&self.schema, &self.table),
             sql_l(self.columns.iter().map(|c| {
                 let mut tokens = vec![sql_qn(&c.name), c.data_type.clone()];
-                if !c.not_null {
+                if c.not_null {
+                    tokens.push("NOT NULL".to_string());
+                } else {
                     tokens.push("NULL".to_string());
                 }
                 if let Some(default) = &c.default {
-- 
2.43.0


From fe13e9740b03d5159647e65e55aefcb00e7de9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 21/71] fix: render valid match, rule and deferrability clauses
 of foreign keys

---
 .../changes/foreignkey/add_foreign_key_change.rs     | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/snapshot/changes/foreignkey/add_foreign_key_change.rs b/src/snapshot/changes/foreignkey/add_foreign_key_change.rs
index 940c8ac..db5f5ae 100644
--- a/src/snapshot/changes/foreignkey/add_foreign_key_change.rs
+++ b/src/snapshot/changes/foreignkey/add_foreign_key_change.rs
@@ -64,7 +64,7 @@ impl AddForeignKeyChange {
 
     pub fn render_sql(&self) -> String {
         format!(
-            "ALTER TABLE {} ADD CONSTRAINT {} FOREIGN KEY ({}) REFERENCES {} ({}) {} {} {}",
+            "ALTER TABLE {} ADD CONSTRAINT {} FOREIGN KEY ({}) REFERENCES {} ({}) MATCH {} ON UPDATE {} ON DELETE {} {} {}",
             sql_qa(&self.schema, &self.table),
             sql_qn(&self.constraint),
             sql_ql(&self.columns),
@@ -73,6 +73,16 @@ impl AddForeignKeyChange {
             self.match_option,
             self.update_rule,
             self.delete_rule,
+            if self.deferrable {
+                "DEFERRABLE"
+            } else {
+                "NOT DEFERRABLE"
+            },
+            if self.initially_deferred {
+                "INITIALLY DEFERRED"
+            } else {
+                "INITIALLY IMMEDIATE"
+            },
         ) + ";"
     }
 
-- 
2.43.0


From e336263126b60e5c96d436c4741cb195a82a9908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:02 +0000
Subject: [PATCH 22/71] fix: put the expression of a check constraint in
 parentheses

---
 src/snapshot/changes/check/add_check_change.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/snapshot/changes/check/add_check_change.rs b/src/snapshot/changes/check/add_check_change.rs
index 2d7338f..19514bd 100644
--- a/src/snapshot/changes/check/add_check_change.rs
+++ b/src/snapshot/changes/check/add_check_change.rs
@@ -46,7 +46,7 @@ impl AddCheckChange {
 
     pub fn render_sql(&self) -> String {
         format!(
-            "ALTER TABLE {} ADD CONSTRAINT {} CHECK {} {} {}",
+            "ALTER TABLE {} ADD CONSTRAINT {} CHECK ({}) {} {}",
             sql_qa(&self.schema, &self.table),
             sql_qn(&self.constraint),
             self.expression,
-- 
2.43.0


From ea851eba86a1c1ceb1cf7acae058401f7f9e62ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:06 +0000
Subject: [PATCH 23/71] fix: double the quotes inside quoted identifiers

---
 src/util/sqlfmt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/sqlfmt.rs b/src/util/sqlfmt.rs
index eae728d..7173458 100644
--- a/src/util/sqlfmt.rs
+++ b/src/util/sqlfmt.rs
@@ -1,6 +1,6 @@
 // quoted name
 pub fn sql_qn(schema: &str) -> String {
-    format!("\"{}\"", schema)
+    format!("\"{}\"", schema.replace('"', "\"\""))
 }
 
 // quoted accessor
-- 
2.43.0


From cd0551d267fe87f6ee904988976bc56fddaa9779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 24/71] fix: quote the names of schemas created and dropped

---
 src/snapshot/changes/schema/create_schema_change.rs | 3 ++-
 src/snapshot/changes/schema/drop_schema_change.rs   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/snapshot/changes/schema/create_schema_change.rs b/src/snapshot/changes/schema/create_schema_change.rs
index 0d6a1dd..8d0b6ba 100644
--- a/src/snapshot/changes/schema/create_schema_change.rs
+++ b/src/snapshot/changes/schema/create_schema_change.rs
@@ -1,5 +1,6 @@
 use super::DropSchemaChange;
 use crate::snapshot::{changes::Change, Database, Schema, SnapshotError};
+use crate::util::sqlfmt::sql_qn;
 use serde::{Deserialize, Serialize};
 
 #[derive(Debug, Serialize, Deserialize, PartialEq)]
@@ -20,7 +21,7 @@ impl CreateSchemaChange {
     }
 
     pub fn render_sql(&self) -> String {
-        format!("CREATE SCHEMA {};", self.schema_name)
+        format!("CREATE SCHEMA {};", sql_qn(&self.schema_name))
     }
 
     pub fn revert(&self, source: &Database) -> Result<Change, SnapshotError> {
diff --git a/src/snapshot/changes/schema/drop_schema_change.rs b/src/snapshot/changes/schema/drop_schema_change.rs
index 5bc92e8..8650e99 100644
--- a/src/snapshot/changes/schema/drop_schema_change.rs
+++ b/src/snapshot/changes/schema/drop_schema_change.rs
@@ -1,5 +1,6 @@
 use super::CreateSchemaChange;
 use crate::snapshot::{changes::Change, Database, Schema, SnapshotError};
+use crate::util::sqlfmt::sql_qn;
 use serde::{Deserialize, Serialize};
 
 #[derive(Debug, Serialize, Deserialize, PartialEq)]
@@ -20,7 +21,7 @@ impl DropSchemaChange {
     }
 
     pub fn render_sql(&self) -> String {
-        format!("DROP SCHEMA {};", self.schema_name)
+        format!("DROP SCHEMA {};", sql_qn(&self.schema_name))
     }
 
     pub fn revert(&self, source: &Database) -> Result<Change, SnapshotError> {
-- 
2.43.0


From b7d8429d58a2169712d9aa9fc49e04a923f79c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:15 +0000
Subject: [PATCH 25/71] fix: render the deferral an altered constraint has, not
 one derived from its deferrability

---
 src/snapshot/changes/check/alter_check_change.rs      | 11 ++++++++---
 .../changes/foreignkey/alter_foreign_key_change.rs    | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/snapshot/changes/check/alter_check_change.rs b/src/snapshot/changes/check/alter_check_change.rs
index a9b15c9..440c462 100644
--- a/src/snapshot/changes/check/alter_check_change.rs
+++ b/src/snapshot/changes/check/alter_check_change.rs
@@ -36,13 +36,18 @@ impl AlterCheckChange {
 
     pub fn render_sql(&self) -> String {
         format!(
-            "ALTER TABLE {} ALTER CONSTRAINT {} {}",
+            "ALTER TABLE {} ALTER CONSTRAINT {} {} {}",
             sql_qa(&self.schema, &self.table),
             sql_qn(&self.constraint),
             if self.deferrable {
-                "DEFERRABLE INITIALLY DEFERRED"
+                "DEFERRABLE"
             } else {
-                "NOT DEFERRABLE INITIALLY IMMEDIATE"
+                "NOT DEFERRABLE"
+            },
+            if self.initially_deferred {
+                "INITIALLY DEFERRED"
+            } else {
+                "INITIALLY IMMEDIATE"
             },
         )
     }
diff --git a/src/snapshot/changes/foreignkey/alter_foreign_key_change.rs b/src/snapshot/changes/foreignkey/alter_foreign_key_change.rs
index 90f56e3..e73b8ce 100644
--- a/src/snapshot/changes/foreignkey/alter_foreign_key_change.rs
+++ b/src/snapshot/changes/foreignkey/alter_foreign_key_change.rs
@@ -38,13 +38,18 @@ impl AlterForeignKeyChange {
 
     pub fn render_sql(&self) -> String {
         format!(
-            "ALTER TABLE {} ALTER CONSTRAINT {} {}",
+            "ALTER TABLE {} ALTER CONSTRAINT {} {} {}",
             sql_qa(&self.schema, &self.table),
             sql_qn(&self.constraint),
             if self.deferrable {
-                "DEFERRABLE INITIALLY DEFERRED"
+                "DEFERRABLE"
             } else {
-                "NOT DEFERRABLE INITIALLY IMMEDIATE"
+                "NOT DEFERRABLE"
+            },
+            if self.initially_deferred {
+                "INITIALLY DEFERRED"
+            } else {
+                "INITIALLY IMMEDIATE"
             },
         )
     }
-- 
2.43.0


From 21ad3489c21055efe5740e0875621f936d61a06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:18 +0000
Subject: [PATCH 26/71] fix: refuse to drop another kind of relation as a table

---
 src/snapshot/changes/table/drop_table_change.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/snapshot/changes/table/drop_table_change.rs b/src/snapshot/changes/table/drop_table_change.rs
index 6a036b9..5ccc362 100644
--- a/src/snapshot/changes/table/drop_table_change.rs
+++ b/src/snapshot/changes/table/drop_table_change.rs
@@ -22,6 +22,7 @@ impl DropTableChange {
 
     pub fn apply(&self, source: &mut Database) -> Result<(), SnapshotError> {
         let schema = source.get_schema_mut(&self.schema)?;
+        schema.get_relation(&self.table)?.as_table()?;
         schema.remove_relation(&self.table)?;
         Ok(())
     }
-- 
2.43.0


From 4e6ecf01478e75b9787b52c34ce160087a82e90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:22 +0000
Subject: [PATCH 27/71] fix: rename a column in place, and compute the reverse
 from the state before

---
 .../changes/column/rename_column_change.rs      | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/snapshot/changes/column/rename_column_change.rs b/src/snapshot/changes/column/rename_column_change.rs
index 2650e85..1e2e4ff 100644
--- a/src/snapshot/changes/column/rename_column_change.rs
+++ b/src/snapshot/changes/column/rename_column_change.rs
@@ -24,10 +24,15 @@ impl RenameColumnChange {
     pub fn apply(&self, source: &mut Database) -> Result<(), SnapshotError> {
         let schema = source.get_schema_mut(&self.from_schema)?;
         let table = schema.get_relation_mut(&self.from_table)?.as_table_mut()?;
-        let mut column = table.remove_column(&self.from_column)?;
 
-        column.name = self.to_column.clone();
-        table.add_column(column)?;
+        if table.has_column(&self.to_column) {
+            return Err(SnapshotError::column_already_exists(
+                &self.from_schema,
+                &self.from_table,
+                &self.to_column,
+            ));
+        }
+        table.get_column_mut(&self.from_column)?.name = self.to_column.clone();
 
         Ok(())
     }
@@ -44,13 +49,13 @@ impl RenameColumnChange {
     pub fn revert(&self, target: &Database) -> Result<Change, SnapshotError> {
         let schema = target.get_schema(&self.from_schema)?;
         let table = schema.get_relation(&self.from_table)?.as_table()?;
-        let column = table.get_column(&self.to_column)?;
+        let column = table.get_column(&self.from_column)?;
 
         Ok(RenameColumnChange {
             from_schema: schema.name.clone(),
             from_table: table.name.clone(),
-            from_column: column.name.clone(),
-            to_column: self.from_column.clone(),
+            from_column: self.to_column.clone(),
+            to_column: column.name.clone(),
         }
         .into())
     }
-- 
2.43.0


From dcbe2526f4bc996972f88929f7204555b92f47f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 28/71] fix: render functions with their arguments and a quoted
 body

---
 .../changes/function/create_functon_change.rs |  8 +-
 .../changes/function/drop_function_change.rs  |  4 +-
 src/util/sqlfmt.rs                            | 89 +++++++++++++++++++
 3 files changed, 95 insertions(+), 6 deletions(-)

diff --git a/src/snapshot/changes/function/create_functon_change.rs b/src/snapshot/changes/function/create_functon_change.rs
index d747d14..039cbfd 100644
--- a/src/snapshot/changes/function/create_functon_change.rs
+++ b/src/snapshot/changes/function/create_functon_change.rs
@@ -1,6 +1,6 @@
 use super::{super::Change, DropFunctionChange};
 use crate::snapshot::{Database, Function, SnapshotError};
-use crate::util::sqlfmt::sql_qa;
+use crate::util::sqlfmt::{sql_dollar, sql_qf};
 use serde::{Deserialize, Serialize};
 
 #[derive(Debug, Serialize, Deserialize, PartialEq)]
@@ -41,12 +41,12 @@ impl CreateFunctionChange {
 
     pub fn render_sql(&self) -> String {
         format!(
-            "CREATE FUNCTION {} {} RETURNS {} LANGUAGE {} {}",
-            sql_qa(&self.schema, &self.function),
-            self.body,
+            "CREATE FUNCTION {} RETURNS {} LANGUAGE {} {} AS {}",
+            sql_qf(&self.schema, &self.function),
             self.returns,
             self.language,
             self.volatility,
+            sql_dollar(&self.body),
         ) + ";"
     }
 
diff --git a/src/snapshot/changes/function/drop_function_change.rs b/src/snapshot/changes/function/drop_function_change.rs
index a5e2dd9..b282325 100644
--- a/src/snapshot/changes/function/drop_function_change.rs
+++ b/src/snapshot/changes/function/drop_function_change.rs
@@ -1,6 +1,6 @@
 use super::{super::Change, CreateFunctionChange};
 use crate::snapshot::{Database, Function, SnapshotError};
-use crate::util::sqlfmt::sql_qa;
+use crate::util::sqlfmt::sql_qf_identity;
 use serde::{Deserialize, Serialize};
 
 #[derive(Debug, Serialize, Deserialize, PartialEq)]
@@ -25,7 +25,7 @@ impl DropFunctionChange {
     }
 
     pub fn render_sql(&self) -> String {
-        format!("DROP FUNCTION {}", sql_qa(&self.schema, &self.function),) + ";"
+        format!("DROP FUNCTION {}", sql_qf_identity(&self.schema, &self.function)) + ";"
     }
 
     pub fn revert(&self, target: &Database) -> Result<Change, SnapshotError> {
diff --git a/src/util/sqlfmt.rs b/src/util/sqlfmt.rs
index 7173458..eb20f89 100644
--- a/src/util/sqlfmt.rs
+++ b/src/util/sqlfmt.rs
@@ -32,3 +32,92 @@ where
         .collect::<Vec<_>>()
         .join(", ")
 }
+
+// quoted function: a signature is a name, followed by any arguments in parentheses
+pub fn sql_qf(schema: &str, signature: &str) -> String {
+    let (name, arguments) = split_signature(signature);
+    format!("{}({})", sql_qa(schema, name), arguments)
+}
+
+// quoted function without the defaults of its arguments, as DROP FUNCTION takes it
+pub fn sql_qf_identity(schema: &str, signature: &str) -> String {
+    let (name, arguments) = split_signature(signature);
+    let arguments = split_arguments(arguments)
+        .into_iter()
+        .map(without_default)
+        .collect::<Vec<_>>();
+    format!("{}({})", sql_qa(schema, name), sql_l(arguments))
+}
+
+// dollar-quoted string
+pub fn sql_dollar(body: &str) -> String {
+    let mut tag = "$podo$".to_string();
+    while body.contains(&tag[..tag.len() - 1]) {
+        tag = tag.replacen("$podo", "$podo_", 1);
+    }
+    format!("{}{}{}", tag, body, tag)
+}
+
+fn split_signature(signature: &str) -> (&str, &str) {
+    match signature.split_once('(') {
+        Some((name, rest)) => {
+            let rest = rest.trim_end();
+            (name.trim(), rest.strip_suffix(')').unwrap_or(rest).trim())
+        }
+        None => (signature, ""),
+    }
+}
+
+fn split_arguments(arguments: &str) -> Vec<&str> {
+    let mut parts = vec![];
+    let mut begin = 0;
+    for i in top_level_positions(arguments) {
+        if arguments[i..].starts_with(',') {
+            parts.push(arguments[begin..i].trim());
+            begin = i + 1;
+        }
+    }
+    let last = arguments[begin..].trim();
+    if !last.is_empty() {
+        parts.push(last);
+    }
+    parts
+}
+
+fn without_default(argument: &str) -> &str {
+    const DEFAULT: &str = " default ";
+    for i in top_level_positions(argument) {
+        let rest = &argument[i..];
+        let is_default = rest
+            .get(..DEFAULT.len())
+            .is_some_and(|s| s.eq_ignore_ascii_case(DEFAULT));
+        if is_default || rest.starts_with('=') || rest.starts_with(":=") {
+            return argument[..i].trim_end();
+        }
+    }
+    argument
+}
+
+// byte positions outside of quotes and parentheses
+fn top_level_positions(s: &str) -> Vec<usize> {
+    let mut positions = vec![];
+    let mut depth = 0;
+    let mut quote: Option<char> = None;
+    for (i, c) in s.char_indices() {
+        match quote {
+            Some(q) => {
+                if c == q {
+                    quote = None;
+                }
+            }
+            None => match c {
+                '"' | '\'' => quote = Some(c),
+                '(' | '[' => depth += 1,
+                ')' | ']' => depth -= 1,
+                _ if depth == 0 => positions.push(i),
+                _ => {}
+            },
+        }
+    }
+    positions
+}
-- 
2.43.0


From f84aaf1206d3ee0043d4fa2a9f426a202b7d5530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:10 +0000
Subject: [PATCH 29/71] fix: take one extension off the file name of a version,
 not several

---
 src/history/fsh.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/history/fsh.rs b/src/history/fsh.rs
index 4463aa7..ca6e3aa 100644
--- a/src/history/fsh.rs
+++ b/src/history/fsh.rs
@@ -38,7 +38,7 @@ impl FSHistory {
             if filetype.is_dir() || !filename.ends_with(".yaml") {
                 continue;
             }
-            let version_name = filename.trim_end_matches(".yaml").to_owned();
+            let version_name = filename.strip_suffix(".yaml").unwrap().to_owned();
 
             let v = history.get_version(&version_name)?;
 
-- 
2.43.0


From 9de625cf9d9c697f9f1ed5a6d08bba232262efba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:14 +0000
Subject: [PATCH 30/71] fix: ignore files in the history whose name is not text

---
 src/history/fsh.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/history/fsh.rs b/src/history/fsh.rs
index ca6e3aa..04e7146 100644
--- a/src/history/fsh.rs
+++ b/src/history/fsh.rs
@@ -33,7 +33,10 @@ impl FSHistory {
         for entry in dir_entries {
             let entry = entry?;
             let filetype = entry.file_type()?;
-            let filename = entry.file_name().to_str().unwrap().to_owned();
+            let filename = match entry.file_name().to_str() {
+                Some(filename) => filename.to_owned(),
+                None => continue,
+            };
 
             if filetype.is_dir() || !filename.ends_with(".yaml") {
                 continue;
-- 
2.43.0


From 250f69542f9fba0bb3ef21898922da5ec8b56bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:18 +0000
Subject: [PATCH 31/71] fix: never make a version under the name of an existing
 one

---
 src/cmd/make.rs    | 8 +++++++-
 src/history/fsh.rs | 4 ++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/cmd/make.rs b/src/cmd/make.rs
index e6f9502..225c053 100644
--- a/src/cmd/make.rs
+++ b/src/cmd/make.rs
@@ -18,11 +18,17 @@ pub fn make(profile_name: &str, version: Option<&str>) -> Result<(), AnyError> {
         println!("Nothing to make. Stage is empty.");
         return Ok(());
     }
-    to_make.name = format!(
+    let name = format!(
         "{}-{}",
         chrono::Local::now().format("%Y%m%d_%H%M%S"),
         version.unwrap_or("auto"),
     );
+    to_make.name = name.clone();
+    let mut attempt = 1;
+    while fsh.has_version(&to_make.name) {
+        attempt += 1;
+        to_make.name = format!("{}-{}", name, attempt);
+    }
     let new_stage = Version::new_stage(&to_make.name);
 
     println!("Made version: {}", &to_make.name.green());
diff --git a/src/history/fsh.rs b/src/history/fsh.rs
index 04e7146..0087ef9 100644
--- a/src/history/fsh.rs
+++ b/src/history/fsh.rs
@@ -78,6 +78,10 @@ impl FSHistory {
         Ok(version)
     }
 
+    pub fn has_version(&self, version_name: &str) -> bool {
+        self.get_version_file_path(version_name).exists()
+    }
+
     pub fn get_upward_range(&self, from: &str, to: &str) -> Result<Vec<String>, FSHistoryError> {
         let mut versions = vec![];
         let mut curr = to.to_owned();
-- 
2.43.0


From 4c098a5adb2d08c18aa9836d2e306045ae66dd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:23 +0000
Subject: [PATCH 32/71] fix: replace version files as a whole

---
 src/history/fsh.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/history/fsh.rs b/src/history/fsh.rs
index 0087ef9..611d285 100644
--- a/src/history/fsh.rs
+++ b/src/history/fsh.rs
@@ -2,6 +2,7 @@ use std::{
     collections::HashMap,
     fmt::{Display, Formatter},
     fs::File,
+    io::Write,
     path::PathBuf,
 };
 
@@ -108,8 +109,18 @@ impl FSHistory {
     pub fn save_version(&mut self, version: Version) -> Result<(), FSHistoryError> {
         // TODO: 인 메모리 변경 안해도 되나?...
         let version_file_path = self.get_version_file_path(&version.name);
-        let version_file = File::create(version_file_path)?;
-        serde_yaml::to_writer(version_file, &version)?;
+        let temporary_file_path = self.dir.join(format!("{}.yaml.tmp", version.name));
+
+        // Written aside and renamed, so that an interruption leaves the file whole.
+        let mut temporary_file = File::create(&temporary_file_path)?;
+        let res = temporary_file
+            .write_all(serde_yaml::to_string(&version)?.as_bytes())
+            .and_then(|_| temporary_file.sync_all())
+            .and_then(|_| std::fs::rename(&temporary_file_path, version_file_path));
+        if res.is_err() {
+            let _ = std::fs::remove_file(&temporary_file_path);
+        }
+        res?;
 
         Ok(())
     }
-- 
2.43.0


From 12b405696baf22f01990bfe0313921db6f1a7bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:27 +0000
Subject: [PATCH 33/71] fix: replace the definition file as a whole

---
 src/definition/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/definition/mod.rs b/src/definition/mod.rs
index 7f6c0ef..c32bee8 100644
--- a/src/definition/mod.rs
+++ b/src/definition/mod.rs
@@ -25,7 +25,14 @@ pub fn save_snapshot(file_path: &Path, snapshot: &Database) -> Result<(), AnyErr
     let mapping = render_nodes_to_mapping(&nodes);
     let got = serde_yaml::to_string(&mapping).unwrap();
 
-    std::fs::write(file_path, got)?;
+    // Written aside and renamed, so that an interruption leaves the file whole.
+    let temporary_file_path = file_path.with_extension("yaml.tmp");
+    let res = std::fs::write(&temporary_file_path, got)
+        .and_then(|_| std::fs::rename(&temporary_file_path, file_path));
+    if res.is_err() {
+        let _ = std::fs::remove_file(&temporary_file_path);
+    }
+    res?;
 
     return Ok(());
 }
-- 
2.43.0


From 1d553a6df0e05b0342fb189a649783342fe03182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:30 +0000
Subject: [PATCH 34/71] fix: refuse a history that is not one chain from init
 to stage

---
 src/history/fsh.rs | 53 ++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 47 insertions(+), 6 deletions(-)

diff --git a/src/history/fsh.rs b/src/history/fsh.rs
index 611d285..631f2d4 100644
--- a/src/history/fsh.rs
+++ b/src/history/fsh.rs
@@ -1,12 +1,15 @@
 use std::{
-    collections::HashMap,
+    collections::{HashMap, HashSet},
     fmt::{Display, Formatter},
     fs::File,
     io::Write,
     path::PathBuf,
 };
 
-use super::{version::INIT, Version};
+use super::{
+    version::{INIT, STAGE},
+    Version,
+};
 
 pub struct FSHistory {
     pub dir: PathBuf,
@@ -30,6 +33,8 @@ impl FSHistory {
             current_version: INIT.to_owned(),
         };
 
+        let mut names: HashSet<String> = HashSet::new();
+
         let dir_entries = std::fs::read_dir(&dir)?;
         for entry in dir_entries {
             let entry = entry?;
@@ -46,6 +51,14 @@ impl FSHistory {
 
             let v = history.get_version(&version_name)?;
 
+            if v.name != version_name {
+                return Err(FSHistoryError::Misnamed {
+                    file: version_name,
+                    name: v.name,
+                });
+            }
+            names.insert(version_name);
+
             if let Some(previous) = v.previous {
                 if let Some(existing) = history.next_map.get(&previous) {
                     return Err(FSHistoryError::Branched {
@@ -58,10 +71,21 @@ impl FSHistory {
             }
         }
 
-        let mut curr_version = "init".to_string();
-        while let Some(next) = history.next_map.get(&curr_version) {
-            history.current_version = curr_version.clone();
-            curr_version = next.clone();
+        // The versions are one chain, from the init version to the stage.
+        let mut curr_version = INIT.to_string();
+        while names.remove(&curr_version) {
+            if let Some(next) = history.next_map.get(&curr_version) {
+                history.current_version = curr_version.clone();
+                curr_version = next.clone();
+            }
+        }
+        if curr_version != STAGE || history.next_map.contains_key(STAGE) {
+            return Err(FSHistoryError::Disconnected {
+                version: STAGE.to_owned(),
+            });
+        }
+        if let Some(version) = names.into_iter().next() {
+            return Err(FSHistoryError::Disconnected { version });
         }
 
         Ok(history)
@@ -141,6 +165,13 @@ pub enum FSHistoryError {
         high: String,
         low: String,
     },
+    Disconnected {
+        version: String,
+    },
+    Misnamed {
+        file: String,
+        name: String,
+    },
     FileSystemError(std::io::Error),
     SerdeYAMLError(serde_yaml::Error),
 }
@@ -176,6 +207,16 @@ impl Display for FSHistoryError {
                 "version \"{}\" is not reachable from version \"{}\"",
                 high, low
             ),
+            FSHistoryError::Disconnected { version } => write!(
+                f,
+                "version \"{}\" is not on the chain from \"{}\" to \"{}\"",
+                version, INIT, STAGE
+            ),
+            FSHistoryError::Misnamed { file, name } => write!(
+                f,
+                "the file of version \"{}\" holds version \"{}\"",
+                file, name
+            ),
             FSHistoryError::FileSystemError(err) => write!(f, "{}", err),
             FSHistoryError::SerdeYAMLError(err) => write!(f, "{}", err),
         }
-- 
2.43.0


From fc6e001bb1b3847a56fe61730c46cdd4592595e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:51 +0000
Subject: [PATCH 35/71] fix: report a failing migration instead of panicking

---
 src/cmd/down.rs    | 6 +++---
 src/cmd/stage.rs   | 2 +-
 src/cmd/up.rs      | 4 ++--
 src/project/mod.rs | 2 +-
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/cmd/down.rs b/src/cmd/down.rs
index 58b3f3d..5b73fc5 100644
--- a/src/cmd/down.rs
+++ b/src/cmd/down.rs
@@ -37,13 +37,13 @@ pub fn down(profile_name: &str, version: Option<&str>) -> Result<(), AnyError> {
     }
 
     for name in versions {
-        let v = dbh.get_version(&mut tx, &name).unwrap();
+        let v = dbh.get_version(&mut tx, &name)?;
         println!("  Reverting version {}", v.name.green());
         for stmt in &v.down {
-            tx.execute(stmt, &[]).unwrap();
+            tx.execute(stmt, &[])?;
             println!("    {}", stmt.dimmed());
         }
-        dbh.delete_version(&mut tx, &v).unwrap();
+        dbh.delete_version(&mut tx, &v)?;
     }
 
     tx.commit()?;
diff --git a/src/cmd/stage.rs b/src/cmd/stage.rs
index a1164b6..f9675eb 100644
--- a/src/cmd/stage.rs
+++ b/src/cmd/stage.rs
@@ -30,7 +30,7 @@ pub fn stage(profile_name: &str) -> Result<(), AnyError> {
         );
 
         let up = change.render_sql();
-        let down = change.revert(&source_snapshot).unwrap().render_sql();
+        let down = change.revert(&source_snapshot)?.render_sql();
         change.apply(&mut source_snapshot)?;
 
         stage.add_change(change);
diff --git a/src/cmd/up.rs b/src/cmd/up.rs
index d187d41..482cb2c 100644
--- a/src/cmd/up.rs
+++ b/src/cmd/up.rs
@@ -42,10 +42,10 @@ pub fn up(profile_name: &str, version: Option<&str>) -> Result<(), AnyError> {
         let v = fsh.get_version(&version_name)?;
         println!("  Applying version {}", v.name.green());
         for stmt in &v.up {
-            tx.execute(stmt, &[]).unwrap();
+            tx.execute(stmt, &[])?;
             println!("    {}", stmt.dimmed(),);
         }
-        dbh.save_version(&mut tx, &v).unwrap();
+        dbh.save_version(&mut tx, &v)?;
     }
 
     tx.commit()?;
diff --git a/src/project/mod.rs b/src/project/mod.rs
index d49bb3e..e9a217c 100644
--- a/src/project/mod.rs
+++ b/src/project/mod.rs
@@ -124,7 +124,7 @@ pub fn initialize_project(base_dir: PathBuf) -> Result<Project, ProjectError> {
     let yaml_project = create_base_yaml_project();
     let s = serde_yaml::to_string(&yaml_project).unwrap();
     let config_file = base_dir.join(CONFIG_FILE);
-    fs::write(config_file, &s).unwrap();
+    fs::write(config_file, &s)?;
     load_project_from_str(base_dir, &s)
 }
 
-- 
2.43.0


From 639613bb3aed101e124a790e9bca71846c6c1b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:12 +0000
Subject: [PATCH 36/71] fix: refuse to apply the stage as if it were a version

---
 src/cmd/up.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cmd/up.rs b/src/cmd/up.rs
index 482cb2c..3328105 100644
--- a/src/cmd/up.rs
+++ b/src/cmd/up.rs
@@ -1,6 +1,6 @@
 use crate::{
     error::AnyError,
-    history::{DBHistory, FSHistory},
+    history::{DBHistory, FSHistory, STAGE},
     project::discover_project,
 };
 use colored::Colorize;
@@ -28,6 +28,9 @@ pub fn up(profile_name: &str, version: Option<&str>) -> Result<(), AnyError> {
         Some(v) => fsh.get_version(v)?,
         None => fsh.get_current_version()?,
     };
+    if to_version.name == STAGE {
+        return Err("the stage is not a version yet: make it first".into());
+    }
 
     println!("On database version: {}", current_version.name);
     println!("Applying upward migrations to {}:", to_version.name);
-- 
2.43.0


From ef8e7a4f6dba2d321a3b569e90572275ad547217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:31 +0000
Subject: [PATCH 37/71] fix: init leaves a broken project file alone

---
 src/cmd/init.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/cmd/init.rs b/src/cmd/init.rs
index 640bb2f..534609b 100644
--- a/src/cmd/init.rs
+++ b/src/cmd/init.rs
@@ -1,15 +1,19 @@
 use crate::definition;
 use crate::error::AnyError;
 use crate::history::{FSHistory, Version};
-use crate::project::{discover_project, initialize_project};
+use crate::project::{discover_project, initialize_project, ProjectError};
 use crate::snapshot::Database;
 
 pub fn init() -> Result<(), AnyError> {
     let cwd = std::env::current_dir()?;
 
-    if let Ok(proj) = discover_project(cwd.clone()) {
-        println!("Project already exists at: {}", proj.base_dir.display());
-        return Ok(());
+    match discover_project(cwd.clone()) {
+        Ok(proj) => {
+            println!("Project already exists at: {}", proj.base_dir.display());
+            return Ok(());
+        }
+        Err(ProjectError::ProjectNotFound { .. }) => {}
+        Err(e) => return Err(e.into()),
     }
 
     let project = initialize_project(cwd)?;
-- 
2.43.0


From ba3bf0c4f267663015e5be537e033e35ce2777e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:35 +0000
Subject: [PATCH 38/71] fix: init leaves existing history and definitions alone

---
 src/cmd/init.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/cmd/init.rs b/src/cmd/init.rs
index 534609b..7ea95f0 100644
--- a/src/cmd/init.rs
+++ b/src/cmd/init.rs
@@ -36,10 +36,16 @@ pub fn init() -> Result<(), AnyError> {
     }
 
     let mut fsh = FSHistory::new(history_dir.clone());
-    fsh.save_version(init)?;
-    fsh.save_version(stage)?;
+    for version in [init, stage] {
+        if !fsh.has_version(&version.name) {
+            fsh.save_version(version)?;
+        }
+    }
 
-    definition::save_snapshot(&definition_dir.join("public.yaml"), &snapshot)?;
+    let definition_file = definition_dir.join("public.yaml");
+    if !definition_file.exists() {
+        definition::save_snapshot(&definition_file, &snapshot)?;
+    }
 
     Ok(())
 }
-- 
2.43.0


From c0013b0844f3c233701c46a645ed27416213a76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:09 +0000
Subject: [PATCH 39/71] fix: quote the metadata schema

---
 src/history/dbh.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/history/dbh.rs b/src/history/dbh.rs
index 10efbd8..ab60538 100644
--- a/src/history/dbh.rs
+++ b/src/history/dbh.rs
@@ -1,6 +1,6 @@
 use postgres::Transaction;
 
-use crate::snapshot::changes::Change;
+use crate::{snapshot::changes::Change, util::sqlfmt::sql_qn};
 
 use super::Version;
 
@@ -158,7 +158,7 @@ impl DBHistory {
 }
 
 fn format_create_schema_sql(schema: &str) -> String {
-    format!("CREATE SCHEMA {}", schema)
+    format!("CREATE SCHEMA {}", sql_qn(schema))
 }
 fn format_create_table_sql(schema: &str) -> String {
     format!(
@@ -171,45 +171,46 @@ fn format_create_table_sql(schema: &str) -> String {
     applied_at TIMESTAMP NOT NULL DEFAULT now(),
     applied_order SERIAL NOT NULL UNIQUE
 )",
-        schema, schema,
+        sql_qn(schema),
+        sql_qn(schema),
     )
 }
 fn format_insert_version_sql(schema: &str) -> String {
     format!(
         "INSERT INTO {}.version (name, previous, changes, up, down) VALUES ($1, $2, $3::TEXT::JSON, $4, $5)",
-        schema
+        sql_qn(schema)
     )
 }
 
 fn format_current_version_sql(schema: &str) -> String {
     format!(
         "SELECT name, previous, changes::TEXT, up, down, applied_at FROM {}.version ORDER BY applied_order DESC LIMIT 1",
-        schema
+        sql_qn(schema)
     )
 }
 
 fn format_delete_version_sql(schema: &str) -> String {
-    format!("DELETE FROM {}.version WHERE name = $1", schema)
+    format!("DELETE FROM {}.version WHERE name = $1", sql_qn(schema))
 }
 
 fn format_get_downward_range_sql(schema: &str) -> String {
     format!(
         "SELECT name FROM {}.version WHERE $1 >= applied_order AND applied_order > $2 ORDER BY applied_order DESC",
-        schema
+        sql_qn(schema)
     )
 }
 
 fn format_get_applied_order_sql(schema: &str) -> String {
     format!(
         "SELECT applied_order FROM {}.version WHERE name = $1",
-        schema
+        sql_qn(schema)
     )
 }
 
 fn format_get_version_sql(schema: &str) -> String {
     format!(
         "SELECT name, previous, changes::TEXT, up, down FROM {}.version WHERE name = $1",
-        schema
+        sql_qn(schema)
     )
 }
 
-- 
2.43.0


From 220fe634837324a4d570ff443f55c44798c5618f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:13 +0000
Subject: [PATCH 40/71] fix: keep the metadata in a schema that exists already

---
 src/history/dbh.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/history/dbh.rs b/src/history/dbh.rs
index ab60538..f42c710 100644
--- a/src/history/dbh.rs
+++ b/src/history/dbh.rs
@@ -63,7 +63,7 @@ impl DBHistory {
     }
 
     pub fn get_current_version(&mut self, tx: &mut Transaction) -> Result<Version, DBHistoryError> {
-        if !self.meta_schema_exists(tx)? {
+        if !self.version_table_exists(tx)? {
             return Err(DBHistoryError::NotInitialized);
         }
         let row = tx.query_one(&format_current_version_sql(&self.metadata_schema), &[])?;
@@ -102,7 +102,7 @@ impl DBHistory {
     }
 
     pub fn ensure_initialized(&mut self, tx: &mut Transaction) -> Result<(), DBHistoryError> {
-        if !self.meta_schema_exists(tx)? {
+        if !self.version_table_exists(tx)? {
             self.create_meta_schema(tx)?;
         }
         Ok(())
@@ -115,9 +115,9 @@ impl DBHistory {
         Ok(())
     }
 
-    fn meta_schema_exists(&mut self, tx: &mut Transaction) -> Result<bool, DBHistoryError> {
+    fn version_table_exists(&mut self, tx: &mut Transaction) -> Result<bool, DBHistoryError> {
         let row = tx.query_one(
-            "SELECT EXISTS(SELECT * FROM pg_catalog.pg_namespace WHERE nspname = $1)",
+            "SELECT EXISTS(SELECT * FROM pg_catalog.pg_tables WHERE schemaname = $1 AND tablename = 'version')",
             &[&self.metadata_schema],
         )?;
         Ok(row.get(0))
@@ -158,7 +158,7 @@ impl DBHistory {
 }
 
 fn format_create_schema_sql(schema: &str) -> String {
-    format!("CREATE SCHEMA {}", sql_qn(schema))
+    format!("CREATE SCHEMA IF NOT EXISTS {}", sql_qn(schema))
 }
 fn format_create_table_sql(schema: &str) -> String {
     format!(
-- 
2.43.0


From 66d431c436f7da4f7761ead1673e7d7c25abbb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:21 +0000
Subject: [PATCH 41/71] fix: clone takes the views along

---
 src/introspection/mod.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/introspection/mod.rs b/src/introspection/mod.rs
index ad34283..9a2ecdf 100644
--- a/src/introspection/mod.rs
+++ b/src/introspection/mod.rs
@@ -4,7 +4,7 @@ use crate::{
     error::AnyError,
     snapshot::{
         Check, Column, Constraint, Database, ForeignKey, Function, Index, PrimaryKey, Relation,
-        Schema, Sequence, Table, Unique,
+        Schema, Sequence, Table, Unique, View,
     },
 };
 
@@ -33,6 +33,7 @@ pub fn introspect(tx: &mut Transaction, schemas: &[&str]) -> Result<Database, An
     load_unique(tx, &mut database, schemas)?;
     load_checks(tx, &mut database, schemas)?;
     load_indexes(tx, &mut database, schemas)?;
+    load_views(tx, &mut database, schemas)?;
 
     Ok(database)
 }
@@ -264,3 +265,21 @@ fn load_functions(
     }
     Ok(())
 }
+
+fn load_views(
+    tx: &mut Transaction,
+    database: &mut Database,
+    schemas: &[&str],
+) -> Result<(), AnyError> {
+    for iview in view::introspect_views(tx, schemas)? {
+        let view = View {
+            name: iview.name,
+            schema_name: iview.schema,
+            query: iview.view_definition,
+        };
+        database
+            .get_schema_mut(&view.schema_name)?
+            .add_relation(Relation::View(view))?;
+    }
+    Ok(())
+}
-- 
2.43.0


From 0adafeac1d7af4f512df62e2aa7115d4a3e64ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:47 +0000
Subject: [PATCH 42/71] fix: clone names the simple match of a foreign key as
 definitions do

---
 src/introspection/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/introspection/mod.rs b/src/introspection/mod.rs
index 9a2ecdf..b97128a 100644
--- a/src/introspection/mod.rs
+++ b/src/introspection/mod.rs
@@ -181,7 +181,10 @@ fn load_foreign_keys(
             target_columns: ifk.target_table_columns,
             deferrable: ifk.deferrable,
             initially_deferred: ifk.initially_deferred,
-            match_option: ifk.match_option,
+            match_option: match ifk.match_option.as_str() {
+                "NONE" => "SIMPLE".to_string(),
+                _ => ifk.match_option,
+            },
             update_rule: ifk.update_rule,
             delete_rule: ifk.delete_rule,
         };
-- 
2.43.0


From 2b828906db9b2bd4b0d654066ee1eb4806044614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:50 +0000
Subject: [PATCH 43/71] fix: clone pairs the columns of a foreign key

---
 src/introspection/foreignkey.sql | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/src/introspection/foreignkey.sql b/src/introspection/foreignkey.sql
index a304ac2..c004d9d 100644
--- a/src/introspection/foreignkey.sql
+++ b/src/introspection/foreignkey.sql
@@ -3,27 +3,18 @@ SELECT
     con.conname AS constraint_name,
     c.relname AS constraint_table_name,
     (
-			SELECT array_agg(pa.attname)
-			FROM UNNEST(con.conkey) ck(attnum)
+			SELECT array_agg(pa.attname ORDER BY ck.ord)
+			FROM UNNEST(con.conkey) WITH ORDINALITY ck(attnum, ord)
 			JOIN pg_catalog.pg_attribute pa ON pa.attrelid = con.conrelid AND pa.attnum = ck.attnum
 		) AS table_columns,
 
-    npkc.nspname AS target_schema,
+    nfc.nspname AS target_schema,
     fc.relname AS target_table_name,
-	(
-		SELECT array_agg(pa.attname)
-		FROM pg_catalog.pg_attribute pa
-		WHERE fc.oid = pa.attrelid
-		AND fc.oid =
-			CASE pkc.contype
-				WHEN 'f' THEN pkc.confrelid
-				ELSE pkc.conrelid
-			END AND (pa.attnum = ANY (
-			CASE pkc.contype
-				WHEN 'f' THEN pkc.confkey
-			ELSE pkc.conkey
-		END)) AND NOT pa.attisdropped 
-	) AS target_columns,
+    (
+        SELECT array_agg(pa.attname ORDER BY ck.ord)
+        FROM UNNEST(con.confkey) WITH ORDINALITY ck(attnum, ord)
+        JOIN pg_catalog.pg_attribute pa ON pa.attrelid = con.confrelid AND pa.attnum = ck.attnum
+    ) AS target_columns,
 	con.condeferrable AS constraint_deferrable,
 	con.condeferred AS constraint_deferred,
     CASE con.confmatchtype
@@ -51,10 +42,7 @@ SELECT
 FROM pg_namespace ncon
     JOIN pg_constraint con ON ncon.oid = con.connamespace
     JOIN pg_class c ON con.conrelid = c.oid AND con.contype = 'f'::"char"
-    LEFT JOIN pg_depend d1 ON d1.objid = con.oid AND d1.classid = 'pg_constraint'::regclass::oid AND d1.refclassid = 'pg_class'::regclass::oid AND d1.refobjsubid = 0
-    LEFT JOIN pg_depend d2 ON d2.refclassid = 'pg_constraint'::regclass::oid AND d2.classid = 'pg_class'::regclass::oid AND d2.objid = d1.refobjid AND d2.objsubid = 0 AND d2.deptype = 'i'::"char"
-    LEFT JOIN pg_class fc ON con.confrelid = fc.oid
-    LEFT JOIN pg_constraint pkc ON pkc.oid = d2.refobjid AND (pkc.contype = ANY (ARRAY['p'::"char", 'u'::"char"])) AND pkc.conrelid = con.confrelid
-    LEFT JOIN pg_namespace npkc ON pkc.connamespace = npkc.oid
+    JOIN pg_class fc ON con.confrelid = fc.oid
+    JOIN pg_namespace nfc ON fc.relnamespace = nfc.oid
 WHERE (pg_has_role(c.relowner, 'USAGE') OR has_table_privilege(c.oid, 'INSERT, UPDATE, DELETE, TRUNCATE, REFERENCES, TRIGGER') OR has_any_column_privilege(c.oid, 'INSERT, UPDATE, REFERENCES'))
   AND ncon.nspname = ANY($1);
-- 
2.43.0


From eec37f95ba04e970da35513a1bfccdd8c54c5715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:54 +0000
Subject: [PATCH 44/71] fix: clone keeps the order of key columns

---
 src/introspection/primarykey.sql | 4 ++--
 src/introspection/unique.sql     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/introspection/primarykey.sql b/src/introspection/primarykey.sql
index fe4e228..f370f0b 100644
--- a/src/introspection/primarykey.sql
+++ b/src/introspection/primarykey.sql
@@ -4,8 +4,8 @@ SELECT
     nr.nspname AS table_schema,
     r.relname AS table_name,
     (
-        SELECT array_agg(pa.attname)
-        FROM UNNEST(c.conkey) ck(attnum)
+        SELECT array_agg(pa.attname ORDER BY ck.ord)
+        FROM UNNEST(c.conkey) WITH ORDINALITY ck(attnum, ord)
         JOIN pg_catalog.pg_attribute pa ON pa.attrelid = c.conrelid AND pa.attnum = ck.attnum
     ) AS table_columns,
     c.condeferrable
diff --git a/src/introspection/unique.sql b/src/introspection/unique.sql
index afa267a..7b12ffa 100644
--- a/src/introspection/unique.sql
+++ b/src/introspection/unique.sql
@@ -4,8 +4,8 @@ SELECT
     nr.nspname AS table_schema,
     r.relname AS table_name,
     (
-        SELECT array_agg(pa.attname)
-        FROM UNNEST(c.conkey) ck(attnum)
+        SELECT array_agg(pa.attname ORDER BY ck.ord)
+        FROM UNNEST(c.conkey) WITH ORDINALITY ck(attnum, ord)
         JOIN pg_catalog.pg_attribute pa ON pa.attrelid = c.conrelid AND pa.attnum = ck.attnum
     ) AS table_columns,
     c.condeferrable
-- 
2.43.0


From 86d9eb0690c73f9ef53bfb8a3f8518a3ec3e76de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:57 +0000
Subject: [PATCH 45/71] fix: clone keeps the order of columns

---
 src/introspection/column.sql | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/introspection/column.sql b/src/introspection/column.sql
index 8dc09bd..999b489 100644
--- a/src/introspection/column.sql
+++ b/src/introspection/column.sql
@@ -53,4 +53,5 @@ WHERE NOT pg_is_other_temp_schema(nc.oid)
     AND a.attnum > 0
     AND NOT a.attisdropped
     AND c.relkind = 'r'
-    AND nc.nspname = ANY($1);
+    AND nc.nspname = ANY($1)
+ORDER BY nc.nspname, c.relname, a.attnum;
-- 
2.43.0


From 302f53ff88092bb028e160a8b17ce1477845087d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:31 +0000
Subject: [PATCH 46/71] fix: clone takes only array types for arrays

---
 src/introspection/column.sql | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/introspection/column.sql b/src/introspection/column.sql
index 999b489..c6241f6 100644
--- a/src/introspection/column.sql
+++ b/src/introspection/column.sql
@@ -12,7 +12,7 @@ SELECT
     a.attnotnull OR t.typtype = 'd' AND t.typnotnull
         AS "not_null",
     CASE
-        WHEN t.typelem <> 0 THEN (SELECT eltype.typname FROM pg_type eltype WHERE eltype.oid = t.typelem) 
+        WHEN t.typelem <> 0 AND t.typlen = -1 THEN (SELECT eltype.typname FROM pg_type eltype WHERE eltype.oid = t.typelem) 
         ELSE t.typname
     END 
     ||
@@ -43,7 +43,7 @@ SELECT
     ELSE ''
     END
     ||
-    CASE WHEN t.typelem <> 0 THEN '[]' ELSE '' END
+    CASE WHEN t.typelem <> 0 AND t.typlen = -1 THEN '[]' ELSE '' END
         AS "data_type"
 FROM pg_attribute a
     LEFT JOIN pg_attrdef ad ON a.attrelid = ad.adrelid AND a.attnum = ad.adnum
-- 
2.43.0


From 7c5a787318094265331338e74669f8699a1edc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:35 +0000
Subject: [PATCH 47/71] fix: clone names the precision of times with time zone
 as types do

---
 src/introspection/column.sql | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/introspection/column.sql b/src/introspection/column.sql
index c6241f6..9d3bc54 100644
--- a/src/introspection/column.sql
+++ b/src/introspection/column.sql
@@ -17,7 +17,7 @@ SELECT
     END 
     ||
     CASE WHEN a.atttypmod != -1 THEN
-        CASE t.typname
+        REPLACE(CASE t.typname
                 WHEN 'bpchar' THEN bpchartypmodout(a.atttypmod)
                 WHEN '_bpchar' THEN bpchartypmodout(a.atttypmod)
                 WHEN 'varchar' THEN varchartypmodout(a.atttypmod)
@@ -39,7 +39,7 @@ SELECT
                 WHEN 'numeric' THEN numerictypmodout(a.atttypmod)
                 WHEN '_numeric' THEN numerictypmodout(a.atttypmod)
                 ELSE null
-        END::TEXT
+        END::TEXT, ' with time zone', '')
     ELSE ''
     END
     ||
-- 
2.43.0


From b5eb072575f1ec3cc91525957a671daac2f2909a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 48/71] fix: clone keeps every key of an index and its
 direction

---
 src/introspection/index.sql |  7 ++-----
 src/introspection/mod.rs    | 17 ++++++++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/introspection/index.sql b/src/introspection/index.sql
index 6bb2b10..39bc64d 100644
--- a/src/introspection/index.sql
+++ b/src/introspection/index.sql
@@ -12,11 +12,8 @@ SELECT
     pi.indnatts
         AS key_length,
     (
-        SELECT array_agg(pa.attname) 
-        FROM unnest(pi.indkey) AS key(i)
-            JOIN pg_catalog.pg_attribute pa
-                ON pa.attrelid = pi.indrelid
-                    AND pa.attnum = i 
+        SELECT array_agg(pg_catalog.pg_get_indexdef(pi.indexrelid, i, true) ORDER BY i)
+        FROM generate_series(1, pi.indnkeyatts) AS key(i)
     ) AS key_columns,
     ( 
         SELECT array_agg(o)
diff --git a/src/introspection/mod.rs b/src/introspection/mod.rs
index b97128a..2acdfba 100644
--- a/src/introspection/mod.rs
+++ b/src/introspection/mod.rs
@@ -227,11 +227,18 @@ fn load_indexes(
     schemas: &[&str],
 ) -> Result<(), AnyError> {
     for iindex in index::introspect_indexes(tx, schemas)? {
-        let key_expressions = if let Some(expressions) = iindex.expressions {
-            vec![expressions] //
-        } else {
-            iindex.key_columns.unwrap()
-        };
+        let key_expressions = iindex
+            .key_columns
+            .unwrap_or_default()
+            .into_iter()
+            .zip(iindex.key_options)
+            .map(|(key, option)| match option & 3 {
+                1 => format!("{} DESC NULLS LAST", key),
+                2 => format!("{} NULLS FIRST", key),
+                3 => format!("{} DESC", key),
+                _ => key,
+            })
+            .collect();
 
         let index = Index {
             name: iindex.index_name,
-- 
2.43.0


From 89c27d85a4000b55b99c14b1d36395a7e6ce0a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:42 +0000
Subject: [PATCH 49/71] fix: clone keeps an index that a foreign key relies on

---
 src/introspection/index.sql | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/introspection/index.sql b/src/introspection/index.sql
index 39bc64d..e6f772f 100644
--- a/src/introspection/index.sql
+++ b/src/introspection/index.sql
@@ -26,6 +26,6 @@ FROM pg_catalog.pg_index pi
     JOIN pg_catalog.pg_namespace pn ON pc_index.relnamespace = pn.oid
     JOIN pg_catalog.pg_class pc_table ON pc_table.oid = pi.indrelid
     JOIN pg_am am ON am.oid=pc_index.relam
-    LEFT JOIN pg_catalog.pg_constraint pc ON pc.conindid = pc_index.oid
+    LEFT JOIN pg_catalog.pg_constraint pc ON pc.conindid = pc_index.oid AND pc.contype <> 'f'
 WHERE pc.oid IS NULL
     AND pn.nspname = ANY($1);
-- 
2.43.0


From 6ef5d280447cddff55047eda180b91cc2807b7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:46 +0000
Subject: [PATCH 50/71] fix: clone keeps the arguments of a function

---
 src/introspection/function.sql | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/introspection/function.sql b/src/introspection/function.sql
index 2331ce4..fbadfc3 100644
--- a/src/introspection/function.sql
+++ b/src/introspection/function.sql
@@ -1,6 +1,9 @@
 SELECT
     n.nspname AS schema,
-    p.proname AS name,
+    p.proname || CASE
+        WHEN pg_get_function_arguments(p.oid) <> '' THEN '(' || pg_get_function_arguments(p.oid) || ')'
+        ELSE ''
+    END AS name,
     p.prosrc AS body,
     l.lanname AS language,
     CASE
-- 
2.43.0


From cfd739da828f5fc369bf0b8f480bfd521bf3ffd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:08 +0000
Subject: [PATCH 51/71] fix: drop a default before the sequence it uses

---
 src/snapshot/diff.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/snapshot/diff.rs b/src/snapshot/diff.rs
index 98704ac..381afc4 100644
--- a/src/snapshot/diff.rs
+++ b/src/snapshot/diff.rs
@@ -35,6 +35,8 @@ fn get_phase(change: &Change) -> u8 {
         | Change::DropPrimaryKeyChange(_) => 3,
         Change::DropTableChange(_) => 4,
         Change::DropColumnChange(_) => 5,
+        // A default may use a sequence or function that goes.
+        Change::AlterColumnSetDefaultChange(c) if c.default.is_none() => 5,
         Change::DropFunctionChange(_) | Change::DropSequenceChange(_) => 6,
         Change::DropSchemaChange(_) => 7,
         Change::CreateSchemaChange(_) => 8,
-- 
2.43.0


From cac4fe72e88d522e5c3804920e06b3845b55ed1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:23 +0000
Subject: [PATCH 52/71] fix: do not rebuild a sequence because of its owner

---
 src/snapshot/diff.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/snapshot/diff.rs b/src/snapshot/diff.rs
index 381afc4..5fa4c6e 100644
--- a/src/snapshot/diff.rs
+++ b/src/snapshot/diff.rs
@@ -515,6 +515,8 @@ fn diff_sequence_create(t: &Sequence) -> Changeset {
     return changes;
 }
 
+// The owner is not compared: no change can set it, so a difference in it alone
+// would rebuild the sequence on every comparison without ever going away.
 fn diff_sequence_update(s: &Sequence, t: &Sequence) -> Changeset {
     let mut changes = Changeset::new();
 
@@ -525,8 +527,6 @@ fn diff_sequence_update(s: &Sequence, t: &Sequence) -> Changeset {
         || s.start != t.start
         || s.cache != t.cache
         || s.cycle != t.cycle
-        || s.owned_by_table != t.owned_by_table
-        || s.owned_by_column != t.owned_by_column
     {
         changes.push(DropSequenceChange::new(s));
         changes.push(CreateSequenceChange::new(t));
-- 
2.43.0


From 9dec5fe2fc88f853a30eb0f338583588165d1952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:27 +0000
Subject: [PATCH 53/71] fix: refuse a reference with an empty schema or table
 name

---
 src/definition/ddl/foreignkey.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/definition/ddl/foreignkey.rs b/src/definition/ddl/foreignkey.rs
index 58e0526..b62fe0c 100644
--- a/src/definition/ddl/foreignkey.rs
+++ b/src/definition/ddl/foreignkey.rs
@@ -100,6 +100,9 @@ pub fn parse_foreign_key_constraint_definition(
 
 fn parse_table_reference(search_path: &str, input: &str) -> Result<(String, String), Error> {
     let parts: Vec<&str> = input.split('.').collect();
+    if parts.iter().any(|part| part.trim().is_empty()) {
+        return Err(Error::new_invalid_table_reference(input.to_owned()));
+    }
     match parts.len() {
         1 => Ok((search_path.to_owned(), parts[0].to_owned())),
         2 => Ok((parts[0].to_owned(), parts[1].to_owned())),
-- 
2.43.0


From 728d7b0a1cf9d285aa3be8fd44acc1d2738f177d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:31 +0000
Subject: [PATCH 54/71] fix: refuse a column with a blank type or an empty
 default

---
 src/definition/ddl/column.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/definition/ddl/column.rs b/src/definition/ddl/column.rs
index d7cc427..7309a8a 100644
--- a/src/definition/ddl/column.rs
+++ b/src/definition/ddl/column.rs
@@ -33,7 +33,7 @@ pub fn render_column_definition(ctx: &Context, def: &Column) -> Node {
 }
 
 fn parse_column_expression(input: &str) -> Result<(String, bool, Option<String>), Error> {
-    let re = Regex::new(r"(?s)^(?P<type>[^=!]+)(?P<notnull>!)?(?:\s*=\s*(?P<default>.+))?$").unwrap();
+    let re = Regex::new(r"(?s)^(?P<type>\s*[^=!\s][^=!]*)(?P<notnull>!)?(?:\s*=\s*(?P<default>\S.*))?$").unwrap();
     if let Some(caps) = re.captures(input) {
         let data_type = caps.name("type").unwrap().as_str().trim().to_string();
         let not_null = caps.name("notnull").is_some();
-- 
2.43.0


From bb122e609e13282319a8d60942598304aae3b531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:40 +0000
Subject: [PATCH 55/71] fix: refuse a history whose initial version follows
 another

---
 src/history/fsh.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/history/fsh.rs b/src/history/fsh.rs
index 631f2d4..99ccb24 100644
--- a/src/history/fsh.rs
+++ b/src/history/fsh.rs
@@ -60,6 +60,9 @@ impl FSHistory {
             names.insert(version_name);
 
             if let Some(previous) = v.previous {
+                if v.name == INIT {
+                    return Err(FSHistoryError::Disconnected { version: previous });
+                }
                 if let Some(existing) = history.next_map.get(&previous) {
                     return Err(FSHistoryError::Branched {
                         parent: previous.clone(),
-- 
2.43.0


From 7a5739aef01fc50c939e53b73261dec72fd9c97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:51 +0000
Subject: [PATCH 56/71] fix: write the project file as a whole

---
 src/project/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/project/mod.rs b/src/project/mod.rs
index e9a217c..edc8a78 100644
--- a/src/project/mod.rs
+++ b/src/project/mod.rs
@@ -123,8 +123,14 @@ pub fn discover_project(current_dir: PathBuf) -> Result<Project, ProjectError> {
 pub fn initialize_project(base_dir: PathBuf) -> Result<Project, ProjectError> {
     let yaml_project = create_base_yaml_project();
     let s = serde_yaml::to_string(&yaml_project).unwrap();
-    let config_file = base_dir.join(CONFIG_FILE);
-    fs::write(config_file, &s)?;
+    // Written aside and renamed, so that an interruption leaves the file whole.
+    let temporary_file = base_dir.join(format!("{}.tmp", CONFIG_FILE));
+    let res = fs::write(&temporary_file, &s)
+        .and_then(|_| fs::rename(&temporary_file, base_dir.join(CONFIG_FILE)));
+    if res.is_err() {
+        let _ = fs::remove_file(&temporary_file);
+    }
+    res?;
     load_project_from_str(base_dir, &s)
 }
 
-- 
2.43.0


From b1fb00bd1e51238a0fbc8b87acb0420c680903b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:54 +0000
Subject: [PATCH 57/71] fix: refuse a target that is a path to another
 version's file

---
 src/history/fsh.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/history/fsh.rs b/src/history/fsh.rs
index 99ccb24..7be33a4 100644
--- a/src/history/fsh.rs
+++ b/src/history/fsh.rs
@@ -51,12 +51,6 @@ impl FSHistory {
 
             let v = history.get_version(&version_name)?;
 
-            if v.name != version_name {
-                return Err(FSHistoryError::Misnamed {
-                    file: version_name,
-                    name: v.name,
-                });
-            }
             names.insert(version_name);
 
             if let Some(previous) = v.previous {
@@ -103,6 +97,14 @@ impl FSHistory {
         let version_file = File::open(version_file_path)?;
         let version: Version = serde_yaml::from_reader(version_file)?;
 
+        // A name that is a path leads to the file of another version.
+        if version.name != version_name {
+            return Err(FSHistoryError::Misnamed {
+                file: version_name.to_owned(),
+                name: version.name,
+            });
+        }
+
         Ok(version)
     }
 
-- 
2.43.0


From 729857faf69a20ca0655aa97ced7862e1f82c08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 58/71] fix: clone takes functions only, not aggregates and
 procedures

---
 src/introspection/function.sql | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/introspection/function.sql b/src/introspection/function.sql
index fbadfc3..52a124f 100644
--- a/src/introspection/function.sql
+++ b/src/introspection/function.sql
@@ -20,3 +20,4 @@ FROM
     JOIN pg_namespace n ON p.pronamespace = n.oid
     JOIN pg_language l ON p.prolang = l.oid
 WHERE n.nspname = ANY($1)
+    AND p.prokind = 'f'
-- 
2.43.0


From aa094a80e62f3bb5146456da2a8bb8599a402014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 59/71] fix: clone takes the columns of partitioned tables

---
 src/introspection/column.sql | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/introspection/column.sql b/src/introspection/column.sql
index 9d3bc54..10cd25e 100644
--- a/src/introspection/column.sql
+++ b/src/introspection/column.sql
@@ -52,6 +52,6 @@ FROM pg_attribute a
 WHERE NOT pg_is_other_temp_schema(nc.oid)
     AND a.attnum > 0
     AND NOT a.attisdropped
-    AND c.relkind = 'r'
+    AND c.relkind = ANY (ARRAY['r'::"char", 'p'::"char"])
     AND nc.nspname = ANY($1)
 ORDER BY nc.nspname, c.relname, a.attnum;
-- 
2.43.0


From 4082100ffebbf9c81c3b12e86205c3d268e4c538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:54 +0000
Subject: [PATCH 60/71] fix: clone takes a check's expression alone

---
 src/introspection/check.sql | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/introspection/check.sql b/src/introspection/check.sql
index 282aab9..20fa15d 100644
--- a/src/introspection/check.sql
+++ b/src/introspection/check.sql
@@ -5,7 +5,7 @@ SELECT
         table_name,
     con.conname
         constraint_name,
-    SUBSTRING(pg_get_constraintdef(con.oid), 7)
+    '(' || pg_get_expr(con.conbin, con.conrelid) || ')'
         check_clause,
     con.condeferrable
         is_deferrable,
-- 
2.43.0


From a0bb1ea4b3d176d8a9aacf50147dc3b3a279fd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 61/71] fix: clone leaves out indexes of materialized views

---
 src/introspection/index.sql | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/introspection/index.sql b/src/introspection/index.sql
index e6f772f..6e76331 100644
--- a/src/introspection/index.sql
+++ b/src/introspection/index.sql
@@ -28,4 +28,5 @@ FROM pg_catalog.pg_index pi
     JOIN pg_am am ON am.oid=pc_index.relam
     LEFT JOIN pg_catalog.pg_constraint pc ON pc.conindid = pc_index.oid AND pc.contype <> 'f'
 WHERE pc.oid IS NULL
+    AND pc_table.relkind = ANY (ARRAY['r'::"char", 'p'::"char"])
     AND pn.nspname = ANY($1);
-- 
2.43.0


From 4d964a3b83875b52e5b654cba7d2fe6430124e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 62/71] fix: clone qualifies and quotes types where they need
 it

---
 src/introspection/column.sql | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/introspection/column.sql b/src/introspection/column.sql
index 10cd25e..8b6508e 100644
--- a/src/introspection/column.sql
+++ b/src/introspection/column.sql
@@ -11,6 +11,9 @@ SELECT
         AS "column_default",
     a.attnotnull OR t.typtype = 'd' AND t.typnotnull
         AS "not_null",
+    CASE
+    WHEN nt.nspname <> 'pg_catalog' OR t.typname IN ('char', '_char') THEN format_type(a.atttypid, a.atttypmod)
+    ELSE
     CASE
         WHEN t.typelem <> 0 AND t.typlen = -1 THEN (SELECT eltype.typname FROM pg_type eltype WHERE eltype.oid = t.typelem) 
         ELSE t.typname
@@ -44,6 +47,7 @@ SELECT
     END
     ||
     CASE WHEN t.typelem <> 0 AND t.typlen = -1 THEN '[]' ELSE '' END
+    END
         AS "data_type"
 FROM pg_attribute a
     LEFT JOIN pg_attrdef ad ON a.attrelid = ad.adrelid AND a.attnum = ad.adnum
-- 
2.43.0


From b440d936d25fe95f9de306b968b71b03b9b2b4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 63/71] fix: clone keeps the operator classes of index keys

---
 src/introspection/index.sql | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/introspection/index.sql b/src/introspection/index.sql
index 6e76331..1490896 100644
--- a/src/introspection/index.sql
+++ b/src/introspection/index.sql
@@ -12,8 +12,10 @@ SELECT
     pi.indnatts
         AS key_length,
     (
-        SELECT array_agg(pg_catalog.pg_get_indexdef(pi.indexrelid, i, true) ORDER BY i)
+        SELECT array_agg(pg_catalog.pg_get_indexdef(pi.indexrelid, i, true)
+            || CASE WHEN opc.opcdefault THEN '' ELSE ' ' || quote_ident(opc.opcname) END ORDER BY i)
         FROM generate_series(1, pi.indnkeyatts) AS key(i)
+        JOIN pg_catalog.pg_opclass opc ON opc.oid = pi.indclass[i - 1]
     ) AS key_columns,
     ( 
         SELECT array_agg(o)
-- 
2.43.0


From c4206de108105cfc55d69ebe8cb8056f76b976d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:54 +0000
Subject: [PATCH 64/71] fix: clone keeps the columns of a returned table

---
 src/introspection/function.sql | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/introspection/function.sql b/src/introspection/function.sql
index 52a124f..daaab06 100644
--- a/src/introspection/function.sql
+++ b/src/introspection/function.sql
@@ -7,6 +7,7 @@ SELECT
     p.prosrc AS body,
     l.lanname AS language,
     CASE
+        WHEN pg_get_function_result(p.oid) LIKE 'TABLE(%' THEN pg_get_function_result(p.oid)
         WHEN p.proretset THEN 'setof ' || format_type(p.prorettype, NULL)
         ELSE format_type(p.prorettype, NULL)
     END AS returns,
-- 
2.43.0


From d7d71ed5010540db5f082350b9711df64bad4525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 65/71] fix: clone quotes languages that need it

---
 src/introspection/function.sql | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/introspection/function.sql b/src/introspection/function.sql
index daaab06..9d60b56 100644
--- a/src/introspection/function.sql
+++ b/src/introspection/function.sql
@@ -5,7 +5,7 @@ SELECT
         ELSE ''
     END AS name,
     p.prosrc AS body,
-    l.lanname AS language,
+    quote_ident(l.lanname) AS language,
     CASE
         WHEN pg_get_function_result(p.oid) LIKE 'TABLE(%' THEN pg_get_function_result(p.oid)
         WHEN p.proretset THEN 'setof ' || format_type(p.prorettype, NULL)
-- 
2.43.0


From 12f9eb92c84a73c279ddc623aaea1b51b3835fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 66/71] fix: clone takes what is there, whatever the role may
 do with it

---
 src/introspection/check.sql      |  2 +-
 src/introspection/foreignkey.sql |  3 +--
 src/introspection/primarykey.sql |  5 -----
 src/introspection/table.sql      |  5 -----
 src/introspection/unique.sql     |  5 -----
 src/introspection/view.sql       | 10 ++--------
 6 files changed, 4 insertions(+), 26 deletions(-)

diff --git a/src/introspection/check.sql b/src/introspection/check.sql
index 20fa15d..2a8eb8f 100644
--- a/src/introspection/check.sql
+++ b/src/introspection/check.sql
@@ -15,6 +15,6 @@ FROM pg_constraint con
     LEFT JOIN pg_namespace rs ON rs.oid = con.connamespace
     LEFT JOIN pg_class c ON c.oid = con.conrelid
     LEFT JOIN pg_type t ON t.oid = con.contypid
-WHERE pg_has_role(COALESCE(c.relowner, t.typowner), 'USAGE') AND con.contype = 'c'
+WHERE con.contype = 'c'
     AND con.conrelid != 0
     AND rs.nspname = ANY($1);
diff --git a/src/introspection/foreignkey.sql b/src/introspection/foreignkey.sql
index c004d9d..edaf095 100644
--- a/src/introspection/foreignkey.sql
+++ b/src/introspection/foreignkey.sql
@@ -44,5 +44,4 @@ FROM pg_namespace ncon
     JOIN pg_class c ON con.conrelid = c.oid AND con.contype = 'f'::"char"
     JOIN pg_class fc ON con.confrelid = fc.oid
     JOIN pg_namespace nfc ON fc.relnamespace = nfc.oid
-WHERE (pg_has_role(c.relowner, 'USAGE') OR has_table_privilege(c.oid, 'INSERT, UPDATE, DELETE, TRUNCATE, REFERENCES, TRIGGER') OR has_any_column_privilege(c.oid, 'INSERT, UPDATE, REFERENCES'))
-  AND ncon.nspname = ANY($1);
+WHERE ncon.nspname = ANY($1);
diff --git a/src/introspection/primarykey.sql b/src/introspection/primarykey.sql
index f370f0b..fe0d970 100644
--- a/src/introspection/primarykey.sql
+++ b/src/introspection/primarykey.sql
@@ -22,9 +22,4 @@ WHERE nc.oid = c.connamespace
     AND c.contype = 'p'
     AND (r.relkind = ANY (ARRAY['r'::"char", 'p'::"char"]))
     AND NOT pg_is_other_temp_schema(nr.oid)
-    AND (
-        pg_has_role(r.relowner, 'USAGE'::text)
-        OR has_table_privilege(r.oid, 'INSERT, UPDATE, DELETE, TRUNCATE, REFERENCES, TRIGGER'::text)
-        OR has_any_column_privilege(r.oid, 'INSERT, UPDATE, REFERENCES'::text)
-    )
     AND nc.nspname = ANY($1);
diff --git a/src/introspection/table.sql b/src/introspection/table.sql
index bc365e1..baa2bb5 100644
--- a/src/introspection/table.sql
+++ b/src/introspection/table.sql
@@ -9,9 +9,4 @@ FROM pg_namespace nc
     JOIN pg_namespace nt ON t.typnamespace = nt.oid) ON c.reloftype = t.oid
 WHERE c.relkind = ANY (ARRAY['r'::"char", 'p'::"char"])
     AND NOT pg_is_other_temp_schema(nc.oid)
-    AND (
-        pg_has_role(c.relowner, 'USAGE'::text)
-        OR has_table_privilege(c.oid, 'SELECT, INSERT, UPDATE, DELETE, TRUNCATE, REFERENCES, TRIGGER'::text)
-        OR has_any_column_privilege(c.oid, 'SELECT, INSERT, UPDATE, REFERENCES'::text)
-    )
     AND nc.nspname = ANY($1);
diff --git a/src/introspection/unique.sql b/src/introspection/unique.sql
index 7b12ffa..5a9e0c0 100644
--- a/src/introspection/unique.sql
+++ b/src/introspection/unique.sql
@@ -22,9 +22,4 @@ WHERE nc.oid = c.connamespace
     AND c.contype = 'u'
     AND (r.relkind = ANY (ARRAY['r'::"char", 'p'::"char"]))
     AND NOT pg_is_other_temp_schema(nr.oid)
-    AND (
-        pg_has_role(r.relowner, 'USAGE'::text)
-        OR has_table_privilege(r.oid, 'INSERT, UPDATE, DELETE, TRUNCATE, REFERENCES, TRIGGER'::text)
-        OR has_any_column_privilege(r.oid, 'INSERT, UPDATE, REFERENCES'::text)
-    )
     AND nc.nspname = ANY($1);
diff --git a/src/introspection/view.sql b/src/introspection/view.sql
index 869cd65..13e6596 100644
--- a/src/introspection/view.sql
+++ b/src/introspection/view.sql
@@ -3,10 +3,7 @@ SELECT
         AS schema,
     c.relname
         AS name,
-    CASE
-        WHEN pg_has_role(c.relowner, 'USAGE'::text) THEN left(trim(pg_get_viewdef(c.oid)), -1)
-        ELSE NULL::text
-    END
+    left(trim(pg_get_viewdef(c.oid)), -1)
         AS view_definition,
     CASE
         WHEN 'check_option=cascaded'::text = ANY (c.reloptions) THEN 'CASCADED'::text
@@ -40,7 +37,4 @@ pg_class c
 WHERE nc.nspname = ANY($1)
     AND c.relnamespace = nc.oid
     AND c.relkind = 'v'::"char"
-    AND NOT pg_is_other_temp_schema(nc.oid)
-    AND (pg_has_role(c.relowner, 'USAGE'::text)
-    OR has_table_privilege(c.oid, 'SELECT, INSERT, UPDATE, DELETE, TRUNCATE, REFERENCES, TRIGGER'::text)
-    OR has_any_column_privilege(c.oid, 'SELECT, INSERT, UPDATE, REFERENCES'::text));
+    AND NOT pg_is_other_temp_schema(nc.oid);
-- 
2.43.0


From 4a83b01ed4283f7739108ec91246579ffc687d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:23 +0000
Subject: [PATCH 67/71] fix: down gives up when another down has reverted the
 version already

---
 src/history/dbh.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/history/dbh.rs b/src/history/dbh.rs
index f42c710..52d5081 100644
--- a/src/history/dbh.rs
+++ b/src/history/dbh.rs
@@ -42,10 +42,14 @@ impl DBHistory {
         tx: &mut Transaction,
         version: &Version,
     ) -> Result<(), DBHistoryError> {
-        tx.execute(
+        let deleted = tx.execute(
             &format_delete_version_sql(&self.metadata_schema),
             &[&version.name],
         )?;
+        if deleted == 0 {
+            // someone else has taken it down in the meantime
+            return Err(DBHistoryError::NoMatchingVersion(version.name.clone()));
+        }
         Ok(())
     }
 
-- 
2.43.0


From 014ac2149fa75cbe57409248998b76e391684cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:47 +0000
Subject: [PATCH 68/71] fix: clone reads one state of the database

---
 src/cmd/clone.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cmd/clone.rs b/src/cmd/clone.rs
index 3c780cb..a5a2361 100644
--- a/src/cmd/clone.rs
+++ b/src/cmd/clone.rs
@@ -1,4 +1,4 @@
-use postgres::{Client, NoTls};
+use postgres::{Client, IsolationLevel, NoTls};
 
 use crate::definition::save_snapshot;
 use crate::introspection::introspect;
@@ -11,7 +11,12 @@ pub fn clone(profile_name: &str) -> Result<(), AnyError> {
     let definition_dir = project.resolve_definitions_dir(profile_name)?;
 
     let mut pg_client = Client::connect(&database_url, NoTls)?;
-    let mut tx = pg_client.transaction()?;
+    // one state of the database for all that is read
+    let mut tx = pg_client
+        .build_transaction()
+        .isolation_level(IsolationLevel::RepeatableRead)
+        .read_only(true)
+        .start()?;
 
     let snapshot = introspect(&mut tx, &vec!["public"])?;
 
-- 
2.43.0


From 920fe703e4294ee9fecfa3ead6c56d08dd88fe0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:16 +0000
Subject: [PATCH 69/71] fix: an empty list of columns is refused where columns
 are required

---
 src/definition/ddl/foreignkey.rs | 2 +-
 src/definition/ddl/index.rs      | 2 +-
 src/definition/ddl/primarykey.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/definition/ddl/foreignkey.rs b/src/definition/ddl/foreignkey.rs
index b62fe0c..835cf1a 100644
--- a/src/definition/ddl/foreignkey.rs
+++ b/src/definition/ddl/foreignkey.rs
@@ -56,7 +56,7 @@ pub fn parse_foreign_key_constraint_definition(
             errors.push(e);
         }
     }
-    if columns.is_none() {
+    if columns.as_ref().map_or(true, |c| c.is_empty()) {
         errors.push(Error::new_attribute_required(n, "columns"));
     }
     if target_schema.is_none() || target_table.is_none() || target_columns.is_empty() {
diff --git a/src/definition/ddl/index.rs b/src/definition/ddl/index.rs
index 0b5315a..0a2e3e7 100644
--- a/src/definition/ddl/index.rs
+++ b/src/definition/ddl/index.rs
@@ -54,7 +54,7 @@ pub fn parse_index_definition(ctx: &Context, n: &Node) -> Result<Index, Error> {
     if method.is_none() {
         method = Some(defaults::get_default_index_method());
     }
-    if table_name.is_none() || key_expressions.is_none() {
+    if table_name.is_none() || key_expressions.as_ref().map_or(true, |k| k.is_empty()) {
         errors.push(Error::new_attribute_required(n, "on"));
     }
 
diff --git a/src/definition/ddl/primarykey.rs b/src/definition/ddl/primarykey.rs
index 6922d28..3ca3396 100644
--- a/src/definition/ddl/primarykey.rs
+++ b/src/definition/ddl/primarykey.rs
@@ -39,7 +39,7 @@ pub fn parse_primary_key_definition(
         }
     }
 
-    if columns.is_none() {
+    if columns.as_ref().map_or(true, |c| c.is_empty()) {
         errors.push(Error::new_attribute_required(n, "primary key"));
     }
     if deferrable.is_none() {
-- 
2.43.0


From e31cde87735639a927966e281f6d95b2375a10b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:27 +0000
Subject: [PATCH 70/71] fix: the default of a function's argument is left out
 of its drop however it is set apart

---
 src/util/sqlfmt.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/util/sqlfmt.rs b/src/util/sqlfmt.rs
index eb20f89..2157773 100644
--- a/src/util/sqlfmt.rs
+++ b/src/util/sqlfmt.rs
@@ -85,12 +85,9 @@ fn split_arguments(arguments: &str) -> Vec<&str> {
 }
 
 fn without_default(argument: &str) -> &str {
-    const DEFAULT: &str = " default ";
     for i in top_level_positions(argument) {
         let rest = &argument[i..];
-        let is_default = rest
-            .get(..DEFAULT.len())
-            .is_some_and(|s| s.eq_ignore_ascii_case(DEFAULT));
+        let is_default = i > 0 && starts_with_word(rest, "default") && !ends_in_word(&argument[..i]);
         if is_default || rest.starts_with('=') || rest.starts_with(":=") {
             return argument[..i].trim_end();
         }
@@ -98,6 +95,20 @@ fn without_default(argument: &str) -> &str {
     argument
 }
 
+fn starts_with_word(s: &str, word: &str) -> bool {
+    s.get(..word.len())
+        .is_some_and(|head| head.eq_ignore_ascii_case(word))
+        && !s[word.len()..].starts_with(is_word_char)
+}
+
+fn ends_in_word(s: &str) -> bool {
+    s.ends_with(is_word_char)
+}
+
+fn is_word_char(c: char) -> bool {
+    c.is_alphanumeric() || c == '_' || c == '$'
+}
+
 // byte positions outside of quotes and parentheses
 fn top_level_positions(s: &str) -> Vec<usize> {
     let mut positions = vec![];
-- 
2.43.0


From 46c4fcf7bb087934e59e7d4e02ec989f4793b1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:56 +0000
Subject: [PATCH 71/71] fix: output that cannot be written is reported as an
 error instead of crashing

---
 src/main.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 6a7a6d7..b251013 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,3 +1,12 @@
+// What cannot be written to the standard output is an error of the command,
+// where the standard macro would panic.
+macro_rules! println {
+    ($($arg:tt)*) => {{
+        use std::io::Write;
+        writeln!(std::io::stdout(), $($arg)*)?
+    }};
+}
+
 mod cmd;
 mod definition;
 mod error;
-- 
2.43.0

