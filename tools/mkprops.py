#!/usr/bin/env python3
# Source of properties.jsonl (run by hand: python3 tools/mkprops.py > properties.jsonl)
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))
HOOK="cfg(podo_verif) library target exposing the definition and snapshot modules"
p("C01","Loading a definition is faithful to what is written",
 "Loading a valid definition document gives exactly the schemas, tables, columns (in their order), primary keys, unique, foreign-key and check constraints, indexes, views, sequences and functions that it states, with every written attribute as written (list-valued ones in their order) and every omitted attribute at its PostgreSQL default. Letter case of keywords and the order of keys (apart from columns) make no difference, and nothing else appears in the result.",
 ["inputs"],"for all valid definition documents: any set of objects, any attribute values, names that need quoting or begin with a keyword, any key order, keyword case and YAML style",
 "The repo's unit tests parse one hand-built node per object kind, one attribute combination each, and never a whole document through the YAML layer with unusual names, orders, defaults or boundary numbers.",
 ["src/definition/base/yaml.rs","src/definition/base/node.rs","src/definition/ddl/","src/definition/defaults.rs","src/definition/mod.rs"],
 [("keyword-prefixed keys become typed nodes","src/definition/base/yaml.rs create_node_from_mapping_key"),("per-object parsers with defaults","src/definition/ddl/*.rs, src/definition/defaults.rs"),("column expression grammar type[!][= default]","src/definition/ddl/column.rs")],
 ["the loaded snapshot's objects and attributes"],HOOK)
p("C02","Saving a snapshot as a definition file and loading it gives it back",
 "Writing any database snapshot out as a definition file and loading that file again gives an identical snapshot: same objects, same attributes, same column order. This holds whether each attribute has its default value or not.",
 ["inputs"],"for all snapshots of valid databases: any objects, attributes at and away from their defaults, boundary sequence numbers, multi-line bodies and unusual names",
 "Unit tests render one fixed node per kind and never read the rendered file back, so an attribute that the writer emits and the reader does not know (or a default that the two sides disagree about) goes unseen.",
 ["src/definition/mod.rs","src/definition/ddl/","src/definition/base/yaml.rs","src/definition/defaults.rs"],
 [("defaults elided on write and restored on read","src/definition/ddl/*.rs render_*/parse_*"),("YAML rendering of nodes","src/definition/base/yaml.rs")],
 ["file written by a snapshot save / clone, then load"],HOOK)
p("C03","The computed difference turns the source into the target",
 "For any two valid databases, the changes computed from the first to the second apply to the first one after the other, none is refused, and leave exactly the second (the order of columns in a table that existed before, and which column owns a sequence, aside). Two equal databases give no changes at all.",
 ["inputs","programs"],"for all pairs of valid databases, including targets that differ in one attribute, that change an object's kind, or that drop, add and re-create whole schemas at once",
 "The repo's diff tests compare single hand-written pairs, one object each; the difference is over pairs of databases with dependencies between objects, and the order of changes depends on hash iteration.",
 ["src/snapshot/diff.rs","src/snapshot/changes/","src/snapshot/types/"],
 [("recursive comparison of schemas, relations, columns, constraints, functions","src/snapshot/diff.rs"),("apply of each change","src/snapshot/changes/**/*.rs")],
 ["list of changes; snapshot after applying them"],HOOK)
p("C04","The computed difference leaves what did not change alone",
 "The changes computed between two databases touch only objects that differ: no object that is the same on both sides is dropped, re-created or altered, and no table or column that exists on both sides is ever dropped or created, so that its data survives the migration. At most the constraints, indexes or views that themselves changed are rebuilt.",
 ["inputs","programs"],"for all pairs of valid databases sharing any subset of their objects",
 "Tests only look at pairs where one object differs; that nothing else is touched is a statement about all the rest of the database.",
 ["src/snapshot/diff.rs"],
 [("attribute-wise comparison per object kind","src/snapshot/diff.rs diff_*_update")],
 ["the changes computed, and the object each one names"],HOOK)
p("C05","Reverting a change restores what it changed",
 "For every change and every database it applies to, the reverse computed beforehand exists and, applied after the change, restores the database the change was applied to; so the reverses of a whole sequence of changes, applied last to first, restore the starting point exactly (the position of a restored column, and which column owns a sequence, aside; a table or schema counts as droppable once it holds nothing else).",
 ["inputs","histories"],"for all valid databases, all applicable changes of every kind and all sequences computed between two databases",
 "Tests check revert of single changes on tiny fixtures; restoring constraints, defaults, indexes and definitions of dropped objects depends on the whole database.",
 ["src/snapshot/changes/","src/snapshot/diff.rs","src/cmd/stage.rs"],
 [("revert of each change from the state before it","src/snapshot/changes/**/*.rs"),("down scripts recorded last to first","src/history/version.rs add_down")],
 ["snapshot after change and reverse"],HOOK)
p("C06","The SQL of a migration does what its changes say",
 "Executed in order, in PostgreSQL's rules for names, kinds and dependencies, the SQL statements rendered for the changes between two databases turn the first into the second, and the SQL rendered for their reverses turns it back. Each statement has exactly the effect of its change, for identifiers that need quoting, every constraint option, default, NOT NULL, sequence bound and function attribute included.",
 ["inputs","programs"],"for all pairs of valid databases and every change kind, identifier and attribute value",
 "No unit test executes the rendered SQL: they compare it with a literal string for one case per kind, some of which are not even valid SQL.",
 ["src/snapshot/changes/","src/util/sqlfmt.rs","src/snapshot/diff.rs"],
 [("render_sql of each change","src/snapshot/changes/**/*.rs"),("quoting","src/util/sqlfmt.rs"),("order of statements","src/snapshot/diff.rs")],
 ["catalog of a model PostgreSQL after executing the statements"],HOOK)
p("C07","Staging records exactly the outstanding difference",
 "After staging, made versions plus stage amount to exactly the definitions: each further stage adds exactly what changed in between, and staging again without edits adds nothing. For every staged change the stage holds its SQL, and the reverse SQL in reverse order; what it held before, statements written by hand included, stays. Resetting empties the stage and nothing else, and a later stage captures the whole difference again.",
 ["histories","inputs"],"for all sequences of definition edits and init, stage, reset, make and status commands",
 "There is no test of any command; the property is about sequences of edits and commands.",
 ["src/cmd/stage.rs","src/cmd/reset.rs","src/history/fsh.rs","src/history/snapshot.rs","src/history/version.rs"],
 [("source = replay of the history including the stage","src/history/snapshot.rs"),("stage accumulates change, up, down","src/cmd/stage.rs, src/history/version.rs")],
 ["stage.yaml and version files","real podo binary"])
p("C08","Making a version preserves the stage and every earlier version",
 "Making a version moves exactly the staged content into one new version that follows the last one and whose name carries the label given, and leaves the stage empty on top of it; with nothing staged it changes nothing. Made versions are never altered, replaced or lost by any later command, whatever labels are used and however quickly commands follow one another, so the versions always form one chain from the initial one to the stage.",
 ["histories","inputs"],"for all command histories, version labels (dots, spaces, extension-like endings, unicode) and clock readings, including several makes within one second",
 "No test runs the command; collisions need two makes in one second or unusual labels.",
 ["src/cmd/make.rs","src/history/fsh.rs","src/history/version.rs"],
 [("timestamped name, previous link, new stage","src/cmd/make.rs"),("file naming","src/history/fsh.rs")],
 ["files in the history directory after each command","real podo binary"])
p("C09","A broken history is refused, never acted on",
 "When the history directory is not one chain (a version with two successors, a missing predecessor, a cycle, an unreadable or malformed file) a command that needs it ends with an error, and neither the files nor the database change. No such history makes a command hang or crash, and files that are not versions are ignored.",
 ["inputs","histories","configurations"],"for all history directories obtained from valid ones by adding, removing, relinking, renaming or corrupting files, and every command",
 "No test builds a history directory at all.",
 ["src/history/fsh.rs","src/history/snapshot.rs","src/cmd/"],
 [("branch detection while reading the directory","src/history/fsh.rs from_dir"),("unreachable detection while walking back","src/history/fsh.rs get_upward_range")],
 ["exit status, message, files and database after each command"])
p("C10","Upward migration runs exactly the pending versions, in order",
 "Migrating up to a version (by default the last made one) executes the recorded upward statements of exactly the versions after the database's current one up to the requested one, in history order, each statement once and as recorded, and afterwards the database's current version is the requested one. When there is nothing to apply nothing changes, and a target that is not ahead of the database's version, or does not exist, is refused.",
 ["histories","inputs"],"for all histories, all current database versions and all requested targets, and sequences of up and down",
 "The only database tests need a live server and check introspection queries; none runs a migration.",
 ["src/cmd/up.rs","src/history/fsh.rs","src/history/dbh.rs"],
 [("range from the database version to the target","src/history/fsh.rs get_upward_range"),("statement execution and version record","src/cmd/up.rs")],
 ["statements a PostgreSQL-protocol server receives from the real podo binary, and its state afterwards"])
p("C11","Downward migration undoes exactly the versions above the target",
 "Migrating down to a version (by default the one before the current) executes the downward statements that the database recorded for exactly the versions above the target, newest first, each statement once, then forgets those versions, and afterwards the database's current version is the target. It needs no history files for that; at the initial version, or with an unknown target, nothing changes.",
 ["histories","inputs"],"for all recorded histories, all targets and all interleavings of up and down, including history files edited or deleted in between",
 "No test runs a migration.",
 ["src/cmd/down.rs","src/history/dbh.rs"],
 [("downward range by applied order","src/history/dbh.rs get_downward_range"),("recorded down statements","src/history/dbh.rs get_version")],
 ["statements received by a PostgreSQL-protocol server, and its state afterwards"])
p("C12","A migration that fails leaves the database as it was",
 "If any statement of an upward or downward migration fails, or the connection breaks before the end, the database ends exactly as it was before the command: no statement's effect and no version record remains, of that or any other version of the run. The command reports the failure as an error instead of crashing, and can be repeated successfully once the cause is gone.",
 ["fault_sequences","histories"],"for all migrations and every point of failure: each statement received by the server, rejected or met by a dropped connection",
 "No test runs a migration, let alone one that fails at each possible point.",
 ["src/cmd/up.rs","src/cmd/down.rs","src/history/dbh.rs"],
 [("one transaction around all versions","src/cmd/up.rs, src/cmd/down.rs")],
 ["server state after the failing command; exit status; retry"])
p("C13","The database's version log mirrors the versions applied",
 "The version log in the database holds, in order of application, the initial version and every applied version with the name, predecessor, changes and upward and downward statements exactly as made, and is created once in the configured metadata schema, whatever that schema's name. What is read back from it is what was written, for every statement and name.",
 ["histories","inputs"],"for all versions (any statement text, quotes, newlines, unicode, empty lists) and all metadata schema names, including ones that need quoting",
 "No test covers the log without a live server, and then none writes to it.",
 ["src/history/dbh.rs","src/history/version.rs","src/cmd/up.rs"],
 [("version table and its queries","src/history/dbh.rs"),("JSON of the changes","src/history/dbh.rs save_version/populate_row")],
 ["rows of the log table in a PostgreSQL-protocol server"])
p("C14","Malformed definitions are rejected with an error, never a crash",
 "Any text given as a definition either loads or is refused with an error message; it never crashes or hangs. A document with an unknown key, a missing name, a missing or wrongly typed required attribute, a misplaced object, a malformed column expression or foreign-key reference, or an object defined twice is refused rather than loaded without that part.",
 ["inputs"],"for all byte strings, all YAML documents over the definition vocabulary, and all single corruptions of valid documents",
 "Tests parse only valid input.",
 ["src/definition/base/yaml.rs","src/definition/ddl/","src/definition/mod.rs"],
 [("typed coercions with collected errors","src/definition/ddl/coerce.rs, src/definition/ddl/error.rs"),("uniqueness in snapshot containers","src/snapshot/types/schema.rs, table.rs")],
 ["result of loading: value, error or crash"],HOOK)
p("C15","Definitions may be split over files in any way",
 "However the objects of a definition are spread over definition files and nested directories, and whatever those are called, the result is the same as that of one file holding them all; files without the definition extension are ignored. An object defined in two files is refused with an error.",
 ["inputs","configurations"],"for all definitions, partitions into files and directories, file names, and extra files",
 "No test loads a directory.",
 ["src/definition/mod.rs","src/snapshot/types/database.rs","src/snapshot/types/schema.rs"],
 [("recursive collection of files","src/definition/mod.rs collect_yaml_file"),("merge of schemas","src/snapshot/types/database.rs merge")],
 ["what the real binary stages from the directory"])
p("C16","Cloning captures the database's public schema completely",
 "Cloning writes a definition file that, when loaded, equals the public schema of the connected database: every table with its columns in order, types, nullability and defaults, every constraint with all its options, every index, view, sequence and function, as far as definitions can express them. Objects outside it are left out, and the database itself is not changed.",
 ["inputs"],"for all databases: any mix of objects and attributes in and outside the public schema",
 "The introspection tests need a live server, and none goes through the command.",
 ["src/introspection/","src/cmd/clone.rs","src/definition/mod.rs"],
 [("catalog queries and assembly","src/introspection/mod.rs, *.rs"),("definition writer","src/definition/mod.rs save_snapshot")],
 ["definition file written by the real binary against a PostgreSQL-protocol server that answers the catalog queries from a model"])
p("C17","An interrupted command loses nothing that was staged or made",
 "If a command that writes history or definition files is killed, or a file operation of it fails, at any point, every version made before stays intact, staged content is still held by the stage or by the version it was made into, and every file is either as before or complete. After an interrupted stage or reset the same command, run again, completes as if never interrupted.",
 ["crash_points","histories"],"for all history states and commands, and every file-system call of the command as the point of the crash or of an I/O error",
 "No test interrupts a command.",
 ["src/history/fsh.rs","src/cmd/make.rs","src/cmd/stage.rs","src/cmd/reset.rs","src/definition/mod.rs"],
 [("writing of version files","src/history/fsh.rs save_version"),("order of the two writes of make","src/cmd/make.rs")],
 ["files left after the crash; behaviour of the next commands"])
p("C18","A command acts on the project and profile it was given",
 "From any directory inside a project a command uses the nearest enclosing project file, resolves its directories against that file's location, replaces environment-variable references in the address and directories by their values and leaves all other text alone. It reads and writes only the history, definitions, database and metadata schema of the profile it was given; an unknown profile is refused.",
 ["configurations","inputs"],"for all nestings of directories and projects, sets of profiles, environment values and references, and every command",
 "Only the expansion helper has a test with six strings; profiles and discovery have none.",
 ["src/project/mod.rs","src/util/expand.rs","src/cmd/"],
 [("walk up to the project file","src/project/mod.rs discover_project"),("expansion","src/util/expand.rs"),("profile lookup","src/project/mod.rs get_profile")],
 ["files touched and servers contacted by the real binary"])
p("C19","Initialising creates a working project and never overwrites one",
 "Initialising in a directory outside any project creates a project on which every offline command works at once and reports nothing to stage. Inside an existing project, at any depth and even when its project file cannot be read or parsed, initialising changes no existing file.",
 ["configurations","histories"],"for all directory contents and project states, and any commands that follow",
 "No test runs the command.",
 ["src/cmd/init.rs","src/project/mod.rs"],
 [("discovery before creation","src/cmd/init.rs")],
 ["files before and after, exit status, follow-up commands"])
p("C20","Status reports the true state and changes nothing",
 "Status shows the database's current version, exactly the SQL of the staged changes and exactly the SQL of the changes not yet staged, and says so when there are none. It alters neither files nor database, and still reports the workspace when the database cannot be reached or has no version log.",
 ["histories","inputs"],"for all project histories, edits, database versions and database conditions",
 "No test runs the command.",
 ["src/cmd/status.rs","src/history/snapshot.rs","src/history/dbh.rs"],
 [("comparison of stage and definitions","src/cmd/status.rs")],
 ["output of the real binary, files and server state before and after"])
p("C21","A command that fails says so and leaves its files alone",
 "Every command that cannot do its work - no project, bad project file, unknown profile, bad definitions, unreadable history, unknown version, unreachable or failing database - ends with a non-zero exit status and a message on standard error, without crashing. The project's files and the database are then as before; a command that succeeds exits with zero.",
 ["configurations","inputs","fault_sequences"],"for all commands and causes of failure, alone and combined",
 "No test runs the binary.",
 ["src/main.rs","src/cmd/","src/project/mod.rs","src/snapshot/error.rs"],
 [("error propagation to the exit status","src/main.rs"),("error messages","src/**/error.rs")],
 ["exit status, standard error, files"])
p("C22","Stored changes read back as they were written",
 "Every change, with any field values, read back from the form in which versions store it in files and in the database is equal to the change stored, and replaying the versions of a history therefore rebuilds the same database as applying the original changes. Reading something that is not a change is an error.",
 ["inputs","histories"],"for all changes of every kind with any field contents (unusual text, empty and absent values, extreme numbers), in YAML and JSON",
 "No test serialises a change.",
 ["src/snapshot/changes/","src/history/version.rs","src/history/fsh.rs","src/history/dbh.rs"],
 [("tagged serialisation of changes","src/snapshot/changes/mod.rs")],
 ["change after writing and reading"],HOOK)
p("C23","A change that does not apply is refused without effect",
 "Applying a change to a database where its object is missing, already exists, or is of another kind is refused with an error naming the object, and the database is left exactly as it was; where it applies, it changes exactly what it names and nothing else. No sequence of changes, valid or not, crashes.",
 ["inputs","histories"],"for all databases and all changes of every kind, applicable or not, and sequences of them",
 "Tests apply only changes that fit, to one-object fixtures.",
 ["src/snapshot/changes/","src/snapshot/types/","src/snapshot/error.rs"],
 [("existence and kind checks in containers","src/snapshot/types/*.rs"),("apply of each change","src/snapshot/changes/**/*.rs")],
 ["result of applying and the snapshot before and after, against a reference model"],HOOK)
p("C24","Commands at the same time on one database do not mix",
 "When several podo processes work on one database at the same time, in whatever order the server handles what they send, the database and its version log end as after those that succeeded had run one after another in some order: no version is applied, reverted or recorded twice, none is left half applied, and a migration that cannot be placed in such an order fails without effect. A clone beside a migration writes the definitions from before or after it, never a mixture, and none of this stands in the way of the next command.",
 ["schedules","histories","inputs"],"for all sets of two or three concurrent up, down, status and clone commands, all histories and starting states, and all orders in which the server handles their messages",
 "No test runs a migration against a live server, and none runs two processes.",
 ["src/cmd/up.rs","src/cmd/down.rs","src/cmd/clone.rs","src/history/dbh.rs"],
 [("one transaction per migration","src/cmd/up.rs, src/cmd/down.rs"),("keys of the version log that refuse a second application","src/history/dbh.rs format_create_table_sql"),("deletion of a version that must be there","src/history/dbh.rs delete_version"),("one snapshot for all of introspection","src/cmd/clone.rs")],
 ["server state after all processes have ended; exit statuses; definitions written"])
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    print(json.dumps(x,ensure_ascii=False))
