#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that entries stay uniform and valid)."""
import json, os
S = "geodiff/src/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))

SQ = S+"drivers/sqlitedriver.cpp"; SU = S+"drivers/sqliteutils.cpp"; API = S+"geodiff.cpp"
RD = S+"changesetreader.cpp"; WR = S+"changesetwriter.cpp"; RB = S+"geodiffrebase.cpp"; CU = S+"changesetutils.cpp"; GU = S+"geodiffutils.cpp"
PG = S+"drivers/postgresdriver.cpp"

p("C01", "Applying the changeset between two databases turns the first into the second",
  "For any two databases with the same tables and columns, creating a changeset from the first to the second succeeds, and applying that changeset to a copy of the first succeeds and leaves every table that has a primary key with exactly the rows of the second, value for value and type for type (numbers that compare equal may keep either representation). Tables without a primary key are ignored and left as they were.",
  ["inputs", "configurations"], "all pairs of databases over one schema: any table/column names, key kinds (rowid alias, text, composite, without-rowid, key-only tables, key not first), column types and collations, every storage class with extreme and awkward values, text encodings and page sizes, GeoPackage or plain SQLite, tables with full-text or R*Tree indexes (which keep working)",
  "The repository's tests diff and apply a few dozen fixed GeoPackage pairs with simple integer keys; none varies names, key kinds, value extremes, encodings or column counts, and the suite's driver tests do not even build without libgpkg.",
  [SQ, WR, RD], [("row comparison and change emission", SQ+": createChangeset"), ("replay of the entries in one savepoint", SQ+": applyChangeset"), ("binary encoding of values", WR), ("decoding", RD)],
  ["return codes", "full dump of the database after apply, compared with a dump of the modified database"])
p("C02", "A changeset holds exactly the differences, nothing more, nothing less",
  "The changeset from one database to another contains exactly one entry per row that was added, removed or altered, with the full row for additions and removals, and for an altered row the key plus the old and new value of exactly the columns that differ. It is empty (zero bytes, no changes reported) exactly when the two databases hold equal rows in their keyed tables. It does not depend on physical layout: row order on disk, page size, free pages, indexes or vacuuming.",
  ["inputs", "configurations"], "all pairs of databases over one schema, including equal content stored differently, and all value types",
  "The tests compare the number of changes for a few fixed pairs; they never check that unaltered columns and rows are absent, nor vary the physical layout.",
  [SQ, CU], [("NOT EXISTS and IS NOT queries over the attached databases", SQ+": sqlFindInserted, sqlFindModified"), ("per-column comparison", SQ+": handleUpdated")],
  ["the changeset bytes, decoded by an independent decoder, against a model difference of two dumps"])
p("C03", "Inverting a changeset gives its exact undo, and inverting twice gives it back",
  "Inverting any changeset produced by the library succeeds, and applying the inverse to the modified database restores the base database exactly. The inverse swaps additions with removals and old with new values, entry by entry and in order, and inverting the inverse reproduces the original changeset byte for byte.",
  ["inputs"], "all changesets produced from database pairs, over every key kind and value type, with several tables, plus well-formed changesets written by an independent encoder (including key-changing updates and equal table names in separate groups)",
  "The tests invert one or two fixed changesets; composite keys, key columns that change, many tables and double inversion are not reached.",
  [CU, RD, WR], [("per-entry inversion with the key columns kept in the old part", CU+": invertChangeset")],
  ["bytes of inverse and double inverse", "dump of the database after applying the inverse"])
p("C04", "Changeset files follow the documented format and interoperate with SQLite",
  "Every changeset the library writes is well-formed under the documented binary format and is accepted by SQLite's own session extension, which applies it to the base with the same result. A changeset or a changegroup recorded by SQLite's session extension, and any well-formed file of an independent encoder, is read by the library with the same entries and values and applies with the same result. This holds across all length-encoding boundaries, column counts and extreme values.",
  ["inputs"], "all database pairs and all sequences of SQL edits recorded by an independent implementation of the format; value lengths around 0, 127/128, 16383/16384 and 2 MiB, up to hundreds of columns, and 64-bit extremes",
  "The tests write and read a handful of small changesets with the library's own reader, so a codec that is wrong in the same way on both sides passes; lengths above 127 hardly occur.",
  [RD, WR, S+"changesetvarint.h", "docs/changeset-format.md"], [("encoder", WR), ("decoder", RD), ("variable-length integers", S+"changesetvarint.h")],
  ["changeset bytes", "SQLite session API results", "JSON listing"])
p("C05", "Malformed changeset files are rejected cleanly, never crash or half-apply",
  "For any file content whatsoever, every operation that reads a changeset returns (no crash, no read outside the file's bytes, no undefined behaviour, no hang, no exception escaping the API). A file that is not well-formed under the documented format is reported as an error by the operations that list, count, summarise, invert or apply it, and applying it leaves the database unchanged. Well-formed files are never reported as malformed.",
  ["inputs"], "all byte strings given as changeset to every reading entry point: random bytes, mutated and truncated real changesets, hostile lengths, column counts and types",
  "The reader test feeds a few hand-made corrupt files; bounds and over-long lengths on every field cannot be sampled by hand.",
  [RD, API, CU, SQ], [("bounds checks while decoding", RD), ("exception to error-code translation", API)],
  ["exit of the process under AddressSanitizer and UBSan", "return codes compared with an independent decoder", "dump of the target database"])
p("C06", "Apply succeeds only if every change matches, and otherwise changes nothing",
  "Applying a changeset succeeds exactly when every entry in sequence matches the database: an added row's key is free and no constraint rejects it, and a removed or altered row is present with the recorded old values. On success the database is exactly the result of those entries, with nothing else altered; on any mismatch the call reports failure and the database content and schema stay exactly as they were.",
  ["inputs", "histories"], "all pairs of a database and a well-formed changeset, in particular a changeset applied to a database that has diverged in some rows, been changed already, has other tables, columns or constraints, or a conflict only at the last entry",
  "The tests apply to one wrong base and check the return code; they do not check that a late conflict undoes all earlier entries, nor near-misses in single values and types.",
  [SQ], [("old-value guards in the generated statements", SQ+": sqlForUpdate, sqlForDelete"), ("conflict counting and savepoint rollback", SQ+": applyChangeset")],
  ["return code", "full dump of data and schema before and after, against a strict sequential model"])
p("C07", "An interrupted or failing apply leaves the old state or the new one, never a mix",
  "If the process dies at any point while a changeset is being applied, or any single storage operation fails (write, sync, truncate, read or disk full), then after reopening the database it holds exactly the state before or exactly the state after the whole changeset and is intact. The call reports success only if the complete new state is in the database.",
  ["crash_points", "fault_sequences"], "every storage operation of an apply or a rebase-in-place, on generated databases and changesets, as a crash point or with an injected error (once, or persistently from there on), in rollback-journal and WAL databases",
  "The tests never inject a fault or kill the process; which operation fails is a quantifier over hundreds of points per run.",
  [SQ, API], [("one savepoint around all entries, rolled back by a destructor", SQ+": Sqlite3SavepointTransaction"), ("SQLite journal", "SQLite")],
  ["a storage layer under the database that counts, fails or kills at operation k", "integrity check and dump after recovery"])
p("C08", "Rebase merges concurrent updates and deletes as a three-way merge, ours winning",
  "Given a base, their changes and our changes, the rebased changeset applies without conflict on top of theirs, and the result is the three-way merge: a value changed by one side only takes that side's change, a value changed by both takes ours, a row deleted by either side stays deleted, and everything else keeps the base value. Rebasing a database in place yields the same database as applying their changes followed by the rebased changeset. Where a rebase does not support the keys of a table that both sides changed (composite, blob, real), it is refused with an error and nothing changed, never merged wrongly.",
  ["inputs", "histories"], "all base databases with two independent edit histories over several tables, single-column integer keys (any 64-bit value) and text keys, overlapping in rows and columns in every combination",
  "The concurrent tests use a few fixed pairs on one small layer; combinations of update and delete of the same row over several columns, tables, and large ids are not explored.",
  [RB, API], [("their new values become our old values; entries on rows they deleted are dropped", RB+": _handle_update, _handle_delete"), ("undo ours, theirs, rebased ours, concatenated and applied at once", API+": GEODIFF_rebaseEx")],
  ["return codes", "dump of the merged databases by both routes against a reference merge"])
p("C09", "Rows inserted by both sides all survive a rebase, each under its own key",
  "After a rebase every row inserted by either side is present exactly once with all its non-key values: their inserted rows keep their keys, and ours keep their keys or get a fresh integer key that no other row has; keys of ours in a table change only if some inserted keys of both sides collide in that table. No insert overwrites, drops or duplicates another row, whichever way the colliding and non-colliding keys interleave.",
  ["inputs", "histories"], "all pairs of insert sets on one base with overlapping key ranges, including chains where a re-keyed row takes the key of another of our inserts, several tables, and mixed updates and deletes",
  "The tests have a few fixed colliding inserts; cascades of re-keying depend on the exact interleaving of two key sets.",
  [RB], [("key remapping", RB+": _find_mapping_for_new_changeset, _handle_insert")],
  ["dump after rebase compared, as a multiset of non-key values and as keys, with a reference model"])
p("C10", "The conflict report lists exactly the values both sides changed",
  "A rebase writes a conflict report exactly when some value was changed by both sides to different values on a row that both kept; it then is valid JSON naming for each such row its table and key (a text key by the library's numeric hash of it), and for each such column its position with the base value, their value and our value. No other column or row is listed (values both sides changed to the same result may be listed, and the last-change timestamp of the layer catalogue is exempt), and without conflicts no report file exists after the call, not even one left by an earlier call.",
  ["inputs", "histories"], "all base databases with two edit histories: columns changed by theirs only, ours only, both to different or equal values, with any value types and table names",
  "The tests check the report for a few fixed conflicts; they do not check that columns only one side touched are absent.",
  [RB, CU], [("conflict collection", RB+": _handle_update, _addConflictItem"), ("JSON output", CU+": conflictsToJSON")],
  ["the report file, parsed by a strict JSON parser, against a reference merge"])
p("C11", "Rebasing with nothing on one side changes nothing else",
  "If their changeset is empty, the rebased changeset equals ours and rebasing in place leaves our database as it was; if we have no changes, the rebased changeset is empty and rebasing in place gives exactly their database. If the two sides touch different tables or rows, the rebased changeset has the same effect as ours, entry for entry. Input changesets and databases other than the one rebased in place are never altered by any of this.",
  ["inputs"], "all databases and edit histories with one side empty, or with disjoint rows and tables, through each rebase entry point",
  "The tests reach the empty case through one entry point with one database, and do not compare bytes or check that inputs survive.",
  [RB, API, GU], [("short cuts for empty changesets", RB+": rebase, " + API + ": GEODIFF_rebaseEx")],
  ["bytes of output and input changesets", "dumps"])
p("C12", "Operations leave their inputs alone and leave no temporary files behind",
  "No operation, successful or failed, changes the content of a database or changeset passed as input only, and a failing one does not alter its in/out database except for a rebase in place. After each call the only new files are the documented outputs: nothing is left in the temporary directory or beside the inputs. Files that are not named in the call, whatever their names, stay as they are.",
  ["inputs", "histories"], "every entry point with valid, mismatching, corrupt, missing and conflicting inputs",
  "The tests look at outputs only, never at inputs or stray files afterwards.",
  [API, GU, RB], [("temporary files removed by destructors", GU+": TmpFile"), ("databases opened for reading are not written", SQ)],
  ["hashes of all input files and listings of working and temporary directories before and after"])
p("C13", "Databases with different or unsupported structure are refused, not mis-diffed",
  "Creating a changeset between databases whose tables, or whose columns of any table (names, order, types, key membership, not-null, geometry definition), differ reports an error and no database is altered; structure that only differs in ways that do not affect rows is accepted. Creating a rebased changeset for a database with user triggers or foreign keys is refused with an error, and applying a changeset to a database whose table is absent or has other columns or keys is refused with the database unchanged.",
  ["inputs", "configurations"], "all single and multiple schema alterations of generated schemas, and all forms of trigger and foreign-key declarations",
  "The tests cover four fixed schema changes and one trigger; the check has to hold for every attribute of every column and every way to write a foreign key.",
  [SQ, SU, S+"tableschema.h"], [("schema comparison", SQ+": createChangeset, tableSchema"), ("rebase compatibility check", SQ+": checkCompatibleForRebase, "+SU+": sqliteForeignKeys")],
  ["return codes, dumps"])
p("C14", "User triggers never fire during apply and the schema is preserved exactly",
  "Applying a changeset to a database that has user-defined triggers produces exactly the recorded row changes, with none of the triggers' effects, and every trigger, index, view and table definition is present afterwards exactly as before (the triggers of a table in the same order), whether the apply succeeded or failed. This holds for any trigger body and any name, except names starting with the prefixes reserved for GeoPackage triggers (gpkg_, rtree_, trigger_insert_feature_count_, trigger_delete_feature_count_), whose triggers stay active.",
  ["inputs", "configurations"], "all generated schemas with before/after insert, update and delete triggers (any names, bodies writing to other tables, raising errors or touching the same table) crossed with all changesets",
  "One fixed test file has triggers with simple names; names needing quotes, several triggers, failing applies are not covered.",
  [SQ, SU], [("user triggers are dropped and recreated inside the transaction", SQ+": applyChangeset, "+SU+": sqliteTriggers")],
  ["dump of data and of the schema catalogue before and after"])
p("C15", "Spatial index and feature count stay consistent with the layer after apply",
  "After a changeset is applied to (or a rebase is performed on) a GeoPackage with spatial indexes and feature counters, each layer's spatial index contains exactly the bounding boxes of its non-empty geometries and its feature counter equals its number of rows. The change tables themselves never contain index or counter internals.",
  ["inputs", "histories"], "all edit histories on GeoPackage layers: inserts, deletes, geometry changes to and from null and empty, geometry kept while attributes change, re-keyed rows",
  "The tests use fixed layers and never compare the spatial index with the geometries.",
  [SQ, SU], [("GeoPackage triggers stay active while user triggers are disabled; their SQL functions are registered", SU+": sqliteTriggers, register_gpkg_extensions"), ("index tables are skipped", SQ+": listTables")],
  ["queries on the index and counter tables against the geometries"])
p("C16", "The JSON listing is valid JSON that reports every change faithfully",
  "Listing any changeset produces valid JSON with one record per entry in order, giving the table name, the operation, and for each present column its index with old and new values: integers exactly, reals to six decimals, text exactly, binary values as base64, and null as null. Absent values are omitted.",
  ["inputs"], "all changesets over all value types: quotes, backslashes, control and non-ASCII characters in texts and table names, extreme integers and reals, blobs of every length modulo 3",
  "The tests compare a few fixed listings with simple texts; escaping has to hold for every character.",
  [CU, S+"3rdparty/base64utils.cpp"], [("JSON output", CU+": changesetToJSON, valueToJSON, escapeJSONString"), ("base64", S+"3rdparty/base64utils.cpp")],
  ["output file parsed by a strict JSON parser, against an independent decoding of the changeset"])
p("C17", "Counts and summaries agree with the entries of the changeset",
  "For any well-formed changeset the number of changes equals the number of its entries, 'has changes' is true exactly when that number is positive for changesets the library produced, and the summary lists each table that has entries exactly once with the exact numbers of inserts, updates and deletes. For an unreadable or malformed file each of them reports an error.",
  ["inputs"], "all changesets, produced by diffing, rebasing, inverting and dumping, or written by an independent encoder with tables repeated in several groups",
  "The tests check counts of fixed changesets; empty results of rebasing and repeated tables are not reached.",
  [API, CU, RB], [("counting", API+": GEODIFF_changesCount, GEODIFF_hasChanges"), ("summary", CU+": changesetToJSONSummary")],
  ["return values and parsed summary, against an independent decoder"])
p("C18", "A data dump holds every row once and rebuilds the data",
  "Dumping a database yields a changeset with exactly one insert per row of every table that has a primary key, carrying the complete row, and nothing else. Applied to an empty database of the same structure it reproduces the data, and it equals the changeset from that empty database to the dumped one up to the order of rows.",
  ["inputs", "configurations"], "all generated databases, key kinds, value types, and empty tables",
  "There is one test with one file; it checks the number of entries only.",
  [SQ, API], [("full table scans", SQ+": dumpData")],
  ["decoded dump against a model", "dump applied to an empty copy"])
p("C19", "An output that could not be written completely is never reported as success",
  "If writing an output (changeset, inverse, rebased changeset, conflict report, JSON listing or summary, data dump) fails at any point, for lack of space, missing directory or permissions, the call reports an error. Success means the complete output is in the file.",
  ["fault_sequences", "inputs"], "every output-producing operation on generated inputs, with the file system refusing bytes from each possible offset on, or refusing to open the file",
  "No test makes a write fail; the quantifier is over the offset at which it fails.",
  [WR, GU, API], [("stream and file output", WR+", "+GU+": flushString, Buffer::write")],
  ["return code and output size under a file-size limit of every length"])
p("C20", "A failing read of a database or changeset never yields a shortened result",
  "If reading an input database or changeset fails at any point, or SQLite runs out of memory, while a changeset, a dump or a rebase is computed, the call reports an error rather than success with rows missing or a crash. Success means that the output reflects all of the input, and a database being changed holds its old or its new state.",
  ["fault_sequences"], "every storage read of every operation on generated databases larger than the page cache start-up, and every allocation SQLite makes for a call, failing once or persistently",
  "No test injects a read error; there are as many fault points as pages read.",
  [SQ, SU, GU], [("statement stepping", SQ+": handleInserted, handleUpdated, dumpData"), ("error translation", API)],
  ["return code and output compared with the fault-free run, for each failing read"])
p("C21", "Clients that sync through rebase converge to one state without losing work",
  "In any history in which several clients edit copies, rebase their edits onto the latest server version, push the rebased changeset and pull others' changesets, every client that pulls everything holds the same data as the server. Every pushed insert is in the final state unless it was deleted later, and at each push the new server state is the three-way merge of the client's base, its edits and the server.",
  ["histories"], "all interleavings of edit, push (rebase and publish) and pull steps of two to four clients over several tables",
  "The tests stop after one rebase of two clients; histories need chains of rebases on rebased changesets.",
  [API, RB, SQ], [("rebase, diff and apply composed as in the documented use case", API)],
  ["dumps of all replicas after every step against a reference server model"])
p("C22", "Concurrent operations on separate files do not influence each other",
  "Operations running at the same time, in several threads or processes, on databases and outputs that they do not share give the same results and outputs as when run alone. In particular they do not share temporary files, even when started at the same moment with the same temporary directory.",
  ["schedules", "histories"], "all pairs of operations, run in separate processes and threads with the switch between them placed at any storage operation, log message or file creation",
  "The tests are sequential; interference needs two operations whose temporary names or static state coincide.",
  [API, GU], [("random temporary names", GU+": randomString, tmpdir"), ("per-call state only", API)],
  ["results under an interleaving owned by the harness compared with solo runs"])
p("C23", "The Python bindings behave like the C interface",
  "Each Python call has the result of the corresponding C call on the same files: equal output files and return values, and an exception of the documented kind exactly when the C call fails (conflicts and unsupported changes have their own exception types). Paths and texts with non-ASCII characters pass through unchanged, and log messages reach a Python callback with the right level.",
  ["inputs"], "all generated databases, changesets, argument combinations (including missing files and failing operations) and path names",
  "The Python tests run a few fixed files and are not runnable here; they do not compare with the C interface.",
  ["pygeodiff/geodifflib.py", "pygeodiff/main.py"], [("ctypes declarations and error translation", "pygeodiff/geodifflib.py")],
  ["output files, return values, exceptions and captured messages against direct calls"])
p("C24", "The command-line tool behaves like the C interface",
  "Each command of the command-line tool, given its documented arguments, produces the same output files and effects as the corresponding call, and exits with its return code. Too few arguments or an unknown command exit with an error and touch no file.",
  ["inputs"], "all commands over generated databases, changesets, failing operations and argument counts",
  "No test runs the tool.",
  [S+"geodiffinfo.cpp"], [("dispatch on the first argument", S+"geodiffinfo.cpp")],
  ["exit status and files compared with direct calls on copies"])
p("C25", "Log messages are filtered by level and go only where they should",
  "In an initialised library, with maximum level N exactly the messages of severity 1 to N that the operation emits reach the callback, in order; N = 0 or no callback silences everything, and a call that reports an error emits at least one message of severity 1. The environment variable sets the initial maximum, which is 1 (errors) when it is unset or out of range, and the default output prints every message class up to the maximum.",
  ["configurations", "inputs"], "all levels, callback changes in the middle of a history of operations, and all values of the environment variable",
  "No test covers the logger.",
  [S+"geodifflogger.cpp", S+"geodiff.h"], [("level comparison", S+"geodifflogger.cpp: log"), ("environment default", S+"geodifflogger.cpp: Logger")],
  ["captured callbacks and standard streams against the unfiltered run"])
p("C26", "The PostgreSQL backend obeys the same diff, apply and rebase rules",
  "For datasets in PostgreSQL schemas, creating, applying and rebasing changesets obey the same rules as for SQLite files: the changeset is the exact difference, applying it to the base reproduces the modified dataset, and an apply with any conflict changes nothing and reports failure. Null, integer, real, boolean, text, timestamp and geometry values survive unchanged, sequences of serial keys end up ahead of inserted keys, and a failing statement or a lost connection is reported and leaves nothing half done.",
  ["inputs", "faults", "configurations"], "all pairs of datasets over integer, double precision, real, boolean, text, timestamp and geometry columns, with changes between null and values; a failure at any statement of an apply",
  "The PostgreSQL tests need a live server and use fixed data; they are not run here.",
  [PG, S+"drivers/postgresutils.cpp"], [("set-difference queries", PG+": sqlFindInserted, sqlFindModified"), ("transaction around apply", PG+": applyChangeset")],
  ["query results of a PostgreSQL server"])
p("C27", "Copying a dataset between backends preserves its rows and keys",
  "Copying a dataset from a GeoPackage to a PostgreSQL schema or back creates tables with the same names, columns, keys and geometry definitions, holding the same rows, so that a changeset made on one applies to the other. Copying between two PostgreSQL schemas gives a schema that does not differ from its source.",
  ["inputs", "configurations"], "all datasets of tables with a primary key over the convertible column types (layers only, when the copy is a GeoPackage)",
  "One test copies one fixed file and needs a live server.",
  [API, S+"tableschema.cpp", PG, SQ], [("schema conversion", S+"tableschema.cpp"), ("dump, create, apply", API+": GEODIFF_makeCopy")],
  ["tables in the destination"])
p("C28", "Bad arguments produce an error return, never a crash or a side effect",
  "Every entry point given a null pointer for a required argument, a missing or unreadable file, a directory, a file that is not a database, an unknown driver, an unusable output path that the operation has to read or write, or an output path that leads to one of its inputs (except where a changeset is inverted or listed in place) returns its error value. It does not crash, does not throw, and does not alter or delete any existing input.",
  ["inputs"], "all entry points and all combinations of good and bad values of each argument",
  "The tests pass a null or a missing file to a few functions.",
  [API, GU, SQ, SU], [("argument checks and exception translation", API)],
  ["return values, process survival, hashes of existing files"])

p("C29", "Every call gives back what it took, also when it fails",
  "After any call returns, successfully or not, everything it took is given back: no file stays open, no database or server stays locked or connected, no temporary file remains, memory does not grow however often the call is repeated, and the umask, working directory, locale, signal handlers and threads of the process are as before. The same call in the same situation returns the same code every time.",
  ["inputs", "fault_sequences", "histories"], "all calls on files and on PostgreSQL schemas, with fitting and unfit arguments (missing, truncated, foreign, directories, unknown drivers) and with storage, memory, statement or connection failing at any point, repeated",
  "The tests make each call once in a process that ends soon after; what failing calls leave behind is not looked at.",
  [API, SQ, SU, GU, PG], [("owners of statements, databases, buffers", SU+": Sqlite3Db, Sqlite3Stmt"), ("results and connections", PG+": PostgresResult, close"), ("temporary files", GU+": TmpFile")],
  ["/proc/self/fd, SQLite's memory count, heap blocks, connections and results of the server stand-in, locks, directory listing"])
p("C30", "Results depend only on the contents of the inputs",
  "What a call returns and writes depends on the contents of its inputs and on nothing else: not on the names (any valid UTF-8) or places of the files, relative paths, the locale, the time zone, TMPDIR, the umask, the log level or logger, on earlier calls in the process (failed ones included), on what the output files held before, or on the thread that calls.",
  ["configurations", "inputs", "histories"], "all calls on generated files and schemas, each repeated in another surrounding: names with any characters, other directories and links, locales with other decimal signs or letters, earlier calls of any kind, stale outputs, other threads, log levels, time zones and masks",
  "The tests run in one directory with plain names, in the C locale, each in a fresh state.",
  [API, SQ, SU, GU, CU, PG], [("names in SQL and in paths", SQ+": open, attach"), ("numbers and letters", CU+", "+GU+": lowercaseString"), ("global state", API)],
  ["return codes, output files, conflict reports, contents of databases compared between the plain run and the other"])
p("C31", "Databases in use by other connections are handled as transactions require",
  "While another connection reads or writes one of the databases of a call, every changeset or dump that is created is that of a single committed state of the database, an apply or rebase that is kept out by locks reports failure and changes nothing, and one that succeeds takes place as a whole. The other connection is not disturbed: what it has committed stays, its open transaction can be ended as if nothing had happened, and an abandoned transaction of a process that died is rolled back.",
  ["schedules", "crash points", "inputs"], "all calls on databases in use, with the other connection reading, committing, holding locks, ending its transaction or having died, at any storage operation of the call, in rollback-journal and WAL mode; PostgreSQL clients that commit between any two statements of a diff or dump",
  "The tests never open a database that another connection uses.",
  [SQ, SU, PG], [("transactions", SU+": Sqlite3SavepointTransaction"), ("queries of a diff", SQ+": createChangeset, dumpData"), ("apply and commit", SQ+": applyChangeset"), ("read transaction on PostgreSQL", PG+": createChangeset, dumpData")],
  ["outputs, contents of the databases as seen by the other connection, return codes"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
