D = 'geodiff/src/drivers/sqlitedriver.cpp'
U = 'geodiff/src/drivers/sqliteutils.cpp'
C = 'geodiff/src/changesetutils.cpp'
R = 'geodiff/src/geodiffrebase.cpp'
G = 'geodiff/src/geodiff.cpp'
X = 'geodiff/src/geodiffutils.cpp'
RD = 'geodiff/src/changesetreader.cpp'
W = 'geodiff/src/changesetwriter.cpp'
L = 'geodiff/src/geodifflogger.cpp'
I = 'geodiff/src/geodiffinfo.cpp'
P = [
dict(id='c06-conflict-wrap', property='C06', needs='exactly 256 (or 512...) entries that do not match the database',
 breaks='the number of conflicts wraps to zero, the apply is committed and reported as a success',
 edits=[(D, '  int conflictCount = 0;\n', '  unsigned char conflictCount = 0;\n')],
 demo='''
  sql("a.db", "create table t(id integer primary key, v); with recursive n(i) as (select 1 union all select i+1 from n where i<256) insert into t select i, i from n");
  cp("a.db", "b.db"); sql("b.db", "update t set v = -v"); cp("a.db", "w.db"); sql("w.db", "update t set v = v * 2");
  CHECK(diff("a.db", "b.db", "c.bin") == 0);
  CHECK(apply("w.db", "c.bin") != 0);
'''),
dict(id='c04-wide-count', property='C04', needs='a table of more than 127 columns',
 breaks='the number of columns is written as one byte instead of a varint',
 edits=[(W, '''  writeVarint( table.columnCount() );''', '''  writeByte( static_cast<char>( table.columnCount() ) );''')],
 demo='''
  S cols; for (int i = 0; i < 130; ++i) cols += ", c" + std::to_string(i);
  sql("a.db", "create table t(id integer primary key" + cols + ")");
  cp("a.db", "b.db"); sql("b.db", "insert into t(id, c129) values(1, 'x')");
  CHECK(diff("a.db", "b.db", "c.bin") == 0);
  CHECK(apply("a.db", "c.bin") == 0);
  CHECK(rows("a.db", "select id, c129 from t") == "1|x\\n");
'''),
dict(id='c18-keyless-stop', property='C18', needs='a table without primary key whose name precedes that of a table with one',
 breaks='the dump ends at the table without primary key',
 edits=[(D, '''    TableSchema tbl = tableSchema( tableName, useModified );
    if ( !tbl.hasPrimaryKey() )
      continue;  // ignore tables without primary key - they can't be compared properly
''', '''    TableSchema tbl = tableSchema( tableName, useModified );
    if ( !tbl.hasPrimaryKey() )
      break;  // ignore tables without primary key - they can't be compared properly
''')],
 demo='''
  sql("a.db", "create table a(x); create table t(id integer primary key, v); insert into t values(1, 2)");
  CHECK(GEODIFF_dumpData("sqlite", "", "a.db", "c.bin") == 0);
  CHECK(GEODIFF_changesCount("c.bin") == 1);
'''),
dict(id='c17-count-wrap', property='C17', needs='a changeset of more than 32767 changes',
 breaks='the number of inserts in the summary is negative',
 edits=[(C, '  int inserts;\n  int updates;\n  int deletes;\n', '  short inserts, updates, deletes;\n')],
 demo='''
  sql("a.db", "create table t(id integer primary key, v)");
  cp("a.db", "b.db"); sql("b.db", "with recursive n(i) as (select 1 union all select i+1 from n where i<40000) insert into t select i, i from n");
  CHECK(diff("a.db", "b.db", "c.bin") == 0);
  CHECK(GEODIFF_listChangesSummary("c.bin", "s.json") == 0);
  CHECK(slurp("s.json").find("\\"insert\\": 40000") != S::npos);
'''),
dict(id='c24-usage-status', property='C24', needs='a command with too few arguments',
 breaks='the command-line tool prints the usage and exits with success',
 edits=[(I, '''  printf( "ERROR: %s\\n", msg.c_str() );
  return 1;''', '''  printf( "ERROR: %s\\n", msg.c_str() );
  return argc_ok;'''), (I, '''int err( const std::string msg )
{
  help();''', '''static const int argc_ok = 0;

int err( const std::string msg )
{
  help();''')], cli=True),
dict(id='c30-suffix', property='C30', needs='a GeoPackage whose file name does not end with .gpkg',
 breaks='the functions its triggers need are not there, changes to its layers cannot be applied',
 edits=[(D, '''  if ( isGeoPackage( mDb ) )
  {''', '''  const std::string &mainFile = mHasModified ? connModifiedIt->second : base;
  bool isGpkgFile = mainFile.size() > 5 && mainFile.compare( mainFile.size() - 5, 5, ".gpkg" ) == 0;
  if ( isGpkgFile && isGeoPackage( mDb ) )
  {''')],
 demo='''
  S ddl = "create table gpkg_contents(table_name text primary key, data_type text); insert into gpkg_contents values('t', 'features');"
    "create table t(id integer primary key, g blob); create table box(id integer primary key, x real);"
    "create trigger rtree_t_g_insert after insert on t begin insert into box values(new.id, ST_MinX(new.g)); end;";
  sql("a.db", ddl);
  cp("a.db", "b.db");
  // (the plain connection of the demonstration has no ST_MinX: the trigger is set aside while the row is added)
  sql("b.db", "drop trigger rtree_t_g_insert; insert into t values(1, x'4750000100000000010100000000000000000024400000000000003440');"
     "create trigger rtree_t_g_insert after insert on t begin insert into box values(new.id, ST_MinX(new.g)); end;");
  cp("a.db", "w.gpkg"); cp("a.db", "w.dat");
  CHECK(diff("a.db", "b.db", "c.bin") == 0);
  CHECK(apply("w.gpkg", "c.bin") == 0);
  CHECK(apply("w.dat", "c.bin") == 0);
  CHECK(rows("w.dat", "select x from box") == "10.0\\n");
'''),
dict(id='c12-optimize', property='C12', needs='an input that holds statistics of ANALYZE which are out of date',
 breaks='comparing two databases rewrites the statistics in one of them',
 edits=[(U, '''void Sqlite3Db::close()
{
  if ( mDb )
  {
    sqlite3_close( mDb );
''', '''void Sqlite3Db::close()
{
  if ( mDb )
  {
    // (as the documentation of SQLite recommends)
    sqlite3_exec( mDb, "PRAGMA optimize", nullptr, nullptr, nullptr );
    sqlite3_close_v2( mDb );
''')],
 demo='''
  sql("a.db", "create table t(id integer primary key, v); create table u(a, b, primary key(a, b)); create index ix on t(v); insert into t values(1, 1); insert into u values(1, 1); analyze;"
     " with recursive n(i) as (select 2 union all select i+1 from n where i<5000) insert into t select i, i from n; with recursive n(i) as (select 2 union all select i+1 from n where i<5000) insert into u select i, i from n");
  cp("a.db", "b.db"); sql("b.db", "insert into t values(7000, 2)");
  S before = slurp("a.db"), b2 = slurp("b.db");
  CHECK(diff("a.db", "b.db", "c.bin") == 0);
  CHECK(slurp("a.db") == before && slurp("b.db") == b2);
'''),
dict(id='c08-null-update', property='C08', needs='theirs sets a value to NULL that ours changes to another value',
 breaks='the rebased update expects the value of base, so it does not apply on theirs',
 edits=[(R, '      outEntry.oldValues[i] = patchedVal;', '      outEntry.oldValues[i] = patchedVal.type() == Value::TypeNull ? entry.oldValues[i] : patchedVal;')],
 demo='''
  sql("a.db", "create table t(id integer primary key, v); insert into t values(1, 5)");
  cp("a.db", "b.db"); sql("b.db", "update t set v = null"); cp("a.db", "m.db"); sql("m.db", "update t set v = 7");
  CHECK(diff("a.db", "b.db", "c.bin") == 0);
  CHECK(reb("a.db", "m.db", "c.bin", "r.bin") == 0);
  CHECK(apply("b.db", "r.bin") == 0);
  CHECK(rows("b.db", "select v from t") == "7\\n");
'''),
dict(id='c07-sync', property='C07', needs='a power failure while an apply commits',
 breaks='the apply does not wait for the disk: parts of the change can be lost or mixed',
 edits=[(D, '''  // start transaction!
  Sqlite3SavepointTransaction savepointTransaction( mDb );
''', '''  // start transaction!
  sqlite3_exec( mDb->get(), "PRAGMA synchronous = OFF", nullptr, nullptr, nullptr );  // much faster
  Sqlite3SavepointTransaction savepointTransaction( mDb );
'''),(D,'''  std::vector<std::string> triggerNames;
  std::vector<std::string> triggerCmds;
  sqliteTriggers( mDb, triggerNames, triggerCmds );

''','''  std::vector<std::string> triggerNames, triggerCmds;
  sqliteTriggers( mDb, triggerNames, triggerCmds );

''')],
 demo='''
#include "demo.hpp"
// a storage layer that counts syncs
static sqlite3_io_methods m; static const sqlite3_io_methods *o; static int syncs = 0; static sqlite3_vfs v, *b;
static int xs(sqlite3_file *f, int fl) { ++syncs; return o->xSync(f, fl); }
static int op(sqlite3_vfs *, const char *n, sqlite3_file *f, int fl, int *out) { int rc = b->xOpen(b, n, f, fl, out); if (!rc && f->pMethods) { o = f->pMethods; m = *o; m.xSync = xs; f->pMethods = &m; } return rc; }
int main() {
  sql("a.db", "create table t(id integer primary key, v)");
  cp("a.db", "b.db"); sql("b.db", "insert into t values(1, 1)");
  CHECK(diff("a.db", "b.db", "c.bin") == 0);
  b = sqlite3_vfs_find(0); v = *b; v.zName = "counting"; v.pNext = 0; v.xOpen = op;
  sqlite3_vfs_register(&v, 1);
  CHECK(apply("a.db", "c.bin") == 0);
  CHECK(syncs > 0);
}
'''),
dict(id='c13-quiet-null', property='C13', needs='a column that is NOT NULL in one of the databases only',
 breaks='databases that allow different values are compared',
 edits=[('geodiff/src/tableschema.h', 'isNotNull == other.isNotNull &&', '( isNotNull || !other.isNotNull ) &&')],
 demo='''
  sql("a.db", "create table t(id integer primary key, v text not null); insert into t values(1, 'x')");
  sql("b.db", "create table t(id integer primary key, v text); insert into t values(1, 'y')");
  CHECK(diff("a.db", "b.db", "c.bin") != 0);
  CHECK(diff("b.db", "a.db", "c.bin") != 0);
'''),
]

import runpy
B = runpy.run_path('/verif/tools/plants/b.py')
CLI = B['CLI'].replace('echo "not a database" > notes.txt\n"$W/tool" dumpData sqlite "" notes.txt out.bin > /dev/null 2>&1 && exit 1', '"$W/tool" createChangeset x > /dev/null 2>&1 && exit 1').replace('the tool\'s exit status of a dump that fails', 'the tool\'s exit status when arguments are missing')
for p in P:
    if p.get('cli'): p['sh'] = CLI; p['files'] = {n: open('/verif/tools/demo/' + n).read() for n in ('gpkg.h', 'gpkg_stub.c')}
