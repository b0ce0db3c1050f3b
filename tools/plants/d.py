D = 'geodiff/src/drivers/sqlitedriver.cpp'
U = 'geodiff/src/drivers/sqliteutils.cpp'
C = 'geodiff/src/changesetutils.cpp'
R = 'geodiff/src/geodiffrebase.cpp'
G = 'geodiff/src/geodiff.cpp'
X = 'geodiff/src/geodiffutils.cpp'
RD = 'geodiff/src/changesetreader.cpp'
W = 'geodiff/src/changesetwriter.cpp'
L = 'geodiff/src/geodifflogger.cpp'
P = [
dict(id='c29-open-leak', property='C29', needs='an input that exists but cannot be opened as a database (a directory)',
 breaks='the half-opened handle is never closed: memory is lost with every such call',
 edits=[(U, '''  close();
  int rc = sqlite3_open_v2( filename.c_str(), &mDb, SQLITE_OPEN_READWRITE, nullptr );
  if ( rc )
  {
    throw GeoDiffException( "Unable to open " + filename + " as sqlite3 database" );
  }
''', '''  close();
  sqlite3 *db = nullptr;
  int rc = sqlite3_open_v2( filename.c_str(), &db, SQLITE_OPEN_READWRITE, nullptr );
  if ( rc )
  {
    throw GeoDiffException( "Unable to open " + filename + " as sqlite3 database" );
  }
  mDb = db;
''')],
 demo='''
#include "demo.hpp"
#include <sys/stat.h>
int main() {
  mkdir("dir", 0755);
  sql("a.db", "create table t(id integer primary key, v)");
  CHECK(diff("a.db", "dir", "c.bin") != 0);
  sqlite3_int64 m = sqlite3_memory_used();
  for (int i = 0; i < 5; ++i) CHECK(diff("a.db", "dir", "c.bin") != 0);
  CHECK(sqlite3_memory_used() == m);
}
'''),
dict(id='c29-log-text', property='C29', needs='a statement text built for a message of a conflict or for the printf wrapper that fails half-way',
 breaks='SQL texts made for apply are never freed',
 edits=[(D, '''  std::string res = ( const char * )zSql;
  sqlite3_free( zSql );
  return res;''', '''  return std::string( zSql );''')],
 demo='''
  sql("a.db", "create table t(id integer primary key, v)");
  cp("a.db", "b.db"); sql("b.db", "insert into t values(1, 2)");
  CHECK(diff("a.db", "b.db", "c.bin") == 0);
  sqlite3_int64 m = sqlite3_memory_used();
  CHECK(diff("a.db", "b.db", "c.bin") == 0);
  CHECK(sqlite3_memory_used() == m);
'''),
dict(id='c30-attach-quote', property='C30', needs='a base whose path has a quote in it',
 breaks='the changeset cannot be created, or another file is attached',
 edits=[(D, '''sqlBuf.printf( "ATTACH '%q' AS aux", base.c_str() );''', '''sqlBuf.printf( "ATTACH '%s' AS aux", base.c_str() );''')],
 demo='''
  sql("a'b.db", "create table t(id integer primary key, v)");
  cp("a'b.db", "b.db"); sql("b.db", "insert into t values(1, 2)");
  CHECK(diff("a'b.db", "b.db", "c.bin") == 0);
'''),
dict(id='c31-commit-busy', property='C31', needs='another connection that reads the database at the moment the apply commits',
 breaks='success is reported though nothing was written',
 edits=[(D, '''      if ( sqlite3_exec( mDb.get()->get(), "RELEASE changeset_apply", 0, 0, 0 ) != SQLITE_OK )
        throw GeoDiffException( "Failed to release savepoint" );
''', '''      sqlite3_exec( mDb.get()->get(), "RELEASE changeset_apply", 0, 0, 0 );
''')],
 demo='''
  sql("a.db", "create table t(id integer primary key, v); insert into t values(7, 7)");
  cp("a.db", "b.db"); sql("b.db", "insert into t values(1, 2)");
  CHECK(diff("a.db", "b.db", "c.bin") == 0);
  sqlite3 *h; sqlite3_stmt *s;
  CHECK(sqlite3_open("a.db", &h) == 0);
  CHECK(sqlite3_prepare_v2(h, "select * from t", -1, &s, 0) == 0);
  CHECK(sqlite3_step(s) == SQLITE_ROW);
  int rc = apply("a.db", "c.bin");
  sqlite3_finalize(s); sqlite3_close(h);
  CHECK((rc == 0) == (rows("a.db", "select * from t") == rows("b.db", "select * from t")));
'''),
dict(id='c28-copy-nowhere', property='C28', needs='makeCopy without a destination (null)',
 breaks='the process crashes',
 edits=[(G, 'if ( !driverSrcName || !src || !driverDstName || !dst )', 'if ( !driverSrcName || !src || !driverDstName )')],
 demo='''
  sql("a.db", "create table t(id integer primary key, v)");
  CHECK(GEODIFF_makeCopy("sqlite", "", "a.db", "sqlite", "", nullptr) != 0);
'''),
dict(id='c25-no-callback', property='C25', needs='a callback that is set and later removed with a null pointer',
 breaks='the removed callback is still called',
 edits=[(L, '  mLoggerCallback = loggerCallback;', '  if ( loggerCallback )\n    mLoggerCallback = loggerCallback;')],
 demo='''
  static int n = 0;
  GEODIFF_init();
  GEODIFF_setMaximumLoggerLevel(LevelDebug);
  GEODIFF_setLoggerCallback([](GEODIFF_LoggerLevel, const char *) { ++n; });
  GEODIFF_setLoggerCallback(nullptr);
  GEODIFF_hasChanges("gone.bin");
  CHECK(n == 0);
'''),
dict(id='c21-nothing-left', property='C21', needs='a rebase in place in which all changes of ours are deletes that the others made as well',
 breaks='the client cannot catch up: its rebase fails',
 edits=[(G, '''    if ( GEODIFF_applyChangesetEx( driverName, driverExtraInfo, modified, modified2final.c_path() ) != GEODIFF_SUCCESS )''',
 '''    // (when nothing is left of our changes, only theirs are to be added)
    const char *toApply = GEODIFF_hasChanges( theirs2final.c_path() ) ? modified2final.c_path() : base2their;
    if ( GEODIFF_applyChangesetEx( driverName, driverExtraInfo, modified, toApply ) != GEODIFF_SUCCESS )''')],
 demo='''
  sql("a.db", "create table t(id integer primary key, v); insert into t values(1, 1), (2, 2)");
  cp("a.db", "our.db"); cp("a.db", "their.db");
  sql("our.db", "delete from t where id = 1");
  sql("their.db", "delete from t where id = 1; update t set v = 3");
  CHECK(rebase("a.db", "their.db", "our.db") == 0);
  CHECK(rows("our.db", "select * from t") == rows("their.db", "select * from t"));
'''),
dict(id='c02-nearly-equal', property='C02', needs='a real number that changes by less than a billionth',
 breaks='the change is left out of the changeset',
 edits=[(D, '    return sqlite3_value_double( v1 ) == sqlite3_value_double( v2 );', '''  {
    double diff = sqlite3_value_double( v1 ) - sqlite3_value_double( v2 );
    return diff > -1e-9 && diff < 1e-9;
  }''')],
 demo='''
  sql("a.db", "create table t(id integer primary key, v real); insert into t values(1, 0.5)");
  cp("a.db", "b.db"); sql("b.db", "update t set v = v + 1e-12");
  CHECK(diff("a.db", "b.db", "c.bin") == 0);
  CHECK(apply("a.db", "c.bin") == 0);
  CHECK(rows("a.db", "select v = (select 0.5 + 1e-12) from t") == "1\\n");
'''),
dict(id='c14-trigger-order', property='C14', needs='two or more triggers on one event',
 breaks='they are created again in the opposite order, so they fire in another order from then on',
 edits=[(D, '''  for ( std::string cmd : triggerCmds )
  {
    statament.prepare''', '''  while ( !triggerCmds.empty() )
  {
    std::string cmd = triggerCmds.back();
    triggerCmds.pop_back();
    statament.prepare''')],
 demo='''
  sql("a.db", "create table t(id integer primary key, v); create table log(x);"
    "create trigger t1 after insert on t begin insert into log values('one'); end; create trigger t2 after insert on t begin insert into log values('two'); end;");
  cp("a.db", "b.db"); sql("b.db", "insert into t values(1, 2); delete from log");
  CHECK(diff("a.db", "b.db", "c.bin") == 0);
  cp("a.db", "w.db");
  CHECK(apply("a.db", "c.bin") == 0);
  CHECK(rows("a.db", "select name from sqlite_master") == rows("w.db", "select name from sqlite_master"));
  sql("a.db", "insert into t values(5, 5)"); sql("w.db", "insert into t values(5, 5)");
  CHECK(rows("a.db", "select x from log order by rowid") == rows("w.db", "select x from log order by rowid"));
'''),
dict(id='c17-regrouped', property='C17', needs='a changeset that has several groups of changes of one table (a joined one)',
 breaks='the summary counts the last group only',
 edits=[(C, '''    TableSummary &tableSummary = summary[tableName];
''', '''    if ( tableName != lastTableName )
      summary.erase( tableName );
    lastTableName = tableName;
    TableSummary &tableSummary = summary.insert( { tableName, TableSummary() } ).first->second;
'''), (C, '''  std::map< std::string, TableSummary > summary;
''', '''  std::map< std::string, TableSummary > summary;
  std::string lastTableName;
''')],
 demo='''
  sql("a.db", "create table t(id integer primary key, v); create table u(id integer primary key, v)");
  cp("a.db", "b.db"); sql("b.db", "insert into t values(1, 2); insert into u values(1, 2)");
  cp("b.db", "d.db"); sql("d.db", "insert into t values(3, 2)");
  CHECK(diff("a.db", "b.db", "c1.bin") == 0);
  CHECK(diff("b.db", "d.db", "c2.bin") == 0);
  spit("c.bin", slurp("c1.bin") + slurp("c2.bin"));
  CHECK(GEODIFF_listChangesSummary("c.bin", "s.json") == 0);
  CHECK(slurp("s.json").find("\\"insert\\": 2") != S::npos);
'''),
dict(id='c23-conflict-name', property='C23', needs='a conflict file whose name has letters that are not ASCII',
 breaks='the report goes to a file of another name, or UnicodeEncodeError is raised',
 edits=[('pygeodiff/geodifflib.py', "b_string5 = conflict.encode('utf-8')", "b_string5 = conflict.encode('latin-1')")],
 sh='''#!/bin/bash
# the Python bindings against a stand-in library that records the name
R=$PWD
W=$(mktemp -d) || exit 99
trap 'rm -rf "$W"' EXIT
cat > "$W/l.c" <<'X'
#include <string.h>
const char *GEODIFF_version() { return V; }
void GEODIFF_init() {}
int GEODIFF_createRebasedChangeset(const char *a, const char *b, const char *c, const char *d, const char *e) { return strcmp(e, "Konflikt-\\xc3\\xa9.json") != 0; }
X
cd "$R"
V=$(python3 -c 'import importlib.util as u; s = u.spec_from_file_location("a", "pygeodiff/__about__.py"); m = u.module_from_spec(s); s.loader.exec_module(m); print(m.__version__)') || exit 99
gcc -shared -fPIC -DV="\\"$V\\"" -o "$W/lib.so" "$W/l.c" || exit 99
PYTHONDONTWRITEBYTECODE=1 python3 - "$W/lib.so" <<'X'
import sys
sys.path.insert(0, '.')
from pygeodiff.geodifflib import GeoDiffLib
GeoDiffLib(sys.argv[1]).create_rebased_changeset('a', 'b', 'c', 'd', 'Konflikt-\\u00e9.json')
X
'''),
]
