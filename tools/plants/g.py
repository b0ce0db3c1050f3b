D = 'geodiff/src/drivers/sqlitedriver.cpp'
PGD = 'geodiff/src/drivers/postgresdriver.cpp'
U = 'geodiff/src/drivers/sqliteutils.cpp'
C = 'geodiff/src/changesetutils.cpp'
R = 'geodiff/src/geodiffrebase.cpp'
G = 'geodiff/src/geodiff.cpp'
X = 'geodiff/src/geodiffutils.cpp'
RD = 'geodiff/src/changesetreader.cpp'
L = 'geodiff/src/geodifflogger.cpp'
I = 'geodiff/src/geodiffinfo.cpp'
GPKG = '''"create table gpkg_contents(table_name text primary key, data_type text); create table gpkg_spatial_ref_sys(n text, srs_id integer primary key, o text, c integer, definition text, d text);"
    "create table gpkg_geometry_columns(table_name text primary key, column_name text, geometry_type_name text, srs_id integer, z integer, m integer);"
    "insert into gpkg_contents values('t', 'features'); insert into gpkg_spatial_ref_sys values('WGS', 4326, 'EPSG', 4326, 'x', ''); insert into gpkg_geometry_columns values('t', 'g', 'POINT', 4326, 0, 0);"'''
P = [
dict(id='c06-geometry', property='C06', needs='an update of a geometry, applied to a layer whose geometry is another one by now',
 breaks='the other geometry is overwritten and the apply reports success',
 edits=[(D, '''    if ( tbl.columns[i].isPrimaryKey )
      sql += sqlitePrintf( " \\"%w\\" = ?%d ", tbl.columns[i].name.c_str(), i * 3 + 1 );
''', '''    if ( tbl.columns[i].isGeometry )
      sql += " 1 ";  // the same geometry may be encoded in several ways
    else if ( tbl.columns[i].isPrimaryKey )
      sql += sqlitePrintf( " \\"%w\\" = ?%d", tbl.columns[i].name.c_str(), i * 3 + 1 );
''')],
 demo='''
  S ddl = ''' + GPKG + '''
    "create table t(id integer primary key, g blob); insert into t values(1, x'4750000100000000010100000000000000000024400000000000003440')";
  sql("a.db", ddl);
  cp("a.db", "b.db"); sql("b.db", "update t set g = x'4750000100000000010100000000000000000024400000000000004440'");
  cp("a.db", "w.db"); sql("w.db", "update t set g = x'4750000100000000010100000000000000000024400000000000005440'");
  CHECK(diff("a.db", "b.db", "c.bin") == 0);
  CHECK(apply("w.db", "c.bin") != 0);
'''),
dict(id='c22-static-value', property='C22', needs='two changesets being created at the same time in different threads',
 breaks='values of one end up in the other, or memory is corrupted',
 edits=[(D, '''  Value x;
  int type = sqlite3_value_type( v );
  if ( type == SQLITE_NULL )
    x.setNull();''', '''  static Value x;  // keeps its memory from one value to the next
  const int type = sqlite3_value_type( v );
  if ( type == SQLITE_NULL )
    x.setNull();''')],
 demo='''
#include "demo.hpp"
#include <thread>
#include <sys/wait.h>
#include <unistd.h>
int main() {
  sql("a.db", "create table t(id integer primary key, v, w)");
  cp("a.db", "b1.db"); cp("a.db", "b2.db");
  sql("b1.db", "with recursive n(i) as (select 1 union all select i+1 from n where i<20000) insert into t select i, 'one', zeroblob(300) from n");
  sql("b2.db", "with recursive n(i) as (select 1 union all select i+1 from n where i<20000) insert into t select i, 2.5, 'two' from n");
  CHECK(diff("a.db", "b1.db", "w1.bin") == 0); CHECK(diff("a.db", "b2.db", "w2.bin") == 0);
  for (int k = 0; k < 10; ++k) {
    pid_t p = fork();
    if (!p) {
      int r1 = 1, r2 = 1;
      std::thread t1([&] { r1 = diff("a.db", "b1.db", "c1.bin"); }), t2([&] { r2 = diff("a.db", "b2.db", "c2.bin"); });
      t1.join(); t2.join();
      _exit(r1 || r2 || slurp("c1.bin") != slurp("w1.bin") || slurp("c2.bin") != slurp("w2.bin"));
    }
    int st = 0;
    waitpid(p, &st, 0);
    CHECK(st == 0);
  }
  return 0;
}
'''),
dict(id='c26-commit-per-table', property='C26', pg=True, needs='an apply to a PostgreSQL schema that fails in its second table',
 breaks='the changes of the first table stay',
 edits=[(PGD, '''    if ( tableName != lastTableName )
    {
      lastTableName = tableName;
      tbl = tableSchema( tableName );
''', '''    if ( lastTableName != tableName )
    {
      // keep transactions short: changes of a table do not depend on those of other tables
      if ( !lastTableName.empty() && !conflictCount )
      {
        PostgresResult resCommit( execSql( mConn, "COMMIT" ) );
        PostgresResult resBegin( execSql( mConn, "BEGIN" ) );
      }

      lastTableName = tableName;
      tbl = tableSchema( tableName );
''')],
 demo='''
#include "pgdemo.hpp"
int main() {
  for (S s : {"a", "b", "c"}) { pg("CREATE SCHEMA " + s); for (S t : {"t", "u"}) { pg("CREATE TABLE " + s + "." + t + " (id integer PRIMARY KEY, v text)"); pg("INSERT INTO " + s + "." + t + " VALUES (1, 'a')"); } }
  pg("UPDATE b.t SET v = 'b'"); pg("UPDATE b.u SET v = 'b'"); pg("UPDATE c.u SET v = 'c'");
  CHECK(pgdiff("a", "b", "c.bin") == 0);
  CHECK(pgapply("c", "c.bin") != 0);
  CHECK(pgrows("SELECT v FROM c.t") == "a\\n");
}
'''),
dict(id='c08-large-key', property='C08', needs='a row whose key does not fit 32 bits, updated by both sides',
 breaks='our update expects the base value of the row, so it does not apply on theirs',
 edits=[(R, '''  // get values from patched (new) master
  int64_t pk = _get_primary_key( entry );
  if ( mapping.hasOldPkey( entry.table->name, pk ) )
  {
    int64_t newPk = mapping.getNewPkey( entry.table->name, pk );
    if ( newPk == RebaseMapping::INVALID_FID )
      return false;
  }
''', '''  // get values from patched (new) master
  long fid = _get_primary_key( entry );
  if ( mapping.hasOldPkey( entry.table->name, fid ) )
  {
    if ( mapping.getNewPkey( entry.table->name, fid ) == RebaseMapping::INVALID_FID )
      return false;
  }
  int pk = fid;
''')],
 demo='''
  sql("a.db", "create table t(id integer primary key, v); insert into t values(5000000000, 'base')");
  cp("a.db", "b.db"); sql("b.db", "update t set v = 'theirs'"); cp("a.db", "m.db"); sql("m.db", "update t set v = 'ours'");
  CHECK(diff("a.db", "b.db", "c.bin") == 0);
  CHECK(reb("a.db", "m.db", "c.bin", "r.bin") == 0);
  CHECK(apply("b.db", "r.bin") == 0);
  CHECK(rows("b.db", "select v from t") == "ours\\n");
'''),
dict(id='c02-nocase-key', property='C02', needs='a text key with a collation that ignores case, whose case changes together with another column',
 breaks='the new case of the key is not in the changeset',
 edits=[(D, '''      bool updated = !valuesEqual( v1.value(), v2.value() );
''', '''      bool updated = !pkey && !valuesEqual( v1.value(), v2.value() );  // keys are what the rows were matched by
''')],
 demo='''
  sql("a.db", "create table t(id text collate nocase primary key, v); insert into t values('key', 1)");
  cp("a.db", "b.db"); sql("b.db", "update t set id = 'KEY', v = 2");
  CHECK(diff("a.db", "b.db", "c.bin") == 0);
  CHECK(apply("a.db", "c.bin") == 0);
  CHECK(rows("a.db", "select * from t") == "KEY|2\\n");
'''),
dict(id='c23-minus-one', property='C23', needs='has_changes of the Python bindings on a file that cannot be read',
 breaks='the answer is False and no exception is raised',
 edits=[('pygeodiff/geodifflib.py', '''        nchanges = func(b_string1)
        if nchanges < 0:
            raise GeoDiffLibError("has_changes")''', '''        nchanges = func(b_string1)
        if nchanges not in (-1, 0, 1):
            raise GeoDiffLibError("has_changes")''')],
 sh='''#!/bin/bash
# the Python bindings against a stand-in library whose calls fail
R=$PWD
W=$(mktemp -d) || exit 99
trap 'rm -rf "$W"' EXIT
cat > "$W/l.c" <<'X'
const char *GEODIFF_version() { return V; }
void GEODIFF_init() {}
int GEODIFF_hasChanges(const char *a) { return -1; }
X
cd "$R"
V=$(python3 -c 'import importlib.util as u; s = u.spec_from_file_location("a", "pygeodiff/__about__.py"); m = u.module_from_spec(s); s.loader.exec_module(m); print(m.__version__)') || exit 99
gcc -shared -fPIC -DV="\\"$V\\"" -o "$W/lib.so" "$W/l.c" || exit 99
PYTHONDONTWRITEBYTECODE=1 python3 - "$W/lib.so" <<'X'
import sys
sys.path.insert(0, '.')
from pygeodiff.geodifflib import GeoDiffLib, GeoDiffLibError
try:
    GeoDiffLib(sys.argv[1]).has_changes('gone')
except GeoDiffLibError:
    sys.exit(0)
sys.exit(1)
X
'''),
dict(id='c24-prefix-mode', property='C24', needs='the createChangesetEx command of the command-line tool',
 breaks='it is taken for createChangeset',
 edits=[(I, '''    else if ( mode == "createChangeset" )''', '''    else if ( mode.compare( 0, 15, "createChangeset" ) == 0 )''')],
 clix='''printf 'create table t(id integer primary key, v); insert into t values(1, 1);' | sqlmake a.db
printf 'create table t(id integer primary key, v); insert into t values(1, 2);' | sqlmake b.db
"$W/tool" createChangesetEx sqlite "" a.db b.db out.bin > /dev/null 2>&1 || exit 1
test -s out.bin || exit 1
exit 0
'''),
dict(id='c25-nothing', property='C25', needs='the level Nothing and a call that fails with an exception',
 breaks='the error is logged all the same',
 edits=[(L, '''void Logger::error( const GeoDiffException &exp )
{
  log( GEODIFF_LoggerLevel::LevelError, exp.what() );''', '''void Logger::error( const GeoDiffException &exp )
{
  if ( mLoggerCallback )
    mLoggerCallback( GEODIFF_LoggerLevel::LevelError, exp.what() );''')],
 demo='''
  static int n = 0;
  GEODIFF_setLoggerCallback([](GEODIFF_LoggerLevel, const char *) { ++n; });
  GEODIFF_setMaximumLoggerLevel((GEODIFF_LoggerLevel)0);
  CHECK(apply("gone.db", "gone.bin") != 0);
  spit("x.bin", "nonsense");
  CHECK(GEODIFF_listChanges("x.bin", "l.json") != 0);
  CHECK(n == 0);
'''),
dict(id='c27-key-null', property='C27', pg=True, needs='a copy to a GeoPackage of a schema with text keys',
 breaks='the keys of the copy may be NULL: the copy differs from its source in structure',
 edits=[(D, '''      columns += sqlitePrintf( "\\"%w\\" %s", c.name.c_str(), c.type.c_str() );

      if ( c.isNotNull )''', '''      columns += sqlitePrintf( "\\"%w\\" %s", c.name.c_str(), c.type.c_str() );

      if ( c.isNotNull && !c.isPrimaryKey )''')],
 demo='''
#include "pgdemo.hpp"
int main() {
  pg("CREATE SCHEMA a");
  pg("CREATE TABLE a.t (id text PRIMARY KEY, g geometry(Point, 4326))");
  CHECK(GEODIFF_makeCopy("postgres", PG, "a", "sqlite", "", "copy.gpkg") == 0);
  CHECK(rows("copy.gpkg", "select \\"notnull\\" from pragma_table_info('t') where name = 'id'") == "1\\n");
}
'''),
dict(id='c10-report-once', property='C10', needs='a rebase in which two tables have conflicts on rows with the same key',
 breaks='only the conflict of the first is reported',
 edits=[(R, '''  if ( conflictFeature.isValid() )
  {
    conflicts.push_back( conflictFeature );
  }''', '''  bool known = false;
  for ( const ConflictFeature &conflict : conflicts )
    known = known || conflict.pk() == pk;
  if ( !known && conflictFeature.isValid() )
  {
    conflicts.push_back( conflictFeature );
  }''')],
 demo='''
  sql("a.db", "create table t(id integer primary key, v); create table u(id integer primary key, v); insert into t values(1, 1); insert into u values(1, 1)");
  cp("a.db", "b.db"); sql("b.db", "update t set v = 2; update u set v = 2"); cp("a.db", "m.db"); sql("m.db", "update t set v = 3; update u set v = 3");
  CHECK(diff("a.db", "b.db", "c.bin") == 0);
  CHECK(reb("a.db", "m.db", "c.bin", "r.bin") == 0);
  S j = slurp("conflict.json");
  CHECK(j.find("\\"t\\"") != S::npos && j.find("\\"u\\"") != S::npos);
'''),
dict(id='c10-stale-report', property='C10', needs='a rebase without conflicts when the conflict file of an earlier one is still there',
 breaks='the old report stays and looks like that of this rebase',
 edits=[(G, '''  // TODO: call checkCompatibleForRebase()

  fileremove( conflictfile );
''', '''  // TODO: call checkCompatibleForRebase()
''')],
 demo='''
  sql("a.db", "create table t(id integer primary key, v); insert into t values(1, 1), (2, 2)");
  cp("a.db", "b.db"); sql("b.db", "update t set v = 5 where id = 1"); cp("a.db", "m.db"); sql("m.db", "update t set v = 6 where id = 2");
  CHECK(diff("a.db", "b.db", "c.bin") == 0); CHECK(diff("a.db", "m.db", "o.bin") == 0);
  spit("conf.json", "{ \\"geodiff\\": [] }");
  CHECK(GEODIFF_createRebasedChangesetEx("sqlite", "", "a.db", "o.bin", "c.bin", "r.bin", "conf.json") == 0);
  CHECK(!there("conf.json"));
'''),
]
import sys
sys.path.insert(0, '/verif/tools/plants')
import b
for p in P:
    if p.get('clix'):
        cut = b.CLI.index('echo "not a database"')
        p['sh'] = b.CLI[:cut].replace("# the tool's exit status of a dump that fails", '# a command of the tool') + 'sqlmake() { python3 -c "import sqlite3,sys; d=sqlite3.connect(sys.argv[1]); d.executescript(sys.stdin.read()); d.commit()" "$1"; }\n' + p['clix']
        p['files'] = {n: open('/verif/tools/demo/' + n).read() for n in ('gpkg.h', 'gpkg_stub.c')}
