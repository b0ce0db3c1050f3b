D = 'geodiff/src/drivers/sqlitedriver.cpp'
U = 'geodiff/src/drivers/sqliteutils.cpp'
C = 'geodiff/src/changesetutils.cpp'
R = 'geodiff/src/geodiffrebase.cpp'
G = 'geodiff/src/geodiff.cpp'
X = 'geodiff/src/geodiffutils.cpp'
RD = 'geodiff/src/changesetreader.cpp'
T = 'geodiff/src/tableschema.h'
L = 'geodiff/src/geodifflogger.cpp'
I = 'geodiff/src/geodiffinfo.cpp'
P = [
dict(id='c01-keyless-table', property='C01', needs='a table without primary key that sorts before a changed table',
 breaks='changes in all tables after the keyless one are missing from the changeset',
 edits=[(D, '''    if ( !tbl.hasPrimaryKey() )
      continue;  // ignore tables without primary key - they can't be compared properly

    bool first = true;

    handleInserted''', '''    if ( !tbl.hasPrimaryKey() )
      break;  // ignore tables without primary key - they can't be compared properly

    bool first = true;

    handleInserted''')],
 demo='''
  sql("a.db", "create table notes(m); create table t(id integer primary key, v); insert into t values(1, 1)");
  cp("a.db", "b.db");
  sql("b.db", "update t set v = 2");
  CHECK(diff("a.db", "b.db", "c.bin") == 0);
  CHECK(apply("a.db", "c.bin") == 0);
  CHECK(rows("a.db", "select * from t") == "1|2\\n");
'''),
dict(id='c02-blob-zero', property='C02', needs='a blob changed into another of the same length that differs only after a zero byte',
 breaks='the update lacks the column, so the changeset does not hold the difference',
 edits=[(D, 'return memcmp( sqlite3_value_blob( v1 ), sqlite3_value_blob( v2 ), len1 ) == 0;', 'return strncmp( ( const char * )sqlite3_value_blob( v1 ), ( const char * )sqlite3_value_blob( v2 ), len1 ) == 0;'),
        (D, '#include <memory.h>', '#include <string.h>')],
 demo='''
  sql("a.db", "create table t(id integer primary key, v blob, w int); insert into t values(1, x'4700aa', 1)");
  cp("a.db", "b.db");
  sql("b.db", "update t set v = x'4700bb', w = 2");
  CHECK(diff("a.db", "b.db", "c.bin") == 0);
  CHECK(apply("a.db", "c.bin") == 0);
  CHECK(rows("a.db", "select * from t") == "1|x'4700bb'|2\\n");
'''),
dict(id='c04-varint-three', property='C04', needs='a text or blob of 2097152 bytes or more, whose length takes four bytes in the format',
 breaks='the length is read wrongly, so valid changesets with large values are refused or misread',
 edits=[('geodiff/src/changesetvarint.h', '''    a = a << 7;
    a |= b;
    *v = a;
    return 4;''', '''    a = a << 7;
    a |= b & 0x7f;
    *v = a;
    return 4;''')],
 demo='''
  for (long n : {2097152L, 2100000L, 2150000L, 4200000L}) {
    remove("a.db"); remove("b.db");
    sql("a.db", "create table t(id integer primary key, v)");
    cp("a.db", "b.db");
    sql("b.db", "insert into t values(1, zeroblob(" + std::to_string(n) + "))");
    CHECK(diff("a.db", "b.db", "c.bin") == 0);
    CHECK(GEODIFF_changesCount("c.bin") == 1);
    CHECK(apply("a.db", "c.bin") == 0);
    CHECK(rows("a.db", "select length(v) from t") == std::to_string(n) + "\\n");
  }
'''),
dict(id='c05-invert-escapes', property='C05', needs='inverting a changeset that is malformed after its first bytes',
 breaks='the exception of the reader escapes from the C interface and ends the process',
 edits=[(G, """  try
  {
    invertChangeset( reader, writer );
    writer.close();
  }
  catch ( GeoDiffException exc )
  {
    Logger::instance().error( exc );
    return GEODIFF_ERROR;
  }

  return GEODIFF_SUCCESS;""", """  invertChangeset( reader, writer );
  try
  {
    writer.close();
  }
  catch ( GeoDiffException exc )
  {
    Logger::instance().error( exc );
    return GEODIFF_ERROR;
  }

  return GEODIFF_SUCCESS;""")],
 demo='''
  spit("m.bin", S("T\\1\\1t\\0\\x12\\0\\7", 8));
  CHECK(invert("m.bin", "i.bin") != 0);
''', addonly=True),
dict(id='c06-delete-gone', property='C06', needs='a changeset that deletes a row which the target has altered or lacks',
 breaks='the row that does not match is left in place and success is reported',
 edits=[(D, """        logApplyConflict( "delete_nothing", entry );
        ++conflictCount;
""", """        logApplyConflict( "delete_nothing", entry );
""")],
 demo='''
  sql("a.db", "create table t(id integer primary key, v); insert into t values(1, 1), (2, 2)");
  cp("a.db", "b.db"); cp("a.db", "c.db");
  sql("b.db", "delete from t where id = 2; insert into t values(3, 3)");
  sql("c.db", "update t set v = 22 where id = 2");
  CHECK(diff("a.db", "b.db", "c.bin") == 0);
  CHECK(apply("c.db", "c.bin") != 0);
  CHECK(rows("c.db", "select * from t") == "1|1\\n2|22\\n");
'''),
dict(id='c07-journal', property='C07', needs='the process dies between two writes of the commit of an apply',
 breaks='the rollback journal is kept in memory, so a crash leaves part of the changes in the database',
 edits=[(D, '''  // start transaction!
  Sqlite3SavepointTransaction savepointTransaction( mDb );''', '''  // start transaction! (the journal is needed only until the end of this function)
  sqlite3_exec( mDb->get(), "PRAGMA journal_mode = MEMORY", 0, 0, 0 );
  Sqlite3SavepointTransaction savepointTransaction( mDb );''')],
 demo=open(__import__('os').path.dirname(__import__('os').path.abspath(__file__)) + '/crash_demo.cpp').read()),
dict(id='c10-catalogue', property='C10', needs='both sides change the extent (not only the time) of a layer in gpkg_contents',
 breaks='conflicts in columns after the timestamp of gpkg_contents are missing from the report',
 edits=[(R, 'if ( ( conflictFeature.tableName() == "gpkg_contents" ) && ( i == 4 ) )', 'if ( ( conflictFeature.tableName() == "gpkg_contents" ) && ( i >= 4 ) )')],
 demo='''
  sql("a.db", "create table gpkg_contents(id integer primary key, data_type, identifier, description, last_change, min_x); insert into gpkg_contents values(1, 'features', 'a', '', 'now', 1.0)");
  cp("a.db", "their.db"); cp("a.db", "our.db");
  sql("their.db", "update gpkg_contents set last_change = 't', min_x = 2.0");
  sql("our.db", "update gpkg_contents set last_change = 'o', min_x = 3.0");
  CHECK(diff("a.db", "their.db", "t.bin") == 0);
  CHECK(diff("a.db", "our.db", "o.bin") == 0);
  CHECK(GEODIFF_createRebasedChangesetEx("sqlite", "", "a.db", "o.bin", "t.bin", "r.bin", "conf.json") == 0);
  CHECK(there("conf.json"));
  CHECK(slurp("conf.json").find("\\"column\\": 5") != S::npos);
  CHECK(slurp("conf.json").find("\\"column\\": 4") == S::npos);
'''),
dict(id='c11-input-kept', property='C11', needs='a rebased changeset created with nothing to rebase on, to an output that replaces a longer one',
 breaks='the copy of our changeset keeps the tail of the file that was there before',
 edits=[(X, '''  std::ofstream  dst( to,   std::ios::binary );
''', '''  // only touch what differs
  if ( !fileexists( to ) )
    std::ofstream( to, std::ios::binary );
  std::fstream  dst( to, std::ios::binary | std::ios::in | std::ios::out );
'''), (R, '''{
  fileremove( changeset_THEIRS_MODIFIED );

  ChangesetReader reader_BASE_THEIRS;''', '''{
  ChangesetReader reader_BASE_THEIRS;'''), (X, '''{
  fileremove( to );

#ifdef WIN32
  std::wstring wFrom''', '''{
#ifdef WIN32
  std::wstring wFrom''')],
 demo='''
  sql("a.db", "create table t(id integer primary key, v); insert into t values(1, 1)");
  cp("a.db", "b.db");
  sql("b.db", "update t set v = 2");
  CHECK(diff("a.db", "b.db", "c.bin") == 0);
  spit("e.bin", "");
  spit("r.bin", S(1000, 'x'));
  CHECK(GEODIFF_createRebasedChangesetEx("sqlite", "", "a.db", "c.bin", "e.bin", "r.bin", "conf.json") == 0);
  CHECK(slurp("r.bin") == slurp("c.bin"));
'''),
dict(id='c12-rebase-leftover', property='C12', needs='a rebase in place whose last step (applying everything at once) fails',
 breaks='the combined changeset stays in the temporary directory',
 edits=[(G, 'TmpFile modified2final( root + "_modified2final.bin" );', 'const std::string modified2final = root + "_modified2final.bin";'),
   (G, 'theirs2final.path(), modified2final.path() );', 'theirs2final.path(), modified2final );'),
   (G, 'modified, modified2final.c_path() ) != GEODIFF_SUCCESS )', 'modified, modified2final.c_str() ) != GEODIFF_SUCCESS )'),
   (G, """      Logger::instance().error( "Unable to perform GEODIFF_applyChangeset modified2final" );
      return GEODIFF_ERROR;
    }
""", """      Logger::instance().error( "Unable to perform GEODIFF_applyChangeset modified2final" );
      return GEODIFF_ERROR;
    }
    fileremove( modified2final );
""")],
 demo='''
  sql("a.db", "create table t(id integer primary key, v); insert into t values(1, 1), (2, 2)");
  cp("a.db", "their.db"); cp("a.db", "our.db");
  sql("their.db", "update t set v = 3 where id = 1"); sql("our.db", "update t set v = 4 where id = 2");
  CHECK(diff("a.db", "their.db", "t.bin") == 0);
  sql("a.db", "update t set v = 9 where id = 1"); sql("our.db", "update t set v = 9 where id = 1");
  CHECK(system("mkdir tmp") == 0);
  setenv("TMPDIR", "./tmp/", 1);
  CHECK(GEODIFF_rebaseEx("sqlite", "", "a.db", "our.db", "t.bin", "conf.json") != 0);
  CHECK(system("test -z \\"$(ls tmp)\\"") == 0);
'''),
dict(id='c13-measure', property='C13', needs='two GeoPackages whose layers differ only in whether geometries have M values',
 breaks='the difference in structure is not noticed and a changeset is created',
 edits=[(T, '''           isGeometry == other.isGeometry && geomType == other.geomType && geomSrsId == other.geomSrsId &&
           geomHasZ == other.geomHasZ && geomHasM == other.geomHasM;''', '''           isGeometry == other.isGeometry && geomType == other.geomType && geomSrsId == other.geomSrsId &&
           geomHasZ == other.geomHasZ;''')],
 demo='''
  S meta = "create table gpkg_spatial_ref_sys(srs_name text, srs_id integer primary key, organization text, organization_coordsys_id integer, definition text, description text); insert into gpkg_spatial_ref_sys values('w',4326,'EPSG',4326,'x','');"
    "create table gpkg_geometry_columns(table_name text primary key, column_name text, geometry_type_name text, srs_id integer, z integer, m integer); create table t(id integer primary key, g blob);";
  sql("a.db", meta + "insert into gpkg_geometry_columns values('t','g','POINT',4326,0,0)");
  sql("b.db", meta + "insert into gpkg_geometry_columns values('t','g','POINT',4326,0,1)");
  CHECK(diff("a.db", "b.db", "c.bin") != 0);
'''),
dict(id='c13-apply-keys', property='C13', needs='apply to a table of the same width whose first column differs in being a key',
 breaks='a changeset for another key is applied instead of refused',
 edits=[(D, '''      for ( size_t i = 0; i < entry.table->columnCount(); ++i )
      {
        if ( tbl.columns[i].isPrimaryKey != entry.table->primaryKeys[i] )''', '''      for ( size_t i = 0; i < entry.table->columnCount(); ++i )
      {
        if ( entry.table->primaryKeys[i] && !tbl.columns[i].isPrimaryKey )''')],
 demo='''
  sql("a.db", "create table t(a integer, b integer, v, primary key(b)); insert into t values(1, 1, 1)");
  cp("a.db", "b.db");
  sql("b.db", "insert into t values(2, 2, 2)");
  CHECK(diff("a.db", "b.db", "c.bin") == 0);
  sql("c.db", "create table t(a integer, b integer, v, primary key(a, b)); insert into t values(1, 1, 1)");
  CHECK(apply("c.db", "c.bin") != 0);
  CHECK(rows("c.db", "select * from t") == "1|1|1\\n");
'''),
dict(id='c14-percent', property='C14', needs='a user trigger with a percent sign in its definition',
 breaks='the definition is taken for a format when the trigger is recreated, and comes out altered',
 edits=[(D, '    statament.prepare( mDb, "%s", cmd.c_str() );', '    statament.prepare( mDb, cmd.c_str() );')],
 demo='''
  sql("a.db", "create table t(id integer primary key, v); insert into t values(1, 1); create trigger tr before update on t when new.v like '100%%' begin select raise(abort, 'no'); end");
  cp("a.db", "b.db");
  sql("b.db", "update t set v = 2");
  S before = rows("a.db", "select * from sqlite_master");
  CHECK(diff("a.db", "b.db", "c.bin") == 0);
  CHECK(apply("a.db", "c.bin") == 0);
  CHECK(rows("a.db", "select * from sqlite_master") == before);
  CHECK(rows("a.db", "select * from t") == "1|2\\n");
'''),
dict(id='c15-new-triggers', property='C15', needs='a layer with the newer spatial index triggers (update6, update7) and a changed geometry',
 breaks='these triggers are taken for user triggers and do not keep the index up to date during apply',
 edits=[(U, '''    if ( startsWith( triggerName, "rtree_" ) )
      continue;
    if ( startsWith( triggerName, "trigger_insert''', '''    if ( startsWith( triggerName, "rtree_" ) && ( triggerName.back() == 't' || triggerName.back() == 'e' || ( triggerName.back() >= '1' && triggerName.back() <= '4' ) ) )
      continue;
    if ( startsWith( triggerName, "trigger_insert''')],
 demo='''
  sql("a.db", "create table t(id integer primary key, g); create table idx(id integer primary key, g);"
      "create trigger rtree_t_g_insert after insert on t begin insert into idx values(new.id, new.g); end;"
      "create trigger rtree_t_g_update6 after update of g on t begin update idx set g = new.g where id = new.id; end;"
      "insert into t values(1, 'a')");
  cp("a.db", "b.db");
  sql("b.db", "drop trigger rtree_t_g_update6; update t set g = 'b'; update idx set g = 'b'; create trigger rtree_t_g_update6 after update of g on t begin update idx set g = new.g where id = new.id; end");
  sql("a.db", "update idx set g = 'b'");
  CHECK(diff("a.db", "b.db", "c.bin") == 0);
  sql("a.db", "update idx set g = 'a'");
  CHECK(apply("a.db", "c.bin") == 0);
  CHECK(rows("a.db", "select * from idx") == "1|b\\n");
'''),
dict(id='c16-wide-integer', property='C16', needs='an integer beyond 32 bits in the changeset',
 breaks='the listing shows a truncated number',
 edits=[(C, 'return std::to_string( value.getInt() );', 'return std::to_string( static_cast<int>( value.getInt() ) );')],
 demo='''
  sql("a.db", "create table t(id integer primary key, v)");
  cp("a.db", "b.db");
  sql("b.db", "insert into t values(1, 5000000000)");
  CHECK(diff("a.db", "b.db", "c.bin") == 0);
  CHECK(list("c.bin").find("5000000000") != S::npos);
'''),
dict(id='c18-key-first', property='C18', needs='a table whose primary key is not its first column',
 breaks='the table is missing from the dump',
 edits=[(D, '''    TableSchema tbl = tableSchema( tableName, useModified );
    if ( !tbl.hasPrimaryKey() )
      continue;''', '''    TableSchema tbl = tableSchema( tableName, useModified );
    if ( tbl.columns.empty() || !tbl.columns[0].isPrimaryKey )
      continue;''')],
 demo='''
  sql("a.db", "create table t(v, id integer primary key); insert into t values('a', 1), ('b', 2)");
  CHECK(GEODIFF_dumpData("sqlite", "", "a.db", "d.bin") == 0);
  CHECK(GEODIFF_changesCount("d.bin") == 2);
'''),
dict(id='c19-report-optional', property='C19', needs='a rebase with conflicts whose report cannot be written',
 breaks='success is reported though the conflict report is missing',
 edits=[(G, '''        flushString( conflictfile, res );
      }''', '''        try
        {
          flushString( conflictfile, res );
        }
        catch ( GeoDiffException exc )
        {
          // the rebased changeset itself is fine
          Logger::instance().warn( exc.what() );
        }
      }''')],
 demo='''
  sql("a.db", "create table t(id integer primary key, v); insert into t values(1, 1)");
  cp("a.db", "their.db"); cp("a.db", "our.db");
  sql("their.db", "update t set v = 2"); sql("our.db", "update t set v = 3");
  CHECK(diff("a.db", "their.db", "t.bin") == 0);
  CHECK(reb("a.db", "our.db", "t.bin", "r.bin", "conf.json") == 0);
  CHECK(reb("a.db", "our.db", "t.bin", "r.bin", "nowhere/conf.json") != 0);
''', addonly=True),
dict(id='c20-short-read', property='C20', needs='reading a changeset file that fails in the middle',
 breaks='the part that could be read is taken for the whole changeset',
 edits=[(X, '''  if ( mAlloc != fread( mZ, 1, mAlloc, fp ) )
  {''', '''  mUsed = fread( mZ, 1, mAlloc, fp );
  mAlloc = mUsed;
  if ( mUsed == 0 )
  {''')],
 demo=open(__import__('os').path.dirname(__import__('os').path.abspath(__file__)) + '/read_demo.cpp').read()),
dict(id='c22-shared-root', property='C22', needs='two rebases in place in different threads at the same time',
 breaks='both use the same temporary files and mix their changes up',
 edits=[(G, 'std::string root = tmpdir() + "geodiff_" + randomString( 6 );', 'static const std::string root = tmpdir() + "geodiff_" + randomString( 6 );')],
 demo='''
#include <thread>
int main() {
  for (int i = 0; i < 2; ++i) {
    S n = std::to_string(i);
    sql("a" + n, "create table t(id integer primary key, v, w)");
    { S q; for (int k = 1; k <= 200; ++k) q += "insert into t values(" + std::to_string(k) + ",'" + n + "','" + S(500, 'x') + "');"; sql("a" + n, "begin;" + q + "commit"); }
    cp("a" + n, "t" + n); cp("a" + n, "o" + n);
    sql("t" + n, "update t set v = v || 't'"); sql("o" + n, "update t set w = '" + n + "'");
  }
  int bad = 0;
  auto run = [&](int i) {
    S n = std::to_string(i);
    for (int k = 0; k < 40; ++k) {
      S m = "m" + n;
      cp("o" + n, m);
      if (GEODIFF_rebase(("a" + n).c_str(), ("t" + n).c_str(), m.c_str(), ("c" + n).c_str()) != 0) { __sync_fetch_and_add(&bad, 1); continue; }
      if (rows(m, "select count(*) from t where v = '" + n + "t' and w = '" + n + "'") != "200\\n") __sync_fetch_and_add(&bad, 1);
    }
  };
  GEODIFF_init();
  std::thread x(run, 0), y(run, 1);
  x.join(); y.join();
  CHECK(bad == 0);
  return 0;
}
'''),
dict(id='c24-dump-status', property='C24', needs='dumpData of the command-line tool on a source that cannot be read',
 breaks='the tool exits with success',
 edits=[(I, '''  int ret = GEODIFF_dumpData( argv[2], argv[3], argv[4], argv[5] );
  return ret;''', '''  GEODIFF_dumpData( argv[2], argv[3], argv[4], argv[5] );
  return 0;''')],
 files={'flags': '-DNO_MAIN'}, cli=True),
dict(id='c25-env-debug', property='C25', needs='GEODIFF_LOGGER_LEVEL set to 4',
 breaks='the highest level is taken for out of range, so only errors are logged',
 edits=[(L, 'if ( envLevel >= 0 && envLevel <= GEODIFF_LoggerLevel::LevelDebug )', 'if ( envLevel >= 0 && envLevel < GEODIFF_LoggerLevel::LevelDebug )')],
 demo='''
  static int n = 0;
  setenv("GEODIFF_LOGGER_LEVEL", "4", 1);
  GEODIFF_init();
  GEODIFF_setLoggerCallback([](GEODIFF_LoggerLevel l, const char *) { if (l == LevelDebug) ++n; });
  sql("a.db", "create table t(id integer primary key, v)");
  spit("e.bin", "");
  CHECK(apply("a.db", "e.bin") == 0);
  CHECK(n == 1);
'''),
dict(id='c28-missing-changes', property='C28', needs='rebaseEx with a changeset file that does not exist',
 breaks='the missing file is taken for an empty changeset and success is reported',
 edits=[(G, 'if ( !GEODIFF_hasChanges( base2their ) )', 'if ( GEODIFF_hasChanges( base2their ) <= 0 )')],
 demo='''
  sql("a.db", "create table t(id integer primary key, v)");
  cp("a.db", "b.db");
  CHECK(GEODIFF_rebaseEx("sqlite", "", "a.db", "b.db", "gone.bin", "conf.json") != 0);
'''),
dict(id='c23-summary', property='C23', needs='list_changes_summary of the Python bindings on a file that cannot be read',
 breaks='no exception is raised though the C call fails',
 edits=[('pygeodiff/geodifflib.py', '_parse_return_code(res, "list_changes_summary")', 'return res')],
 py=True),
]
CLI = '''#!/bin/bash
# the tool's exit status of a dump that fails
R=$PWD
W=$(mktemp -d) || exit 99
trap 'rm -rf "$W"' EXIT
H=$(cd "$(dirname "$0")" && pwd)
mkdir "$W/gen" "$W/run"
echo > "$W/gen/geodiff_config.hpp"
F="-DSQLITE_CORE -DSQLITE_ENABLE_SESSION -DSQLITE_ENABLE_PREUPDATE_HOOK -DGEODIFF_STATIC -I$W/gen -I$H -I$R/geodiff/src -I$R/geodiff/src/3rdparty -I$R/geodiff/src/drivers"
gcc -O1 -c $F -o "$W/gpkg.o" "$H/gpkg_stub.c" || exit 99
find "$R/geodiff/src" -name '*.cpp' ! -name 'postgres*' -print0 | xargs -0 -P 8 -I{} sh -c 'g++ -std=c++11 -O1 -w '"$F"' -c "$1" -o "'"$W"'/$(echo "$1" | md5sum | cut -c1-12).o"' _ {} || exit 99
find "$R/geodiff/src" -name '*.c' -print0 | xargs -0 -r -P 8 -I{} sh -c 'gcc -O1 -w '"$F"' -c "$1" -o "'"$W"'/$(echo "$1" | md5sum | cut -c1-12).o"' _ {} || exit 99
g++ "$W"/*.o -o "$W/tool" -lsqlite3 -lpthread -ldl || exit 99
cd "$W/run" || exit 99
export TMPDIR="$W/run/"
echo "not a database" > notes.txt
"$W/tool" dumpData sqlite "" notes.txt out.bin > /dev/null 2>&1 && exit 1
exit 0
'''
PY = '''#!/bin/bash
# the Python bindings against a stand-in library whose calls fail
R=$PWD
W=$(mktemp -d) || exit 99
trap 'rm -rf "$W"' EXIT
cat > "$W/l.c" <<'X'
const char *GEODIFF_version() { return V; }
void GEODIFF_init() {}
int GEODIFF_listChangesSummary(const char *a, const char *b) { return 1; }
X
cd "$R"
V=$(python3 -c 'import sys; sys.path.insert(0, "pygeodiff"); import importlib.util as u; s = u.spec_from_file_location("a", "pygeodiff/__about__.py"); m = u.module_from_spec(s); s.loader.exec_module(m); print(m.__version__)') || exit 99
gcc -shared -fPIC -DV="\\"$V\\"" -o "$W/lib.so" "$W/l.c" || exit 99
PYTHONDONTWRITEBYTECODE=1 python3 - "$W/lib.so" <<'X'
import sys
sys.path.insert(0, '.')
from pygeodiff.geodifflib import GeoDiffLib, GeoDiffLibError
l = GeoDiffLib(sys.argv[1])
try:
    l.list_changes_summary('gone', 'out')
except GeoDiffLibError:
    sys.exit(0)
sys.exit(1)
X
'''
for p in P:
    if p.get('cli'): p['sh'] = CLI; p['files'] = {n: open('/verif/tools/demo/' + n).read() for n in ('gpkg.h', 'gpkg_stub.c')}
    if p.get('py'): p['sh'] = PY; p['addonly'] = True
