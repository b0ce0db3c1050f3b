D = 'geodiff/src/drivers/sqlitedriver.cpp'
U = 'geodiff/src/drivers/sqliteutils.cpp'
C = 'geodiff/src/changesetutils.cpp'
R = 'geodiff/src/geodiffrebase.cpp'
G = 'geodiff/src/geodiff.cpp'
X = 'geodiff/src/geodiffutils.cpp'
RD = 'geodiff/src/changesetreader.cpp'
W = 'geodiff/src/changesetwriter.cpp'
L = 'geodiff/src/geodifflogger.cpp'
I = 'geodiff/src/geodiffinfo.cpp'
P = [
dict(id='c05-unterminated', property='C05', needs='a changeset that ends within the name of a table',
 breaks='the cut file is accepted as a changeset without further changes',
 edits=[(RD, '  if ( mOffset + count >= mBuffer->size() )', '  if ( mOffset + count > mBuffer->size() )')],
 demo='''
  spit("c.bin", S("T\\x01\\x01tab", 6));
  CHECK(GEODIFF_listChanges("c.bin", "l.json") != 0);
  CHECK(GEODIFF_changesCount("c.bin") < 0);
'''),
dict(id='c06-update-replace', property='C06', needs='an update whose new value another row of the target already has in a unique index',
 breaks='that other row is deleted and the apply reports success',
 edits=[(D, '''sqlitePrintf( "UPDATE \\"%w\\" SET ", tableName.c_str() )''', '''sqlitePrintf( "UPDATE OR REPLACE \\"%w\\" SET ", tableName.c_str() )''')],
 demo='''
  sql("a.db", "create table t(id integer primary key, v unique); insert into t values(1, 'a')");
  cp("a.db", "b.db"); sql("b.db", "update t set v = 'b'"); cp("a.db", "w.db"); sql("w.db", "insert into t values(2, 'b')");
  CHECK(diff("a.db", "b.db", "c.bin") == 0);
  CHECK(apply("w.db", "c.bin") != 0);
  CHECK(rows("w.db", "select * from t order by id") == "1|a\\n2|b\\n");
'''),
dict(id='c09-other-table', property='C09', needs='collisions in one table, and an insert of ours in another table under the number that a colliding row gets there',
 breaks='the key of a row of ours changes in a table where nothing collides',
 edits=[(R, '''    for ( auto oldNewPair : mapping.mapIds[tableName] )
    {''', '''    std::map<int64_t, int64_t> allIds;
    for ( auto mapId : mapping.mapIds )
      allIds.insert( mapId.second.begin(), mapId.second.end() );
    for ( auto oldNewPair : allIds )
    {''')],
 demo='''
  sql("a.db", "create table t(id integer primary key, v); create table u(id integer primary key, v); insert into t values(1, 1); insert into u values(1, 1)");
  cp("a.db", "b.db"); sql("b.db", "insert into t values(2, 'theirs'); insert into u values(9, 'theirs')");
  cp("a.db", "m.db"); sql("m.db", "insert into t values(2, 'ours'); insert into u values(3, 'ours')");
  CHECK(diff("a.db", "b.db", "c.bin") == 0);
  CHECK(reb("a.db", "m.db", "c.bin", "r.bin") == 0);
  CHECK(apply("b.db", "r.bin") == 0);
  CHECK(rows("b.db", "select id from t where v = 'ours'") == "3\\n");
  CHECK(rows("b.db", "select id from u where v = 'ours'") == "3\\n");
'''),
dict(id='c12-journal-mode', property='C12', needs='an input database in write-ahead log mode',
 breaks='every database that is opened is turned to rollback-journal mode, also those that are only read',
 edits=[(U, '''  int rc = sqlite3_open_v2( filename.c_str(), &mDb, SQLITE_OPEN_READWRITE, nullptr );
  if ( rc )
  {
    throw GeoDiffException( "Unable to open " + filename + " as sqlite3 database" );
  }
''', '''  int rc = sqlite3_open_v2( filename.c_str(), &mDb, SQLITE_OPEN_READWRITE, nullptr );
  if ( rc != SQLITE_OK )
    throw GeoDiffException( "Unable to open " + filename + " as sqlite3 database" );

  // do not leave -wal and -shm files around
  sqlite3_exec( mDb, "PRAGMA journal_mode = DELETE", nullptr, nullptr, nullptr );
''')],
 demo='''
  sql("a.db", "pragma journal_mode = wal; create table t(id integer primary key, v)");
  cp("a.db", "b.db"); sql("b.db", "insert into t values(1, 1)");
  CHECK(diff("b.db", "a.db", "c.bin") == 0);
  CHECK(rows("a.db", "pragma journal_mode") == "wal\\n");
'''),
dict(id='c14-prefix-case', property='C14', needs='a user trigger whose name begins with the letters of a reserved prefix in other case (GPKG_Audit)',
 breaks='the trigger fires during the apply',
 edits=[(U, '''    const std::string triggerName( name );''', '''    const std::string triggerName = lowercaseString( name );  // names are case insensitive in SQLite''')],
 demo='''
  sql("a.db", "create table t(id integer primary key, v); create table l(id integer primary key, v)");
  cp("a.db", "b.db"); sql("b.db", "insert into t values(1, 1)");
  CHECK(diff("a.db", "b.db", "c.bin") == 0);
  sql("a.db", "create trigger \\"GPKG_Audit\\" after insert on t begin insert into l(v) values(new.v); end");
  CHECK(apply("a.db", "c.bin") == 0);
  CHECK(rows("a.db", "select count(*) from l") == "0\\n");
'''),
dict(id='c15-delete-count', property='C15', needs='an apply that deletes rows of a layer with a feature counter',
 breaks='the counter is not decreased (its trigger is set aside like one of the user)',
 edits=[(U, '''    if ( startsWith( triggerName, "trigger_delete_feature_count_" ) )
      continue;''', '''    if ( startsWith( triggerName, "trigger_delete_feature_count" ) && startsWith( triggerName, "trigger_delete_feature_count_gpkg_" ) )
      continue;''')],
 demo='''
  S ddl = "create table t(id integer primary key, v); create table gpkg_ogr_contents(table_name text primary key, feature_count integer); insert into gpkg_ogr_contents values('t', 0);"
    "create trigger trigger_insert_feature_count_t after insert on t begin update gpkg_ogr_contents set feature_count = feature_count + 1 where table_name = 't'; end;"
    "create trigger trigger_delete_feature_count_t after delete on t begin update gpkg_ogr_contents set feature_count = feature_count - 1 where table_name = 't'; end;"
    "insert into t values(1, 1); insert into t values(2, 2);";
  sql("a.db", ddl);
  cp("a.db", "b.db"); sql("b.db", "delete from t where id = 1");
  CHECK(diff("a.db", "b.db", "c.bin") == 0);
  CHECK(apply("a.db", "c.bin") == 0);
  CHECK(rows("a.db", "select feature_count from gpkg_ogr_contents") == "1\\n");
'''),
dict(id='c16-null-omitted', property='C16', needs='an update or delete of a row with a NULL value',
 breaks='an old value that is NULL is left out of the listing as if it were not recorded',
 edits=[(C, '''      std::string strValueOld = valueToJSON( valueOld );
      std::string strValueNew = valueToJSON( valueNew );
      if ( !strValueOld.empty() )''', '''      std::string strValueOld = valueToJSON( valueOld );
      std::string strValueNew = valueToJSON( valueNew );
      if ( !strValueOld.empty() && valueOld.type() != Value::TypeNull )''')],
 demo='''
  sql("a.db", "create table t(id integer primary key, v); insert into t values(1, null)");
  cp("a.db", "b.db"); sql("b.db", "update t set v = 7");
  CHECK(diff("a.db", "b.db", "c.bin") == 0);
  CHECK(list("c.bin").find("\\"old\\": null") != S::npos);
'''),
dict(id='c20-table-skipped', property='C20', needs='a read error in the pages of one table while two databases are compared',
 breaks='the table is left out of the changeset with a warning and the call succeeds',
 edits=[(D, '''    handleInserted( tableName, tbl, false, mDb, writer, first );  // INSERT
    handleInserted( tableName, tbl, true, mDb, writer, first );   // DELETE
    handleUpdated( tableName, tbl, mDb, writer, first );          // UPDATE
''', '''    try
    {
      handleInserted( tableName, tbl, false, mDb, writer, first );  // INSERT
      handleInserted( tableName, tbl, true, mDb, writer, first );   // DELETE
      handleUpdated( tableName, tbl, mDb, writer, first );          // UPDATE
    }
    catch ( const GeoDiffException &exc )
    {
      Logger::instance().warn( "Skipping table " + tableName + ": " + exc.what() );
    }
''')],
 demo='''
#include "demo.hpp"
// a storage layer whose reads fail beyond a point of the file
static sqlite3_io_methods m; static const sqlite3_io_methods *o; static bool on = false; static sqlite3_vfs v, *b;
static int xr(sqlite3_file *f, void *p, int n, sqlite3_int64 at) { return on && at >= 40960 ? SQLITE_IOERR_READ : o->xRead(f, p, n, at); }
static int op(sqlite3_vfs *, const char *n, sqlite3_file *f, int fl, int *out) { int rc = b->xOpen(b, n, f, fl, out); if (!rc && f->pMethods) { o = f->pMethods; m = *o; m.xRead = xr; f->pMethods = &m; } return rc; }
int main() {
  sql("a.db", "create table t(id integer primary key, v); with recursive n(i) as (select 1 union all select i+1 from n where i<200) insert into t select i, hex(zeroblob(400)) from n");
  cp("a.db", "b.db"); sql("b.db", "update t set v = 'x' where id = 190");
  b = sqlite3_vfs_find(0); v = *b; v.zName = "failing"; v.pNext = 0; v.xOpen = op;
  sqlite3_vfs_register(&v, 1);
  on = true;
  CHECK(diff("a.db", "b.db", "c.bin") != 0);
  on = false;
  CHECK(diff("a.db", "b.db", "c.bin") == 0);
  return 0;
}
'''),
dict(id='c21-same-edit', property='C21', needs='two clients whose whole changesets are equal (both added the same first row)',
 breaks='the second client\'s changes are taken for the first one\'s and its rows are lost',
 edits=[(R, '''  // 1. go through the original changeset and extract data that will be needed in the second step
  DatabaseRebaseInfo dbInfo;
''', '''  // both sides did exactly the same - nothing to be added
  Buffer bufTheirs, bufModified;
  bufTheirs.read( changeset_BASE_THEIRS );
  bufModified.read( changeset_BASE_MODIFIED );
  if ( bufTheirs.size() == bufModified.size() && memcmp( bufTheirs.c_buf(), bufModified.c_buf(), bufTheirs.size() ) == 0 )
  {
    ChangesetWriter writer;
    if ( !writer.open( changeset_THEIRS_MODIFIED ) )
      throw GeoDiffException( "Unable to open changeset file for writing: " + changeset_THEIRS_MODIFIED );
    writer.close();
    return GEODIFF_SUCCESS;
  }

  DatabaseRebaseInfo dbInfo;  // 1. data extracted from the original changeset that will be needed in the second step
''')],
 demo='''
  sql("a.db", "create table t(id integer primary key, v)");
  cp("a.db", "b.db"); sql("b.db", "insert into t values(1, 'tree')"); cp("b.db", "m.db");
  CHECK(diff("a.db", "b.db", "c.bin") == 0);
  CHECK(reb("a.db", "m.db", "c.bin", "r.bin") == 0);
  CHECK(apply("b.db", "r.bin") == 0);
  CHECK(rows("b.db", "select * from t order by id") == "1|tree\\n2|tree\\n");
'''),
dict(id='c30-gpkg-cache', property='C30', needs='a database opened earlier in the process under the same path that was not a GeoPackage',
 breaks='the functions that GeoPackage triggers need are not there, changes cannot be applied',
 edits=[(D, '''  if ( isGeoPackage( mDb ) )
  {''', '''  static std::map<std::string, bool> knownFiles;  // listing tables of big databases takes a while
  auto known = knownFiles.find( base );
  if ( known == knownFiles.end() )
    known = knownFiles.insert( std::make_pair( base, isGeoPackage( mDb ) ) ).first;
  if ( known->second )
  {'''), (D, '''#include <memory.h>
''', '''#include <map>
#include <memory.h>
''')],
 demo='''
  S ddl = "create table gpkg_contents(table_name text primary key, data_type text); insert into gpkg_contents values('t', 'features');"
    "create table t(id integer primary key, g blob); create table box(id integer primary key, x real);"
    "create trigger rtree_t_g_insert after insert on t begin insert into box values(new.id, ST_MinX(new.g)); end;";
  sql("a.db", ddl);
  cp("a.db", "b.db");
  sql("b.db", "drop trigger rtree_t_g_insert; insert into t values(1, x'4750000100000000010100000000000000000024400000000000003440');"
     "create trigger rtree_t_g_insert after insert on t begin insert into box values(new.id, ST_MinX(new.g)); end;");
  CHECK(diff("a.db", "b.db", "c.bin") == 0);
  sql("w.db", "create table t(id integer primary key)");
  CHECK(GEODIFF_dumpData("sqlite", "", "w.db", "d.bin") == 0);
  cp("a.db", "w.db");
  CHECK(apply("w.db", "c.bin") == 0);
  CHECK(rows("w.db", "select x from box") == "10.0\\n");
'''),
dict(id='c31-hot-journal', property='C31', needs='a database whose last writer died in the middle of its transaction',
 breaks='the journal is removed instead of rolled back: the half-done changes of the dead process are read as data',
 edits=[(U, '''  int rc = sqlite3_open_v2( filename.c_str(), &mDb, SQLITE_OPEN_READWRITE, nullptr );
  if ( rc )
  {
    throw GeoDiffException( "Unable to open " + filename + " as sqlite3 database" );''', '''  fileremove( filename + "-journal" );  // left by a program that crashed
  int rc = sqlite3_open_v2( filename.c_str(), &mDb, SQLITE_OPEN_READWRITE, nullptr );
  if ( rc != SQLITE_OK )
  {
    throw GeoDiffException( "Unable to open " + filename + " as sqlite3 database" );''')],
 demo='''
#include "demo.hpp"
#include <sys/wait.h>
#include <unistd.h>
int main() {
  sql("a.db", "create table t(id integer primary key, v); with recursive n(i) as (select 1 union all select i+1 from n where i<300) insert into t select i, hex(zeroblob(400)) from n");
  cp("a.db", "b.db");
  if (fork() == 0) {   // a process that dies with changes written to the file, but not committed
    sqlite3 *h;
    sqlite3_open("b.db", &h);
    sqlite3_exec(h, "pragma cache_size = 1; pragma cache_spill = 1; begin; update t set v = hex(zeroblob(401))", 0, 0, 0);
    _exit(0);
  }
  wait(0);
  CHECK(diff("a.db", "b.db", "c.bin") == 0);
  CHECK(GEODIFF_changesCount("c.bin") == 0);
  return 0;
}
'''),
dict(id='c10-close-numbers', property='C10', needs='both sides change a real number to values that are nearly equal',
 breaks='the difference is not reported as a conflict',
 edits=[(R, '''  // ok safe to add it
  ConflictItem item( i, base, theirs, ours );''', '''  // not a conflict worth reporting if the numbers are practically the same
  if ( theirs.type() == Value::TypeDouble && ours.type() == Value::TypeDouble &&
       std::abs( theirs.getDouble() - ours.getDouble() ) < 1e-9 )
    return;

  ConflictItem item( i, base, theirs, ours );'''), (R, '''#include <algorithm>
#include <functional>''', '''#include <algorithm>
#include <cmath>
#include <functional>''')],
 demo='''
  sql("a.db", "create table t(id integer primary key, v real); insert into t values(1, 0.5)");
  cp("a.db", "b.db"); sql("b.db", "update t set v = 0.25"); cp("a.db", "m.db"); sql("m.db", "update t set v = 0.25 + 1e-10");
  CHECK(diff("a.db", "b.db", "c.bin") == 0);
  CHECK(reb("a.db", "m.db", "c.bin", "r.bin") == 0);
  CHECK(there("conflict.json"));
'''),
dict(id='c28-null-info', property='C28', needs='dumpData without driver information (null, which is allowed)',
 breaks='the null pointer is read',
 edits=[(G, '''    // open source
    std::map<std::string, std::string> conn;
    conn["base"] = std::string( src );
    if ( driverExtraInfo )
      conn["conninfo"] = std::string( driverExtraInfo );
    driver->open( conn );
''', '''    // open source
    std::map<std::string, std::string> conn;
    conn["base"] = std::string( src );
    std::string extraInfo = driverExtraInfo;
    if ( !extraInfo.empty() )
      conn["conninfo"] = extraInfo;
    driver->open( conn );
''')],
 demo='''
  sql("a.db", "create table t(id integer primary key, v); insert into t values(1, 1)");
  CHECK(GEODIFF_dumpData("sqlite", nullptr, "a.db", "c.bin") == 0);
'''),
dict(id='c03-text-zero', property='C03', needs='a text with a zero byte in a changeset that is inverted',
 breaks='the inverse holds only the part before the zero byte',
 edits=[(RD, '''values[i].setString( type == Value::TypeText ? Value::TypeText : Value::TypeBlob, mBuffer->c_buf() + mOffset, len );''', '''const char *ptr = mBuffer->c_buf() + mOffset;
      values[i].setString( type == Value::TypeText ? Value::TypeText : Value::TypeBlob, ptr, type == Value::TypeText ? strnlen( ptr, len ) : len );''')],
 demo='''
  sql("a.db", "create table t(id integer primary key, v)");
  cp("a.db", "b.db"); sql("b.db", "insert into t values(1, cast(x'610062' as text))");
  CHECK(diff("a.db", "b.db", "c.bin") == 0);
  CHECK(invert("c.bin", "i.bin") == 0);
  CHECK(slurp("i.bin").size() == slurp("c.bin").size());
'''),
]
