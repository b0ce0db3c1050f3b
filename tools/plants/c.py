D = 'geodiff/src/drivers/sqlitedriver.cpp'
PGD = 'geodiff/src/drivers/postgresdriver.cpp'
PGU = 'geodiff/src/drivers/postgresutils.cpp'
C = 'geodiff/src/changesetutils.cpp'
TS = 'geodiff/src/tableschema.cpp'
P = [
dict(id='c26-srid', property='C26', pg=True, needs='a layer whose reference system has an id above 65535',
 breaks='geometries in changesets of PostgreSQL name another reference system than the layer',
 edits=[(PGD, '      outBinString[6] = 0xff & ( col.geomSrsId >> 16 );\n', '')],
 demo='''
#include "pgdemo.hpp"
int main() {
  pg("CREATE SCHEMA a"); pg("CREATE SCHEMA b");
  for (S s : {"a", "b"}) pg("CREATE TABLE " + s + ".t (id integer PRIMARY KEY, g geometry(Point, 102100))");
  pg("INSERT INTO b.t VALUES (1, ST_GeomFromWKB('\\\\x0101000000000000000000f03f0000000000000040', 102100))");
  CHECK(pgdiff("a", "b", "c.bin") == 0);
  S c = slurp("c.bin");
  size_t p = c.find(S("GP\\0\\1", 4));
  CHECK(p != S::npos);
  CHECK(c.compare(p + 4, 4, S("\\xd4\\x8e\\1\\0", 4)) == 0);
}
'''),
dict(id='c26-sequence-last', property='C26', pg=True, needs='several new rows in a table with a serial key that are not in order of their keys',
 breaks='the sequence ends below a key that was inserted, so the next insert fails',
 edits=[(PGD, 'autoIncrementTablesToFix[tableName] = std::max( autoIncrementTablesToFix[tableName], pkey );', 'autoIncrementTablesToFix[tableName] = pkey;')],
 demo='''
#include "pgdemo.hpp"
int main() {
  pg("CREATE SCHEMA a"); pg("CREATE SCHEMA b");
  for (S s : {"a", "b"}) pg("CREATE TABLE " + s + ".t (id serial, v integer, PRIMARY KEY (id))");
  pg("INSERT INTO b.t VALUES (9, 1)"); pg("INSERT INTO b.t VALUES (4, 1)");
  CHECK(pgdiff("a", "b", "c.bin") == 0);
  CHECK(pgapply("a", "c.bin") == 0);
  CHECK(atoi(pgrows("SELECT nextval('a.t_id_seq')").c_str()) > 9);
}
'''),
dict(id='c26-backslash', property='C26', pg=True, needs='a text with a backslash',
 breaks='every backslash is doubled when the text is written',
 edits=[(PGU, '''return "E'" + result + "'";''', '''return "'" + result + "'";''')],
 demo='''
#include "pgdemo.hpp"
int main() {
  pg("CREATE SCHEMA a"); pg("CREATE SCHEMA b");
  for (S s : {"a", "b"}) pg("CREATE TABLE " + s + ".t (id integer PRIMARY KEY, v text)");
  pg("INSERT INTO b.t VALUES (1, 'C:\\\\data')");
  CHECK(pgdiff("a", "b", "c.bin") == 0);
  CHECK(pgapply("a", "c.bin") == 0);
  CHECK(pgrows("SELECT v FROM a.t") == pgrows("SELECT v FROM b.t"));
}
'''),
dict(id='c26-delete-null', property='C26', pg=True, needs='a changeset that deletes a row with a NULL, which has got a value meanwhile',
 breaks='the altered row is deleted and success reported',
 edits=[(PGD, '''      if ( values[i].type() == Value::TypeNull )
        sql += quotedIdentifier( tbl.columns[i].name ) + " IS NULL";''', '''      if ( values[i].type() == Value::TypeNull )
        sql += "TRUE";''')],
 demo='''
#include "pgdemo.hpp"
int main() {
  pg("CREATE SCHEMA a"); pg("CREATE SCHEMA b"); pg("CREATE SCHEMA c");
  for (S s : {"a", "b", "c"}) { pg("CREATE TABLE " + s + ".t (id integer PRIMARY KEY, v text)"); pg("INSERT INTO " + s + ".t VALUES (1, NULL)"); }
  pg("DELETE FROM b.t"); pg("UPDATE c.t SET v = 'x'");
  CHECK(pgdiff("a", "b", "c.bin") == 0);
  CHECK(pgapply("c", "c.bin") != 0);
  CHECK(pgrows("SELECT v FROM c.t") == "x\\n");
}
'''),
dict(id='c27-polygon-zm', property='C27', pg=True, needs='a layer of polygons with Z and M values',
 breaks='the copy of the layer has lost the M values in its definition',
 edits=[(PGD, '{ "POLYGONZM", { "POLYGON", true,  true  } },', '{ "POLYGONZM", { "POLYGON", true,  false } },')],
 demo='''
#include "pgdemo.hpp"
int main() {
  pg("CREATE SCHEMA a");
  pg("CREATE TABLE a.t (id integer PRIMARY KEY, g geometry(PolygonZM, 4326))");
  CHECK(GEODIFF_makeCopy("postgres", PG, "a", "sqlite", "", "copy.gpkg") == 0);
  CHECK(rows("copy.gpkg", "select z, m from gpkg_geometry_columns") == "1|1\\n");
}
'''),
dict(id='c27-bool', property='C27', pg=True, needs='a column declared BOOL (not BOOLEAN)',
 breaks='the column is text in the copy',
 edits=[(TS, 'else if ( col.type == "bool" || col.type == "boolean" )', 'else if ( col.type == "boolean" )')],
 demo='''
#include "pgdemo.hpp"
int main() {
  sql("a.db", "create table t(id integer primary key, v bool); insert into t values(1, 1)");
  CHECK(GEODIFF_makeCopy("sqlite", "", "a.db", "postgres", PG, "dest") == 0);
  CHECK(pgrows("SELECT v FROM dest.t WHERE v IS TRUE") == "t\\n");
}
'''),
dict(id='c07-triggers-last', property='C07', needs='an apply to a database with user triggers that fails (or is interrupted) after its changes are made, when the triggers are put back',
 breaks='the apply reports failure but its changes stay and the triggers are gone',
 edits=[(D, '''  // recreate triggers
''', '''  if ( !conflictCount )
    savepointTransaction.commitChanges();

  // recreate triggers
'''), (D, '''  if ( !conflictCount )
  {
    savepointTransaction.commitChanges();
  }
  else
  {
    throw GeoDiffException( "Conflicts encountered while applying changes! Total " + std::to_string( conflictCount ) );
  }
''', '''  if ( conflictCount )
  {
    throw GeoDiffException( "Conflicts encountered while applying changes! Total " + std::to_string( conflictCount ) );
  }
''')],
 demo='''
#include "demo.hpp"
static bool on;
static int deny(void *, int action, const char *, const char *, const char *, const char *) { return on && action == SQLITE_CREATE_TRIGGER ? SQLITE_DENY : SQLITE_OK; }
static int setup(sqlite3 *db, char **, const struct sqlite3_api_routines *) { sqlite3_set_authorizer(db, deny, nullptr); return SQLITE_OK; }
int main() {
  sqlite3_auto_extension((void (*)())setup);
  sql("a.db", "create table t(id integer primary key, v); create table log(m); create trigger tr after insert on t begin insert into log values(1); end;");
  cp("a.db", "b.db");
  sql("b.db", "insert into t values(1, 1); delete from log");
  CHECK(diff("a.db", "b.db", "c.bin") == 0);
  S before = rows("a.db", "select * from t") + rows("a.db", "select name from sqlite_master order by 1");
  on = true;
  int rc = apply("a.db", "c.bin");
  on = false;
  S after = rows("a.db", "select * from t") + rows("a.db", "select name from sqlite_master order by 1");
  CHECK(rc == 0 || before == after);
}
'''),
dict(id='c22-static-json', property='C22', needs='two listings of changesets at the same time in different threads',
 breaks='strings of one report end up in the other',
 edits=[(C, 'Value valueOld, valueNew;', 'static Value valueOld, valueNew;  // keep buffers')],
 demo='''
#include "demo.hpp"
#include <thread>
int main() {
  sql("a.db", "create table t(id integer primary key, v)");
  cp("a.db", "b.db");
  for (int i = 0; i < 2; ++i) {
    S n = std::to_string(i);
    cp("a.db", "m" + n + ".db");
    sql("m" + n + ".db", "with recursive c(x) as (select 1 union all select x + 1 from c where x < 4000) insert into t select x, '" + S(200, 'a' + i) + "' from c");
    CHECK(diff("a.db", "m" + n + ".db", "c" + n) == 0);
    CHECK(GEODIFF_listChanges(("c" + n).c_str(), ("w" + n).c_str()) == 0);
  }
  for (int k = 0; k < 10; ++k) {
    std::thread a([] { GEODIFF_listChanges("c0", "l0"); }), b([] { GEODIFF_listChanges("c1", "l1"); });
    a.join(); b.join();
    CHECK(slurp("l0") == slurp("w0"));
    CHECK(slurp("l1") == slurp("w1"));
  }
}
'''),
dict(id='c10-null-base', property='C10', needs='both sides give a value to a field that was NULL',
 breaks='the base value is missing in the conflict report',
 edits=[(C, '''    if ( !strValueBase.empty() )
      res +=''', '''    if ( !strValueBase.empty() && item.base().type() != Value::TypeNull )
      res +=''')],
 demo='''
  sql("a.db", "create table t(id integer primary key, v); insert into t values(1, null)");
  cp("a.db", "b.db"); cp("a.db", "c.db");
  sql("b.db", "update t set v = 'theirs'"); sql("c.db", "update t set v = 'ours'");
  CHECK(rebase("a.db", "b.db", "c.db") == 0);
  CHECK(slurp("conflict.json").find("\\"base\\": null") != S::npos);
'''),
]
