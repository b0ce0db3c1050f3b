D = 'geodiff/src/drivers/sqlitedriver.cpp'
U = 'geodiff/src/drivers/sqliteutils.cpp'
C = 'geodiff/src/changesetutils.cpp'
R = 'geodiff/src/geodiffrebase.cpp'
G = 'geodiff/src/geodiff.cpp'
P = [
dict(id='c01-int-as-double', property='C01', needs='an integer column changed between two values beyond 2^53 that round to the same double',
 breaks='the column is left out of the update, so applying the changeset keeps the old value',
 edits=[(D, 'return sqlite3_value_int64( v1 ) == sqlite3_value_int64( v2 );', 'return sqlite3_value_double( v1 ) == sqlite3_value_double( v2 );')],
 demo='''
  sql("a.db", "create table t(id integer primary key, v int, w int); insert into t values(1, 9007199254740993, 1), (2, 5, 5)");
  cp("a.db", "b.db");
  sql("b.db", "update t set v = 9007199254740992, w = 2 where id = 1; update t set v = 6 where id = 2");
  CHECK(diff("a.db", "b.db", "c.bin") == 0);
  CHECK(apply("a.db", "c.bin") == 0);
  CHECK(rows("a.db", "select * from t order by id") == rows("b.db", "select * from t order by id"));
'''),
dict(id='c03-composite-key', property='C03', needs='an update of a row whose table has a key of two or more columns, inverted',
 breaks='the inverted update lacks the value of the second key column, so the undo cannot be applied',
 edits=[(C, '''          out.oldValues[i] = out.newValues[i];
          out.newValues[i].setUndefined();
''', '''          out.oldValues[i] = out.newValues[i];
          out.newValues[i].setUndefined();
          break;
''')],
 demo='''
  sql("a.db", "create table t(a int, b text, v, primary key(a, b)); insert into t values(1, 'x', 1), (1, 'y', 2)");
  cp("a.db", "b.db");
  sql("b.db", "update t set v = 7 where b = 'y'");
  CHECK(diff("a.db", "b.db", "c.bin") == 0);
  CHECK(invert("c.bin", "i.bin") == 0);
  CHECK(invert("i.bin", "ii.bin") == 0);
  CHECK(slurp("ii.bin") == slurp("c.bin"));
  CHECK(apply("b.db", "i.bin") == 0);
  CHECK(rows("a.db", "select * from t order by a, b") == rows("b.db", "select * from t order by a, b"));
''', addonly=True),
dict(id='c08-null-then-delete', property='C08', needs='they set a column of a row to NULL, we delete that row',
 breaks='the rebased delete carries the base value instead of NULL and conflicts when applied on theirs',
 edits=[(R, '''      Value value;
      const Value &patchedVal = patchedVals[i];
      if ( patchedVal.type() != Value::TypeUndefined )''', '''      Value value;
      const Value &patchedVal = patchedVals[i];
      if ( patchedVal.type() != Value::TypeUndefined && patchedVal.type() != Value::TypeNull )''')],
 demo='''
  sql("a.db", "create table t(id integer primary key, v, w); insert into t values(1, 'a', 1), (2, 'b', 2)");
  cp("a.db", "their.db"); cp("a.db", "our.db");
  sql("their.db", "update t set v = null where id = 1; update t set w = 9 where id = 2");
  sql("our.db", "delete from t where id = 1");
  CHECK(diff("a.db", "their.db", "t.bin") == 0);
  CHECK(reb("a.db", "our.db", "t.bin", "r.bin") == 0);
  CHECK(apply("their.db", "r.bin") == 0);
  CHECK(rows("their.db", "select * from t") == "2|b|9\\n");
'''),
dict(id='c09-chain', property='C09', needs='our colliding inserts are renumbered onto an insert of ours, whose new number meets yet another insert of ours',
 breaks='two of our inserts get the same key, so one of them is lost or the rebased changeset conflicts',
 edits=[(R, '''        mapping.addPkeyMapping( tableName, pk, it->second );
        usedNewPkeys.insert( it->second );
''', '''        mapping.addPkeyMapping( tableName, pk, it->second );
''')],
 demo='''
  sql("a.db", "create table t(id integer primary key, v)");
  cp("a.db", "their.db"); cp("a.db", "our.db");
  sql("their.db", "insert into t values(1, 't1')");
  sql("our.db", "insert into t values(1, 'o1'), (2, 'o2'), (3, 'o3')");
  CHECK(diff("a.db", "their.db", "t.bin") == 0);
  CHECK(reb("a.db", "our.db", "t.bin", "r.bin") == 0);
  CHECK(apply("their.db", "r.bin") == 0);
  CHECK(rows("their.db", "select v from t order by v") == "o1\\no2\\no3\\nt1\\n");
'''),
dict(id='c14-trigger-prefix', property='C14', needs='a user trigger whose name starts with "rtree" without being one of the spatial index',
 breaks='the trigger is taken for one of the spatial index and fires during apply',
 edits=[(U, 'if ( startsWith( triggerName, "rtree_" ) )', 'if ( startsWith( triggerName, "rtree" ) )')],
 demo='''
  sql("a.db", "create table t(id integer primary key, v); create table log(id integer primary key, m); insert into t values(1, 1);"
      "create trigger rtreelog after update on t begin insert into log(m) values('fired'); end;");
  cp("a.db", "b.db");
  sql("b.db", "drop trigger rtreelog; update t set v = 2; create trigger rtreelog after update on t begin insert into log(m) values('fired'); end;");
  CHECK(diff("a.db", "b.db", "c.bin") == 0);
  CHECK(apply("a.db", "c.bin") == 0);
  CHECK(rows("a.db", "select * from t") == "1|2\\n");
  CHECK(rows("a.db", "select * from log") == "");
'''),
dict(id='c17-name-case', property='C17', needs='a table whose name has upper-case letters',
 breaks='the summary names a table that does not exist in the changeset',
 edits=[(C, """    std::string tableName = entry.table->name;
    TableSummary &tableSummary = summary[tableName];
""", """    std::string tableName = lowercaseString( entry.table->name );
    TableSummary &tableSummary = summary[tableName];
""")],
 demo="""
  sql("a.db", "create table Roads(id integer primary key, v); create table t(id integer primary key, v); insert into Roads values(1, 1)");
  cp("a.db", "b.db");
  sql("b.db", "update Roads set v = 2; insert into t values(1, 1)");
  CHECK(diff("a.db", "b.db", "c.bin") == 0);
  CHECK(GEODIFF_listChangesSummary("c.bin", "s.json") == 0);
  CHECK(slurp("s.json").find("\\"Roads\\"") != S::npos);
"""),
]
