From 92c420d963b9712d5eca2399ebeac8b280ebb111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:05 +0000
Subject: [PATCH 01/62] fix: comparing two NULL values no longer hits an
 assertion

---
 geodiff/src/changeset.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geodiff/src/changeset.h b/geodiff/src/changeset.h
index 89ee970..533f69a 100644
--- a/geodiff/src/changeset.h
+++ b/geodiff/src/changeset.h
@@ -52,7 +52,7 @@ struct Value
     {
       if ( mType != other.mType )
         return false;
-      if ( mType == TypeUndefined || mType == TypeUndefined )
+      if ( mType == TypeUndefined || mType == TypeNull )
         return true;
       if ( mType == TypeInt )
         return getInt() == other.getInt();
-- 
2.43.0


From 3095002a5bdc43a78ce494ba10824318d9dc4da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:36 +0000
Subject: [PATCH 02/62] fix: changeset reader does not read past the end of the
 buffer and rejects malformed records

---
 geodiff/src/changesetreader.cpp | 35 ++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/geodiff/src/changesetreader.cpp b/geodiff/src/changesetreader.cpp
index 27ca43c..340e1c7 100644
--- a/geodiff/src/changesetreader.cpp
+++ b/geodiff/src/changesetreader.cpp
@@ -12,6 +12,7 @@
 #include <assert.h>
 #include <memory.h>
 
+#include <algorithm>
 #include <sstream>
 
 
@@ -42,7 +43,7 @@ bool ChangesetReader::nextEntry( ChangesetEntry &entry )
     if ( mOffset >= mBuffer->size() )
       break;   // EOF
 
-    int type = readByte();
+    int type = static_cast<unsigned char>( readByte() );
     if ( type == 'T' )
     {
       readTableRecord();
@@ -50,7 +51,10 @@ bool ChangesetReader::nextEntry( ChangesetEntry &entry )
     }
     else if ( type == ChangesetEntry::OpInsert || type == ChangesetEntry::OpUpdate || type == ChangesetEntry::OpDelete )
     {
-      int indirect = readByte();
+      if ( mCurrentTable.primaryKeys.empty() )
+        throwReaderError( "nextEntry: entry without a table" );
+
+      readByte();  // "indirect" flag - ignored
       if ( type != ChangesetEntry::OpInsert )
         readRowValues( entry.oldValues );
       if ( type != ChangesetEntry::OpDelete )
@@ -60,6 +64,10 @@ bool ChangesetReader::nextEntry( ChangesetEntry &entry )
       entry.table = &mCurrentTable;
       return true;  // we're done!
     }
+    else
+    {
+      throwReaderError( "nextEntry: unexpected entry type" );
+    }
   }
   return false;
 }
@@ -86,11 +94,20 @@ char ChangesetReader::readByte()
 
 int ChangesetReader::readVarint()
 {
+  // use a zero-padded copy, so that decoding can't get past the end of the buffer
+  unsigned char bytes[9] = { 0 };
+  int nAvailable = std::min( 9, mBuffer->size() - mOffset );
+  if ( nAvailable > 0 )
+    memcpy( bytes, mBuffer->c_buf() + mOffset, nAvailable );
+
   u32 value;
-  const unsigned char *ptr = ( const unsigned char * )mBuffer->c_buf() + mOffset;
-  int nBytes = getVarint32( ptr, value );
+  int nBytes = getVarint32( bytes, value );
+  if ( nBytes > nAvailable )
+    throwReaderError( "readVarint: at the end of buffer" );
+  if ( value > INT32_MAX )
+    throwReaderError( "readVarint: unexpected value" );
   mOffset += nBytes;
-  return value;
+  return static_cast<int>( value );
 }
 
 std::string ChangesetReader::readNullTerminatedString()
@@ -121,6 +138,8 @@ void ChangesetReader::readRowValues( std::vector<Value> &values )
     if ( type == Value::TypeInt ) // 0x01
     {
       // 64-bit int (big endian)
+      if ( mBuffer->size() - mOffset < 8 )
+        throwReaderError( "readRowValues: int: at the end of buffer" );
       int64_t v;
       uint64_t x;
       memcpy( &x, mBuffer->c_buf() + mOffset, 8 );
@@ -132,6 +151,8 @@ void ChangesetReader::readRowValues( std::vector<Value> &values )
     else if ( type == Value::TypeDouble ) // 0x02
     {
       // 64-bit double (big endian)
+      if ( mBuffer->size() - mOffset < 8 )
+        throwReaderError( "readRowValues: double: at the end of buffer" );
       double v;
       uint64_t x;
       memcpy( &x, mBuffer->c_buf() + mOffset, 8 );
@@ -143,7 +164,7 @@ void ChangesetReader::readRowValues( std::vector<Value> &values )
     else if ( type == Value::TypeText || type == Value::TypeBlob ) // 0x03 or 0x04
     {
       int len = readVarint();
-      if ( mOffset + len > mBuffer->size() )
+      if ( len > mBuffer->size() - mOffset )
         throwReaderError( "readRowValues: text/blob: at the end of buffer" );
       values[i].setString( type == Value::TypeText ? Value::TypeText : Value::TypeBlob, mBuffer->c_buf() + mOffset, len );
       mOffset += len;
@@ -174,7 +195,7 @@ void ChangesetReader::readTableRecord()
   */
 
   int nCol = readVarint();
-  if ( nCol < 0 || nCol > 65536 )
+  if ( nCol <= 0 || nCol > 65536 )
     throwReaderError( "readByte: unexpected number of columns" );
 
   mCurrentTable.primaryKeys.clear();
-- 
2.43.0


From cc31ab5422459eba35f352cffb36e86eac647e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:36 +0000
Subject: [PATCH 03/62] fix: changesCount returns -1 on a malformed changeset
 instead of letting the exception escape

---
 geodiff/src/geodiff.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index ff4da8d..a902506 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -268,12 +268,20 @@ int GEODIFF_changesCount( const char *changeset )
     return -1;
   }
 
-  int changesCount = 0;
-  ChangesetEntry entry;
-  while ( reader.nextEntry( entry ) )
-    ++changesCount;
+  try
+  {
+    int changesCount = 0;
+    ChangesetEntry entry;
+    while ( reader.nextEntry( entry ) )
+      ++changesCount;
 
-  return changesCount;
+    return changesCount;
+  }
+  catch ( GeoDiffException exc )
+  {
+    Logger::instance().error( exc );
+    return -1;
+  }
 }
 
 static int listChangesJSON( const char *changeset, const char *jsonfile, bool onlySummary )
-- 
2.43.0


From 03daa1ad544368aa21b5e529e2b5b1298478a192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:36 +0000
Subject: [PATCH 04/62] fix: check all pointer arguments of
 createRebasedChangeset, invertChangeset and rebaseEx

---
 geodiff/src/geodiff.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index a902506..9c7d5a6 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -154,7 +154,7 @@ int GEODIFF_createRebasedChangeset( const char *base,
                                     const char *conflictfile
                                   )
 {
-  if ( !conflictfile )
+  if ( !base || !modified || !changeset_their || !changeset || !conflictfile )
   {
     Logger::instance().error( "NULL arguments to GEODIFF_createRebasedChangeset" );
     return GEODIFF_ERROR;
@@ -328,7 +328,7 @@ int GEODIFF_listChangesSummary( const char *changeset, const char *jsonfile )
 
 int GEODIFF_invertChangeset( const char *changeset, const char *changeset_inv )
 {
-  if ( !changeset )
+  if ( !changeset || !changeset_inv )
   {
     Logger::instance().error( "NULL arguments to GEODIFF_invertChangeset" );
     return GEODIFF_ERROR;
@@ -406,9 +406,9 @@ int GEODIFF_rebaseEx( const char *driverName,
                       const char *base2their,
                       const char *conflictfile )
 {
-  if ( !base || !modified || !modified || !conflictfile )
+  if ( !driverName || !base || !modified || !base2their || !conflictfile )
   {
-    Logger::instance().error( "NULL arguments to GEODIFF_rebase" );
+    Logger::instance().error( "NULL arguments to GEODIFF_rebaseEx" );
     return GEODIFF_ERROR;
   }
 
-- 
2.43.0


From 89e909bdf2e3bc404c56370dfc26d57226f4a2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:36 +0000
Subject: [PATCH 05/62] fix: applying a changeset checks every table record and
 does not reuse values of the previous entry

---
 geodiff/src/drivers/sqlitedriver.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index fd237ab..9e1d27d 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -668,7 +668,7 @@ static void bindValue( sqlite3_stmt *stmt, int index, const Value &v )
 
 void SqliteDriver::applyChangeset( ChangesetReader &reader )
 {
-  std::string lastTableName;
+  ChangesetTable lastTable;
   std::unique_ptr<Sqlite3Stmt> stmtInsert, stmtUpdate, stmtDelete;
   TableSchema tbl;
 
@@ -700,10 +700,11 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
   ChangesetEntry entry;
   while ( reader.nextEntry( entry ) )
   {
-    if ( entry.table->name != lastTableName )
+    // (an entry's table always has some columns, so this is always true for the first entry)
+    if ( entry.table->name != lastTable.name || entry.table->primaryKeys != lastTable.primaryKeys )
     {
       std::string tableName = entry.table->name;
-      lastTableName = tableName;
+      lastTable = *entry.table;
       tbl = tableSchema( tableName );
 
       if ( tbl.columns.size() == 0 )
@@ -747,6 +748,7 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
     }
     else if ( entry.op == SQLITE_UPDATE )
     {
+      sqlite3_clear_bindings( stmtUpdate->get() );  // do not leave any values from the previous entry
       for ( size_t i = 0; i < tbl.columns.size(); ++i )
       {
         const Value &vOld = entry.oldValues[i];
-- 
2.43.0


From e4671ce4ad7a8191da39ea52cc4ec46fbeeea7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:09 +0000
Subject: [PATCH 06/62] fix: inverting a changeset writes a table record for a
 table with empty name

---
 geodiff/src/changesetutils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/changesetutils.cpp b/geodiff/src/changesetutils.cpp
index 2d9b5dd..7571f48 100644
--- a/geodiff/src/changesetutils.cpp
+++ b/geodiff/src/changesetutils.cpp
@@ -24,12 +24,12 @@ ChangesetTable schemaToChangesetTable( const std::string &tableName, const Table
 void invertChangeset( ChangesetReader &reader, ChangesetWriter &writer )
 {
   std::string currentTableName;
-  std::vector<bool> currentPkeys;
+  std::vector<bool> currentPkeys;  // an entry's table always has some columns, so the first entry begins a table
   ChangesetEntry entry;
   while ( reader.nextEntry( entry ) )
   {
     assert( entry.table );
-    if ( entry.table->name != currentTableName )
+    if ( entry.table->name != currentTableName || entry.table->primaryKeys != currentPkeys )
     {
       writer.beginTable( *entry.table );
       currentTableName = entry.table->name;
-- 
2.43.0


From 99fa70eaf2d9faacbc4104e50c21d5ca901dc4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:09 +0000
Subject: [PATCH 07/62] fix: quote names of triggers dropped during apply and
 check they get dropped and recreated

---
 geodiff/src/drivers/sqlitedriver.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 9e1d27d..a198c36 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -691,8 +691,9 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
   Sqlite3Stmt statament;
   for ( std::string name : triggerNames )
   {
-    statament.prepare( mDb, "drop trigger %s", name.c_str() );
-    sqlite3_step( statament.get() );
+    statament.prepare( mDb, "drop trigger \"%w\"", name.c_str() );
+    if ( sqlite3_step( statament.get() ) != SQLITE_DONE )
+      throw GeoDiffException( "Failed to temporarily drop trigger: " + name );
     statament.close();
   }
 
@@ -802,7 +803,8 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
   for ( std::string cmd : triggerCmds )
   {
     statament.prepare( mDb, "%s", cmd.c_str() );
-    sqlite3_step( statament.get() );
+    if ( sqlite3_step( statament.get() ) != SQLITE_DONE )
+      throw GeoDiffException( "Failed to recreate trigger: " + cmd );
     statament.close();
   }
 
-- 
2.43.0


From efe76e998027a9407fbb67b9340b11acd8659ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:09 +0000
Subject: [PATCH 08/62] fix: stop applying changes when SQLite has rolled back
 the transaction

---
 geodiff/src/drivers/sqlitedriver.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index a198c36..b58042b 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -797,6 +797,11 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
     }
     else
       throw GeoDiffException( "Unexpected operation" );
+
+    // some errors (e.g. disk full, I/O error or a constraint with ON CONFLICT ROLLBACK) make SQLite roll back the whole
+    // transaction - we must not continue, because any further changes would be outside of a transaction
+    if ( sqlite3_get_autocommit( mDb->get() ) )
+      throw GeoDiffException( "The transaction has been rolled back while applying changes!" );
   }
 
   // recreate triggers
-- 
2.43.0


From 925a8eaa724595772685487f950d2dd00bd9036a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:09 +0000
Subject: [PATCH 09/62] fix: texts with embedded zero bytes are compared and
 applied as a whole

---
 geodiff/src/drivers/sqlitedriver.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index b58042b..8b8234a 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -408,7 +408,12 @@ static bool valuesEqual( sqlite3_value *v1, sqlite3_value *v2 )
     return sqlite3_value_double( v1 ) == sqlite3_value_double( v2 );
   else if ( type1 == SQLITE_TEXT )
   {
-    return strcmp( ( const char * ) sqlite3_value_text( v1 ), ( const char * ) sqlite3_value_text( v2 ) ) == 0;
+    // get pointers first, so that lengths are in the same encoding. Texts may contain zero bytes
+    const unsigned char *text1 = sqlite3_value_text( v1 );
+    const unsigned char *text2 = sqlite3_value_text( v2 );
+    int len1 = sqlite3_value_bytes( v1 );
+    int len2 = sqlite3_value_bytes( v2 );
+    return len1 == len2 && memcmp( text1, text2, len1 ) == 0;
   }
   else if ( type1 == SQLITE_BLOB )
   {
@@ -655,7 +660,7 @@ static void bindValue( sqlite3_stmt *stmt, int index, const Value &v )
   else if ( v.type() == Value::TypeNull )
     rc = sqlite3_bind_null( stmt, index );
   else if ( v.type() == Value::TypeText )
-    rc = sqlite3_bind_text( stmt, index, v.getString().c_str(), -1, SQLITE_TRANSIENT );
+    rc = sqlite3_bind_text( stmt, index, v.getString().c_str(), v.getString().size(), SQLITE_TRANSIENT );
   else if ( v.type() == Value::TypeBlob )
     rc = sqlite3_bind_blob( stmt, index, v.getString().c_str(), v.getString().size(), SQLITE_TRANSIENT );
   else
-- 
2.43.0


From a1f70fe2b54ce2f724f3ab78d6b7af7ce40d92c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:35 +0000
Subject: [PATCH 10/62] fix: values are compared exactly, regardless of the
 collation of their column

---
 geodiff/src/drivers/sqlitedriver.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 8b8234a..a17632d 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -382,7 +382,8 @@ static std::string sqlFindModified( const std::string &tableName, const TableSch
     {
       if ( !exprOther.empty() )
         exprOther += " OR ";
-      exprOther += sqlitePrintf( "\"%w\".\"%w\".\"%w\" IS NOT \"%w\".\"%w\".\"%w\"",
+      // explicit collation - we want to find all changes, even if they are equal in the collation of the column
+      exprOther += sqlitePrintf( "\"%w\".\"%w\".\"%w\" IS NOT \"%w\".\"%w\".\"%w\" COLLATE BINARY",
                                  "main", tableName.c_str(), c.name.c_str(), "aux", tableName.c_str(), c.name.c_str() );
     }
   }
@@ -622,7 +623,7 @@ static std::string sqlForUpdate( const std::string &tableName, const TableSchema
     if ( tbl.columns[i].isPrimaryKey )
       sql += sqlitePrintf( " \"%w\" = ?%d ", tbl.columns[i].name.c_str(), i * 3 + 1 );
     else
-      sql += sqlitePrintf( " ( ?%d = 0 OR \"%w\" IS ?%d ) ", i * 3 + 2, tbl.columns[i].name.c_str(), i * 3 + 1 );
+      sql += sqlitePrintf( " ( ?%d = 0 OR \"%w\" COLLATE BINARY IS ?%d ) ", i * 3 + 2, tbl.columns[i].name.c_str(), i * 3 + 1 );
   }
 
   return sql;
@@ -645,7 +646,7 @@ static std::string sqlForDelete( const std::string &tableName, const TableSchema
     if ( tbl.columns[i].isPrimaryKey )
       sql += sqlitePrintf( "\"%w\" = ?", tbl.columns[i].name.c_str() );
     else
-      sql += sqlitePrintf( "\"%w\" IS ?", tbl.columns[i].name.c_str() );
+      sql += sqlitePrintf( "\"%w\" COLLATE BINARY IS ?", tbl.columns[i].name.c_str() );
   }
   return sql;
 }
-- 
2.43.0


From 584a952615a12b7df6911d3d9f4c7ac7cdc2ef3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:35 +0000
Subject: [PATCH 11/62] fix: creating changeset works with tables that only
 have primary key columns

---
 geodiff/src/drivers/sqlitedriver.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index a17632d..99e81bf 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -483,6 +483,15 @@ static void handleInserted( const std::string &tableName, const TableSchema &tbl
 
 static void handleUpdated( const std::string &tableName, const TableSchema &tbl, std::shared_ptr<Sqlite3Db> db, ChangesetWriter &writer, bool &first )
 {
+  bool onlyPkeys = true;
+  for ( const TableColumnInfo &c : tbl.columns )
+  {
+    if ( !c.isPrimaryKey )
+      onlyPkeys = false;
+  }
+  if ( onlyPkeys )
+    return;  // there are no other columns that could be modified
+
   std::string sqlModified = sqlFindModified( tableName, tbl );
 
   Sqlite3Stmt statement;
-- 
2.43.0


From 0abf11a7bab0eed153c016dcd42b5d2b2cc26e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:18 +0000
Subject: [PATCH 12/62] fix: a failure while reading from SQLite database is
 reported rather than taken for the end of data

---
 geodiff/src/drivers/sqlitedriver.cpp | 16 ++++++++--------
 geodiff/src/drivers/sqliteutils.cpp  | 20 ++++++++++++++------
 geodiff/src/drivers/sqliteutils.h    |  2 ++
 3 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 99e81bf..2a588d3 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -178,7 +178,7 @@ std::vector<std::string> SqliteDriver::listTables( bool useModified )
                                " ORDER BY name";
   Sqlite3Stmt statement;
   statement.prepare( mDb, "%s", all_tables_sql.c_str() );
-  while ( SQLITE_ROW == sqlite3_step( statement.get() ) )
+  while ( statement.nextRow() )
   {
     const char *name = ( const char * )sqlite3_column_text( statement.get(), 0 );
     if ( !name )
@@ -222,7 +222,7 @@ bool tableExists( std::shared_ptr<Sqlite3Db> db, const std::string &tableName, c
   Sqlite3Stmt stmtHasGeomColumnsInfo;
   stmtHasGeomColumnsInfo.prepare( db, "SELECT name FROM \"%w\".sqlite_master WHERE type='table' "
                                   "AND name='%q'", dbName.c_str(), tableName.c_str() );
-  return sqlite3_step( stmtHasGeomColumnsInfo.get() ) == SQLITE_ROW;
+  return stmtHasGeomColumnsInfo.nextRow();
 }
 
 TableSchema SqliteDriver::tableSchema( const std::string &tableName, bool useModified )
@@ -237,7 +237,7 @@ TableSchema SqliteDriver::tableSchema( const std::string &tableName, bool useMod
 
   Sqlite3Stmt statement;
   statement.prepare( mDb, "PRAGMA '%q'.table_info('%q')", dbName.c_str(), tableName.c_str() );
-  while ( SQLITE_ROW == sqlite3_step( statement.get() ) )
+  while ( statement.nextRow() )
   {
     const unsigned char *zName = sqlite3_column_text( statement.get(), 1 );
     if ( zName == nullptr )
@@ -269,7 +269,7 @@ TableSchema SqliteDriver::tableSchema( const std::string &tableName, bool useMod
   int srsId = -1;
   Sqlite3Stmt stmtGeomCol;
   stmtGeomCol.prepare( mDb, "SELECT * FROM \"%w\".gpkg_geometry_columns WHERE table_name = '%q'", dbName.c_str(), tableName.c_str() );
-  if ( SQLITE_ROW == sqlite3_step( stmtGeomCol.get() ) )
+  if ( stmtGeomCol.nextRow() )
   {
     const unsigned char *chrColumnName = sqlite3_column_text( stmtGeomCol.get(), 1 );
     const unsigned char *chrTypeName = sqlite3_column_text( stmtGeomCol.get(), 2 );
@@ -304,7 +304,7 @@ TableSchema SqliteDriver::tableSchema( const std::string &tableName, bool useMod
   {
     Sqlite3Stmt stmtCrs;
     stmtCrs.prepare( mDb, "SELECT * FROM \"%w\".gpkg_spatial_ref_sys WHERE srs_id = %d", dbName.c_str(), srsId );
-    if ( SQLITE_ROW != sqlite3_step( stmtCrs.get() ) )
+    if ( !stmtCrs.nextRow() )
       throw GeoDiffException( "Unable to find entry in gpkg_spatial_ref_sys for srs_id = " + std::to_string( srsId ) );
 
     const unsigned char *chrAuthName = sqlite3_column_text( stmtCrs.get(), 2 );
@@ -455,7 +455,7 @@ static void handleInserted( const std::string &tableName, const TableSchema &tbl
   std::string sqlInserted = sqlFindInserted( tableName, tbl, reverse );
   Sqlite3Stmt statementI;
   statementI.prepare( db, "%s", sqlInserted.c_str() );
-  while ( SQLITE_ROW == sqlite3_step( statementI.get() ) )
+  while ( statementI.nextRow() )
   {
     if ( first )
     {
@@ -496,7 +496,7 @@ static void handleUpdated( const std::string &tableName, const TableSchema &tbl,
 
   Sqlite3Stmt statement;
   statement.prepare( db, "%s", sqlModified.c_str() );
-  while ( SQLITE_ROW == sqlite3_step( statement.get() ) )
+  while ( statement.nextRow() )
   {
     if ( first )
     {
@@ -971,7 +971,7 @@ void SqliteDriver::dumpData( ChangesetWriter &writer, bool useModified )
     bool first = true;
     Sqlite3Stmt statementI;
     statementI.prepare( mDb, "SELECT * FROM \"%w\".\"%w\"", dbName.c_str(), tableName.c_str() );
-    while ( SQLITE_ROW == sqlite3_step( statementI.get() ) )
+    while ( statementI.nextRow() )
     {
       if ( first )
       {
diff --git a/geodiff/src/drivers/sqliteutils.cpp b/geodiff/src/drivers/sqliteutils.cpp
index b6c1ba6..bad30c9 100644
--- a/geodiff/src/drivers/sqliteutils.cpp
+++ b/geodiff/src/drivers/sqliteutils.cpp
@@ -135,6 +135,14 @@ void Sqlite3Stmt::close()
   }
 }
 
+bool Sqlite3Stmt::nextRow()
+{
+  int rc = sqlite3_step( mStmt );
+  if ( rc != SQLITE_ROW && rc != SQLITE_DONE )
+    throw GeoDiffException( "Failed to read from database: " + std::string( sqlite3_errmsg( sqlite3_db_handle( mStmt ) ) ) );
+  return rc == SQLITE_ROW;
+}
+
 std::string Sqlite3Stmt::expandedSql() const
 {
   char *str = sqlite3_expanded_sql( mStmt );
@@ -233,7 +241,7 @@ void sqliteTriggers( std::shared_ptr<Sqlite3Db> db, std::vector<std::string> &tr
 
   Sqlite3Stmt statament;
   statament.prepare( db, "%s", "select name, sql from sqlite_master where type = 'trigger'" );
-  while ( SQLITE_ROW == sqlite3_step( statament.get() ) )
+  while ( statament.nextRow() )
   {
     const char *name = ( char * ) sqlite3_column_text( statament.get(), 0 );
     const char *sql = ( char * ) sqlite3_column_text( statament.get(), 1 );
@@ -300,7 +308,7 @@ ForeignKeys sqliteForeignKeys( std::shared_ptr<Sqlite3Db> db, const std::string
     {
       Sqlite3Stmt pStmt;     /* SQL statement being run */
       pStmt.prepare( db, "SELECT * FROM %s.pragma_foreign_key_list(%Q)", dbName.c_str(), fromTableName.c_str() );
-      while ( SQLITE_ROW == sqlite3_step( pStmt.get() ) )
+      while ( pStmt.nextRow() )
       {
         const char *fk_to_table = ( const char * )sqlite3_column_text( pStmt.get(), 2 );
         const char *fk_from = ( const char * )sqlite3_column_text( pStmt.get(), 3 );
@@ -344,7 +352,7 @@ void sqliteTables( std::shared_ptr<Sqlite3Db> db,
                                " ORDER BY name";
   Sqlite3Stmt statament;
   statament.prepare( db, "%s", all_tables_sql.c_str() );
-  while ( SQLITE_ROW == sqlite3_step( statament.get() ) )
+  while ( statament.nextRow() )
   {
     const char *name = ( const char * )sqlite3_column_text( statament.get(), 0 );
     if ( !name )
@@ -409,7 +417,7 @@ std::vector<std::string> sqliteColumnNames(
   */
   const char *zTab = tableName.c_str();
   pStmt.prepare( db, "PRAGMA %s.index_list=%Q", zDb.c_str(), zTab );
-  while ( SQLITE_ROW == sqlite3_step( pStmt.get() ) )
+  while ( pStmt.nextRow() )
   {
     if ( sqlite3_stricmp( ( const char * )sqlite3_column_text( pStmt.get(), 3 ), "pk" ) == 0 )
     {
@@ -425,7 +433,7 @@ std::vector<std::string> sqliteColumnNames(
     int nCol = 0;
     truePk = 0;
     pStmt.prepare( db, "PRAGMA %s.index_xinfo=%Q", zDb.c_str(), zPkIdxName.c_str() );
-    while ( SQLITE_ROW == sqlite3_step( pStmt.get() ) )
+    while ( pStmt.nextRow() )
     {
       nCol++;
       if ( sqlite3_column_int( pStmt.get(), 5 ) ) { nKey++; continue; }
@@ -451,7 +459,7 @@ std::vector<std::string> sqliteColumnNames(
 
   naz = nPK;
   az.resize( naz );
-  while ( SQLITE_ROW == sqlite3_step( pStmt.get() ) )
+  while ( pStmt.nextRow() )
   {
     int iPKey;
     std::string name = ( char * )sqlite3_column_text( pStmt.get(), 1 );
diff --git a/geodiff/src/drivers/sqliteutils.h b/geodiff/src/drivers/sqliteutils.h
index b6038f1..d9e7d5f 100644
--- a/geodiff/src/drivers/sqliteutils.h
+++ b/geodiff/src/drivers/sqliteutils.h
@@ -43,6 +43,8 @@ class Sqlite3Stmt
     void prepare( std::shared_ptr<Sqlite3Db> db, const char *zFormat, ... );
     sqlite3_stmt *get();
     void close();
+    //! Moves to the next row. Returns false when there are no more rows, throws an exception on error
+    bool nextRow();
     //! Returns SQL statement with bound parameters expanded
     std::string expandedSql() const;
   private:
-- 
2.43.0


From 9504df7c28bb5bba83fb091929d6cf2d4a6534b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:18 +0000
Subject: [PATCH 13/62] fix: operations fail when their output could not be
 written completely

---
 geodiff/src/changesetwriter.cpp |  7 +++++++
 geodiff/src/changesetwriter.h   |  3 +++
 geodiff/src/geodiff.cpp         | 15 +++++++++++----
 geodiff/src/geodiffrebase.cpp   |  1 +
 geodiff/src/geodiffutils.cpp    | 16 +++++++++++++---
 5 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/geodiff/src/changesetwriter.cpp b/geodiff/src/changesetwriter.cpp
index 3b7b6fe..926acf5 100644
--- a/geodiff/src/changesetwriter.cpp
+++ b/geodiff/src/changesetwriter.cpp
@@ -28,6 +28,13 @@ bool ChangesetWriter::open( const std::string &filename )
   return true;
 }
 
+void ChangesetWriter::close()
+{
+  mFile.close();
+  if ( mFile.fail() )
+    throw GeoDiffException( "Failed to write changeset file" );
+}
+
 void ChangesetWriter::beginTable( const ChangesetTable &table )
 {
   mCurrentTable = table;
diff --git a/geodiff/src/changesetwriter.h b/geodiff/src/changesetwriter.h
index 81a40b8..cc4616a 100644
--- a/geodiff/src/changesetwriter.h
+++ b/geodiff/src/changesetwriter.h
@@ -27,6 +27,9 @@ class ChangesetWriter
     //! opens a file for writing changeset (will overwrite if it exists already)
     bool open( const std::string &filename );
 
+    //! Finishes writing to the file. Throws an exception if some data could not be written
+    void close();
+
     //! writes table information, all subsequent writes will be related to this table until next call to beginTable()
     void beginTable( const ChangesetTable &table );
 
diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index 9c7d5a6..bb2c97f 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -95,6 +95,7 @@ int GEODIFF_createChangesetEx( const char *driverName, const char *driverExtraIn
     if ( !writer.open( changeset ) )
       throw GeoDiffException( "Unable to open changeset file for writing: " + std::string( changeset ) );
     driver->createChangeset( writer );
+    writer.close();
   }
   catch ( GeoDiffException exc )
   {
@@ -306,13 +307,13 @@ static int listChangesJSON( const char *changeset, const char *jsonfile, bool on
       res = changesetToJSONSummary( reader );
     else
       res = changesetToJSON( reader );
+    flushString( jsonfile, res );
   }
   catch ( GeoDiffException exc )
   {
     Logger::instance().error( exc );
     return GEODIFF_ERROR;
   }
-  flushString( jsonfile, res );
   return GEODIFF_SUCCESS;
 }
 
@@ -357,6 +358,7 @@ int GEODIFF_invertChangeset( const char *changeset, const char *changeset_inv )
   try
   {
     invertChangeset( reader, writer );
+    writer.close();
   }
   catch ( GeoDiffException exc )
   {
@@ -533,8 +535,10 @@ int GEODIFF_makeCopy( const char *driverSrcName, const char *driverSrcExtraInfo,
     // get source data
     {
       ChangesetWriter writer;
-      writer.open( tmpFileChangeset.c_path() );
+      if ( !writer.open( tmpFileChangeset.c_path() ) )
+        throw GeoDiffException( "Unable to open changeset file for writing: " + tmpFileChangeset.path() );
       driverSrc->dumpData( writer );
+      writer.close();
     }
 
     // create destination
@@ -550,7 +554,8 @@ int GEODIFF_makeCopy( const char *driverSrcName, const char *driverSrcExtraInfo,
     // insert data to destination
     {
       ChangesetReader reader;
-      reader.open( tmpFileChangeset.c_path() );
+      if ( !reader.open( tmpFileChangeset.c_path() ) )
+        throw GeoDiffException( "Unable to open changeset file for reading: " + tmpFileChangeset.path() );
       driverDst->applyChangeset( reader );
     }
   }
@@ -592,8 +597,10 @@ int GEODIFF_dumpData( const char *driverName, const char *driverExtraInfo, const
 
     // get source data
     ChangesetWriter writer;
-    writer.open( changeset );
+    if ( !writer.open( changeset ) )
+      throw GeoDiffException( "Unable to open changeset file for writing: " + std::string( changeset ) );
     driver->dumpData( writer );
+    writer.close();
   }
   catch ( GeoDiffException exc )
   {
diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 1bc459b..0cf4319 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -558,6 +558,7 @@ int _prepare_new_changeset( ChangesetReader &reader, const std::string &changese
       }
     }
   }
+  writer.close();
 
   return GEODIFF_SUCCESS;
 }
diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index 15368b9..51b3816 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -188,8 +188,11 @@ void Buffer::write( const std::string &filename )
   {
     throw GeoDiffException( "Unable to open " + filename + " for writing" );
   }
-  fwrite( mZ, mAlloc, 1, f );
-  fclose( f );
+  bool ok = mAlloc == 0 || fwrite( mZ, mAlloc, 1, f ) == 1;
+  if ( fclose( f ) != 0 || !ok )
+  {
+    throw GeoDiffException( "Unable to write to " + filename );
+  }
 }
 
 const char *Buffer::c_buf() const
@@ -288,7 +291,12 @@ void filecopy( const std::string &to, const std::string &from )
   std::ifstream  src( from, std::ios::binary );
   std::ofstream  dst( to,   std::ios::binary );
 
-  dst << src.rdbuf();
+  // (inserting no characters at all would set failbit)
+  if ( src.peek() != std::ifstream::traits_type::eof() )
+    dst << src.rdbuf();
+  dst.close();
+  if ( !src.is_open() || src.bad() || dst.fail() )
+    throw GeoDiffException( "Unable to copy " + from + " to " + to );
 #endif
 }
 
@@ -444,6 +452,8 @@ void flushString( const std::string &filename, const std::string &str )
   std::ofstream out( filename );
   out << str;
   out.close();
+  if ( out.fail() )
+    throw GeoDiffException( "Unable to write to " + filename );
 }
 
 std::string getEnvVar( std::string const &key, const std::string &defaultVal )
-- 
2.43.0


From 35812300a82c3fe8d69c9c8c23499c5a0ab5cf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:58 +0000
Subject: [PATCH 14/62] fix: rebase with no changes on one side writes its
 output and does not overwrite the input changesets

---
 geodiff/src/geodiffrebase.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 0cf4319..0e81523 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -580,7 +580,7 @@ int rebase( const std::string &changeset_BASE_THEIRS,
   if ( reader_BASE_THEIRS.isEmpty() )
   {
     Logger::instance().info( " -- no rebase needed! (empty base2theirs) --\n" );
-    filecopy( changeset_BASE_MODIFIED, changeset_THEIRS_MODIFIED );
+    filecopy( changeset_THEIRS_MODIFIED, changeset_BASE_MODIFIED );
     return GEODIFF_SUCCESS;
   }
 
@@ -593,7 +593,11 @@ int rebase( const std::string &changeset_BASE_THEIRS,
   if ( reader_BASE_MODIFIED.isEmpty() )
   {
     Logger::instance().info( " -- no rebase needed! (empty base2modified) --\n" );
-    filecopy( changeset_BASE_THEIRS, changeset_THEIRS_MODIFIED );
+    // there is nothing of ours to be added on top of theirs
+    ChangesetWriter writer;
+    if ( !writer.open( changeset_THEIRS_MODIFIED ) )
+      throw GeoDiffException( "Unable to open changeset file for writing: " + changeset_THEIRS_MODIFIED );
+    writer.close();
     return GEODIFF_SUCCESS;
   }
 
-- 
2.43.0


From 85ad27aa4cefaaf9291b45ca618133f95f5d5499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:58 +0000
Subject: [PATCH 15/62] fix: rebase does not report conflicts for values that
 only the other side has changed

---
 geodiff/src/geodiffrebase.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 0e81523..45cdad0 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -468,7 +468,7 @@ bool _handle_update( const ChangesetEntry &entry, const RebaseMapping &mapping,
   {
     // if the value was patched in the previous commit, use that one as base
     Value patchedVal = patchedVals[i];
-    if ( patchedVal.type() != Value::TypeUndefined )
+    if ( patchedVal.type() != Value::TypeUndefined && entry.newValues[i].type() != Value::TypeUndefined )
     {
       outEntry.oldValues[i] = patchedVal;
       // conflict for this value
@@ -477,6 +477,7 @@ bool _handle_update( const ChangesetEntry &entry, const RebaseMapping &mapping,
     else
     {
       // otherwise the value is same for both patched and this, so use base value
+      // (or we do not modify the value at all)
       outEntry.oldValues[i] = entry.oldValues[i];
     }
   }
-- 
2.43.0


From 28d8207249b6188ecf7a00db69d381dd83643f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:58 +0000
Subject: [PATCH 16/62] fix: rebase keeps text primary keys of inserted and
 deleted rows

---
 geodiff/src/geodiffrebase.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 45cdad0..065439c 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -354,7 +354,7 @@ bool _handle_insert( const ChangesetEntry &entry, const RebaseMapping &mapping,
 
   for ( size_t i = 0; i < numColumns; i++ )
   {
-    if ( entry.table->primaryKeys[i] )
+    if ( entry.table->primaryKeys[i] && newPk != pk )
     {
       outEntry.newValues[i].setInt( newPk );
     }
@@ -398,7 +398,7 @@ bool _handle_delete( const ChangesetEntry &entry, const RebaseMapping &mapping,
 
   for ( size_t i = 0; i < numColumns; i++ )
   {
-    if ( entry.table->primaryKeys[i] )
+    if ( entry.table->primaryKeys[i] && newPk != pk )
     {
       outEntry.oldValues[i].setInt( newPk );
     }
-- 
2.43.0


From b21c596f33ed0de0bc5f0255c24ffd411749a85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:35 +0000
Subject: [PATCH 17/62] fix: rebase does not truncate integer primary keys to
 32 bits

---
 geodiff/src/geodiffrebase.cpp | 68 +++++++++++++++++------------------
 geodiff/src/geodiffutils.cpp  |  9 +++--
 geodiff/src/geodiffutils.hpp  |  8 ++---
 3 files changed, 42 insertions(+), 43 deletions(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 065439c..2427932 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -35,11 +35,11 @@
  */
 struct TableRebaseInfo
 {
-  std::set<int> inserted;           //!< pkeys that were inserted
-  std::set<int> deleted;            //!< pkeys that were deleted
-  std::map<int, std::vector<Value> > updated;  //!< new column values for each recorded row (identified by pkey)
+  std::set<int64_t> inserted;           //!< pkeys that were inserted
+  std::set<int64_t> deleted;            //!< pkeys that were deleted
+  std::map<int64_t, std::vector<Value> > updated;  //!< new column values for each recorded row (identified by pkey)
 
-  void dump_set( const std::set<int> &data, std::ostringstream &ret )
+  void dump_set( const std::set<int64_t> &data, std::ostringstream &ret )
   {
     if ( data.empty() )
       ret << "--none --";
@@ -60,7 +60,7 @@ struct TableRebaseInfo
     ret << "  deleted  ";
     dump_set( deleted, ret );
     ret << "  updated  ";
-    std::set<int> updatedPkeys;
+    std::set<int64_t> updatedPkeys;
     for ( auto pk : updated )
       updatedPkeys.insert( pk.first );
     dump_set( updatedPkeys, ret );
@@ -98,35 +98,35 @@ struct RebaseMapping
 {
 
   // table name -> old fid --> new fid
-  std::map<std::string, std::map < int, int > > mapIds;
+  std::map<std::string, std::map < int64_t, int64_t > > mapIds;
 
   // table name -> set of fids of inserts that have been untouched
   // (this is important because our mapping could cause FID conflicts
   // with FIDs that weren't previously in conflict, e.g. if 4,5,6
   // get mapped 4->6, 5->7 then the original 6 will need to be remapped
   // too: 6->8)
-  std::map<std::string, std::set<int> > unmappedInsertIds;
+  std::map<std::string, std::set<int64_t> > unmappedInsertIds;
 
   // special pkey value for deleted rows
-  static const int INVALID_FID = -1;
+  static const int64_t INVALID_FID = -1;
 
-  void addPkeyMapping( const std::string &table, int id, int id2 )
+  void addPkeyMapping( const std::string &table, int64_t id, int64_t id2 )
   {
     auto ids = mapIds.find( table );
     if ( ids == mapIds.end() )
     {
-      std::map < int, int  > newSet;
-      newSet.insert( std::pair<int, int>( id, id2 ) );
+      std::map < int64_t, int64_t  > newSet;
+      newSet.insert( std::pair<int64_t, int64_t>( id, id2 ) );
       mapIds[table] = newSet;
     }
     else
     {
-      std::map < int, int  > &oldSet = ids->second;
-      oldSet.insert( std::pair<int, int>( id, id2 ) );
+      std::map < int64_t, int64_t  > &oldSet = ids->second;
+      oldSet.insert( std::pair<int64_t, int64_t>( id, id2 ) );
     }
   }
 
-  bool hasOldPkey( const std::string &table, int id ) const
+  bool hasOldPkey( const std::string &table, int64_t id ) const
   {
     auto mapId = mapIds.find( table );
     if ( mapId == mapIds.end() )
@@ -135,13 +135,13 @@ struct RebaseMapping
     }
     else
     {
-      const std::map < int, int  > &ids = mapId->second;
+      const std::map < int64_t, int64_t  > &ids = mapId->second;
       auto fid =  ids.find( id );
       return fid != ids.end();
     }
   }
 
-  int getNewPkey( const std::string &table, int id ) const
+  int64_t getNewPkey( const std::string &table, int64_t id ) const
   {
     auto ids = mapIds.find( table );
     if ( ids == mapIds.end() )
@@ -150,7 +150,7 @@ struct RebaseMapping
     }
     else
     {
-      const std::map < int, int  > &oldSet = ids->second;
+      const std::map < int64_t, int64_t  > &oldSet = ids->second;
       auto a = oldSet.find( id );
       if ( a == oldSet.end() )
         throw GeoDiffException( "internal error: _get_new MappingIds" );
@@ -192,9 +192,9 @@ struct RebaseMapping
 ///////////////////////////////////////
 
 
-int _get_primary_key( const ChangesetEntry &entry )
+int64_t _get_primary_key( const ChangesetEntry &entry )
 {
-  int fid;
+  int64_t fid;
   int nFidColumn;
   get_primary_key( entry, fid, nFidColumn );
   return fid;
@@ -206,7 +206,7 @@ int _parse_old_changeset( ChangesetReader &reader_BASE_THEIRS, DatabaseRebaseInf
   ChangesetEntry entry;
   while ( reader_BASE_THEIRS.nextEntry( entry ) )
   {
-    int pk = _get_primary_key( entry );
+    int64_t pk = _get_primary_key( entry );
 
     TableRebaseInfo &tableInfo = dbInfo.tables[entry.table->name];
 
@@ -234,10 +234,10 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
 {
   // figure out first free primary key value when rebasing for each table
   // TODO: should we consider all rows in the table instead of just the inserts? (maybe not needed - those were available in the other source too)
-  std::map<std::string, int> freeIndices;
+  std::map<std::string, int64_t> freeIndices;
   for ( auto mapId : dbInfo.tables )
   {
-    const std::set < int > &oldSet = mapId.second.inserted;
+    const std::set < int64_t > &oldSet = mapId.second.inserted;
     if ( oldSet.empty() )
       continue;  // TODO: or set 0 to free indices??
 
@@ -256,7 +256,7 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
 
     if ( entry.op == ChangesetEntry::OpInsert )
     {
-      int pk = _get_primary_key( entry );
+      int64_t pk = _get_primary_key( entry );
 
       if ( tableInfo.inserted.find( pk ) != tableInfo.inserted.end() )
       {
@@ -278,7 +278,7 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
     }
     else if ( entry.op == ChangesetEntry::OpUpdate )
     {
-      int pk = _get_primary_key( entry );
+      int64_t pk = _get_primary_key( entry );
 
       if ( tableInfo.deleted.find( pk ) != tableInfo.deleted.end() )
       {
@@ -288,7 +288,7 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
     }
     else if ( entry.op == ChangesetEntry::OpDelete )
     {
-      int pk = _get_primary_key( entry );
+      int64_t pk = _get_primary_key( entry );
 
       if ( tableInfo.deleted.find( pk ) != tableInfo.deleted.end() )
       {
@@ -305,12 +305,12 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
     std::string tableName = pair.first;
 
     // make a set of all new pkeys
-    std::set<int> usedNewPkeys;
+    std::set<int64_t> usedNewPkeys;
     for ( auto oldNewPair : mapping.mapIds[tableName] )
       usedNewPkeys.insert( oldNewPair.second );
 
-    std::set<int> pkeys = pair.second;
-    for ( int pk : pkeys )
+    std::set<int64_t> pkeys = pair.second;
+    for ( int64_t pk : pkeys )
     {
       if ( usedNewPkeys.find( pk ) != usedNewPkeys.end() )
       {
@@ -343,8 +343,8 @@ bool _handle_insert( const ChangesetEntry &entry, const RebaseMapping &mapping,
   outEntry.newValues.resize( numColumns );
 
   // resolve primary key and patched primary key
-  int pk = _get_primary_key( entry );
-  int newPk = pk;
+  int64_t pk = _get_primary_key( entry );
+  int64_t newPk = pk;
 
   if ( mapping.hasOldPkey( entry.table->name, pk ) )
   {
@@ -375,8 +375,8 @@ bool _handle_delete( const ChangesetEntry &entry, const RebaseMapping &mapping,
   outEntry.oldValues.resize( numColumns );
 
   // resolve primary key and patched primary key
-  int pk = _get_primary_key( entry );
-  int newPk = pk;
+  int64_t pk = _get_primary_key( entry );
+  int64_t newPk = pk;
 
   if ( mapping.hasOldPkey( entry.table->name, pk ) )
   {
@@ -446,10 +446,10 @@ bool _handle_update( const ChangesetEntry &entry, const RebaseMapping &mapping,
   outEntry.newValues.resize( numColumns );
 
   // get values from patched (new) master
-  int pk = _get_primary_key( entry );
+  int64_t pk = _get_primary_key( entry );
   if ( mapping.hasOldPkey( entry.table->name, pk ) )
   {
-    int newPk = mapping.getNewPkey( entry.table->name, pk );
+    int64_t newPk = mapping.getNewPkey( entry.table->name, pk );
     if ( newPk == RebaseMapping::INVALID_FID )
       return false;
   }
diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index 51b3816..719e444 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -384,7 +384,7 @@ bool isLayerTable( const std::string &tableName )
 
 ////
 
-void get_primary_key( const ChangesetEntry &entry, int &fid, int &nColumn )
+void get_primary_key( const ChangesetEntry &entry, int64_t &fid, int &nColumn )
 {
   const std::vector<bool> &tablePkeys = entry.table->primaryKeys;
 
@@ -424,8 +424,7 @@ void get_primary_key( const ChangesetEntry &entry, int &fid, int &nColumn )
 
   if ( pkeyValue.type() == Value::TypeInt )
   {
-    int val = pkeyValue.getInt();
-    fid = val;
+    fid = pkeyValue.getInt();
     return;
   }
   else if ( pkeyValue.type() == Value::TypeText )
@@ -539,7 +538,7 @@ const char *TmpFile::c_path() const
   return mPath.c_str();
 }
 
-ConflictFeature::ConflictFeature( int pk,
+ConflictFeature::ConflictFeature( int64_t pk,
                                   const std::string &tableName )
   : mPk( pk )
   , mTableName( tableName )
@@ -561,7 +560,7 @@ std::string ConflictFeature::tableName() const
   return mTableName;
 }
 
-int ConflictFeature::pk() const
+int64_t ConflictFeature::pk() const
 {
   return mPk;
 }
diff --git a/geodiff/src/geodiffutils.hpp b/geodiff/src/geodiffutils.hpp
index bd396fb..6d18599 100644
--- a/geodiff/src/geodiffutils.hpp
+++ b/geodiff/src/geodiffutils.hpp
@@ -105,7 +105,7 @@ int indexOf( const std::vector<std::string> &arr, const std::string &val );
 std::string concatNames( const std::vector<std::string> &names );
 
 
-void get_primary_key( const ChangesetEntry &entry, int &fid, int &nColumn );
+void get_primary_key( const ChangesetEntry &entry, int64_t &fid, int &nColumn );
 
 
 
@@ -167,15 +167,15 @@ class ConflictItem
 class ConflictFeature
 {
   public:
-    ConflictFeature( int pk,
+    ConflictFeature( int64_t pk,
                      const std::string &tableName );
     bool isValid() const;
     void addItem( const ConflictItem &item );
     std::string tableName() const;
-    int pk() const;
+    int64_t pk() const;
     std::vector<ConflictItem> items() const;
   private:
-    int mPk;
+    int64_t mPk;
     std::string mTableName;
     std::vector<ConflictItem> mItems;
 };
-- 
2.43.0


From f5285ca28ca729f56d0e81dfca343e22025d4d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:35 +0000
Subject: [PATCH 18/62] fix: rebase does not mistake an inserted row with
 primary key -1 for a collision

---
 geodiff/src/geodiffrebase.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 2427932..8c9b0be 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -307,7 +307,10 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
     // make a set of all new pkeys
     std::set<int64_t> usedNewPkeys;
     for ( auto oldNewPair : mapping.mapIds[tableName] )
-      usedNewPkeys.insert( oldNewPair.second );
+    {
+      if ( oldNewPair.second != RebaseMapping::INVALID_FID )
+        usedNewPkeys.insert( oldNewPair.second );
+    }
 
     std::set<int64_t> pkeys = pair.second;
     for ( int64_t pk : pkeys )
-- 
2.43.0


From c4436b6b23b6736ac271d0502cce0080580ee979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:35 +0000
Subject: [PATCH 19/62] fix: rebase does not mix up rows with different text
 primary keys

---
 geodiff/src/geodiffutils.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index 719e444..c1d2789 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -430,14 +430,14 @@ void get_primary_key( const ChangesetEntry &entry, int64_t &fid, int &nColumn )
   else if ( pkeyValue.type() == Value::TypeText )
   {
     std::string str = pkeyValue.getString();
-    const char *strData = str.data();
-    int hash = 0;
-    int len = str.size();
-    for ( int i = 0; i < len; i++ )
+    // 64-bit FNV-1a - a weak hash would mix up different rows
+    uint64_t hash = 0xcbf29ce484222325ULL;
+    for ( unsigned char ch : str )
     {
-      hash = 33 * hash + ( unsigned char )strData[i];
+      hash ^= ch;
+      hash *= 0x100000001b3ULL;
     }
-    fid = hash;
+    fid = static_cast<int64_t>( hash );
   }
   else
   {
-- 
2.43.0


From e4600ea0af3be0d69212a8204258e3a4f4c09e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:35 +0000
Subject: [PATCH 20/62] fix: rebased changeset does not contain tables without
 changes

---
 geodiff/src/geodiffrebase.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 8c9b0be..e96044c 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -550,11 +550,11 @@ int _prepare_new_changeset( ChangesetReader &reader, const std::string &changese
 
   for ( auto it : tableDefinitions )
   {
-    writer.beginTable( it.second );
-
     auto chit = tableChanges.find( it.first );
     if ( chit != tableChanges.end() )
     {
+      writer.beginTable( it.second );
+
       const std::vector<ChangesetEntry> &changes = chit->second;
       for ( const ChangesetEntry &entry : changes )
       {
-- 
2.43.0


From a6a72e648c4a83fe09f3aea2ec505958d51f0969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:21 +0000
Subject: [PATCH 21/62] fix: rebase rejects changesets with different numbers
 of columns for the same table

---
 geodiff/src/geodiffrebase.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index e96044c..b438eb6 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -399,6 +399,9 @@ bool _handle_delete( const ChangesetEntry &entry, const RebaseMapping &mapping,
   else
     patchedVals = a->second;
 
+  if ( patchedVals.size() != numColumns )
+    throw GeoDiffException( "Mismatch of number of columns in table: " + entry.table->name );
+
   for ( size_t i = 0; i < numColumns; i++ )
   {
     if ( entry.table->primaryKeys[i] && newPk != pk )
@@ -465,6 +468,9 @@ bool _handle_update( const ChangesetEntry &entry, const RebaseMapping &mapping,
   else
     patchedVals = a->second;
 
+  if ( patchedVals.size() != numColumns )
+    throw GeoDiffException( "Mismatch of number of columns in table: " + entry.table->name );
+
   ConflictFeature conflictFeature( pk, entry.table->name );
 
   for ( size_t i = 0; i < numColumns; i++ )
-- 
2.43.0


From 6c773974022113581ab7dddd3f003bbf10bfe5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:21 +0000
Subject: [PATCH 22/62] fix: detect also foreign keys declared without parent
 columns or with different letter case

---
 geodiff/src/drivers/sqliteutils.cpp | 32 +++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/geodiff/src/drivers/sqliteutils.cpp b/geodiff/src/drivers/sqliteutils.cpp
index bad30c9..ae32c3d 100644
--- a/geodiff/src/drivers/sqliteutils.cpp
+++ b/geodiff/src/drivers/sqliteutils.cpp
@@ -295,6 +295,17 @@ void sqliteTriggers( std::shared_ptr<Sqlite3Db> db, std::vector<std::string> &tr
 }
 
 
+//! Returns index of the column in the list of names (column names are case insensitive) or -1 if not found
+static int indexOfColumn( const std::vector<std::string> &columnNames, const char *name )
+{
+  for ( size_t i = 0; i < columnNames.size(); ++i )
+  {
+    if ( sqlite3_stricmp( columnNames[i].c_str(), name ) == 0 )
+      return static_cast<int>( i );
+  }
+  return -1;
+}
+
 ForeignKeys sqliteForeignKeys( std::shared_ptr<Sqlite3Db> db, const std::string &dbName )
 {
   std::vector<std::string> fromTableNames;
@@ -310,24 +321,27 @@ ForeignKeys sqliteForeignKeys( std::shared_ptr<Sqlite3Db> db, const std::string
       pStmt.prepare( db, "SELECT * FROM %s.pragma_foreign_key_list(%Q)", dbName.c_str(), fromTableName.c_str() );
       while ( pStmt.nextRow() )
       {
+        int fk_seq = sqlite3_column_int( pStmt.get(), 1 );
         const char *fk_to_table = ( const char * )sqlite3_column_text( pStmt.get(), 2 );
         const char *fk_from = ( const char * )sqlite3_column_text( pStmt.get(), 3 );
         const char *fk_to = ( const char * )sqlite3_column_text( pStmt.get(), 4 );
 
-        if ( fk_to_table && fk_from && fk_to )
+        if ( fk_to_table && fk_from )
         {
           // TODO: this part is not speed-optimized and could be slower for databases with a lot of
           // columns and/or foreign keys. For each entry we grab column names again
           // and we search for index of value in plain std::vector array...
           std::vector<std::string> fromColumnNames = sqliteColumnNames( db, dbName, fromTableName );
-          int fk_from_id = indexOf( fromColumnNames, fk_from );
-          if ( fk_from_id < 0 )
-            continue;
-
-          std::vector<std::string> toColumnNames = sqliteColumnNames( db, dbName, fk_to_table );
-          int fk_to_id = indexOf( toColumnNames, fk_to );
-          if ( fk_to_id < 0 )
-            continue;
+          int fk_from_id = indexOfColumn( fromColumnNames, fk_from );
+
+          // if the parent columns are not specified, the foreign key refers to the primary key of the parent
+          // table (columns of the primary key are listed first by sqliteColumnNames)
+          int fk_to_id = fk_seq;
+          if ( fk_to )
+          {
+            std::vector<std::string> toColumnNames = sqliteColumnNames( db, dbName, fk_to_table );
+            fk_to_id = indexOfColumn( toColumnNames, fk_to );
+          }
 
           TableColumn from( fromTableName, fk_from_id );
           TableColumn to( fk_to_table, fk_to_id );
-- 
2.43.0


From dbe02ac87ef006d4567f7ed2ad94262f173a9603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:21 +0000
Subject: [PATCH 23/62] fix: texts and table names are properly escaped in JSON
 output

---
 geodiff/src/changesetutils.cpp | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/geodiff/src/changesetutils.cpp b/geodiff/src/changesetutils.cpp
index 7571f48..16f690a 100644
--- a/geodiff/src/changesetutils.cpp
+++ b/geodiff/src/changesetutils.cpp
@@ -76,14 +76,25 @@ void invertChangeset( ChangesetReader &reader, ChangesetWriter &writer )
   }
 }
 
-std::string escapeJSONString( std::string val )
+std::string escapeJSONString( const std::string &val )
 {
-  //val = replace( val, "\\", "\\\\" );  // TODO: escaping of backslashes?
-  val = replace( val, "\n", "\\n" );
-  val = replace( val, "\r", "\\r" );
-  val = replace( val, "\t", "\\t" );
-  val = replace( val, "\"", "\\\"" );
-  return "\"" + val + "\"";
+  std::string res = "\"";
+  for ( char ch : val )
+  {
+    if ( ch == '\n' )
+      res += "\\n";
+    else if ( ch == '\r' )
+      res += "\\r";
+    else if ( ch == '\t' )
+      res += "\\t";
+    else if ( ch == '"' || ch == '\\' )
+      res += std::string( "\\" ) + ch;
+    else if ( static_cast<unsigned char>( ch ) < 0x20 )
+      res += "\\u00" + bin2hex( std::string( 1, ch ) );
+    else
+      res += ch;
+  }
+  return res + "\"";
 }
 
 std::string valueToJSON( const Value &value )
@@ -122,7 +133,7 @@ std::string changesetEntryToJSON( const ChangesetEntry &entry )
     status = "delete";
 
   std::string res = "      {\n";
-  res += "        \"table\": \"" + entry.table->name + "\",\n";
+  res += "        \"table\": " + escapeJSONString( entry.table->name ) + ",\n";
   res += "        \"type\": \"" + status + "\",\n";
   res += "        \"changes\": [";
   bool first = true;
@@ -224,7 +235,7 @@ std::string changesetToJSONSummary( ChangesetReader &reader )
   {
     std::string tableJson;
     tableJson += "      {\n";
-    tableJson += "         \"table\": \"" + kv.first + "\",\n";
+    tableJson += "         \"table\": " + escapeJSONString( kv.first ) + ",\n";
     tableJson += "         \"insert\": " + std::to_string( kv.second.inserts ) + ",\n";
     tableJson += "         \"update\": " + std::to_string( kv.second.updates ) + ",\n";
     tableJson += "         \"delete\": " + std::to_string( kv.second.deletes ) + "\n";
@@ -252,7 +263,7 @@ std::string conflictToJSON( const ConflictFeature &conflict )
   std::string status = "conflict";
 
   std::string res = "      {\n";
-  res += "        \"table\": \"" + std::string( conflict.tableName() ) + "\",\n";
+  res += "        \"table\": " + escapeJSONString( conflict.tableName() ) + ",\n";
   res += "        \"type\": \"" + status + "\",\n";
   res += "        \"fid\": \"" + std::to_string( conflict.pk() ) + "\",\n";
   res += "        \"changes\": [";
-- 
2.43.0


From 8d74093c93826b691866b04e5e93283134ceb353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:21 +0000
Subject: [PATCH 24/62] fix: infinite and NaN values do not make JSON output
 invalid

---
 geodiff/src/changesetutils.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/geodiff/src/changesetutils.cpp b/geodiff/src/changesetutils.cpp
index 16f690a..834ea5d 100644
--- a/geodiff/src/changesetutils.cpp
+++ b/geodiff/src/changesetutils.cpp
@@ -11,6 +11,8 @@
 #include "changesetwriter.h"
 #include "tableschema.h"
 
+#include <cmath>
+
 
 ChangesetTable schemaToChangesetTable( const std::string &tableName, const TableSchema &tbl )
 {
@@ -106,6 +108,11 @@ std::string valueToJSON( const Value &value )
     case Value::TypeInt:
       return std::to_string( value.getInt() );
     case Value::TypeDouble:
+      if ( std::isnan( value.getDouble() ) )
+        return "null";
+      // JSON has no infinity, but numbers out of the range of doubles are valid (and parsers read them as infinity)
+      if ( std::isinf( value.getDouble() ) )
+        return value.getDouble() > 0 ? "9.0e+999" : "-9.0e+999";
       return std::to_string( value.getDouble() );
     case Value::TypeText:
       return escapeJSONString( value.getString() );
-- 
2.43.0


From 54990b3ff1fda6aa597dfe95edc5d5a4d457ecea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:57 +0000
Subject: [PATCH 25/62] fix: names of temporary files are not the same in every
 process and respect TMPDIR without trailing slash

---
 geodiff/src/geodiff.cpp      |  2 +-
 geodiff/src/geodiffutils.cpp | 12 +++++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index bb2c97f..3e41f86 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -511,7 +511,7 @@ int GEODIFF_makeCopy( const char *driverSrcName, const char *driverSrcExtraInfo,
     return GEODIFF_ERROR;
   }
 
-  TmpFile tmpFileChangeset( tmpdir() + "geodiff_changeset" + std::to_string( rand() ) );
+  TmpFile tmpFileChangeset( tmpdir() + "geodiff_changeset" + randomString( 6 ) );
 
   try
   {
diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index c1d2789..e1d3e1c 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -24,6 +24,7 @@
 #include <cctype>
 #include <gpkg.h>
 #include <locale>
+#include <random>
 #include <codecvt>
 
 #ifdef _WIN32
@@ -475,7 +476,10 @@ std::string tmpdir()
 
   return wstringToString( tempDirPath );
 #else
-  return getEnvVar( "TMPDIR", "/tmp/" );
+  std::string dir = getEnvVar( "TMPDIR", "/tmp/" );
+  if ( !dir.empty() && dir.back() != '/' )
+    dir += '/';
+  return dir;
 #endif
 }
 
@@ -633,14 +637,16 @@ std::string lowercaseString( const std::string &str )
 // from https://stackoverflow.com/questions/440133/how-do-i-create-a-random-alpha-numeric-string-in-c
 std::string randomString( size_t length )
 {
-  auto randchar = []() -> char
+  // not rand() which gives the same sequence in every process
+  std::random_device generator;
+  auto randchar = [&generator]() -> char
   {
     const char charset[] =
     "0123456789"
     "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
     "abcdefghijklmnopqrstuvwxyz";
     const size_t max_index = ( sizeof( charset ) - 1 );
-    return charset[ rand() % max_index ];
+    return charset[ std::uniform_int_distribution<size_t>( 0, max_index - 1 )( generator ) ];
   };
   std::string str( length, 0 );
   std::generate_n( str.begin(), length, randchar );
-- 
2.43.0


From d0893a032f4c31d6e4444a352f5e2fe44d8363cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:57 +0000
Subject: [PATCH 26/62] fix: errors are logged by default, as documented

---
 geodiff/src/geodifflogger.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/geodifflogger.cpp b/geodiff/src/geodifflogger.cpp
index 8350f4d..2faebff 100644
--- a/geodiff/src/geodifflogger.cpp
+++ b/geodiff/src/geodifflogger.cpp
@@ -8,14 +8,14 @@
 #include "geodiffutils.hpp"
 #include <iostream>
 
-int _envInt( const char *key )
+int _envInt( const char *key, int defaultValue )
 {
   char *val = getenv( key );
   if ( val )
   {
     return atoi( val );
   }
-  return 0;
+  return defaultValue;
 }
 
 void StdoutLogger( GEODIFF_LoggerLevel level, const char *msg )
@@ -38,7 +38,7 @@ void StdoutLogger( GEODIFF_LoggerLevel level, const char *msg )
 Logger::Logger()
 {
   // Sort out which
-  int envLevel = _envInt( "GEODIFF_LOGGER_LEVEL" );
+  int envLevel = _envInt( "GEODIFF_LOGGER_LEVEL", GEODIFF_LoggerLevel::LevelError );
   if ( envLevel >= 0 && envLevel <= GEODIFF_LoggerLevel::LevelDebug )
   {
     setMaxLogLevel( static_cast<GEODIFF_LoggerLevel>( envLevel ) );
-- 
2.43.0


From 4c024326398f28ba2965af8a1dc898d395c35052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:57 +0000
Subject: [PATCH 27/62] fix: default logger prints also info messages

---
 geodiff/src/geodifflogger.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geodiff/src/geodifflogger.cpp b/geodiff/src/geodifflogger.cpp
index 2faebff..5091dc3 100644
--- a/geodiff/src/geodifflogger.cpp
+++ b/geodiff/src/geodifflogger.cpp
@@ -28,6 +28,9 @@ void StdoutLogger( GEODIFF_LoggerLevel level, const char *msg )
     case LevelWarning:
       std::cout << "Warn: " << msg << std::endl;
       break;
+    case LevelInfo:
+      std::cout << "Info: " << msg << std::endl;
+      break;
     case LevelDebug:
       std::cout << "Debug: " << msg << std::endl;
       break;
-- 
2.43.0


From 4bbf0e0829634f14ba24ebc1305f40a15ac8e182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:58 +0000
Subject: [PATCH 28/62] fix: no signed overflow when the largest possible
 primary key is inserted on both sides

---
 geodiff/src/geodiffrebase.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index b438eb6..92213b1 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -19,6 +19,7 @@
 #include <string.h>
 #include <algorithm>
 #include <functional>
+#include <limits>
 #include <iostream>
 #include <string>
 #include <vector>
@@ -229,6 +230,12 @@ int _parse_old_changeset( ChangesetReader &reader_BASE_THEIRS, DatabaseRebaseInf
   return GEODIFF_SUCCESS;
 }
 
+//! Returns the primary key value that follows the given one (the smallest one after the largest one)
+static int64_t _next_primary_key( int64_t pk )
+{
+  return pk == std::numeric_limits<int64_t>::max() ? std::numeric_limits<int64_t>::min() : pk + 1;
+}
+
 int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseRebaseInfo &dbInfo,
                                      RebaseMapping &mapping )
 {
@@ -241,7 +248,7 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
     if ( oldSet.empty() )
       continue;  // TODO: or set 0 to free indices??
 
-    freeIndices[mapId.first] = *std::max_element( oldSet.begin(), oldSet.end() ) + 1;
+    freeIndices[mapId.first] = _next_primary_key( *std::max_element( oldSet.begin(), oldSet.end() ) );
   }
 
   ChangesetEntry entry;
@@ -268,7 +275,7 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
         mapping.addPkeyMapping( tableName, pk, it->second );
 
         // increase counter
-        it->second ++;
+        it->second = _next_primary_key( it->second );
       }
       else
       {
@@ -327,7 +334,7 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
         usedNewPkeys.insert( it->second );
 
         // increase counter
-        it->second ++;
+        it->second = _next_primary_key( it->second );
       }
     }
   }
-- 
2.43.0


From a6815a7d2b4a87cddc5defced445b4b39a65e872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:47 +0000
Subject: [PATCH 29/62] fix: no crash in a rebase when a changeset describes
 the same table with different columns

---
 geodiff/src/geodiffrebase.cpp | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 92213b1..eebbd47 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -640,6 +640,32 @@ int rebase( const std::string &changeset_BASE_THEIRS,
   return GEODIFF_SUCCESS;
 }
 
+/**
+ * Returns whether all entries of the changesets describe each table with the same columns
+ * (sqlite3changegroup_add does not check that within a single changeset)
+ */
+static bool _tables_match( const std::vector<std::string> &changesets )
+{
+  std::map<std::string, std::vector<bool> > tables;  // lowercase name -> primary key flags
+  for ( const std::string &changeset : changesets )
+  {
+    ChangesetReader reader;
+    if ( !reader.open( changeset ) )
+      return false;
+
+    ChangesetEntry entry;
+    while ( reader.nextEntry( entry ) )
+    {
+      std::string name = entry.table->name;
+      std::transform( name.begin(), name.end(), name.begin(), []( unsigned char c ) { return ( char ) ::tolower( c ); } );
+      auto it = tables.insert( std::make_pair( name, entry.table->primaryKeys ) ).first;
+      if ( it->second != entry.table->primaryKeys )
+        return false;
+    }
+  }
+  return true;
+}
+
 bool concatChangesets( const std::string &A, const std::string &B, const std::string &C, const std::string &out )
 {
   Buffer bufA;
@@ -656,6 +682,12 @@ bool concatChangesets( const std::string &A, const std::string &B, const std::st
     return true;
   }
 
+  if ( !_tables_match( { A, B, C } ) )
+  {
+    Logger::instance().error( "Changesets do not agree on the columns of a table" );
+    return true;
+  }
+
   sqlite3_changegroup *pGrp;
   int rc = sqlite3changegroup_new( &pGrp );
   if ( rc == SQLITE_OK ) rc = sqlite3changegroup_add( pGrp, bufA.size(), bufA.v_buf() );
-- 
2.43.0


From c434866d60e673762372d0c01b7b5f0a65392640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:55 +0000
Subject: [PATCH 30/62] fix: an empty directory given as output file does not
 get deleted

---
 geodiff/src/geodiffutils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index e1d3e1c..140a1c5 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -308,7 +308,7 @@ void fileremove( const std::string &path )
 #ifdef WIN32
     _wremove( stringToWString( path ).c_str() );
 #else
-    remove( path.c_str() );
+    unlink( path.c_str() );  // (remove() would delete also an empty directory)
 #endif
   }
 }
-- 
2.43.0


From ab3d2541e8a4c323e33b90450a22f830e7978946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:55 +0000
Subject: [PATCH 31/62] fix: createRebasedChangesetEx refuses unknown drivers
 like other calls

---
 geodiff/src/geodiff.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index 3e41f86..420a8b0 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -211,6 +211,10 @@ int GEODIFF_createRebasedChangesetEx( const char *driverName,
 
   try
   {
+    std::unique_ptr<Driver> driver( Driver::createDriver( std::string( driverName ) ) );
+    if ( !driver )
+      throw GeoDiffException( "Unable to use driver: " + std::string( driverName ) );
+
     std::vector<ConflictFeature> conflicts;
     int rc = rebase( base2their, rebased, base2modified, conflicts );
     if ( rc == GEODIFF_SUCCESS )
-- 
2.43.0


From fecad11016ac81f4efb13130a1a452ab2fbacbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:55 +0000
Subject: [PATCH 32/62] fix: rebase without conflicts does not leave a conflict
 file of an earlier call

---
 geodiff/src/geodiff.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index 420a8b0..0755c8a 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -209,6 +209,8 @@ int GEODIFF_createRebasedChangesetEx( const char *driverName,
 
   // TODO: call checkCompatibleForRebase()
 
+  fileremove( conflictfile );
+
   try
   {
     std::unique_ptr<Driver> driver( Driver::createDriver( std::string( driverName ) ) );
@@ -418,6 +420,8 @@ int GEODIFF_rebaseEx( const char *driverName,
     return GEODIFF_ERROR;
   }
 
+  fileremove( conflictfile );
+
   try
   {
     std::string root = tmpdir() + "geodiff_" + randomString( 6 );
-- 
2.43.0


From d90838ce6c17d4a80f24f11dfef9bd46cd12bf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:55 +0000
Subject: [PATCH 33/62] fix: rebase does not mistake a new primary key -1 for a
 deleted row

---
 geodiff/src/geodiffrebase.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index eebbd47..dba4b52 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -109,7 +109,8 @@ struct RebaseMapping
   std::map<std::string, std::set<int64_t> > unmappedInsertIds;
 
   // special pkey value for deleted rows
-  static const int64_t INVALID_FID = -1;
+  // (negative keys are valid, and the lowest possible one never gets assigned unless all keys are used up)
+  static const int64_t INVALID_FID = std::numeric_limits<int64_t>::min();
 
   void addPkeyMapping( const std::string &table, int64_t id, int64_t id2 )
   {
-- 
2.43.0


From 57fbd8556808f4f581ec0f876ee153c2ca2cff41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:55 +0000
Subject: [PATCH 34/62] fix: failure to open the rebased changeset for writing
 is logged rather than printed

---
 geodiff/src/geodiffrebase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index dba4b52..207efac 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -558,7 +558,7 @@ int _prepare_new_changeset( ChangesetReader &reader, const std::string &changese
   ChangesetWriter writer;
   if ( !writer.open( changesetNew ) )
   {
-    std::cout << "unable to open file for writing " << changesetNew << std::endl;
+    Logger::instance().error( "Unable to open changeset file for writing: " + changesetNew );
     return GEODIFF_ERROR;
   }
 
-- 
2.43.0


From be9d9232157c08557cc16838e68e6a7fbe83b9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:43 +0000
Subject: [PATCH 35/62] fix: generated columns do not shift values of other
 columns in changesets

---
 geodiff/src/drivers/sqlitedriver.cpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 2a588d3..7fbc574 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -343,6 +343,19 @@ static std::string sqlitePrintf( const char *zFormat, ... )
   return res;
 }
 
+//! Returns list of columns of a table for SELECT ("*" would include also generated columns, which are not in the schema)
+static std::string sqlColumns( const std::string &dbName, const TableSchema &tbl )
+{
+  std::string sql;
+  for ( const TableColumnInfo &c : tbl.columns )
+  {
+    if ( !sql.empty() )
+      sql += ", ";
+    sql += sqlitePrintf( "\"%w\".\"%w\".\"%w\"", dbName.c_str(), tbl.name.c_str(), c.name.c_str() );
+  }
+  return sql;
+}
+
 //! Constructs SQL query to get all rows that do not exist in the other table (used for insert and delete)
 static std::string sqlFindInserted( const std::string &tableName, const TableSchema &tbl, bool reverse )
 {
@@ -358,7 +371,8 @@ static std::string sqlFindInserted( const std::string &tableName, const TableSch
     }
   }
 
-  std::string sql = sqlitePrintf( "SELECT * FROM \"%w\".\"%w\" WHERE NOT EXISTS ( SELECT 1 FROM \"%w\".\"%w\" WHERE %s)",
+  std::string sql = sqlitePrintf( "SELECT %s FROM \"%w\".\"%w\" WHERE NOT EXISTS ( SELECT 1 FROM \"%w\".\"%w\" WHERE %s)",
+                                  sqlColumns( reverse ? "aux" : "main", tbl ).c_str(),
                                   reverse ? "aux" : "main", tableName.c_str(),
                                   reverse ? "main" : "aux", tableName.c_str(), exprPk.c_str() );
   return sql;
@@ -388,7 +402,8 @@ static std::string sqlFindModified( const std::string &tableName, const TableSch
     }
   }
 
-  std::string sql = sqlitePrintf( "SELECT * FROM \"%w\".\"%w\", \"%w\".\"%w\" WHERE %s AND (%s)",
+  std::string sql = sqlitePrintf( "SELECT %s, %s FROM \"%w\".\"%w\", \"%w\".\"%w\" WHERE %s AND (%s)",
+                                  sqlColumns( "main", tbl ).c_str(), sqlColumns( "aux", tbl ).c_str(),
                                   "main", tableName.c_str(), "aux", tableName.c_str(), exprPk.c_str(), exprOther.c_str() );
   return sql;
 }
@@ -970,7 +985,8 @@ void SqliteDriver::dumpData( ChangesetWriter &writer, bool useModified )
 
     bool first = true;
     Sqlite3Stmt statementI;
-    statementI.prepare( mDb, "SELECT * FROM \"%w\".\"%w\"", dbName.c_str(), tableName.c_str() );
+    std::string sql = sqlitePrintf( "SELECT %s FROM \"%w\".\"%w\"", sqlColumns( dbName, tbl ).c_str(), dbName.c_str(), tableName.c_str() );
+    statementI.prepare( mDb, "%s", sql.c_str() );
     while ( statementI.nextRow() )
     {
       if ( first )
-- 
2.43.0


From c48edc97660b365992929836b48fa7ce10472f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:44 +0000
Subject: [PATCH 36/62] fix: makeCopy to a file without name does not report
 success

---
 geodiff/src/drivers/sqliteutils.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geodiff/src/drivers/sqliteutils.cpp b/geodiff/src/drivers/sqliteutils.cpp
index ae32c3d..22ae2b1 100644
--- a/geodiff/src/drivers/sqliteutils.cpp
+++ b/geodiff/src/drivers/sqliteutils.cpp
@@ -32,6 +32,12 @@ void Sqlite3Db::create( const std::string &filename )
 {
   close();
 
+  if ( filename.empty() )
+  {
+    // SQLite would create a temporary database that gets deleted when it is closed
+    throw GeoDiffException( "Unable to create sqlite3 database - no file name given" );
+  }
+
   if ( fileexists( filename ) )
   {
     throw GeoDiffException( "Unable to create sqlite3 database - already exists: " + filename );
-- 
2.43.0


From a0cfe5ac3f983b53b77abe26530fc8caf3aa2196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:03 +0000
Subject: [PATCH 37/62] fix: Python logger callback is not freed with the
 instance that has set it

---
 pygeodiff/geodifflib.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pygeodiff/geodifflib.py b/pygeodiff/geodifflib.py
index e943fcd..a9bc409 100644
--- a/pygeodiff/geodifflib.py
+++ b/pygeodiff/geodifflib.py
@@ -47,6 +47,9 @@ def _parse_return_code(rc, msg):
         raise GeoDiffLibVersionError("Internal error (enum " + str(rc) + " not handled)")
 
 class GeoDiffLib:
+    # the logger belongs to the library rather than to an instance: its callback must outlive the instance that has set it
+    _callback_loggers = {}
+
     def __init__(self, name):
         if name is None:
             self.libname = self.package_libname()
@@ -93,6 +96,7 @@ class GeoDiffLib:
         # do not remove self, callback needs to be member
         self.callbackLogger = CMPFUNC(callback)
         func(self.callbackLogger)
+        GeoDiffLib._callback_loggers[self.libname] = self.callbackLogger
 
     def set_maximum_logger_level(self, maxLevel):
         func = self.lib.GEODIFF_setMaximumLoggerLevel
-- 
2.43.0


From 1ae595ffaa0a217b6f8d8037aec9ff7afce04680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:48 +0000
Subject: [PATCH 38/62] fix: table names are quoted in all PostgreSQL
 statements

---
 geodiff/src/drivers/postgresdriver.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index b078586..1bd794c 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -360,9 +360,9 @@ static std::string sqlFindInserted( const std::string &schemaNameBase, const std
   }
 
   std::string sql = "SELECT " + allColumnNames( tbl ) + " FROM " +
-                    quotedIdentifier( reverse ? schemaNameBase : schemaNameModified ) + "." + tableName +
+                    quotedIdentifier( reverse ? schemaNameBase : schemaNameModified ) + "." + quotedIdentifier( tableName ) +
                     " WHERE NOT EXISTS ( SELECT 1 FROM " +
-                    quotedIdentifier( reverse ? schemaNameModified : schemaNameBase ) + "." + tableName +
+                    quotedIdentifier( reverse ? schemaNameModified : schemaNameBase ) + "." + quotedIdentifier( tableName ) +
                     " WHERE " + exprPk + ")";
   return sql;
 }
@@ -920,7 +920,7 @@ void PostgresDriver::createTables( const std::vector<TableSchema> &tables )
       }
     }
 
-    sql = "CREATE TABLE " + quotedIdentifier( mBaseSchema ) + "." + tbl.name + " (";
+    sql = "CREATE TABLE " + quotedIdentifier( mBaseSchema ) + "." + quotedIdentifier( tbl.name ) + " (";
     sql += columns;
     sql += ", PRIMARY KEY (" + pkeyCols + ")";
     sql += ");";
@@ -945,7 +945,7 @@ void PostgresDriver::dumpData( ChangesetWriter &writer, bool useModified )
       continue;  // ignore tables without primary key - they can't be compared properly
 
     std::string sql = "SELECT " + allColumnNames( tbl ) + " FROM " +
-                      quotedIdentifier( useModified ? mModifiedSchema : mBaseSchema ) + "." + tableName;
+                      quotedIdentifier( useModified ? mModifiedSchema : mBaseSchema ) + "." + quotedIdentifier( tableName );
 
     PostgresResult res( execSql( mConn, sql ) );
     int rows = res.rowCount();
-- 
2.43.0


From 37d2289fb49e4ab67b3a8b6abbd0d6477e70f057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:48 +0000
Subject: [PATCH 39/62] fix: PostgreSQL changesets contain changes between NULL
 and a value

---
 geodiff/src/drivers/postgresdriver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 1bd794c..1ab51ac 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -388,7 +388,7 @@ static std::string sqlFindModified( const std::string &schemaNameBase, const std
 
       std::string colBase = "b." + quotedIdentifier( c.name );
       std::string colModified = "a." + quotedIdentifier( c.name );
-      exprOther += "NOT ((" + colBase + " IS NULL AND " + colModified + " IS NULL) OR (" + colBase + " = " + colModified + "))";
+      exprOther += colBase + " IS DISTINCT FROM " + colModified;
     }
   }
 
-- 
2.43.0


From 240461dabee3ec499a0303e7eb049673b26a5169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:48 +0000
Subject: [PATCH 40/62] fix: PostgreSQL tables with primary key columns only
 can be compared

---
 geodiff/src/drivers/postgresdriver.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 1ab51ac..70de5a6 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -558,6 +558,12 @@ static void handleInserted( const std::string &schemaNameBase, const std::string
 
 static void handleUpdated( const std::string &schemaNameBase, const std::string &schemaNameModified, const std::string &tableName, const TableSchema &tbl, PGconn *conn, ChangesetWriter &writer, bool &first )
 {
+  bool onlyPkeys = true;
+  for ( const TableColumnInfo &c : tbl.columns )
+    onlyPkeys = onlyPkeys && c.isPrimaryKey;
+  if ( onlyPkeys )
+    return;  // rows of a table without any other columns can't be updated
+
   std::string sqlModified = sqlFindModified( schemaNameBase, schemaNameModified, tableName, tbl );
   PostgresResult res( execSql( conn, sqlModified ) );
 
-- 
2.43.0


From 3968f5498162d55ee2382f3a91dc2dc25cde5117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:48 +0000
Subject: [PATCH 41/62] fix: delete of a missing or different row is a conflict
 in PostgreSQL

---
 geodiff/src/drivers/postgresdriver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 70de5a6..648cc7d 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -833,6 +833,7 @@ void PostgresDriver::applyChangeset( ChangesetReader &reader )
       if ( res.affectedRows() != "1" )
       {
         logApplyConflict( "delete_nothing", entry );
+        ++conflictCount;
         Logger::instance().warn( "Wrong number of affected rows! Expected 1, got: " + res.affectedRows() );
       }
     }
-- 
2.43.0


From 048e717a7593fe2590c6d373b61288879fb5fc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:48 +0000
Subject: [PATCH 42/62] fix: PostgreSQL columns that are in several indexes are
 listed once

---
 geodiff/src/drivers/postgresdriver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 648cc7d..7b82da2 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -252,7 +252,7 @@ TableSchema PostgresDriver::tableSchema( const std::string &tableName, bool useM
     "                 || '''::regclass)'"
     "       ) AS has_sequence"
     " FROM pg_catalog.pg_attribute a"
-    " LEFT JOIN pg_index i ON a.attrelid = i.indrelid AND a.attnum = ANY(i.indkey)"
+    " LEFT JOIN pg_index i ON a.attrelid = i.indrelid AND a.attnum = ANY(i.indkey) AND i.indisprimary"
     " WHERE"
     "   a.attnum > 0"
     "   AND NOT a.attisdropped"
-- 
2.43.0


From 3c65e95d5ef069a2e27c899d8efdd1f509399240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:48 +0000
Subject: [PATCH 43/62] fix: real numbers are written to PostgreSQL with full
 precision

---
 geodiff/src/drivers/postgresdriver.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 7b82da2..2b3df1a 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -14,8 +14,13 @@
 #include "postgresutils.h"
 
 #include <algorithm>
+#include <cmath>
+#include <iomanip>
 #include <iostream>
+#include <limits>
+#include <locale>
 #include <memory.h>
+#include <sstream>
 
 
 /**
@@ -502,7 +507,16 @@ static std::string valueToSql( const Value &v, const TableColumnInfo &col )
   }
   else if ( v.type() == Value::TypeDouble )
   {
-    return std::to_string( v.getDouble() );
+    // quoted so that the literal takes the type of the column, with all digits
+    double d = v.getDouble();
+    if ( std::isnan( d ) )
+      return "'NaN'";
+    if ( std::isinf( d ) )
+      return d < 0 ? "'-Infinity'" : "'Infinity'";
+    std::ostringstream stream;
+    stream.imbue( std::locale::classic() );
+    stream << std::setprecision( std::numeric_limits<double>::max_digits10 ) << d;
+    return "'" + stream.str() + "'";
   }
   else if ( v.type() == Value::TypeText || v.type() == Value::TypeBlob )
   {
-- 
2.43.0


From eb95f09b8fa609b3c0f02569a9e98edfa9d39851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:48 +0000
Subject: [PATCH 44/62] fix: failing rollback in PostgreSQL does not end the
 process

---
 geodiff/src/drivers/postgresdriver.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 2b3df1a..e9a8097 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -46,7 +46,15 @@ class PostgresTransaction
       if ( mConn )
       {
         // we had some problems - roll back any pending changes
-        PostgresResult res( execSql( mConn, "ROLLBACK" ) );
+        // (a destructor must not throw: if the connection is gone, the server rolls back on its own)
+        try
+        {
+          PostgresResult res( execSql( mConn, "ROLLBACK" ) );
+        }
+        catch ( const GeoDiffException &exc )
+        {
+          Logger::instance().error( exc );
+        }
       }
     }
 
-- 
2.43.0


From 9106a7e99be9903c2df0860e50fd15cc46789067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:48 +0000
Subject: [PATCH 45/62] fix: PostgreSQL sequence does not return the key of an
 inserted row

---
 geodiff/src/drivers/postgresdriver.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index e9a8097..dde4fe4 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -907,9 +907,10 @@ void PostgresDriver::updateSequenceObject( const std::string &seqName, int64_t m
 {
   PostgresResult resCurrVal( execSql( mConn, "SELECT last_value FROM " + seqName ) );
   std::string currValueStr = resCurrVal.value( 0, 0 );
-  int currValue = std::stoi( currValueStr );
+  int64_t currValue = std::stoll( currValueStr );
 
-  if ( currValue < maxValue )
+  // also when equal: the sequence may not have been used yet and would return the value again
+  if ( currValue <= maxValue )
   {
     Logger::instance().info( "Updating sequence " + seqName + " from " + std::to_string( currValue ) + " to " + std::to_string( maxValue ) );
 
-- 
2.43.0


From b3903103c4ef75f75da426854779da83f28c9670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:15 +0000
Subject: [PATCH 46/62] fix: Z dimension of PostgreSQL geometry columns is
 recognised

---
 geodiff/src/drivers/postgresdriver.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index dde4fe4..5589499 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -238,7 +238,7 @@ TableSchema PostgresDriver::tableSchema( const std::string &tableName, bool useM
   std::string schemaName = useModified ? mModifiedSchema : mBaseSchema;
 
   // try to figure out details of the geometry columns (if any)
-  std::string sqlGeomDetails = "SELECT f_geometry_column, type, srid FROM geometry_columns WHERE f_table_schema = " +
+  std::string sqlGeomDetails = "SELECT f_geometry_column, type, srid, coord_dimension FROM geometry_columns WHERE f_table_schema = " +
                                quotedString( schemaName ) + " AND f_table_name = " + quotedString( tableName );
   std::map<std::string, std::string> geomTypes;
   std::map<std::string, int> geomSrids;
@@ -249,6 +249,15 @@ TableSchema PostgresDriver::tableSchema( const std::string &tableName, bool useM
     std::string type = resGeomDetails.value( i, 1 );
     std::string srid = resGeomDetails.value( i, 2 );
     int sridInt = srid.empty() ? -1 : atoi( srid.c_str() );
+    // PostGIS does not include Z in the type of geometry_columns, only the number of dimensions tells
+    int dimension = atoi( resGeomDetails.value( i, 3 ).c_str() );
+    if ( type.rfind( 'Z' ) == std::string::npos )
+    {
+      if ( dimension == 4 )
+        type += "ZM";
+      else if ( dimension == 3 && !type.empty() && type.back() != 'M' )
+        type += "Z";
+    }
     geomTypes[name] = type;
     geomSrids[name] = sridInt;
   }
-- 
2.43.0


From da8b1859f61e73ada3fb041581bdb5c6aae1a6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:15 +0000
Subject: [PATCH 47/62] fix: GeoPackage geometries with envelope are written
 correctly to PostgreSQL

---
 geodiff/src/drivers/postgresdriver.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 5589499..e5c3c3e 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -540,9 +540,15 @@ static std::string valueToSql( const Value &v, const TableColumnInfo &col )
     if ( col.isGeometry )
     {
       // handling of geometries - they are encoded with GPKG header
+      // (the header has 8 bytes and an optional envelope whose size is given by the flags)
       std::string gpkgWkb = v.getString();
-      std::string wkb( gpkgWkb.size() - 8, 0 );
-      memcpy( &wkb[0], &gpkgWkb[8], gpkgWkb.size() - 8 );
+      if ( gpkgWkb.size() < 8 || gpkgWkb.compare( 0, 2, "GP" ) != 0 )
+        throw GeoDiffException( "Unexpected geometry value (without GeoPackage header)" );
+      static const size_t envelopeSizes[] = { 0, 32, 48, 48, 64, 0, 0, 0 };
+      size_t headerSize = 8 + envelopeSizes[( gpkgWkb[3] >> 1 ) & 7];
+      if ( gpkgWkb.size() < headerSize )
+        throw GeoDiffException( "Unexpected geometry value (incomplete GeoPackage header)" );
+      std::string wkb( gpkgWkb, headerSize );
       return "ST_GeomFromWKB('\\x" + bin2hex( wkb ) + "', " + std::to_string( col.geomSrsId ) + ")";
     }
     return quotedString( v.getString() );
-- 
2.43.0


From 3efd28e246917342cfc3427a54971d62b109fd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:15 +0000
Subject: [PATCH 48/62] fix: fractions of a second are not lost in changesets
 of PostgreSQL

---
 geodiff/src/drivers/postgresdriver.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index e5c3c3e..0ae2eb9 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -357,7 +357,7 @@ static std::string allColumnNames( const TableSchema &tbl, const std::string &pr
     {
       // by default postgresql would return date/time as a formatted string
       // e.g. "2020-07-13 16:17:54" but we want IS0-8601 format "2020-07-13T16:17:54Z"
-      columns += "to_char(" + name + ",'YYYY-MM-DD\"T\"HH24:MI:SS\"Z\"')";
+      columns += "to_char(" + name + ",'YYYY-MM-DD\"T\"HH24:MI:SS.US\"Z\"')";
     }
     else
       columns += name;
@@ -471,6 +471,13 @@ static Value resultToValue( const PostgresResult &res, int r, size_t i, const Ta
     }
     else if ( col.type == "timestamp without time zone" )
     {
+      // keep fractions of a second, but only the significant digits: "2020-07-13T16:17:54.500000Z" -> "2020-07-13T16:17:54.5Z"
+      size_t dot = valueStr.find( '.' );
+      if ( dot != std::string::npos && valueStr.back() == 'Z' )
+      {
+        size_t last = valueStr.find_last_not_of( "0", valueStr.size() - 2 );
+        valueStr.erase( last == dot ? dot : last + 1, valueStr.size() - 1 - ( last == dot ? dot : last + 1 ) );
+      }
       v.setString( Value::TypeText, valueStr.c_str(), valueStr.size() );
     }
     else if ( isColumnGeometry( col ) )
-- 
2.43.0


From 23dcc457feccd5f2d5607d23d82b13c5f5c7d121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:15 +0000
Subject: [PATCH 49/62] fix: failed PostgreSQL connection is released

---
 geodiff/src/drivers/postgresdriver.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 0ae2eb9..d758533 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -110,7 +110,9 @@ void PostgresDriver::openPrivate( const DriverParametersMap &conn )
 
   if ( PQstatus( c ) != CONNECTION_OK )
   {
-    throw GeoDiffException( "Cannot connect to PostgreSQL database: " + std::string( PQerrorMessage( c ) ) );
+    std::string error( PQerrorMessage( c ) );
+    PQfinish( c );
+    throw GeoDiffException( "Cannot connect to PostgreSQL database: " + error );
   }
 
   mConn = c;
-- 
2.43.0


From 70baf929a34f63371eb2b67795c2e2d5c2656754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:15 +0000
Subject: [PATCH 50/62] fix: blobs are written unchanged to PostgreSQL

---
 geodiff/src/drivers/postgresdriver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index d758533..e4c6a31 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -560,6 +560,8 @@ static std::string valueToSql( const Value &v, const TableColumnInfo &col )
       std::string wkb( gpkgWkb, headerSize );
       return "ST_GeomFromWKB('\\x" + bin2hex( wkb ) + "', " + std::to_string( col.geomSrsId ) + ")";
     }
+    if ( v.type() == Value::TypeBlob )
+      return "'\\x" + bin2hex( v.getString() ) + "'";
     return quotedString( v.getString() );
   }
   else
-- 
2.43.0


From e3678fcd15b278e061f633c54d5371c2bda9e6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:55 +0000
Subject: [PATCH 51/62] fix: serial keys of PostgreSQL tables with a quote in
 the name are recognised

---
 geodiff/src/drivers/postgresdriver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index e4c6a31..231ffa5 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -272,7 +272,7 @@ TableSchema PostgresDriver::tableSchema( const std::string &tableName, bool useM
     "             AND    ad.adnum   = a.attnum"
     "             AND    pg_get_expr(ad.adbin, ad.adrelid)"
     "                  = 'nextval('''"
-    "                 || (pg_get_serial_sequence (a.attrelid::regclass::text, a.attname))::regclass"
+    "                 || replace((pg_get_serial_sequence (a.attrelid::regclass::text, a.attname))::regclass::text, '''', '''''')"
     "                 || '''::regclass)'"
     "       ) AS has_sequence"
     " FROM pg_catalog.pg_attribute a"
-- 
2.43.0


From 25601c0ba3c5c9417e483718c6e10ef6edc7abe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:37 +0000
Subject: [PATCH 52/62] fix: changesets and dumps are created from a single
 state of the database

Each query ran in a transaction of its own, so changes another connection committed
in between ended up in the output only partially.
---
 geodiff/src/drivers/sqlitedriver.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 7fbc574..8c6413b 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -551,6 +551,9 @@ static void handleUpdated( const std::string &tableName, const TableSchema &tbl,
 
 void SqliteDriver::createChangeset( ChangesetWriter &writer )
 {
+  // all queries must see the same state of the databases even if another connection modifies them meanwhile
+  Sqlite3SavepointTransaction readTransaction( mDb );
+
   std::vector<std::string> tablesBase = listTables( false );
   std::vector<std::string> tablesModified = listTables( true );
 
@@ -975,6 +978,9 @@ void SqliteDriver::createTables( const std::vector<TableSchema> &tables )
 
 void SqliteDriver::dumpData( ChangesetWriter &writer, bool useModified )
 {
+  // all queries must see the same state of the database even if another connection modifies it meanwhile
+  Sqlite3SavepointTransaction readTransaction( mDb );
+
   std::string dbName = databaseName( useModified );
   std::vector<std::string> tables = listTables();
   for ( const std::string &tableName : tables )
-- 
2.43.0


From d754bd81ec62bc754137fc7bdc7ffb0c4a9e0c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:08 +0000
Subject: [PATCH 53/62] fix: running out of memory in SQLite is reported
 instead of crashing

---
 geodiff/src/drivers/sqlitedriver.cpp | 14 ++++++++++++--
 geodiff/src/drivers/sqliteutils.cpp  | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 8c6413b..3880bf6 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -245,7 +245,10 @@ TableSchema SqliteDriver::tableSchema( const std::string &tableName, bool useMod
 
     TableColumnInfo columnInfo;
     columnInfo.name = ( const char * )zName;
-    columnInfo.type = ( const char * ) sqlite3_column_text( statement.get(), 2 );
+    const char *chrType = ( const char * ) sqlite3_column_text( statement.get(), 2 );
+    if ( chrType == nullptr )
+      throw GeoDiffException( "NULL column type in table schema: " + tableName );
+    columnInfo.type = chrType;
     columnInfo.isNotNull = sqlite3_column_int( statement.get(), 3 );
     columnInfo.isPrimaryKey = sqlite3_column_int( statement.get(), 5 );
 
@@ -429,6 +432,8 @@ static bool valuesEqual( sqlite3_value *v1, sqlite3_value *v2 )
     const unsigned char *text2 = sqlite3_value_text( v2 );
     int len1 = sqlite3_value_bytes( v1 );
     int len2 = sqlite3_value_bytes( v2 );
+    if ( !text1 || !text2 )
+      throw GeoDiffException( "out of memory" );
     return len1 == len2 && memcmp( text1, text2, len1 ) == 0;
   }
   else if ( type1 == SQLITE_BLOB )
@@ -456,7 +461,12 @@ static Value changesetValue( sqlite3_value *v )
   else if ( type == SQLITE_FLOAT )
     x.setDouble( sqlite3_value_double( v ) );
   else if ( type == SQLITE_TEXT )
-    x.setString( Value::TypeText, ( const char * )sqlite3_value_text( v ), sqlite3_value_bytes( v ) );
+  {
+    const char *text = ( const char * )sqlite3_value_text( v );
+    if ( !text )
+      throw GeoDiffException( "out of memory" );
+    x.setString( Value::TypeText, text, sqlite3_value_bytes( v ) );
+  }
   else if ( type == SQLITE_BLOB )
     x.setString( Value::TypeBlob, ( const char * )sqlite3_value_blob( v ), sqlite3_value_bytes( v ) );
   else
diff --git a/geodiff/src/drivers/sqliteutils.cpp b/geodiff/src/drivers/sqliteutils.cpp
index 22ae2b1..cd2556e 100644
--- a/geodiff/src/drivers/sqliteutils.cpp
+++ b/geodiff/src/drivers/sqliteutils.cpp
@@ -152,6 +152,8 @@ bool Sqlite3Stmt::nextRow()
 std::string Sqlite3Stmt::expandedSql() const
 {
   char *str = sqlite3_expanded_sql( mStmt );
+  if ( !str )
+    throw GeoDiffException( "out of memory" );
   std::string sql( str );
   sqlite3_free( str );
   return sql;
@@ -168,6 +170,8 @@ Sqlite3Value::Sqlite3Value( const sqlite3_value *val )
   if ( val )
   {
     mVal = sqlite3_value_dup( val );
+    if ( !mVal )
+      throw GeoDiffException( "out of memory" );
   }
 }
 
@@ -441,7 +445,10 @@ std::vector<std::string> sqliteColumnNames(
   {
     if ( sqlite3_stricmp( ( const char * )sqlite3_column_text( pStmt.get(), 3 ), "pk" ) == 0 )
     {
-      zPkIdxName = ( const char * ) sqlite3_column_text( pStmt.get(), 1 );
+      const char *zIdxName = ( const char * ) sqlite3_column_text( pStmt.get(), 1 );
+      if ( !zIdxName )
+        throw GeoDiffException( "Unable to read name of an index of table: " + tableName );
+      zPkIdxName = zIdxName;
       break;
     }
   }
@@ -482,7 +489,10 @@ std::vector<std::string> sqliteColumnNames(
   while ( pStmt.nextRow() )
   {
     int iPKey;
-    std::string name = ( char * )sqlite3_column_text( pStmt.get(), 1 );
+    const char *zName = ( const char * )sqlite3_column_text( pStmt.get(), 1 );
+    if ( !zName )
+      throw GeoDiffException( "Unable to read name of a column of table: " + tableName );
+    std::string name = zName;
     if ( truePk && ( iPKey = sqlite3_column_int( pStmt.get(), 5 ) ) > 0 )
     {
       az[iPKey - 1] = name;
-- 
2.43.0


From 572c18744ba05e4502895e26ec3be22d338a8b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 54/62] fix: numbers in JSON do not depend on the current
 locale

---
 geodiff/src/changesetutils.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/changesetutils.cpp b/geodiff/src/changesetutils.cpp
index 834ea5d..19f5472 100644
--- a/geodiff/src/changesetutils.cpp
+++ b/geodiff/src/changesetutils.cpp
@@ -12,6 +12,9 @@
 #include "tableschema.h"
 
 #include <cmath>
+#include <iomanip>
+#include <locale>
+#include <sstream>
 
 
 ChangesetTable schemaToChangesetTable( const std::string &tableName, const TableSchema &tbl )
@@ -113,7 +116,13 @@ std::string valueToJSON( const Value &value )
       // JSON has no infinity, but numbers out of the range of doubles are valid (and parsers read them as infinity)
       if ( std::isinf( value.getDouble() ) )
         return value.getDouble() > 0 ? "9.0e+999" : "-9.0e+999";
-      return std::to_string( value.getDouble() );
+    {
+      // not std::to_string() which may write a decimal comma (depends on the current locale)
+      std::ostringstream stream;
+      stream.imbue( std::locale::classic() );
+      stream << std::fixed << std::setprecision( 6 ) << value.getDouble();
+      return stream.str();
+    }
     case Value::TypeText:
       return escapeJSONString( value.getString() );
     case Value::TypeBlob:
-- 
2.43.0


From 15bedf9023a0147f42936665e4288f9c278dd673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 55/62] fix: lowercase names of types and tables do not depend
 on the current locale

---
 geodiff/src/geodiffrebase.cpp | 3 +--
 geodiff/src/geodiffutils.cpp  | 3 ++-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 207efac..6e7fd5a 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -657,8 +657,7 @@ static bool _tables_match( const std::vector<std::string> &changesets )
     ChangesetEntry entry;
     while ( reader.nextEntry( entry ) )
     {
-      std::string name = entry.table->name;
-      std::transform( name.begin(), name.end(), name.begin(), []( unsigned char c ) { return ( char ) ::tolower( c ); } );
+      std::string name = lowercaseString( entry.table->name );
       auto it = tables.insert( std::make_pair( name, entry.table->primaryKeys ) ).first;
       if ( it->second != entry.table->primaryKeys )
         return false;
diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index 140a1c5..185f693 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -627,9 +627,10 @@ std::string concatNames( const std::vector<std::string> &names )
 
 std::string lowercaseString( const std::string &str )
 {
+  // only ASCII letters (as SQLite does it) and regardless of the current locale: in a Turkish one 'i' is not the lowercase of 'I'
   std::string ret = str;
   std::transform( ret.begin(), ret.end(), ret.begin(),
-  []( unsigned char c ) { return std::tolower( c ); } );
+  []( char c ) { return ( c >= 'A' && c <= 'Z' ) ? static_cast<char>( c - 'A' + 'a' ) : c; } );
   return ret;
 }
 
-- 
2.43.0


From aee630c0c99c62eb8ef4f98b2ee0f0db81b7086e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 56/62] fix: real numbers are read from PostgreSQL regardless
 of the current locale

---
 geodiff/src/drivers/postgresdriver.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 231ffa5..46de44c 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -465,7 +465,13 @@ static Value resultToValue( const PostgresResult &res, int r, size_t i, const Ta
     }
     else if ( isColumnDouble( col ) )
     {
-      v.setDouble( atof( valueStr.c_str() ) );
+      // not atof() alone which may expect a decimal comma (depends on the current locale)
+      double d;
+      std::istringstream stream( valueStr );
+      stream.imbue( std::locale::classic() );
+      if ( !( stream >> d ) )
+        d = atof( valueStr.c_str() );  // "Infinity", "-Infinity" and "NaN" are not known to streams
+      v.setDouble( d );
     }
     else if ( isColumnText( col ) )
     {
-- 
2.43.0


From ec065edf2f0ad109672b435fc7cfc2810187cf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:38 +0000
Subject: [PATCH 57/62] fix: SQLite's internal tables (statistics of ANALYZE)
 are ignored

---
 geodiff/src/drivers/sqlitedriver.cpp | 4 ++--
 geodiff/src/drivers/sqliteutils.cpp  | 4 ++--
 geodiff/src/geodiffutils.cpp         | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 3880bf6..7c61d0b 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -206,8 +206,8 @@ std::vector<std::string> SqliteDriver::listTables( bool useModified )
     // table handled by triggers rtree_*_geometry_*
     if ( startsWith( tableName, "rtree_" ) )
       continue;
-    // internal table for AUTOINCREMENT
-    if ( tableName == "sqlite_sequence" )
+    // internal tables (e.g. sqlite_sequence for AUTOINCREMENT, sqlite_stat1 of ANALYZE)
+    if ( startsWith( tableName, "sqlite_" ) )
       continue;
 
     tableNames.push_back( tableName );
diff --git a/geodiff/src/drivers/sqliteutils.cpp b/geodiff/src/drivers/sqliteutils.cpp
index cd2556e..fb1f378 100644
--- a/geodiff/src/drivers/sqliteutils.cpp
+++ b/geodiff/src/drivers/sqliteutils.cpp
@@ -404,8 +404,8 @@ void sqliteTables( std::shared_ptr<Sqlite3Db> db,
     // table handled by triggers rtree_*_geometry_*
     if ( startsWith( tableName, "rtree_" ) )
       continue;
-    // internal table for AUTOINCREMENT
-    if ( tableName == "sqlite_sequence" )
+    // internal tables (e.g. sqlite_sequence for AUTOINCREMENT, sqlite_stat1 of ANALYZE)
+    if ( startsWith( tableName, "sqlite_" ) )
       continue;
 
     tableNames.push_back( tableName );
diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index 185f693..c77c76e 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -375,8 +375,8 @@ bool isLayerTable( const std::string &tableName )
   // table handled by triggers rtree_*_geometry_*
   if ( startsWith( tableName, "rtree_" ) )
     return false;
-  // internal table for AUTOINCREMENT
-  if ( tableName == "sqlite_sequence" )
+  // internal tables (e.g. sqlite_sequence for AUTOINCREMENT, sqlite_stat1 of ANALYZE)
+  if ( startsWith( tableName, "sqlite_" ) )
     return false;
 
   return true;
-- 
2.43.0


From 133ec68b203655e06c1fb68a3085e2631b2d3745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:38 +0000
Subject: [PATCH 58/62] fix: rows with text keys inserted by several clients do
 not get the same new key

---
 geodiff/src/geodiffrebase.cpp | 24 +++++++++++++++++++++---
 geodiff/src/geodiffutils.cpp  | 22 +++++++++++++---------
 geodiff/src/geodiffutils.hpp  |  3 +++
 3 files changed, 37 insertions(+), 12 deletions(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 6e7fd5a..4188c48 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -237,6 +237,20 @@ static int64_t _next_primary_key( int64_t pk )
   return pk == std::numeric_limits<int64_t>::max() ? std::numeric_limits<int64_t>::min() : pk + 1;
 }
 
+//! Returns whether a row with given primary key - a number, or its text in a table with text keys - is among the rows
+static bool _contains_primary_key( const std::set<int64_t> &pkeys, int64_t pk )
+{
+  return pkeys.find( pk ) != pkeys.end() || pkeys.find( get_text_primary_key( std::to_string( pk ) ) ) != pkeys.end();
+}
+
+//! Returns the given primary key value, or the first one after it that is not used by any row inserted in theirs
+static int64_t _free_primary_key( int64_t pk, const std::set<int64_t> &inserted )
+{
+  while ( _contains_primary_key( inserted, pk ) )
+    pk = _next_primary_key( pk );
+  return pk;
+}
+
 int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseRebaseInfo &dbInfo,
                                      RebaseMapping &mapping )
 {
@@ -249,7 +263,7 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
     if ( oldSet.empty() )
       continue;  // TODO: or set 0 to free indices??
 
-    freeIndices[mapId.first] = _next_primary_key( *std::max_element( oldSet.begin(), oldSet.end() ) );
+    freeIndices[mapId.first] = _free_primary_key( _next_primary_key( *std::max_element( oldSet.begin(), oldSet.end() ) ), oldSet );
   }
 
   ChangesetEntry entry;
@@ -276,7 +290,7 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
         mapping.addPkeyMapping( tableName, pk, it->second );
 
         // increase counter
-        it->second = _next_primary_key( it->second );
+        it->second = _free_primary_key( _next_primary_key( it->second ), tableInfo.inserted );
       }
       else
       {
@@ -317,7 +331,10 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
     for ( auto oldNewPair : mapping.mapIds[tableName] )
     {
       if ( oldNewPair.second != RebaseMapping::INVALID_FID )
+      {
         usedNewPkeys.insert( oldNewPair.second );
+        usedNewPkeys.insert( get_text_primary_key( std::to_string( oldNewPair.second ) ) );
+      }
     }
 
     std::set<int64_t> pkeys = pair.second;
@@ -333,9 +350,10 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
 
         mapping.addPkeyMapping( tableName, pk, it->second );
         usedNewPkeys.insert( it->second );
+        usedNewPkeys.insert( get_text_primary_key( std::to_string( it->second ) ) );
 
         // increase counter
-        it->second = _next_primary_key( it->second );
+        it->second = _free_primary_key( _next_primary_key( it->second ), dbInfo.tables.at( tableName ).inserted );
       }
     }
   }
diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index c77c76e..016cb7e 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -385,6 +385,18 @@ bool isLayerTable( const std::string &tableName )
 
 ////
 
+int64_t get_text_primary_key( const std::string &str )
+{
+  // 64-bit FNV-1a - a weak hash would mix up different rows
+  uint64_t hash = 0xcbf29ce484222325ULL;
+  for ( unsigned char ch : str )
+  {
+    hash ^= ch;
+    hash *= 0x100000001b3ULL;
+  }
+  return static_cast<int64_t>( hash );
+}
+
 void get_primary_key( const ChangesetEntry &entry, int64_t &fid, int &nColumn )
 {
   const std::vector<bool> &tablePkeys = entry.table->primaryKeys;
@@ -430,15 +442,7 @@ void get_primary_key( const ChangesetEntry &entry, int64_t &fid, int &nColumn )
   }
   else if ( pkeyValue.type() == Value::TypeText )
   {
-    std::string str = pkeyValue.getString();
-    // 64-bit FNV-1a - a weak hash would mix up different rows
-    uint64_t hash = 0xcbf29ce484222325ULL;
-    for ( unsigned char ch : str )
-    {
-      hash ^= ch;
-      hash *= 0x100000001b3ULL;
-    }
-    fid = static_cast<int64_t>( hash );
+    fid = get_text_primary_key( pkeyValue.getString() );
   }
   else
   {
diff --git a/geodiff/src/geodiffutils.hpp b/geodiff/src/geodiffutils.hpp
index 6d18599..7a67fd0 100644
--- a/geodiff/src/geodiffutils.hpp
+++ b/geodiff/src/geodiffutils.hpp
@@ -105,6 +105,9 @@ int indexOf( const std::vector<std::string> &arr, const std::string &val );
 std::string concatNames( const std::vector<std::string> &names );
 
 
+//! Returns number identifying a row with given text primary key
+int64_t get_text_primary_key( const std::string &str );
+
 void get_primary_key( const ChangesetEntry &entry, int64_t &fid, int &nColumn );
 
 
-- 
2.43.0


From 7af87ed498fc230812d7c194d6c8b20af2a2f8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:00 +0000
Subject: [PATCH 59/62] fix: temporary files of a rebase do not replace other
 files next to the arguments

---
 geodiff/src/geodiff.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index 0755c8a..3cdc132 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -176,7 +176,8 @@ int GEODIFF_createRebasedChangeset( const char *base,
       driver->checkCompatibleForRebase();  // will throw GeoDiffException in case of problems
     }
 
-    TmpFile changeset_BASE_MODIFIED( std::string( changeset ) + "_BASE_MODIFIED" );
+    // (not a name next to the output that some other file may have)
+    TmpFile changeset_BASE_MODIFIED( tmpdir() + "geodiff_" + randomString( 6 ) + "_BASE_MODIFIED" );
     int rc = GEODIFF_createChangeset( base, modified, changeset_BASE_MODIFIED.c_path() );
     if ( rc != GEODIFF_SUCCESS )
       return rc;
@@ -394,7 +395,8 @@ int GEODIFF_rebase( const char *base,
     return GEODIFF_ERROR;
   }
 
-  std::string root = std::string( modified );
+  // (not a name next to the modified file that some other file may have)
+  std::string root = tmpdir() + "geodiff_" + randomString( 6 );
 
   TmpFile base2theirs( root + "_base2theirs.bin" );
   if ( GEODIFF_createChangeset( base, modified_their, base2theirs.c_path() ) != GEODIFF_SUCCESS )
-- 
2.43.0


From f2fd43f8e9484b002ee3c5ba85361a514585d912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:26 +0000
Subject: [PATCH 60/62] fix: changeset files too large for a buffer are
 reported instead of read in part

---
 geodiff/src/geodiffutils.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index 016cb7e..a405ae5 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -12,6 +12,7 @@
 #include <stdlib.h>
 #include <stdarg.h>
 #include <ctype.h>
+#include <limits.h>
 #include <string.h>
 #include <sqlite3.h>
 #include <exception>
@@ -109,6 +110,12 @@ void Buffer::read( const std::string &filename )
     fclose( fp );
     throw GeoDiffException( "Unable to read file size of " + filename );
   }
+  if ( off_end > INT_MAX )
+  {
+    // would not fit mAlloc: only a part of the file would be read
+    fclose( fp );
+    throw GeoDiffException( "File too large to read: " + filename );
+  }
   mAlloc = ( size_t )off_end;
   mUsed = mAlloc;
 
-- 
2.43.0


From f0455a348e04a9b016df0be13bd81c53cf02ef16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:17 +0000
Subject: [PATCH 61/62] fix: an output that is one of the inputs is refused
 instead of destroying that input

---
 geodiff/src/geodiff.cpp      | 43 ++++++++++++++++++++++++++++++++++++
 geodiff/src/geodiffutils.cpp | 11 +++++++++
 geodiff/src/geodiffutils.hpp |  3 +++
 3 files changed, 57 insertions(+)

diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index 3cdc132..57f9b17 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -58,6 +58,25 @@ void GEODIFF_setMaximumLoggerLevel( GEODIFF_LoggerLevel maxLogLevel )
   Logger::instance().setMaxLogLevel( maxLogLevel );
 }
 
+//! Returns whether an output would destroy one of the inputs (databases are files only with the sqlite driver)
+static bool outputIsInput( const char *output, const char *driverName, const std::vector<const char *> &databases,
+                           const std::vector<const char *> &files = std::vector<const char *>() )
+{
+  std::vector<const char *> inputs( files );
+  if ( strcmp( driverName, "sqlite" ) == 0 )
+    inputs.insert( inputs.end(), databases.begin(), databases.end() );
+
+  for ( const char *input : inputs )
+  {
+    if ( issamefile( output, input ) )
+    {
+      Logger::instance().error( "Output file is also an input: " + std::string( output ) );
+      return true;
+    }
+  }
+  return false;
+}
+
 int GEODIFF_createChangeset( const char *base, const char *modified, const char *changeset )
 {
   return GEODIFF_createChangesetEx( "sqlite", nullptr, base, modified, changeset );
@@ -79,6 +98,9 @@ int GEODIFF_createChangesetEx( const char *driverName, const char *driverExtraIn
     return GEODIFF_ERROR;
   }
 
+  if ( outputIsInput( changeset, driverName, { base, modified } ) )
+    return GEODIFF_ERROR;
+
   try
   {
     std::map<std::string, std::string> conn;
@@ -160,6 +182,11 @@ int GEODIFF_createRebasedChangeset( const char *base,
     Logger::instance().error( "NULL arguments to GEODIFF_createRebasedChangeset" );
     return GEODIFF_ERROR;
   }
+
+  if ( outputIsInput( changeset, "sqlite", { base, modified }, { changeset_their } ) ||
+       outputIsInput( conflictfile, "sqlite", { base, modified }, { changeset_their } ) )
+    return GEODIFF_ERROR;
+
   fileremove( conflictfile );
 
   try
@@ -205,6 +232,10 @@ int GEODIFF_createRebasedChangesetEx( const char *driverName,
     return GEODIFF_ERROR;
   }
 
+  if ( outputIsInput( rebased, driverName, { base }, { base2modified, base2their } ) ||
+       outputIsInput( conflictfile, driverName, { base }, { base2modified, base2their } ) )
+    return GEODIFF_ERROR;
+
   // TODO: use driverName + driverExtraInfo + base when creating rebased
   // changeset (e.g. to check whether a newly created ID is actually free)
 
@@ -389,6 +420,9 @@ int GEODIFF_rebase( const char *base,
     return GEODIFF_ERROR;
   }
 
+  if ( outputIsInput( conflictfile, "sqlite", { base, modified_their, modified } ) )
+    return GEODIFF_ERROR;
+
   if ( !fileexists( base ) || !fileexists( modified_their ) || !fileexists( modified ) )
   {
     Logger::instance().error( "Missing input files in GEODIFF_rebase" );
@@ -422,6 +456,9 @@ int GEODIFF_rebaseEx( const char *driverName,
     return GEODIFF_ERROR;
   }
 
+  if ( outputIsInput( conflictfile, driverName, { base, modified }, { base2their } ) )
+    return GEODIFF_ERROR;
+
   fileremove( conflictfile );
 
   try
@@ -507,6 +544,9 @@ int GEODIFF_makeCopy( const char *driverSrcName, const char *driverSrcExtraInfo,
     return GEODIFF_ERROR;
   }
 
+  if ( strcmp( driverSrcName, driverDstName ) == 0 && outputIsInput( dst, driverSrcName, { src } ) )
+    return GEODIFF_ERROR;
+
   std::unique_ptr<Driver> driverSrc( Driver::createDriver( std::string( driverSrcName ) ) );
   if ( !driverSrc )
   {
@@ -589,6 +629,9 @@ int GEODIFF_dumpData( const char *driverName, const char *driverExtraInfo, const
     return GEODIFF_ERROR;
   }
 
+  if ( outputIsInput( changeset, driverName, { src } ) )
+    return GEODIFF_ERROR;
+
   std::unique_ptr<Driver> driver( Driver::createDriver( std::string( driverName ) ) );
   if ( !driver )
   {
diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index a405ae5..0ea5384 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -336,6 +336,17 @@ bool fileexists( const std::string &path )
 #endif
 }
 
+bool issamefile( const std::string &path1, const std::string &path2 )
+{
+#ifdef WIN32
+  return path1 == path2 && fileexists( path1 );
+#else
+  struct stat buffer1, buffer2;
+  return stat( path1.c_str(), &buffer1 ) == 0 && stat( path2.c_str(), &buffer2 ) == 0 &&
+         buffer1.st_dev == buffer2.st_dev && buffer1.st_ino == buffer2.st_ino;
+#endif
+}
+
 bool startsWith( const std::string &str, const std::string &substr )
 {
   if ( str.size() < substr.size() )
diff --git a/geodiff/src/geodiffutils.hpp b/geodiff/src/geodiffutils.hpp
index 7a67fd0..ddf84bc 100644
--- a/geodiff/src/geodiffutils.hpp
+++ b/geodiff/src/geodiffutils.hpp
@@ -84,6 +84,9 @@ void fileremove( const std::string &path );
 //! whether file exists
 bool fileexists( const std::string &path );
 
+//! Returns whether both paths lead to the same existing file (also through links)
+bool issamefile( const std::string &path1, const std::string &path2 );
+
 //! whether string starts with substring
 bool startsWith( const std::string &str, const std::string &substr );
 
-- 
2.43.0


From 552f0b5fb72ac76db599d999f962b2de8823f624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:36 +0000
Subject: [PATCH 62/62] fix: a changeset or dump of PostgreSQL schemas mixed
 several states when another client was changing them

---
 geodiff/src/drivers/postgresdriver.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 46de44c..8a11a8b 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -33,10 +33,11 @@
 class PostgresTransaction
 {
   public:
-    PostgresTransaction( PGconn *conn )
+    //! With readSnapshot set, all queries see the same state of the database even if other clients modify it meanwhile
+    PostgresTransaction( PGconn *conn, bool readSnapshot = false )
       : mConn( conn )
     {
-      PostgresResult res( execSql( mConn, "BEGIN" ) );
+      PostgresResult res( execSql( mConn, readSnapshot ? "BEGIN ISOLATION LEVEL REPEATABLE READ READ ONLY" : "BEGIN" ) );
       if ( res.status() != PGRES_COMMAND_OK )
         throw GeoDiffException( "Unable to start transaction" );
     }
@@ -666,6 +667,8 @@ void PostgresDriver::createChangeset( ChangesetWriter &writer )
   if ( !mConn )
     throw GeoDiffException( "Not connected to a database" );
 
+  PostgresTransaction readTransaction( mConn, true );
+
   std::vector<std::string> tablesBase = listTables( false );
   std::vector<std::string> tablesModified = listTables( true );
 
@@ -999,6 +1002,8 @@ void PostgresDriver::dumpData( ChangesetWriter &writer, bool useModified )
   if ( !mConn )
     throw GeoDiffException( "Not connected to a database" );
 
+  PostgresTransaction readTransaction( mConn, true );
+
   std::vector<std::string> tables = listTables();
   for ( const std::string &tableName : tables )
   {
-- 
2.43.0

