/* ST_IsEmpty, ST_MinX/MaxX/MinY/MaxY over GeoPackage geometry blobs (header envelope or a bare WKB point),
   and InitSpatialMetadata(). */
#include "gpkg.h"
#include <string.h>
#include <math.h>
#include <stdlib.h>

static double rd( const unsigned char *p, int le )
{
  unsigned char b[8];
  for ( int i = 0; i < 8; ++i ) b[i] = le ? p[i] : p[7 - i];
  double d;
  memcpy( &d, b, 8 );
  return d;
}

/* returns 0 on success and sets empty / box (minx, maxx, miny, maxy) */
static int parse( const unsigned char *p, int n, int *empty, double *box )
{
  if ( !p || n < 8 || p[0] != 'G' || p[1] != 'P' ) return 1;
  int flags = p[3], le = flags & 1, env = ( flags >> 1 ) & 7;
  *empty = ( flags >> 4 ) & 1;
  int envLen = env == 0 ? 0 : env == 1 ? 32 : env == 2 || env == 3 ? 48 : env == 4 ? 64 : -1;
  if ( envLen < 0 || n < 8 + envLen ) return 1;
  if ( *empty ) return 0;
  if ( env )
  {
    for ( int i = 0; i < 4; ++i ) box[i] = rd( p + 8 + 8 * i, le );
    return 0;
  }
  const unsigned char *w = p + 8;
  if ( n < 8 + 21 ) return 1;
  double x = rd( w + 5, w[0] ), y = rd( w + 13, w[0] );
  if ( isnan( x ) || isnan( y ) ) { *empty = 1; return 0; }
  box[0] = box[1] = x;
  box[2] = box[3] = y;
  return 0;
}

static void fnIsEmpty( sqlite3_context *c, int argc, sqlite3_value **argv )
{
  int empty;
  double box[4];
  ( void )argc;
  if ( parse( sqlite3_value_blob( argv[0] ), sqlite3_value_bytes( argv[0] ), &empty, box ) ) { sqlite3_result_null( c ); return; }
  sqlite3_result_int( c, empty );
}
static void fnBox( sqlite3_context *c, int argc, sqlite3_value **argv )
{
  int empty;
  double box[4];
  ( void )argc;
  if ( parse( sqlite3_value_blob( argv[0] ), sqlite3_value_bytes( argv[0] ), &empty, box ) || empty ) { sqlite3_result_null( c ); return; }
  sqlite3_result_double( c, box[( int )( size_t )sqlite3_user_data( c )] );
}
static void fnInit( sqlite3_context *c, int argc, sqlite3_value **argv )
{
  ( void )argc; ( void )argv;
  sqlite3 *db = sqlite3_context_db_handle( c );
  int rc = sqlite3_exec( db,
                         "CREATE TABLE IF NOT EXISTS gpkg_spatial_ref_sys (srs_name TEXT NOT NULL,srs_id INTEGER NOT NULL PRIMARY KEY,organization TEXT NOT NULL,organization_coordsys_id INTEGER NOT NULL,definition TEXT NOT NULL,description TEXT);"
                         "CREATE TABLE IF NOT EXISTS gpkg_contents (table_name TEXT NOT NULL PRIMARY KEY,data_type TEXT NOT NULL,identifier TEXT UNIQUE,description TEXT DEFAULT '',last_change DATETIME NOT NULL DEFAULT (strftime('%Y-%m-%dT%H:%M:%fZ','now')),min_x DOUBLE, min_y DOUBLE,max_x DOUBLE, max_y DOUBLE,srs_id INTEGER);"
                         "CREATE TABLE IF NOT EXISTS gpkg_geometry_columns (table_name TEXT NOT NULL,column_name TEXT NOT NULL,geometry_type_name TEXT NOT NULL,srs_id INTEGER NOT NULL,z TINYINT NOT NULL,m TINYINT NOT NULL,CONSTRAINT pk_geom_cols PRIMARY KEY (table_name, column_name));",
                         0, 0, 0 );
  if ( rc ) { sqlite3_result_error( c, sqlite3_errmsg( db ), -1 ); return; }
  sqlite3_result_null( c );
}

int sqlite3_gpkg_auto_init( sqlite3 *db, char **pzErrMsg, const struct sqlite3_api_routines *pThunk )
{
  ( void )pzErrMsg; ( void )pThunk;
  int f = SQLITE_UTF8 | SQLITE_DETERMINISTIC;
  int rc = sqlite3_create_function( db, "ST_IsEmpty", 1, f, 0, fnIsEmpty, 0, 0 );
  const char *names[4] = { "ST_MinX", "ST_MaxX", "ST_MinY", "ST_MaxY" };
  for ( int i = 0; i < 4 && rc == SQLITE_OK; ++i )
    rc = sqlite3_create_function( db, names[i], 1, f, ( void * )( size_t )i, fnBox, 0, 0 );
  if ( rc == SQLITE_OK ) rc = sqlite3_create_function( db, "InitSpatialMetadata", 1, SQLITE_UTF8, 0, fnInit, 0, 0 );
  return rc;
}
