/* Stand-in for libgpkg (not available here): the few SQL functions GeoDiff needs in a GeoPackage. */
#ifndef GPKG_STUB_H
#define GPKG_STUB_H
#include <sqlite3.h>
#ifdef __cplusplus
extern "C" {
#endif
struct sqlite3_api_routines;
int sqlite3_gpkg_auto_init( sqlite3 *db, char **pzErrMsg, const struct sqlite3_api_routines *pThunk );
#ifdef __cplusplus
}
#endif
#endif
