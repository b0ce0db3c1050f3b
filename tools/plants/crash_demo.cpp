#include "demo.hpp"
#include <dlfcn.h>
#include <sys/wait.h>
#include <unistd.h>
// dies in the middle of the writes of an apply: a storage layer on top of the default one ends the process at write number k
static int gLeft = -1;
static sqlite3_vfs gVfs;
static sqlite3_io_methods gIo;
static const sqlite3_io_methods *gReal;
static int wr(sqlite3_file *f, const void *p, int n, sqlite3_int64 o) { if (gLeft >= 0 && gLeft-- == 0) _exit(77); return gReal->xWrite(f, p, n, o); }
static int op(sqlite3_vfs *, const char *n, sqlite3_file *f, int fl, int *out) {
  sqlite3_vfs *d = (sqlite3_vfs *)gVfs.pAppData;
  int rc = d->xOpen(d, n, f, fl, out);
  if (rc == 0 && f->pMethods) { gReal = f->pMethods; gIo = *gReal; gIo.xWrite = wr; f->pMethods = &gIo; }
  return rc;
}
int main() {
  sqlite3_initialize();
  sqlite3_vfs *d = sqlite3_vfs_find(0);
  S q = "create table t(id integer primary key, v); begin;";
  for (int i = 1; i <= 300; ++i) q += "insert into t values(" + std::to_string(i) + ", hex(zeroblob(200)));";
  sql("a.db", q + "commit;");
  cp("a.db", "b.db");
  sql("b.db", "update t set v = hex(randomblob(200))");
  CHECK(diff("a.db", "b.db", "c.bin") == 0);
  S olds = rows("a.db", "select * from t"), news = rows("b.db", "select * from t");
  for (int k = 0; k < 200; ++k) {
    cp("a.db", "w.db"); remove("w.db-journal");
    fflush(stdout);
    pid_t p = fork();
    if (!p) {
      gVfs = *d; gVfs.zName = "dying"; gVfs.pAppData = d; gVfs.xOpen = op;
      sqlite3_vfs_register(&gVfs, 1);
      gLeft = k;
      _exit(apply("w.db", "c.bin"));
    }
    int st; waitpid(p, &st, 0);
    S now = rows("w.db", "select * from t");
    CHECK(now == olds || now == news);
    CHECK(rows("w.db", "pragma integrity_check") == "ok\n");
    if (WEXITSTATUS(st) != 77) break;
  }
  return 0;
}
