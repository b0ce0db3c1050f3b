#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "demo.hpp"
#include <dlfcn.h>
// files named *.sick fail to be read after some bytes
struct Sick { FILE *f; long left; };
static long gLimit = 40;
static ssize_t rd(void *c, char *b, size_t n) { Sick *s = (Sick *)c; long p = ftell(s->f); if (p >= gLimit) { errno = 5; return -1; } if ((long)n > gLimit - p) n = gLimit - p; return fread(b, 1, n, s->f); }
static int sk(void *c, off64_t *o, int w) { Sick *s = (Sick *)c; if (fseek(s->f, *o, w)) return -1; *o = ftell(s->f); return 0; }
static int cl(void *c) { Sick *s = (Sick *)c; int r = fclose(s->f); delete s; return r; }
extern "C" FILE *fopen(const char *p, const char *m) {
  FILE *f = ((FILE * (*)(const char *, const char *))dlsym(RTLD_NEXT, "fopen"))(p, m);
  S n = p;
  if (!f || n.size() < 5 || n.substr(n.size() - 5) != ".sick") return f;
  return fopencookie(new Sick{f, 0}, m, cookie_io_functions_t{rd, nullptr, sk, cl});
}
int main() {
  sql("a.db", "create table t(id integer primary key, v)");
  cp("a.db", "b.db");
  sql("b.db", "insert into t values(1, 1), (2, 2), (3, 3)");
  CHECK(diff("a.db", "b.db", "c.bin") == 0);
  cp("c.bin", "c.tmp"); rename("c.tmp", "c.sick");
  for (gLimit = 1; gLimit < (long)slurp("c.bin").size(); ++gLimit) {
    CHECK(GEODIFF_changesCount("c.sick") == -1);
    cp("a.db", "w.db");
    CHECK(apply("w.db", "c.sick") != 0);
  }
  gLimit = 100000;
  CHECK(GEODIFF_changesCount("c.sick") == 3);
  return 0;
}
