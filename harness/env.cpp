#include "env.hpp"
#include <cstring>
#include <mutex>
#include <unistd.h>

static std::mutex gLogMutex;
static std::vector<LogMsg> gLog;
static std::function<void(const char *)> gYield;
void setYield(std::function<void(const char *)> f) { gYield = std::move(f); }
static void yieldPoint(const char *w) { if (gYield) gYield(w); }

extern "C" void harnessLog(GEODIFF_LoggerLevel level, const char *msg) {
  { std::lock_guard<std::mutex> g(gLogMutex); if (gLog.size() < 2000) gLog.push_back({(int)level, msg}); }
  yieldPoint("log");
}
std::vector<LogMsg> takeLog() { std::lock_guard<std::mutex> g(gLogMutex); std::vector<LogMsg> r; r.swap(gLog); return r; }
std::string logText() {
  std::string s;
  for (auto &m : takeLog()) if (m.level <= 2 && s.size() < 2000) s += "[" + std::to_string(m.level) + "] " + m.text.substr(0, 500) + "\n";
  return s;
}

namespace fvfs {
static bool gOn = false, gFired = false, gDead = false;
static int gKinds = 0;
static Mode gMode = COUNT;
static int64_t gAt = -1, gCount = 0;
static uint64_t gSeed = 0;
static std::string gWhat;

struct Undo { sqlite3_int64 off; std::string old; sqlite3_int64 size; };
struct File {
  sqlite3_file base;
  sqlite3_file *real;
  std::vector<Undo> *undo;
  char *name;
};
static std::vector<File *> gOpen;
static sqlite3_vfs *gReal;

void start(int kinds, Mode mode, int64_t at, uint64_t seed) { gKinds = kinds; gMode = mode; gAt = at; gSeed = seed; gCount = 0; gFired = gDead = false; gOn = true; gWhat.clear(); }
int64_t stop() { gOn = false; return gCount; }
bool fired() { return gFired; }
const char *firedWhat() { return gWhat.c_str(); }

static void powerLoss() {
  // of the writes that were not synced only a prefix (chosen per file) reached the disk
  for (File *f : gOpen) {
    if (!f->undo || f->undo->empty()) continue;
    gSeed = pbt::mix(gSeed, 77);
    size_t keep = gSeed % 3 == 0 ? 0 : gSeed % (f->undo->size() + 1);
    for (size_t k = f->undo->size(); k > keep; --k) {
      Undo &u = (*f->undo)[k - 1];
      if (!u.old.empty()) f->real->pMethods->xWrite(f->real, u.old.data(), (int)u.old.size(), u.off);
      f->real->pMethods->xTruncate(f->real, u.size);
    }
  }
}
// true: this operation has to fail
static bool hit(int kind, const char *what, const char *name, File *f = nullptr, const void *buf = nullptr, int n = 0, sqlite3_int64 off = 0) {
  yieldPoint(what);
  if (!gOn || !(gKinds & kind)) return false;
  int64_t k = gCount++;
  if (gMode == COUNT) return false;
  if (gMode == ERR_ON && gFired) return true;
  if (k != gAt) return false;
  gFired = true;
  gWhat = std::string(what) + " " + (name ? name : "");
  if (gMode == CRASH) _exit(77);
  if (gMode == CRASH_TORN) { if (f && buf && n > 1) f->real->pMethods->xWrite(f->real, buf, n / 2, off); _exit(77); }
  if (gMode == POWER) { powerLoss(); _exit(77); }
  return true;
}

#define R(p) (((File *)(p))->real)
static int xClose(sqlite3_file *p) {
  File *f = (File *)p;
  int rc = f->real->pMethods ? f->real->pMethods->xClose(f->real) : SQLITE_OK;
  for (size_t i = 0; i < gOpen.size(); ++i) if (gOpen[i] == f) { gOpen.erase(gOpen.begin() + i); break; }
  delete f->undo;
  free(f->name);
  free(f->real);
  return rc;
}
static int xRead(sqlite3_file *p, void *b, int n, sqlite3_int64 o) { if (hit(READ, "read", ((File *)p)->name)) return SQLITE_IOERR_READ; return R(p)->pMethods->xRead(R(p), b, n, o); }
static void record(File *f, int n, sqlite3_int64 o) {
  if (gMode != POWER || !gOn || !f->undo) return;
  Undo u;
  u.off = o;
  f->real->pMethods->xFileSize(f->real, &u.size);
  if (o < u.size && n > 0) {
    int m = (int)std::min<sqlite3_int64>(n, u.size - o);
    u.old.resize(m);
    if (f->real->pMethods->xRead(f->real, &u.old[0], m, o) != SQLITE_OK) u.old.clear();
  }
  f->undo->push_back(u);
}
static int xWrite(sqlite3_file *p, const void *b, int n, sqlite3_int64 o) {
  if (hit(WRITE, "write", ((File *)p)->name, (File *)p, b, n, o)) return SQLITE_FULL;
  record((File *)p, n, o);
  return R(p)->pMethods->xWrite(R(p), b, n, o);
}
static int xTruncate(sqlite3_file *p, sqlite3_int64 s) {
  if (hit(TRUNC, "truncate", ((File *)p)->name)) return SQLITE_IOERR_TRUNCATE;
  File *f = (File *)p;
  if (gMode == POWER && gOn && f->undo) {
    sqlite3_int64 size = 0;
    f->real->pMethods->xFileSize(f->real, &size);
    if (size > s) record(f, (int)(size - s), s);
  }
  return R(p)->pMethods->xTruncate(R(p), s);
}
static int xSync(sqlite3_file *p, int fl) {
  if (hit(SYNC, "sync", ((File *)p)->name)) return SQLITE_IOERR_FSYNC;
  if (((File *)p)->undo) ((File *)p)->undo->clear();
  return gOn ? SQLITE_OK : R(p)->pMethods->xSync(R(p), fl);
}
static int xFileSize(sqlite3_file *p, sqlite3_int64 *s) { if (hit(SIZE, "size", ((File *)p)->name)) return SQLITE_IOERR_FSTAT; return R(p)->pMethods->xFileSize(R(p), s); }
static int xLock(sqlite3_file *p, int l) { if (hit(LOCK, "lock", ((File *)p)->name)) return SQLITE_IOERR_LOCK; return R(p)->pMethods->xLock(R(p), l); }
static int xUnlock(sqlite3_file *p, int l) { return R(p)->pMethods->xUnlock(R(p), l); }
static int xCheck(sqlite3_file *p, int *o) { return R(p)->pMethods->xCheckReservedLock(R(p), o); }
static int xControl(sqlite3_file *p, int op, void *a) { return R(p)->pMethods->xFileControl(R(p), op, a); }
static int xSector(sqlite3_file *p) { return R(p)->pMethods->xSectorSize(R(p)); }
static int xChar(sqlite3_file *p) { return R(p)->pMethods->xDeviceCharacteristics(R(p)); }
static int xShmMap(sqlite3_file *p, int a, int b, int c, void volatile **d) { return R(p)->pMethods->xShmMap(R(p), a, b, c, d); }
static int xShmLock(sqlite3_file *p, int a, int b, int c) { return R(p)->pMethods->xShmLock(R(p), a, b, c); }
static void xShmBarrier(sqlite3_file *p) { R(p)->pMethods->xShmBarrier(R(p)); }
static int xShmUnmap(sqlite3_file *p, int d) { return R(p)->pMethods->xShmUnmap(R(p), d); }
static const sqlite3_io_methods kMethods = {2, xClose, xRead, xWrite, xTruncate, xSync, xFileSize, xLock, xUnlock, xCheck, xControl, xSector, xChar, xShmMap, xShmLock, xShmBarrier, xShmUnmap, nullptr, nullptr};

static int vOpen(sqlite3_vfs *, const char *name, sqlite3_file *p, int flags, int *out) {
  File *f = (File *)p;
  memset(f, 0, sizeof *f);
  if (hit(OPEN, "open", name)) return SQLITE_CANTOPEN;
  f->real = (sqlite3_file *)malloc(gReal->szOsFile);
  memset(f->real, 0, gReal->szOsFile);
  int rc = gReal->xOpen(gReal, name, f->real, flags, out);
  if (rc != SQLITE_OK) { free(f->real); f->real = nullptr; return rc; }
  f->undo = new std::vector<Undo>;
  f->name = strdup(name ? name : "(temp)");
  f->base.pMethods = &kMethods;
  if (gOn) gOpen.push_back(f);
  return SQLITE_OK;
}
static int vDelete(sqlite3_vfs *, const char *n, int d) { if (hit(DEL, "delete", n)) return SQLITE_IOERR_DELETE; return gReal->xDelete(gReal, n, gOn ? 0 : d); }
static int vAccess(sqlite3_vfs *, const char *n, int f, int *o) { yieldPoint("access"); return gReal->xAccess(gReal, n, f, o); }
static int vFull(sqlite3_vfs *, const char *n, int s, char *o) { return gReal->xFullPathname(gReal, n, s, o); }
static int vRandom(sqlite3_vfs *, int n, char *o) { return gReal->xRandomness(gReal, n, o); }
static int vSleep(sqlite3_vfs *, int us) { return gReal->xSleep(gReal, us); }
static int vTime(sqlite3_vfs *, double *t) { return gReal->xCurrentTime(gReal, t); }
static int vErr(sqlite3_vfs *, int n, char *o) { return gReal->xGetLastError ? gReal->xGetLastError(gReal, n, o) : 0; }
static int vTime64(sqlite3_vfs *, sqlite3_int64 *t) { return gReal->xCurrentTimeInt64(gReal, t); }

static sqlite3_vfs gVfs;
void install() {
  gReal = sqlite3_vfs_find("unix");
  memset(&gVfs, 0, sizeof gVfs);
  gVfs.iVersion = 2;
  gVfs.szOsFile = sizeof(File);
  gVfs.mxPathname = gReal->mxPathname;
  gVfs.zName = "harness";
  gVfs.xOpen = vOpen; gVfs.xDelete = vDelete; gVfs.xAccess = vAccess; gVfs.xFullPathname = vFull;
  gVfs.xRandomness = vRandom; gVfs.xSleep = vSleep; gVfs.xCurrentTime = vTime; gVfs.xGetLastError = vErr; gVfs.xCurrentTimeInt64 = vTime64;
  sqlite3_vfs_register(&gVfs, 1);
}
}  // namespace fvfs

// ---- SQLite's memory can run out
namespace fmem {
static sqlite3_mem_methods gReal;
static bool gOn = false, gFired = false, gOnce = false;
static int64_t gAt = -1, gCount = 0;
void start(int64_t at, bool once) { gAt = at; gOnce = once; gCount = 0; gFired = false; gOn = true; }
int64_t stop() { gOn = false; return gCount; }
bool fired() { return gFired; }
static bool hit() {
  if (!gOn) return false;
  int64_t k = gCount++;
  if (gFired && !gOnce) return true;
  if (k != gAt) return false;
  return gFired = true;
}
static void *mMalloc(int n) { return hit() ? nullptr : gReal.xMalloc(n); }
static void *mRealloc(void *p, int n) { return hit() ? nullptr : gReal.xRealloc(p, n); }
static void install() {
  if (sqlite3_config(SQLITE_CONFIG_GETMALLOC, &gReal) != SQLITE_OK) return;
  sqlite3_mem_methods m = gReal;
  m.xMalloc = mMalloc;
  m.xRealloc = mRealloc;
  sqlite3_config(SQLITE_CONFIG_MALLOC, &m);
}
}  // namespace fmem

void harnessInit() {
  { static bool once = false; if (!once) { once = true; fmem::install(); } }
  GEODIFF_init();
  static bool done = false;
  if (!done) { done = true; fvfs::install(); }
  GEODIFF_setLoggerCallback(harnessLog);
  GEODIFF_setMaximumLoggerLevel(LevelDebug);
}

void noLeftovers(pbt::Ctx &c, const std::set<std::string> &allowed) {
  for (auto &n : listDir(c.dir))
    if (n != "tmp" && !allowed.count(n)) c.fail("left-over file: " + n);
}

// ---- blocks of memory in use (glibc lets a program bring its own malloc; this one only counts)
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__) && !defined(__clang__)
#include <atomic>
#include <cerrno>
static std::atomic<int64_t> gBlocks{0};
int64_t heapBlocks() { return gBlocks.load(); }
extern "C" {
void *__libc_malloc(size_t);
void __libc_free(void *);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
void *malloc(size_t n) { void *p = __libc_malloc(n); if (p) gBlocks.fetch_add(1, std::memory_order_relaxed); return p; }
void free(void *p) { if (p) gBlocks.fetch_sub(1, std::memory_order_relaxed); __libc_free(p); }
void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); if (p) gBlocks.fetch_add(1, std::memory_order_relaxed); return p; }
void *realloc(void *p, size_t n) {
  void *r = __libc_realloc(p, n);
  if (!p && r) gBlocks.fetch_add(1, std::memory_order_relaxed);
  if (p && !r && n == 0) gBlocks.fetch_sub(1, std::memory_order_relaxed);
  return r;
}
void *memalign(size_t a, size_t n) { void *p = __libc_memalign(a, n); if (p) gBlocks.fetch_add(1, std::memory_order_relaxed); return p; }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **o, size_t a, size_t n) { *o = memalign(a, n); return *o ? 0 : ENOMEM; }
}
#else
int64_t heapBlocks() { return 0; }
#endif
