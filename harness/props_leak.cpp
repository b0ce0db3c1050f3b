// C29: every call gives back what it took.
#include "changesets.hpp"
#include "pgen.hpp"
#include "scene.hpp"
#include <algorithm>
#include <clocale>
#include <csignal>
#include <cstring>
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
using pbt::Ctx;

namespace {
struct Usage {
  std::vector<std::string> fds;
  int64_t sqlite = 0, conns = 0, results = 0;
  int tasks = 0;
  mode_t mask = 0;
  std::string cwd, loc, sig;
};
Usage usage() {
  Usage u;
  if (DIR *d = opendir("/proc/self/fd")) {
    while (dirent *e = readdir(d)) {
      if (e->d_name[0] == '.' || atoi(e->d_name) == dirfd(d)) continue;
      char to[4096];
      ssize_t n = readlink((std::string("/proc/self/fd/") + e->d_name).c_str(), to, sizeof to);
      u.fds.push_back(std::string(e->d_name) + " " + std::string(to, n > 0 ? n : 0));
    }
    closedir(d);
  }
  if (DIR *d = opendir("/proc/self/task")) { while (dirent *e = readdir(d)) u.tasks += e->d_name[0] != '.'; closedir(d); }
  u.sqlite = sqlite3_memory_used();
  u.conns = fpg::server().liveConns; u.results = fpg::server().liveResults;
  u.mask = umask(0); umask(u.mask);
  char b[4096];
  u.cwd = getcwd(b, sizeof b) ? b : "";
  u.loc = setlocale(LC_ALL, nullptr);
  for (int s : {SIGINT, SIGTERM, SIGPIPE, SIGXFSZ, SIGSEGV}) { struct sigaction a; sigaction(s, nullptr, &a); u.sig += std::to_string((intptr_t)a.sa_handler) + " "; }
  std::sort(u.fds.begin(), u.fds.end());
  return u;
}
std::string minus(const std::vector<std::string> &a, const std::vector<std::string> &b) {
  std::string r;
  for (auto &x : a) if (std::find(b.begin(), b.end(), x) == b.end()) r += (r.empty() ? "" : ", ") + x;
  return r;
}
// prepare, then call, again and again; what is not given back
void measure(Ctx &c, const std::function<void()> &prepare, const std::function<int()> &call, const std::function<void()> &after) {
  int first = 0;
  std::vector<int64_t> heap;
  for (int round = 0; round < 12; ++round) {
    takeLog();
    prepare();
    Usage a = usage();
    heap.push_back(heapBlocks());
    if (round == 6) {   // two to warm up; memory that grows in every round after that is looked at again
      bool grows = true;
      for (size_t i = 2; i < heap.size(); ++i) grows &= heap[i] > heap[i - 1];
      if (!grows) break;
    }
    int rc = call();
    Usage b = usage();
    if (after) after();
    takeLog();
    if (round == 0) first = rc;
    std::string R = " (returned " + std::to_string(rc) + ")";
    if (rc != first) c.fail("the same call returned " + std::to_string(first) + " first and " + std::to_string(rc) + " when repeated");
    if (a.fds != b.fds) {
      std::string more = minus(b.fds, a.fds), less = minus(a.fds, b.fds);
      c.fail((more.empty() ? "" : "left open: " + more) + (less.empty() ? "" : " closed although not its own: " + less) + R);
    }
    if (round && a.sqlite != b.sqlite) c.fail("SQLite's memory: " + std::to_string(b.sqlite - a.sqlite) + " bytes not given back" + R);
    if (a.conns != b.conns) c.fail(std::to_string(b.conns - a.conns) + " connections to PostgreSQL not released" + R);
    if (a.results != b.results) c.fail(std::to_string(b.results - a.results) + " results of PostgreSQL not released" + R);
    if (a.tasks != b.tasks) c.fail("threads left running" + R);
    if (a.mask != b.mask || a.cwd != b.cwd || a.loc != b.loc || a.sig != b.sig) c.fail("the call changed the umask, the working directory, the locale or a signal handler" + R);
  }
  if (heap.size() == 12) {
    bool grows = true;
    std::string h;
    for (size_t i = 2; i < heap.size(); ++i) { grows &= heap[i] > heap[i - 1]; h += " " + std::to_string(heap[i] - heap[i - 1]); }
    if (grows) c.fail("the heap grows with every call:" + h + " blocks (returned " + std::to_string(first) + ")");
  }
}
}  // namespace

static void c29(Ctx &c) {
  auto &s = c.src;
  bool big = s.below(6) == 5;
  Scene sc = genScene(c, big);
  Paths p;
  for (auto k : {"base", "ours", "theirs", "bare", "b2o", "b2t", "garbage", "short", "bad", "empty", "other", "missing", "out", "conf", "copy"}) p[k] = c.dir + k;
  p["dir"] = c.dir + "folder";
  p["nodir"] = c.dir + "none/out";
  auto calls = sceneCalls(sc);
  SceneCall call = calls[s.below(calls.size())];
  std::string sit = "good arguments";
  int kind = (int)s.weighted({3, 6, 6, 5, 2});
  bool fault = kind >= 2;
  if (kind == 1) { sit = "with " + spoil(s, call); if (s.below(4) == 3) sit += ", " + spoil(s, call); }
  bool stale = s.below(3) == 2;
  int64_t n = 0, at = -1;
  bool once = s.below(2);
  static const int kinds[] = {fvfs::ALL_IO, fvfs::ALL_IO, fvfs::READ, fvfs::WRITE | fvfs::TRUNC | fvfs::SYNC, fvfs::OPEN, fvfs::LOCK, fvfs::DEL | fvfs::SIZE};
  int io = kinds[s.below(7)];
  std::string readPath;
  if (kind == 4) { for (auto &a : call.args) if (a.role == 'c') readPath = p[a.key]; if (readPath.empty()) { kind = 2; } }
  auto prepare = [&]() {
    placeScene(sc, p);
    if (stale) for (auto k : {"out", "conf"}) writeFile(p[k], std::string(300, 'o'));
  };
  auto run = [&]() -> int {
    if (kind == 2) fvfs::start(io, at < 0 ? fvfs::COUNT : once ? fvfs::ERR_ONCE : fvfs::ERR_ON, at);
    if (kind == 3) fmem::start(at, once);
    if (kind == 4) rf::start(readPath, at, once);
    int rc = 0;
    try { rc = runCall(call, p); } catch (...) { fvfs::stop(); fmem::stop(); rf::stop(); throw; }
    if (kind == 2) n = fvfs::stop();
    if (kind == 3) n = fmem::stop();
    if (kind == 4) n = rf::stop();
    return rc;
  };
  if (fault) {
    prepare();
    run();
    if (n == 0) { kind = 0; fault = false; }
    else {
      at = s.below(3) == 2 ? n - 1 - (int64_t)s.below(std::min<int64_t>(n, 6)) : (int64_t)s.below(n);
      static const char *what[] = {"", "", "storage fails", "SQLite's memory runs out", "reading the changeset fails"};
      sit = std::string(what[kind]) + (once ? " once, at " : " from ") + std::to_string(at) + " of " + std::to_string(n);
    }
  }
  c.desc << show(call) << ", " << sit << (stale ? ", outputs exist" : "") << "\n";
  c.label(call.name);
  int rc = 0;
  measure(c, prepare, [&]() { return rc = run(); }, nullptr);
  c.label(rc == 0 || (call.counts && rc > 0) ? "succeeds" : "fails");
  static const char *lab[] = {"good arguments", "unfit arguments", "storage fault", "no memory", "changeset read fault"};
  c.label(lab[kind]);
  if (rc != 0 || big) c.nontrivial();
  for (auto &n2 : listDir(c.dir)) if (n2.rfind("tmp/", 0) == 0) c.fail("temporary file left: " + n2);
  // nothing is locked
  placeScene(sc, p);
  run();
  for (auto k : {"base", "ours", "theirs"}) {
    Db db(p[k], SQLITE_OPEN_READWRITE);
    sqlite3_busy_timeout(db.h, 0);
    std::string e;
    if (!db.exec("BEGIN EXCLUSIVE", &e)) c.fail(std::string(k) + " is locked after the call: " + e);
    db.exec("ROLLBACK");
  }
}
static pbt::Reg r29({"C29.files", c29, "one of the 15 calls on a generated set of files (two histories of one base), with good arguments, one or two unfit ones (missing, garbage, truncated, other schema, directory, unknown driver), a storage fault, SQLite running out of memory or a read fault of the changeset at a generated point; the same situation is repeated 6 times (12 when the heap grew every time). Open descriptors, SQLite's memory, threads, umask, working directory, locale and signal handlers must be as before each call, the heap must not grow in every round, no temporary file and no lock may stay. Non-trivial: the call fails, or works on a larger set.", 3000, 40000, 40});

static void c29pg(Ctx &c) {
  auto &s = c.src;
  pgStart();
  PgOpts o;
  o.noKey = false; o.maxRows = 6; o.oneGeom = true; o.allGeom = s.below(3) == 2;
  PDb d = genPg(s, o);
  PData a = genPgData(s, d, o), b = mutatePg(s, d, a, o, 6), e = mutatePg(s, d, a, o, 6);
  createPg("a", d, a);
  createPg("b", d, b);
  createPg("e", d, e);
  PDb d2 = d;
  d2.t.back().cols.back().name += "_x";
  if (s.below(2)) createPg("x", d2, a); else fpg::must("CREATE SCHEMA x");
  std::string cs = c.dir + "ab.bin", cs2 = c.dir + "ae.bin", out = c.dir + "out.bin", conf = c.dir + "conf.json", gp = c.dir + "copy.gpkg", src = c.dir + "src.gpkg";
  int r0 = GEODIFF_createChangesetEx("postgres", kPgInfo, "a", "b", cs.c_str()), r1 = GEODIFF_createChangesetEx("postgres", kPgInfo, "a", "e", cs2.c_str());
  bool haveSrc = o.allGeom && GEODIFF_makeCopy("postgres", kPgInfo, "a", "sqlite", "", src.c_str()) == 0;
  pgDone(c);
  if (r0 || r1) c.fail("creating changesets failed\n" + logText());
  struct Call { std::string name; std::function<int(const char *, const char *, const char *, const char *)> f; };   // info, base schema, changeset, output
  std::vector<Call> calls = {
    {"createChangesetEx", [&](const char *i, const char *x, const char *, const char *w) { return GEODIFF_createChangesetEx("postgres", i, x, "b", w); }},
    {"applyChangesetEx", [&](const char *i, const char *x, const char *y, const char *) { return GEODIFF_applyChangesetEx("postgres", i, x, y); }},
    {"rebaseEx", [&](const char *i, const char *x, const char *y, const char *) { return GEODIFF_rebaseEx("postgres", i, x, "e", y, conf.c_str()); }},
    {"createRebasedChangesetEx", [&](const char *i, const char *x, const char *y, const char *w) { return GEODIFF_createRebasedChangesetEx("postgres", i, x, y, cs2.c_str(), w, conf.c_str()); }},
    {"dumpData", [&](const char *i, const char *x, const char *, const char *w) { return GEODIFF_dumpData("postgres", i, x, w); }},
    {"makeCopy to schema", [&](const char *i, const char *x, const char *, const char *) { return GEODIFF_makeCopy("postgres", kPgInfo, x, "postgres", i, "new"); }},
    {"makeCopy to file", [&](const char *i, const char *x, const char *, const char *) { return GEODIFF_makeCopy("postgres", i, x, "sqlite", "", gp.c_str()); }},
  };
  if (haveSrc) calls.push_back({"makeCopy from file", [&](const char *i, const char *, const char *, const char *) { return GEODIFF_makeCopy("sqlite", "", src.c_str(), "postgres", i, "new"); }});
  Call call = calls[s.below(calls.size())];
  fpg::State st = fpg::server().st;
  auto seq = fpg::server().seq;
  std::string info = kPgInfo, schema = "a", chg = cs, to = out, sit = "good arguments";
  std::string bad = c.dir + "bad.bin";
  { std::string x = readFile(cs); writeFile(bad, x.empty() ? "T" : x.substr(0, x.size() - 1)); }
  int kind = (int)s.weighted({2, 6, 3, 3});
  if (kind == 1) {
    switch (s.below(6)) {
      case 0: info = "host=nowhere"; sit = "no server"; break;
      case 1: schema = "missing"; sit = "missing schema"; break;
      case 2: schema = "x"; sit = "other tables"; break;
      case 3: chg = bad; sit = "truncated changeset"; break;
      case 4: schema = "b"; sit = "other data"; break;
      default: to = c.dir + "none/out"; sit = "no place for the output";
    }
  }
  int64_t n = 0, at = -1;
  auto prepare = [&]() {
    auto &v = fpg::server();
    v.st = st; v.seq = seq;
    std::vector<std::string>().swap(v.log);
    v.count = 0; v.failAt = v.loseAt = -1; v.failed = false;
    for (auto &f : {out, conf, gp}) unlink(f.c_str());
  };
  auto run = [&]() -> int {
    if (at >= 0) (kind == 2 ? fpg::server().failAt : fpg::server().loseAt) = at;
    return call.f(info.c_str(), schema.c_str(), chg.c_str(), to.c_str());
  };
  if (kind >= 2) {
    prepare();
    run();
    n = fpg::server().count;
    if (n == 0) kind = 0;
    else { at = (int64_t)s.below(n); sit = std::string(kind == 2 ? "statement fails: " : "connection lost at: ") + std::to_string(at) + " of " + std::to_string(n); }
  }
  describePg(c, d);
  c.desc << call.name << ", " << sit << "\n";
  c.label(call.name);
  int rc = 0;
  measure(c, prepare, [&]() { return rc = run(); }, [&]() { if (!fpg::server().unsupported.empty()) throw pbt::Discard(); });
  c.label(rc == 0 ? "succeeds" : "fails");
  static const char *lab[] = {"good arguments", "unfit arguments", "statement fails", "connection lost"};
  c.label(lab[kind]);
  if (rc) c.nontrivial();
  for (auto &n2 : listDir(c.dir)) if (n2.rfind("tmp/", 0) == 0) c.fail("temporary file left: " + n2);
}
static pbt::Reg r29p({"C29.server", c29pg, "a call of the PostgreSQL backend on generated schemas of the stand-in, with good or unfit arguments, a statement that fails or a connection that is lost at a generated point, measured like C29.files; connections (failed ones too) and results handed out by libpq are counted. Non-trivial: the call fails.", 3000, 40000, 40});
