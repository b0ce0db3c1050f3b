// C07, C19, C20: crashes, storage faults, outputs that cannot be written, inputs that cannot be read.
#include "env.hpp"
#include "merge.hpp"
#include "changesets.hpp"
#include <algorithm>
#include <csignal>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using pbt::Ctx;

// ---- reads of ordinary files (changesets): the library's fread/read calls can be made to fail
namespace rf {
static std::string gPath;
static bool gOn = false, gFired = false, gOnce = false;
static int64_t gAt = -1, gCount = 0;
void start(const std::string &path, int64_t at, bool once) { gPath = path; gAt = at; gOnce = once; gCount = 0; gFired = false; gOn = true; }
int64_t stop() { gOn = false; return gCount; }
static bool hit(int fd) {
  if (!gOn) return false;
  char link[64], to[4096];
  snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(link, to, sizeof to - 1);
  if (n <= 0) return false;
  to[n] = 0;
  char *real = realpath(gPath.c_str(), nullptr);
  bool mine = real && !strcmp(real, to);
  free(real);
  if (!mine) return false;
  int64_t k = gCount++;
  if (gFired && !gOnce) return true;
  if (k != gAt) return false;
  return gFired = true;
}
}  // namespace rf
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__) && !defined(__clang__)
extern "C" size_t fread(void *p, size_t s, size_t n, FILE *f) {
  static size_t (*real)(void *, size_t, size_t, FILE *) = (size_t(*)(void *, size_t, size_t, FILE *))dlsym(RTLD_NEXT, "fread");
  if (rf::gOn && rf::hit(fileno(f))) {
    size_t part = n / 2;
    if (s != 1) part = 0;
    if (part) part = real(p, s, part, f);
    f->_flags |= 0x20;   // the stream's error indicator
    errno = EIO;
    return part;
  }
  return real(p, s, n, f);
}
extern "C" ssize_t read(int fd, void *p, size_t n) {
  static ssize_t (*real)(int, void *, size_t) = (ssize_t(*)(int, void *, size_t))dlsym(RTLD_NEXT, "read");
  if (rf::gOn && rf::hit(fd)) { errno = EIO; return -1; }
  return real(fd, p, n);
}
#endif

// runs f in a child; the exit code, or 1000 + signal
static int inChild(const std::function<int()> &f) {
  pid_t pid = fork();
  if (pid == 0) {
    int rc = 99;
    try { rc = f(); } catch (std::exception &e) { fprintf(stderr, "exception: %s\n", e.what()); rc = 98; } catch (...) { rc = 98; }
    fflush(stderr);
    _exit(rc);
  }
  int ws = 0;
  while (waitpid(pid, &ws, 0) < 0 && errno == EINTR) {}
  return WIFEXITED(ws) ? WEXITSTATUS(ws) : 1000 + WTERMSIG(ws);
}

static GenOpts faultOpts(pbt::Src &s) {
  GenOpts o;
  o.maxRows = 8; o.maxCols = 5; o.maxTables = 2; o.wide = false; o.bigValues = false; o.utf16 = false;
  o.gpkgPct = 15;
  if (s.below(3) == 2) { o.minRows = 20; o.maxRows = 60; }
  return o;
}
static void removeDb(const std::string &p) { for (auto x : {"", "-journal", "-wal", "-shm"}) unlink((p + x).c_str()); }

// points 0..n-1: all of them when there are few, otherwise the first, the last and a sample
static std::vector<int64_t> points(pbt::Src &s, int64_t n, int want) {
  std::vector<int64_t> v;
  if (n <= want) { for (int64_t i = 0; i < n; ++i) v.push_back(i); return v; }
  std::set<int64_t> x;
  for (int i = 0; i < want / 3; ++i) x.insert(n - 1 - i);
  while ((int)x.size() < want) x.insert((int64_t)s.below(n));
  return std::vector<int64_t>(x.begin(), x.end());
}

// ---- C07
static void c07(Ctx &c) {
  auto &s = c.src;
  bool rebase = s.below(4) == 3;
  std::string orig, cs = c.dir + "cs.bin", target = c.dir + "target.gpkg", conf = c.dir + "conf.json", base;
  Snap before;
  if (rebase) {
    GenOpts g = mergeGenOpts();
    g.maxRows = 8; g.bigValues = false; g.wide = false;
    MergeOpts o;
    o.minEdits = 1;
    MergeCase m = genMerge(c, g, o);
    MUST_OK(c, GEODIFF_createChangeset(m.base.c_str(), m.theirs.c_str(), cs.c_str()));
    orig = m.ours; base = m.base;
    before = m.so;
    c.label("rebase");
  } else {
    GenOpts o = faultOpts(s);
    EditOpts e;
    e.maxEdits = o.minRows ? 60 : 10;
    Pair p = genPair(c, o, e);
    MUST_OK(c, GEODIFF_createChangeset(p.base.c_str(), p.mod.c_str(), cs.c_str()));
    orig = p.base;
    before = p.sb;
    c.label("apply");
  }
  bool wal = s.below(3) == 2, smallCache = s.below(2) == 1;
  {
    Db db(orig, SQLITE_OPEN_READWRITE);
    db.must("PRAGMA synchronous=off");
    db.exec(wal ? "PRAGMA journal_mode=wal" : "PRAGMA journal_mode=delete");
    if (smallCache) { db.exec("PRAGMA default_cache_size=1"); c.label("small cache"); }
    if (wal) db.exec("PRAGMA wal_checkpoint(TRUNCATE)");
  }
  if (wal) c.label("wal");
  // triggers are removed and created again during apply, which has to be part of the same step
  int triggers = 0;
  bool snapNow = false;
  if (!rebase && s.below(2)) {
    Db db(orig, SQLITE_OPEN_READWRITE);
    int want = (int)s.range(1, 3);
    for (auto &t : before.tables) {
      if (triggers >= want || t.first.rfind("gpkg_", 0) == 0) continue;
      static const std::vector<std::string> ev = {"AFTER INSERT", "AFTER DELETE", "BEFORE UPDATE", "AFTER UPDATE"};
      for (int i = 0; i < want; ++i)
        if (db.exec("CREATE TRIGGER " + q("trg " + std::to_string(triggers)) + " " + s.pick(ev) + " ON " + q(t.first) + " BEGIN DELETE FROM " + q(t.first) + "; END")) ++triggers;
    }
    if (triggers) c.label("user triggers");
    snapNow = true;
  }
  if (snapNow) before = snap(orig);
  removeDb(target);
  auto reset = [&]() { removeDb(target); copyFile(orig, target); unlink(conf.c_str()); };
  auto op = [&]() { return rebase ? GEODIFF_rebaseEx("sqlite", "", base.c_str(), target.c_str(), cs.c_str(), conf.c_str()) : GEODIFF_applyChangeset(target.c_str(), cs.c_str()); };
  reset();
  int kinds = fvfs::WRITE | fvfs::TRUNC | fvfs::SYNC | fvfs::DEL;
  if (s.below(4) == 3) kinds = fvfs::ALL_IO;
  fvfs::start(kinds, fvfs::COUNT, 0);
  int rc = op();
  int64_t n = fvfs::stop();
  MUST_OK(c, rc);
  Snap after = snap(target);
  std::string w;
  bool changes = !sameSnap(before, after);
  c.desc << (rebase ? "rebase" : "apply") << (wal ? " (wal)" : "") << ", " << n << " storage operations" << (kinds == fvfs::ALL_IO ? " including reads" : "") << "\n" << describeChanges(before, after) << "\n";
  if (changes && n > 2) c.nontrivial();
  static const std::vector<fvfs::Mode> modes = {fvfs::CRASH, fvfs::ERR_ONCE, fvfs::ERR_ON, fvfs::CRASH_TORN, fvfs::POWER};
  static const char *names[] = {"count", "error once", "errors from there on", "crash", "crash in the middle of a write", "power loss"};
  int total = 0;
  for (auto mode : modes) {
    for (int64_t k : points(s, n, 14)) {
      reset();
      takeLog();
      uint64_t seed = (uint64_t)k * 7919 + (uint64_t)c.caseIdx;
      int r = inChild([&]() {
        fvfs::start(kinds, mode, k, seed);
        int x = op();
        fvfs::stop();
        if (!fvfs::fired()) return 60 + (x != 0);
        return x == 0 ? 0 : 1;
      });
      ++total;
      std::string where = std::string(names[mode]) + " at storage operation " + std::to_string(k) + " of " + std::to_string(n);
      c.check(r == 0 || r == 1 || r == 77 || r == 60 || r == 61, where + ": process ended with " + std::to_string(r));
      if (r == 61) c.fail(where + ": the operation failed although nothing was injected");
      if (!integrityOk(target, &w)) c.fail(where + ": database damaged: " + w);
      Snap now = snap(target);
      bool isOld = sameSnap(before, now, &w), isNew = sameSnap(after, now);
      if (!isOld && !isNew) c.fail(where + ": the database is neither in the old nor in the new state: " + w);
      if ((r == 0 || r == 60) && !isNew) c.fail(where + ": reported success, but the database is in the old state");
      if (r == 77 && changes) c.label(isNew ? "new state after crash" : "old state after crash");
      if (r == 1) c.label(isNew && changes ? "failure reported, new state" : "failure reported, old state");
    }
  }
  c.label("faults " + std::string(total > 60 ? ">60" : total > 30 ? "31-60" : "<=30"));
}
static pbt::Reg r07({"C07", c07, "apply (3 of 4) or rebase in place of a generated changeset, in rollback-journal and WAL databases, with and without a one-page cache that forces early writes, half of those for apply with 1-3 user triggers; the storage operations are counted and up to 14 of them (always the last ones; all when fewer) are made to fail once, fail from there on, kill the process, kill it after half of the write, or lose the unsynced writes. Afterwards the database must pass an integrity check, hold all its triggers and equal the dump before or after; success means after. Non-trivial: the operation changes the database and performs more than two storage operations.", 700, 12000, 10, 120});

// ---- outputs
namespace {
struct Call {
  std::string name;
  std::function<int(const std::string &out, const std::string &conf)> run;
  bool hasConf = false, hasOut = true;
  std::string inout;    // database rebased in place
};
struct Work {
  MergeCase m;
  std::string b2t, b2o;
  std::vector<Call> calls;
};
}
static Work makeWork(Ctx &c, bool more) {
  Work k;
  GenOpts g = mergeGenOpts();
  g.maxRows = more ? 60 : 8; g.minRows = more ? 10 : 1; g.bigValues = more; g.wide = false; g.utf16 = false;
  MergeOpts o;
  o.minEdits = 1;
  if (more) o.maxEditsOurs = o.maxEditsTheirs = 60;
  k.m = genMerge(c, g, o);
  k.b2t = c.dir + "b2t.bin"; k.b2o = c.dir + "b2o.bin";
  MUST_OK(c, GEODIFF_createChangeset(k.m.base.c_str(), k.m.theirs.c_str(), k.b2t.c_str()));
  MUST_OK(c, GEODIFF_createChangeset(k.m.base.c_str(), k.m.ours.c_str(), k.b2o.c_str()));
  std::string base = k.m.base, ours = k.m.ours, theirs = k.m.theirs, b2t = k.b2t, b2o = k.b2o;
  auto add = [&](const std::string &n, std::function<int(const std::string &, const std::string &)> f, bool conf = false) { Call x; x.name = n; x.run = f; x.hasConf = conf; k.calls.push_back(x); };
  add("createChangeset", [=](const std::string &o, const std::string &) { return GEODIFF_createChangeset(base.c_str(), ours.c_str(), o.c_str()); });
  add("createChangesetEx", [=](const std::string &o, const std::string &) { return GEODIFF_createChangesetEx("sqlite", "", base.c_str(), theirs.c_str(), o.c_str()); });
  add("invertChangeset", [=](const std::string &o, const std::string &) { return GEODIFF_invertChangeset(b2o.c_str(), o.c_str()); });
  add("listChanges", [=](const std::string &o, const std::string &) { return GEODIFF_listChanges(b2o.c_str(), o.c_str()); });
  add("listChangesSummary", [=](const std::string &o, const std::string &) { return GEODIFF_listChangesSummary(b2o.c_str(), o.c_str()); });
  add("dumpData", [=](const std::string &o, const std::string &) { return GEODIFF_dumpData("sqlite", "", ours.c_str(), o.c_str()); });
  add("createRebasedChangesetEx", [=](const std::string &o, const std::string &cf) { return GEODIFF_createRebasedChangesetEx("sqlite", "", base.c_str(), b2o.c_str(), b2t.c_str(), o.c_str(), cf.c_str()); }, true);
  add("createRebasedChangeset", [=](const std::string &o, const std::string &cf) { return GEODIFF_createRebasedChangeset(base.c_str(), ours.c_str(), b2t.c_str(), o.c_str(), cf.c_str()); }, true);
  // in place: the "output" is the database, put there by the caller
  add("rebase", [=](const std::string &o, const std::string &cf) { return GEODIFF_rebase(base.c_str(), theirs.c_str(), o.c_str(), cf.c_str()); }, true);
  k.calls.back().inout = ours;
  add("rebaseEx", [=](const std::string &o, const std::string &cf) { return GEODIFF_rebaseEx("sqlite", "", base.c_str(), o.c_str(), b2t.c_str(), cf.c_str()); }, true);
  k.calls.back().inout = ours;
  return k;
}

// ---- C19
static void c19(Ctx &c) {
  auto &s = c.src;
  Work k = makeWork(c, s.below(3) == 2);
  Call call = k.calls[s.below(k.calls.size())];
  c.label(call.name);
  std::string ref = c.dir + "ref.out", refConf = c.dir + "ref.json", out = c.dir + "out.out", conf = c.dir + "out.json";
  bool db = !call.inout.empty();
  if (db) { copyFile(call.inout, ref); copyFile(call.inout, out); }
  MUST_OK(c, call.run(ref, refConf));
  std::string want, wantConf = readFile(refConf);
  Snap refSnap, oldSnap;
  if (db) { refSnap = snap(ref); oldSnap = snap(out); } else want = readFile(ref);
  bool haveConf = exists(refConf);
  size_t biggest = std::max(want.size(), wantConf.size());
  c.desc << call.name << ": output of " << (db ? std::string("a database") : std::to_string(want.size()) + " bytes") << ", conflict report of " << wantConf.size() << " bytes\n";
  auto verdict = [&](int rc, const std::string &how, const std::string &o, const std::string &cf) {
    c.check(rc == 0 || rc == 1, how + ": process ended with " + std::to_string(rc));
    if (rc == 0) {
      if (db) { std::string w; if (!sameSnap(refSnap, snap(o), &w)) c.fail(how + ": success, but the database is not the rebased one: " + w); }
      else c.check(readFile(o) == want, how + ": success, but the output has " + std::to_string(readFile(o).size()) + " of " + std::to_string(want.size()) + " bytes");
      if (call.hasConf) c.check(exists(cf) == haveConf && readFile(cf) == wantConf, how + ": success, but the conflict report has " + std::to_string(readFile(cf).size()) + " of " + std::to_string(wantConf.size()) + " bytes");
      c.label("still succeeds");
    } else { c.label("fails"); c.nontrivial(); }
  };
  auto fresh = [&]() { unlink(out.c_str()); unlink(conf.c_str()); if (db) copyFile(call.inout, out); };
  auto child = [&](const std::function<void()> &prep, const std::string &o, const std::string &cf) {
    return inChild([&]() { prep(); return call.run(o, cf) == 0 ? 0 : 1; });
  };
  // no more than a number of bytes in any file
  if (!db) {
    std::set<uint64_t> limits = {0, 1};
    if (biggest) { limits.insert(biggest - 1); limits.insert(want.size() ? want.size() - 1 : 0); if (wantConf.size()) limits.insert(wantConf.size() - 1); }
    for (int i = 0; i < 6; ++i) limits.insert(s.below(biggest + 1));
    for (uint64_t b : {4095, 4096, 4097, 8191, 8192}) if (b < biggest) limits.insert(b);
    for (uint64_t l : limits) {
      fresh();
      int rc = child([&]() { rlimit r; r.rlim_cur = l; r.rlim_max = RLIM_INFINITY; setrlimit(RLIMIT_FSIZE, &r); signal(SIGXFSZ, SIG_IGN); }, out, conf);
      verdict(rc, "files limited to " + std::to_string(l) + " bytes", out, conf);
      if (l < want.size() || l < wantConf.size()) c.check(rc != 0, "files limited to " + std::to_string(l) + " bytes: success although the output is larger");
    }
  }
  // A missing directory, a directory, a directory without permission. Never a device node: the code under test may delete
  // its output (a full disk is what the limits above stand for).
  struct Target { std::string what, path; };
  std::string nodir = c.dir + "nodir/out", isdir = c.dir + "isdir", ro = c.dir + "ro/out";
  mkdir(isdir.c_str(), 0755);
  writeFile(isdir + "/file", "x");   // an empty one would be deleted by remove()
  for (auto &t : std::vector<Target>{{"missing directory", nodir}, {"directory", isdir}}) {
    if (!db) {
      fresh();
      int rc = child([]() {}, t.path, conf);
      c.check(rc == 0 || rc == 1, t.what + ": process ended with " + std::to_string(rc));
      c.check(rc != 0, "output to a " + t.what + ": success");
      c.nontrivial();
    }
    if (call.hasConf && haveConf) {
      fresh();
      int rc = child([]() {}, out, t.path);
      c.check(rc == 0 || rc == 1, t.what + ": process ended with " + std::to_string(rc));
      c.check(rc != 0, "conflict report to a " + t.what + ": success");
      c.nontrivial();
      c.label("report lost");
    }
  }
  // as a user that may not write there
  if (geteuid() == 0 && s.below(3) == 2) {
    mkdir((c.dir + "ro").c_str(), 0755);
    std::string priv = c.dir + "ro/existing";
    writeFile(priv, "existing file of another user");
    chmod(priv.c_str(), 0644);
    fresh();
    std::string o = s.below(2) ? ro : priv;
    if (!db) {
      int rc = child([&]() { if (chmod(c.tmp.c_str(), 0777) || setgid(65534) || setuid(65534)) _exit(55); }, o, conf);
      if (rc != 55) { c.check(rc == 1, "output where it may not be written: ended with " + std::to_string(rc)); c.label("no permission"); }
      c.check(readFile(priv) == "existing file of another user", "file without write permission altered");
    }
  }
  // out of file descriptors
  for (int extra = 0; extra < 5; ++extra) {
    fresh();
    int rc = child([&]() {
      int fd = open("/dev/null", O_RDONLY);
      rlimit r; r.rlim_cur = fd + extra; r.rlim_max = fd + extra;
      close(fd);
      setrlimit(RLIMIT_NOFILE, &r);
    }, out, conf);
    verdict(rc, std::to_string(extra) + " file descriptors", out, conf);
  }
}
static pbt::Reg r19({"C19", c19, "one of ten output-writing calls on generated inputs; its outputs are limited to 0, 1, random, buffer-size and size-1 bytes per file, sent to a missing directory, a directory or a place without permission (as another user), and the call is run with few file descriptors. Success is accepted only with the complete reference output and conflict report. Non-trivial: some attempt had to fail.", 1500, 30000, 20});

// ---- C20
static void c20(Ctx &c) {
  auto &s = c.src;
  Work k = makeWork(c, s.below(2) == 1);
  Call call = k.calls[s.below(k.calls.size())];
  if (s.below(3) != 0) { static const int dbCalls[] = {0, 1, 5, 7, 8, 9}; call = k.calls[dbCalls[s.below(6)]]; }
  c.label(call.name);
  std::string ref = c.dir + "ref.out", refConf = c.dir + "ref.json", out = c.dir + "out.out", conf = c.dir + "out.json";
  bool db = !call.inout.empty();
  auto fresh = [&]() { removeDb(out); unlink(conf.c_str()); if (db) copyFile(call.inout, out); };
  fresh();
  int kinds = s.below(3) == 2 ? (fvfs::READ | fvfs::OPEN | fvfs::SIZE | fvfs::LOCK) : fvfs::READ;
  // small pages: more reads
  {
    for (auto &f : {k.m.base, k.m.ours, k.m.theirs}) {
      Db d(f, SQLITE_OPEN_READWRITE);
      d.must("PRAGMA synchronous=off");
      d.exec("PRAGMA default_cache_size=2");
      d.exec("PRAGMA journal_mode=delete");
      d.exec("PRAGMA page_size=512");
      d.exec("VACUUM");
    }
  }
  fresh();
  fvfs::start(kinds, fvfs::COUNT, 0);
  int rc = call.run(out, conf);
  int64_t n = fvfs::stop();
  MUST_OK(c, rc);
  Snap refSnap, oldSnap;
  std::string want, wantConf = readFile(conf);
  if (db) { refSnap = snap(out); oldSnap = snap(call.inout); } else want = readFile(out);
  bool haveConf = exists(conf);
  c.desc << call.name << ": " << n << " reads of databases\n";
  auto verdict = [&](int rc, const std::string &how, bool fired) {
    c.check(rc == 0 || rc == 1, how + ": ended with " + std::to_string(rc));
    if (fired) c.nontrivial();
    std::string w;
    if (rc == 0) {
      if (db) { if (!sameSnap(refSnap, snap(out), &w)) c.fail(how + ": success, but the database is not the rebased one: " + w); }
      else c.check(readFile(out) == want, how + ": success, but the output differs (" + std::to_string(readFile(out).size()) + " of " + std::to_string(want.size()) + " bytes)");
      if (call.hasConf) c.check(exists(conf) == haveConf && readFile(conf) == wantConf, how + ": success, but the conflict report differs");
      c.label(fired ? "success in spite of the fault" : "success");
    } else {
      c.label("error reported");
      if (db) { Snap now = snap(out); if (!sameSnap(oldSnap, now, &w) && !sameSnap(refSnap, now)) c.fail(how + ": database in a third state: " + w); }
    }
  };
  for (auto mode : {fvfs::ERR_ONCE, fvfs::ERR_ON}) {
    for (int64_t p : points(s, n, 16)) {
      fresh();
      takeLog();
      fvfs::start(kinds, mode, p);
      int r = 99;
      try { r = call.run(out, conf); } catch (std::exception &e) { fvfs::stop(); c.fail(std::string("exception escaped: ") + e.what()); }
      fvfs::stop();
      verdict(r, (mode == fvfs::ERR_ONCE ? "one failing read, number " : "failing reads from number ") + std::to_string(p) + " of " + std::to_string(n) + " (" + fvfs::firedWhat() + ")", fvfs::fired());
    }
  }
  // reads of changesets, the library's own temporary ones included
  std::vector<std::string> files;
  if (call.name != "createChangeset" && call.name != "createChangesetEx" && call.name != "dumpData") { files.push_back(k.b2o); files.push_back(k.b2t); }
  for (auto &f : files) {
    fresh();
    rf::start(f, -1, false);
    int r = call.run(out, conf);
    int64_t m = rf::stop();
    MUST_OK(c, r);
    if (m) c.label("changeset reads");
    for (int64_t p = 0; p < std::min<int64_t>(m, 8); ++p) for (bool once : {false, true}) {
      fresh();
      rf::start(f, p, once);
      r = 99;
      try { r = call.run(out, conf); } catch (std::exception &e) { rf::stop(); c.fail(std::string("exception escaped: ") + e.what()); }
      rf::stop();
      verdict(r, "failing read " + std::to_string(p) + " of changeset " + f.substr(c.dir.size()), true);
    }
  }
  // counting a changeset that cannot be read
  {
    int want = GEODIFF_changesCount(k.b2o.c_str()), wantHas = GEODIFF_hasChanges(k.b2o.c_str());
    rf::start(k.b2o, 0, false);
    int r = GEODIFF_changesCount(k.b2o.c_str()), h = GEODIFF_hasChanges(k.b2o.c_str());
    bool any = rf::stop() > 0;
    if (any) { c.check(r == want || r < 0, "changesCount of an unreadable changeset is " + std::to_string(r)); c.check(h == wantHas || h < 0, "hasChanges of an unreadable changeset is " + std::to_string(h)); }
  }
}
static pbt::Reg r20({"C20", c20, "one of ten calls on generated inputs (databases with 512-byte pages and a two-page cache, so that rows are read while they are compared); the reads of databases are counted and up to 16 of them (opens, sizes and locks too in a third) fail once or from there on; reads of the changeset files fail as well. Success is accepted only with the complete reference output. Non-trivial: a fault was delivered.", 2500, 40000, 25});
