// C22: operations running at the same time.
#include "env.hpp"
#include "merge.hpp"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <mutex>
#include <sys/inotify.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
using pbt::Ctx;

namespace {
const char *kOps[] = {"diff", "apply", "rebase", "rebaseEx", "rebased", "rebasedEx", "invert", "list", "summary", "count", "dump", "copy", "apply-conflict", "missing"};
const int kOpCount = sizeof kOps / sizeof *kOps;
const int kWeights[] = {2, 2, 5, 5, 3, 2, 1, 1, 1, 1, 2, 3, 1, 1};

int runOp(const std::string &d, const std::string &op) {
  auto p = [&](const char *n) { return d + n; };
  std::string base = p("base.gpkg"), ours = p("ours.gpkg"), theirs = p("theirs.gpkg"), b2o = p("o.bin"), b2t = p("t.bin"), out = p("out.bin"), conf = p("conf.json"), list = p("list.json"), bare = p("bare.gpkg");
  if (op == "diff") return GEODIFF_createChangeset(base.c_str(), ours.c_str(), out.c_str());
  if (op == "apply") return GEODIFF_applyChangeset(base.c_str(), b2t.c_str());
  if (op == "rebase") return GEODIFF_rebase(base.c_str(), theirs.c_str(), ours.c_str(), conf.c_str());
  if (op == "rebaseEx") return GEODIFF_rebaseEx("sqlite", "", base.c_str(), ours.c_str(), b2t.c_str(), conf.c_str());
  if (op == "rebased") return GEODIFF_createRebasedChangeset(base.c_str(), ours.c_str(), b2t.c_str(), out.c_str(), conf.c_str());
  if (op == "rebasedEx") return GEODIFF_createRebasedChangesetEx("sqlite", "", base.c_str(), b2o.c_str(), b2t.c_str(), out.c_str(), conf.c_str());
  if (op == "invert") return GEODIFF_invertChangeset(b2o.c_str(), out.c_str());
  if (op == "list") return GEODIFF_listChanges(b2t.c_str(), list.c_str());
  if (op == "summary") return GEODIFF_listChangesSummary(b2o.c_str(), list.c_str());
  if (op == "count") return GEODIFF_changesCount(b2o.c_str());
  if (op == "dump") return GEODIFF_dumpData("sqlite", "", ours.c_str(), out.c_str());
  if (op == "copy") return GEODIFF_makeCopy("sqlite", "", bare.c_str(), "sqlite", "", p("copy.gpkg").c_str());
  if (op == "apply-conflict") return GEODIFF_applyChangeset(theirs.c_str(), b2o.c_str());
  return GEODIFF_createChangeset(base.c_str(), p("gone.gpkg").c_str(), out.c_str());
}
// files by content: databases by rows and schema, the time of a copy masked
std::map<std::string, std::string> contents(const std::string &d) {
  std::map<std::string, std::string> t;
  for (auto &n : listDir(d)) {
    struct stat st;
    if (lstat((d + n).c_str(), &st) != 0 || S_ISDIR(st.st_mode)) { t[n] = "dir"; continue; }
    std::string b = readFile(d + n);
    if (b.rfind("SQLite format 3", 0) != 0) { t[n] = b; continue; }
    Snap s = snap(d + n);
    std::string r;
    for (auto &x : s.schema) r += x + "\n";
    for (auto &kv : s.tables) {
      r += "== " + kv.first + "\n";
      auto put = [&](const Row &row) { for (size_t k = 0; k < row.size(); ++k) r += n == "copy.gpkg" && kv.second.cols[k].name == "last_change" ? std::string("time,") : encodeVal(row[k]) + ","; r += "\n"; };
      for (auto &x : kv.second.rows) put(x.second);
      for (auto &x : kv.second.loose) put(x);
    }
    t[n] = r;
  }
  return t;
}
struct Actor { std::string dir; int fixture; std::vector<std::string> ops; std::vector<int> rcs; };
struct Fixture { std::map<std::string, std::string> files; };

// ---- one thread runs at a time; at each yield point a schedule says who goes on
struct Sched {
  std::mutex m;
  std::condition_variable cv;
  std::vector<int> alive;
  int holder = -1;
  uint64_t seed = 0, step = 0, steps = 0;
  std::vector<uint32_t> plan;
  uint32_t next() { uint32_t v = step < plan.size() ? plan[step] : (uint32_t)(seed = pbt::mix(seed, step)); ++step; return v; }
  void enter(int me) { std::unique_lock<std::mutex> g(m); waitFor(g, me); }
  // a holder that is stuck behind a lock of somebody else loses its turn
  void waitFor(std::unique_lock<std::mutex> &g, int me) {
    while (holder != me) {
      uint64_t seen = steps;
      if (cv.wait_for(g, std::chrono::milliseconds(30)) == std::cv_status::timeout && seen == steps && holder != me) { ++steps; holder = me; }
    }
  }
  void yield(int me) {
    std::unique_lock<std::mutex> g(m);
    ++steps;
    if (next() % 3 == 0 || alive.empty()) return;
    holder = alive[next() % alive.size()];
    cv.notify_all();
    waitFor(g, me);
  }
  void leave(int me) {
    std::unique_lock<std::mutex> g(m);
    ++steps;
    alive.erase(std::remove(alive.begin(), alive.end(), me), alive.end());
    holder = alive.empty() ? -1 : alive[next() % alive.size()];
    cv.notify_all();
  }
};
thread_local int gMe = -1;
struct NoYield { ~NoYield() { setYield(nullptr); } };

// names created in a directory, counted by the kernel
struct Watch {
  int fd;
  bool lost = false;
  explicit Watch(const std::string &d) { fd = inotify_init1(IN_NONBLOCK); if (fd < 0 || inotify_add_watch(fd, d.c_str(), IN_CREATE) < 0) lost = true; }
  ~Watch() { if (fd >= 0) close(fd); }
  std::set<std::string> names() {
    std::set<std::string> r;
    alignas(inotify_event) char b[65536];
    ssize_t n;
    while (fd >= 0 && (n = read(fd, b, sizeof b)) > 0)
      for (char *p = b; p < b + n;) { auto *e = (inotify_event *)p; if (e->mask & IN_Q_OVERFLOW) lost = true; if (e->len) r.insert(e->name); p += sizeof *e + e->len; }
    return r;
  }
};
enum How { SCHED, FREE, PROCS };
}  // namespace

static void c22(Ctx &c, How how) {
  auto &s = c.src;
  NoYield cleanup;
  setYield(nullptr);
  GenOpts g = mergeGenOpts();
  g.maxTables = 2; g.maxRows = 6; g.bigValues = false; g.wide = false; g.maxCols = 4;
  MergeOpts o;
  o.maxEditsOurs = o.maxEditsTheirs = 5;
  o.minEdits = 1;
  std::vector<Fixture> fx(1 + s.below(2));
  for (auto &f : fx) {
    MergeCase m = genMerge(c, g, o);
    std::string b2o = c.dir + "f_o.bin", b2t = c.dir + "f_t.bin", bare = c.dir + "bare.gpkg";
    MUST_OK(c, GEODIFF_createChangeset(m.base.c_str(), m.ours.c_str(), b2o.c_str()));
    MUST_OK(c, GEODIFF_createChangeset(m.base.c_str(), m.theirs.c_str(), b2t.c_str()));
    { unlink(bare.c_str()); Db db(bare); db.must("PRAGMA user_version=1"); }
    f.files = {{"base.gpkg", readFile(m.base)}, {"ours.gpkg", readFile(m.ours)}, {"theirs.gpkg", readFile(m.theirs)}, {"o.bin", readFile(b2o)}, {"t.bin", readFile(b2t)}, {"bare.gpkg", readFile(bare)}};
    for (auto &p : {m.base, m.ours, m.theirs, b2o, b2t, bare}) unlink(p.c_str());
  }
  int n = 2 + (int)s.below(how == SCHED ? 2 : 5);
  std::vector<Actor> as(n);
  std::vector<int> w(kWeights, kWeights + kOpCount);
  std::vector<std::string> common;
  for (int k = 1 + (int)s.below(2); k > 0; --k) common.push_back(kOps[s.weighted(w)]);
  bool together = s.below(2);     // all do the same
  size_t expectedNames = 0;
  bool writes = false, blind = false;
  std::vector<std::map<std::string, std::string>> want(n);
  std::vector<std::vector<int>> wantRc(n);
  for (int i = 0; i < n; ++i) {
    as[i].dir = c.dir + "a" + std::to_string(i) + "/";
    as[i].fixture = (int)s.below(fx.size());
    if (together) as[i].ops = common;
    else for (int k = 1 + (int)s.below(3); k > 0; --k) as[i].ops.push_back(kOps[s.weighted(w)]);
    mkdir(as[i].dir.c_str(), 0755);
    auto fill = [&]() { for (auto &n2 : listDir(as[i].dir)) unlink((as[i].dir + n2).c_str()); for (auto &kv : fx[as[i].fixture].files) writeFile(as[i].dir + kv.first, kv.second); };
    c.desc << "a" << i << " (data " << as[i].fixture << "):";
    for (auto &op : as[i].ops) { c.desc << " " << op; if (op != "count" && op != "missing") writes = true; }
    c.desc << "\n";
    fill();
    Watch wt(c.tmp);
    for (auto &op : as[i].ops) wantRc[i].push_back(runOp(as[i].dir, op));
    expectedNames += wt.names().size();
    blind |= wt.lost;
    want[i] = contents(as[i].dir);
    fill();
  }
  if (writes) c.nontrivial();
  c.label(std::to_string(n) + (how == PROCS ? " processes" : " threads"));
  if (together) c.label("same operations");
  takeLog();
  if (blind) c.label("names not watched");
  Watch wt(c.tmp);
  uint64_t seed = s.bits();
  if (how == PROCS) {
    struct Shared { std::atomic<int> ready; int rc[8][4]; };
    Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    new (sh) Shared();
    std::vector<pid_t> pids;
    for (int i = 0; i < n; ++i) {
      pid_t pid = fork();
      if (pid == 0) {
        uint64_t r = pbt::mix(seed, i);
        setYield([&](const char *) { r = pbt::mix(r, 5); if (r % 4 == 0) usleep((unsigned)(r >> 8) % 700); });
        sh->ready++;
        while (sh->ready.load() < n) {}
        for (size_t k = 0; k < as[i].ops.size(); ++k) sh->rc[i][k] = runOp(as[i].dir, as[i].ops[k]);
        _exit(0);
      }
      pids.push_back(pid);
    }
    std::string bad;
    for (int i = 0; i < n; ++i) {
      int ws = 0;
      while (waitpid(pids[i], &ws, 0) < 0 && errno == EINTR) {}
      if (!WIFEXITED(ws) || WEXITSTATUS(ws)) bad = "process " + std::to_string(i) + " ended with status " + std::to_string(ws);
      for (size_t k = 0; k < as[i].ops.size(); ++k) as[i].rcs.push_back(sh->rc[i][k]);
    }
    munmap(sh, sizeof(Shared));
    if (!bad.empty()) c.fail(bad);
  } else {
    Sched sc;
    sc.seed = seed;
    if (how == SCHED) for (int k = 0; k < 60; ++k) sc.plan.push_back((uint32_t)s.below(12));
    for (int i = 0; i < n; ++i) sc.alive.push_back(i);
    sc.holder = 0;
    std::atomic<int> ready{0};
    if (how == SCHED) setYield([&](const char *) { if (gMe >= 0) sc.yield(gMe); });
    else setYield([&](const char *) { thread_local uint64_t r = seed ^ (uint64_t)gMe * 77777; r = pbt::mix(r, 3); if (r % 5 == 0) std::this_thread::yield(); });
    std::vector<std::thread> ts;
    for (int i = 0; i < n; ++i) ts.emplace_back([&, i] {
      gMe = i;
      if (how == SCHED) sc.enter(i);
      else { ready++; while (ready.load() < n) {} }
      for (auto &op : as[i].ops) as[i].rcs.push_back(runOp(as[i].dir, op));
      gMe = -1;
      if (how == SCHED) sc.leave(i);
    });
    for (auto &t : ts) t.join();
    setYield(nullptr);
    if (how == SCHED) c.label(sc.step > 100 ? "long schedule" : "short schedule");
  }
  size_t names = wt.names().size();
  for (int i = 0; i < n; ++i) {
    std::string who = "a" + std::to_string(i);
    for (size_t k = 0; k < as[i].ops.size(); ++k) c.check(as[i].rcs[k] == wantRc[i][k], who + ", " + as[i].ops[k] + " returns " + std::to_string(as[i].rcs[k]) + " beside others, " + std::to_string(wantRc[i][k]) + " alone\n" + logText());
    auto got = contents(as[i].dir);
    for (auto &kv : want[i]) { auto it = got.find(kv.first); c.check(it != got.end(), who + "/" + kv.first + " is missing"); c.check(it->second == kv.second, who + "/" + kv.first + " differs from when run alone"); }
    for (auto &kv : got) c.check(want[i].count(kv.first), who + "/" + kv.first + " is not there when run alone");
  }
  auto left = listDir(c.tmp);
  c.check(left.empty(), "left in the temporary directory: " + (left.empty() ? "" : left[0]));
  if (!blind && !wt.lost && names != expectedNames) c.fail("the operations create " + std::to_string(expectedNames) + " differently named temporary files when run one after another, " + std::to_string(names) + " when run together: some are shared");
}
static const char *kRule22 = "2-6 actors with directories of their own (equal file names, equal or different data, one temporary directory) each run 1-3 of 14 operations, the same or different ones; results, outputs and databases must be as when run alone, temporary names never shared (counted by inotify). ";
static std::string rule22(const char *x) { return std::string(kRule22) + x + " Non-trivial: some operation writes."; }
static pbt::Reg r22a({"C22.sched", [](Ctx &c) { c22(c, SCHED); }, rule22("Threads of which one runs at a time, switched at storage operations and log messages by a generated schedule."), 900, 30000, 20});
static pbt::Reg r22b({"C22.free", [](Ctx &c) { c22(c, FREE); }, rule22("Free-running threads under ThreadSanitizer."), 260, 20000, 20});
static pbt::Reg r22c({"C22.procs", [](Ctx &c) { c22(c, PROCS); }, rule22("Processes forked at the same moment, slowed down at random at storage operations."), 500, 30000, 20});
