// C25: log messages.
#include "env.hpp"
#include <cstring>
#include <fcntl.h>
#include <regex>
#include <sys/wait.h>
#include <unistd.h>
using pbt::Ctx;

void harnessInit();
namespace {
typedef std::vector<LogMsg> Log;
Log gA, gB;
void cbA(GEODIFF_LoggerLevel l, const char *m) { gA.push_back({(int)l, m ? m : "(null)"}); }
void cbB(GEODIFF_LoggerLevel l, const char *m) { gB.push_back({(int)l, m ? m : "(null)"}); }
std::string norm(std::string s) { return std::regex_replace(s, std::regex("geodiff_[A-Za-z0-9_]*"), "geodiff_TMP"); }

const char *kOps[] = {"diff", "diff-missing", "apply", "apply-conflict", "apply-empty", "apply-text", "rebase", "rebase-ex", "rebase-emptytheirs", "rebase-emptyours", "rebase-missing", "invert", "list", "list-missing", "count-bad", "null", "copy", "dump-text", "apply-twice"};
const int kOpCount = sizeof kOps / sizeof *kOps;

void fixture(const std::string &d, int variant) {
  for (auto n : {"base", "ours", "theirs", "far"}) {
    std::string p = d + n + ".gpkg";
    unlink(p.c_str());
    Db db(p);
    db.must("CREATE TABLE t(id INTEGER PRIMARY KEY, a TEXT, b INTEGER)");
    for (int i = 1; i <= 3 + variant % 3; ++i) db.must("INSERT INTO t VALUES(" + std::to_string(i) + ",'r" + std::to_string(i) + "'," + std::to_string(i) + ")");
    std::string w = n;
    if (w == "ours" || w == "theirs") {
      db.must("UPDATE t SET a='" + w + "', b=b+" + (w == "ours" ? "1" : "2") + " WHERE id<=" + std::to_string(1 + variant % 2));
      db.must("INSERT INTO t VALUES(20,'" + w + "',0)");
    }
    if (w == "far") { db.must("UPDATE t SET a='far', b=99"); db.must("DELETE FROM t WHERE id=2"); db.must("INSERT INTO t VALUES(20,'far',0)"); }
  }
  writeFile(d + "notes.txt", "nothing to see");
  writeFile(d + "empty.bin", "");
  for (auto n : {"out.bin", "conf.json", "list.json", "copy.gpkg"}) unlink((d + n).c_str());
}
int runOp(const std::string &d, const std::string &op) {
  auto p = [&](const char *n) { return d + n; };
  std::string base = p("base.gpkg"), ours = p("ours.gpkg"), theirs = p("theirs.gpkg"), far = p("far.gpkg"), b2o = p("b2o.bin"), b2t = p("b2t.bin"), out = p("out.bin"), conf = p("conf.json"), list = p("list.json"), text = p("notes.txt"), empty = p("empty.bin"), gone = p("gone.bin");
  if (op == "diff") return GEODIFF_createChangeset(base.c_str(), ours.c_str(), out.c_str());
  if (op == "diff-missing") return GEODIFF_createChangeset(base.c_str(), gone.c_str(), out.c_str());
  if (op == "apply" || op == "apply-twice") return GEODIFF_applyChangeset(base.c_str(), b2o.c_str());
  if (op == "apply-conflict") return GEODIFF_applyChangeset(far.c_str(), b2o.c_str());
  if (op == "apply-empty") return GEODIFF_applyChangeset(far.c_str(), empty.c_str());
  if (op == "apply-text") return GEODIFF_applyChangeset(far.c_str(), text.c_str());
  if (op == "rebase") return GEODIFF_rebase(base.c_str(), theirs.c_str(), ours.c_str(), conf.c_str());
  if (op == "rebase-ex") return GEODIFF_createRebasedChangesetEx("sqlite", "", base.c_str(), b2o.c_str(), b2t.c_str(), out.c_str(), conf.c_str());
  if (op == "rebase-emptytheirs") return GEODIFF_createRebasedChangesetEx("sqlite", "", base.c_str(), b2o.c_str(), empty.c_str(), out.c_str(), conf.c_str());
  if (op == "rebase-emptyours") return GEODIFF_createRebasedChangesetEx("sqlite", "", base.c_str(), empty.c_str(), b2t.c_str(), out.c_str(), conf.c_str());
  if (op == "rebase-missing") return GEODIFF_createRebasedChangeset(base.c_str(), ours.c_str(), gone.c_str(), out.c_str(), conf.c_str());
  if (op == "invert") return GEODIFF_invertChangeset(b2o.c_str(), out.c_str());
  if (op == "list") return GEODIFF_listChanges(b2o.c_str(), list.c_str());
  if (op == "list-missing") return GEODIFF_listChangesSummary(gone.c_str(), list.c_str());
  if (op == "count-bad") return GEODIFF_changesCount(text.c_str());
  if (op == "null") return GEODIFF_applyChangeset(nullptr, b2o.c_str());
  if (op == "copy") return GEODIFF_makeCopy("sqlite", "", base.c_str(), "mysql", "", p("copy.gpkg").c_str());
  return GEODIFF_dumpData("sqlite", "", text.c_str(), out.c_str());
}
struct Restore { ~Restore() { ::harnessInit(); } };

// standard output and error go to files while this lives
struct Capture {
  int o, e; std::string dir;
  explicit Capture(const std::string &d) : dir(d) {
    fflush(stdout); fflush(stderr);
    o = dup(1); e = dup(2);
    int a = open((d + "stdout").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), b = open((d + "stderr").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(a, 1); dup2(b, 2); close(a); close(b);
  }
  void end() { if (o < 0) return; fflush(stdout); fflush(stderr); dup2(o, 1); dup2(e, 2); close(o); close(e); o = -1; }
  ~Capture() { end(); }
};
// text consists of the messages in order, with no more than a short prefix and a line end each
std::string printedMismatch(std::string text, const std::vector<std::string> &msgs, const char *where) {
  size_t pos = 0, extra = 0;
  for (auto &m : msgs) {
    size_t at = text.find(m, pos);
    if (at == std::string::npos) return std::string(where) + " lacks message: " + m.substr(0, 200);
    extra += at - pos;
    pos = at + m.size();
  }
  extra += text.size() - pos;
  if (extra > msgs.size() * 24) return std::string(where) + " has more than the " + std::to_string(msgs.size()) + " expected messages:\n" + text.substr(0, 800);
  return "";
}
}  // namespace

// harness --logchild DIR MODE OP...   MODE: d(efault) | c(allback) | n(ull callback), optionally followed by a level
int logChild(int argc, char **argv) {
  std::string d = argv[2], mode = argv[3];
  if (strchr(mode.c_str(), 'i')) GEODIFF_init();
  if (mode[0] == 'c') GEODIFF_setLoggerCallback(cbA);
  if (mode[0] == 'n') GEODIFF_setLoggerCallback(nullptr);
  if (isdigit((unsigned char)mode.back())) GEODIFF_setMaximumLoggerLevel((GEODIFF_LoggerLevel)(mode.back() - '0'));
  for (int i = 4; i < argc; ++i) runOp(d, argv[i]);
  fflush(stdout);
  if (mode[0] == 'c') {
    FILE *f = fopen((d + "child.log").c_str(), "w");
    for (auto &m : gA) { fprintf(f, "%d %zu\n", m.level, m.text.size()); fwrite(m.text.data(), 1, m.text.size(), f); }
    fclose(f);
  }
  return 0;
}
static Log readChildLog(const std::string &path) {
  std::string t = readFile(path);
  Log r;
  size_t p = 0;
  while (p < t.size()) {
    int l = atoi(t.c_str() + p);
    size_t sp = t.find(' ', p), nl = t.find('\n', p);
    size_t n = strtoul(t.c_str() + sp, nullptr, 10);
    r.push_back({l, norm(t.substr(nl + 1, n))});
    p = nl + 1 + n;
  }
  return r;
}
static std::string showLog(const Log &l) { std::string r; for (auto &m : l) r += "[" + std::to_string(m.level) + "] " + m.text.substr(0, 160) + "\n"; return r.empty() ? "(nothing)\n" : r; }
static bool sameLog(const Log &a, const Log &b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (a[i].level != b[i].level || a[i].text != b[i].text) return false;
  return true;
}

static void c25(Ctx &c) {
  auto &s = c.src;
  Restore restore;
  int variant = (int)s.below(6);
  int n = 1 + (int)s.below(6);
  std::vector<std::string> ops;
  for (int i = 0; i < n; ++i) ops.push_back(kOps[s.below(kOpCount)]);
  c.desc << "operations:";
  for (auto &o : ops) c.desc << " " << o;
  c.desc << "\n";
  fixture(c.dir, variant);
  MUST_OK(c, GEODIFF_createChangeset((c.dir + "base.gpkg").c_str(), (c.dir + "ours.gpkg").c_str(), (c.dir + "b2o.bin").c_str()));
  MUST_OK(c, GEODIFF_createChangeset((c.dir + "base.gpkg").c_str(), (c.dir + "theirs.gpkg").c_str(), (c.dir + "b2t.bin").c_str()));
  // what the operations emit
  std::vector<Log> ref;
  std::vector<int> rcs;
  std::set<int> classes;
  GEODIFF_setMaximumLoggerLevel(LevelDebug);
  GEODIFF_setLoggerCallback(cbA);
  {
    Capture cap(c.dir);
    for (auto &o : ops) {
      gA.clear();
      rcs.push_back(runOp(c.dir, o));
      for (auto &m : gA) { m.text = norm(m.text); classes.insert(m.level); }
      ref.push_back(gA);
    }
  }
  auto quiet = [&](const char *when) {
    std::string o = readFile(c.dir + "stdout") + readFile(c.dir + "stderr");
    if (!o.empty()) c.fail(std::string("written to the standard streams ") + when + ": " + o.substr(0, 300));
  };
  quiet("beside the callback");
  for (auto &l : ref) for (auto &m : l) c.check(m.level >= 1 && m.level <= 4, "message of class " + std::to_string(m.level));
  for (size_t i = 0; i < ops.size(); ++i) {
    bool err = false;
    for (auto &m : ref[i]) err |= m.level == LevelError;
    bool failed = ops[i] == "count-bad" ? rcs[i] < 0 : rcs[i] != 0;
    c.check(err || !failed, ops[i] + " failed with " + std::to_string(rcs[i]) + " without an error message");
  }
  if (classes.size() > 1) c.nontrivial();
  for (int k : classes) c.label("class " + std::to_string(k));
  auto filtered = [](const Log &l, int level) { Log r; for (auto &m : l) if (m.level <= level) r.push_back(m); return r; };
  // levels and callbacks changing between operations
  fixture(c.dir, variant);
  {
    Capture cap(c.dir);
    int cb = 0, level = 4;
    std::string msg;
    for (size_t i = 0; i < ops.size() && msg.empty(); ++i) {
      if (s.below(3)) { level = (int)s.below(5); GEODIFF_setMaximumLoggerLevel((GEODIFF_LoggerLevel)level); }
      else if (i == 0) { GEODIFF_setMaximumLoggerLevel((GEODIFF_LoggerLevel)level); }
      if (i == 0 || s.below(3) == 2) { cb = (int)s.weighted({4, 3, 1}); GEODIFF_setLoggerCallback(cb == 0 ? cbA : cb == 1 ? cbB : nullptr); }
      gA.clear(); gB.clear();
      int rc = runOp(c.dir, ops[i]);
      if (rc != rcs[i]) msg = ops[i] + " returned " + std::to_string(rc) + " instead of " + std::to_string(rcs[i]);
      for (auto l : {&gA, &gB}) for (auto &m : *l) m.text = norm(m.text);
      Log want = filtered(ref[i], level), none;
      if (msg.empty() && !sameLog(gA, cb == 0 ? want : none)) msg = "first callback at level " + std::to_string(level) + (cb == 0 ? "" : " (not set)") + ", " + ops[i] + ":\n" + showLog(gA) + "expected:\n" + showLog(cb == 0 ? want : none);
      if (msg.empty() && !sameLog(gB, cb == 1 ? want : none)) msg = "second callback at level " + std::to_string(level) + (cb == 1 ? "" : " (not set)") + ", " + ops[i] + ":\n" + showLog(gB) + "expected:\n" + showLog(cb == 1 ? want : none);
    }
    cap.end();
    if (!msg.empty()) c.fail(msg);
  }
  quiet("with callbacks or none");
  // a fresh process: environment variable and default output
  static const std::vector<std::pair<const char *, int>> envs = {{nullptr, 1}, {"0", 0}, {"1", 1}, {"2", 2}, {"3", 3}, {"4", 4}, {"5", 1}, {"-1", 1}, {"17", 1}, {"2147483647", 1}};
  auto env = envs[s.below(envs.size())];
  std::string mode = s.weighted({3, 2, 1}) == 0 ? "d" : s.below(3) ? "c" : "n";
  mode += "i";
  int level = env.second;
  if (s.below(4) == 3) { level = (int)s.below(5); mode += std::to_string(level); }
  c.desc << "GEODIFF_LOGGER_LEVEL " << (env.first ? env.first : "unset") << ", mode " << mode << "\n";
  fixture(c.dir, variant);
  unlink((c.dir + "child.log").c_str());
  pid_t pid = fork();
  if (pid == 0) {
    Capture cap(c.dir);
    if (env.first) setenv("GEODIFF_LOGGER_LEVEL", env.first, 1); else unsetenv("GEODIFF_LOGGER_LEVEL");
    std::vector<const char *> av = {"harness", "--logchild", c.dir.c_str(), mode.c_str()};
    for (auto &o : ops) av.push_back(o.c_str());
    av.push_back(nullptr);
    execv("/proc/self/exe", (char **)av.data());
    _exit(97);
  }
  int ws = 0;
  while (waitpid(pid, &ws, 0) < 0 && errno == EINTR) {}
  c.check(WIFEXITED(ws) && WEXITSTATUS(ws) == 0, "child ended with status " + std::to_string(ws));
  Log all;
  for (auto &l : ref) for (auto &m : filtered(l, level)) all.push_back(m);
  std::string so = norm(readFile(c.dir + "stdout")), se = norm(readFile(c.dir + "stderr")), at = " at level " + std::to_string(level);
  if (mode[0] == 'd') {
    std::vector<std::string> eo, ee;
    for (auto &m : all) (m.level == LevelError ? ee : eo).push_back(m.text);
    std::string w = printedMismatch(so, eo, ("standard output" + at).c_str());
    c.check(w.empty(), w);
    w = printedMismatch(se, ee, ("standard error" + at).c_str());
    c.check(w.empty(), w);
  } else {
    c.check(so.empty() && se.empty(), "written to the standard streams of a child with" + std::string(mode[0] == 'c' ? "" : "out") + " callback: " + (so + se).substr(0, 300));
    if (mode[0] == 'c') {
      Log got = readChildLog(c.dir + "child.log");
      if (!sameLog(got, all)) c.fail("callback of a child" + at + ":\n" + showLog(got) + "expected:\n" + showLog(all));
    }
  }
}
static pbt::Reg r25({"C25", c25, "1-6 operations out of 19 (successes, conflicts, missing and malformed files, empty changesets) run once at the highest level to learn their messages, again with level and callback (one of two, or none) changing between operations, and in a fresh process with the environment variable unset, 0-4 or out of range and the default output, a callback or none; every message has to reach exactly its place in order. Non-trivial: at least two classes of messages.", 3000, 40000, 30});
