// C24: the command-line tool against the C interface.
#include "env.hpp"
#include "merge.hpp"
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using pbt::Ctx;

namespace {
struct Run { int code; std::string out; };
Run runCli(const std::string &tmp, const std::vector<std::string> &args) {
  std::string of = tmp + "cli.out";
  pid_t pid = fork();
  if (pid == 0) {
    int o = open(of.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(o, 1);
    int e = open("/dev/null", O_WRONLY);
    dup2(e, 2);
    close(o); close(e);
    unsetenv("GEODIFF_LOGGER_LEVEL");
    std::string exe = pbt::arg("cli");
    std::vector<const char *> av = {exe.c_str()};
    for (auto &a : args) av.push_back(a.c_str());
    av.push_back(nullptr);
    execv(exe.c_str(), (char **)av.data());
    _exit(126);
  }
  int ws = 0;
  while (waitpid(pid, &ws, 0) < 0 && errno == EINTR) {}
  Run r{WIFEXITED(ws) ? WEXITSTATUS(ws) : 1000 + WTERMSIG(ws), readFile(of)};
  unlink(of.c_str());
  return r;
}
typedef std::map<std::string, std::string> Tree;
Tree tree(const std::string &d) {
  Tree t;
  for (auto &n : listDir(d)) { struct stat st; if (lstat((d + n).c_str(), &st) == 0) t[n] = S_ISDIR(st.st_mode) ? "dir" : "file " + readFile(d + n); }
  return t;
}
std::string treeDiff(const Tree &a, const Tree &b) {
  for (auto &kv : a) { auto it = b.find(kv.first); if (it == b.end()) return kv.first + " is missing"; if (it->second != kv.second) return kv.first + " differs (" + std::to_string(kv.second.size()) + " and " + std::to_string(it->second.size()) + " bytes)"; }
  for (auto &kv : b) if (!a.count(kv.first)) return kv.first + " is new";
  return "";
}
struct Cmd { const char *name; int n; };
const Cmd kCmds[] = {{"createChangeset", 3}, {"createRebasedChangeset", 5}, {"applyChangeset", 2}, {"listChanges", 2}, {"listChangesSummary", 2}, {"makeCopy", 6}, {"createChangesetEx", 5}, {"applyChangesetEx", 4}, {"rebaseEx", 6}, {"dumpData", 4}};
// databases with the same content; the time a copy was made does not count
bool sameDb(const std::string &a, const std::string &b, bool copy) {
  try {
    Snap x = snap(a), y = snap(b);
    if (copy) for (auto sn : {&x, &y}) {
      auto it = sn->tables.find("gpkg_contents");
      if (it == sn->tables.end()) continue;
      for (size_t k = 0; k < it->second.cols.size(); ++k) if (it->second.cols[k].name == "last_change") {
        for (auto &r : it->second.rows) r.second[k] = Val::null();
        for (auto &r : it->second.loose) r[k] = Val::null();
      }
    }
    return sameSnap(x, y);
  } catch (std::exception &) { return false; }
}
int api(const std::string &cmd, const std::vector<std::string> &v) {
  auto a = [&](size_t i) { return v[i].c_str(); };
  if (cmd == "createChangeset") return GEODIFF_createChangeset(a(0), a(1), a(2));
  if (cmd == "createRebasedChangeset") return GEODIFF_createRebasedChangeset(a(0), a(1), a(2), a(3), a(4));
  if (cmd == "applyChangeset") return GEODIFF_applyChangeset(a(0), a(1));
  if (cmd == "listChanges") return GEODIFF_listChanges(a(0), a(1));
  if (cmd == "listChangesSummary") return GEODIFF_listChangesSummary(a(0), a(1));
  if (cmd == "makeCopy") return GEODIFF_makeCopy(a(0), a(1), a(2), a(3), a(4), a(5));
  if (cmd == "createChangesetEx") return GEODIFF_createChangesetEx(a(0), a(1), a(2), a(3), a(4));
  if (cmd == "applyChangesetEx") return GEODIFF_applyChangesetEx(a(0), a(1), a(2), a(3));
  if (cmd == "rebaseEx") return GEODIFF_rebaseEx(a(0), a(1), a(2), a(3), a(4), a(5));
  return GEODIFF_dumpData(a(0), a(1), a(2), a(3));
}
}  // namespace

static void c24(Ctx &c) {
  auto &s = c.src;
  int kind = (int)s.weighted({12, 2, 1, 1});
  static const std::vector<std::string> stems = {"base", "our data", "\xc5\xa1\xc4\x8d", "--x", "-", "a'b\"c", "x;y", "%s"};
  std::string stem = stems[s.weighted({6, 2, 2, 1, 1, 1, 1, 1})];
  std::string api_d = c.dir + "api/", cli_d = c.dir + "cli/";
  MergeOpts o;
  o.maxEditsOurs = o.maxEditsTheirs = 5;
  GenOpts g = mergeGenOpts();
  g.maxTables = 2; g.maxRows = 6; g.bigValues = false; g.wide = false;
  MergeCase m = genMerge(c, g, o);
  std::string B = stem + ".gpkg", O = stem + "_ours.gpkg", T = stem + "_theirs.gpkg", bo = stem + "_o.bin", bt = stem + "_t.bin";
  for (auto &d : {api_d, cli_d}) {
    mkdir(d.c_str(), 0755);
    copyFile(m.base, d + B); copyFile(m.ours, d + O); copyFile(m.theirs, d + T);
    MUST_OK(c, GEODIFF_createChangeset(m.base.c_str(), m.ours.c_str(), (d + bo).c_str()));
    MUST_OK(c, GEODIFF_createChangeset(m.base.c_str(), m.theirs.c_str(), (d + bt).c_str()));
    writeFile(d + "notes.txt", "no database\n");
    { Db db(d + "bare.gpkg"); db.must("PRAGMA user_version=1"); }
  }
  for (auto &p : {m.base, m.ours, m.theirs}) unlink(p.c_str());
  const Cmd &cmd = kCmds[s.below(sizeof kCmds / sizeof *kCmds)];
  std::string name = cmd.name;
  if (kind == 3) {
    Run r = runCli(c.tmp, {"version"});
    c.label("version");
    c.check(r.code == 0 && r.out == GEODIFF_version(), "version gives " + std::to_string(r.code) + " and " + r.out);
    return;
  }
  // files by role; sometimes a wrong one
  auto file = [&](const std::string &good) {
    if (s.below(12) < 11) return good;
    static const std::vector<std::string> wrong = {"missing.x", "notes.txt", "", "no/such/place", "bare.gpkg"};
    return wrong[s.below(wrong.size())];
  };
  auto driver = [&]() -> std::string { return s.below(15) == 14 ? (s.below(2) ? "mysql" : "") : "sqlite"; };
  auto extra = [&]() -> std::string { return s.below(3) ? "" : "extra text"; };
  std::string anyDb = s.below(3) == 0 ? B : s.below(2) ? O : T, otherDb = s.below(2) ? O : T, anyCs = s.below(2) ? bo : bt;
  std::vector<std::string> v;      // file names are relative to the two directories; a leading '@' marks other texts
  if (name == "createChangeset") v = {file(B), file(otherDb), file("out.bin")};
  else if (name == "createRebasedChangeset") v = {file(B), file(O), file(bt), file("out.bin"), file("conflict.json")};
  else if (name == "applyChangeset") v = {file(anyDb), file(anyCs)};
  else if (name == "listChanges" || name == "listChangesSummary") v = {file(anyCs), file("list.json")};
  else if (name == "makeCopy") v = {"@" + driver(), "@" + extra(), file(s.below(2) ? "bare.gpkg" : B), "@" + driver(), "@" + extra(), file("copy.gpkg")};
  else if (name == "createChangesetEx") v = {"@" + driver(), "@" + extra(), file(B), file(otherDb), file("out.bin")};
  else if (name == "applyChangesetEx") v = {"@" + driver(), "@" + extra(), file(anyDb), file(anyCs)};
  else if (name == "rebaseEx") v = {"@" + driver(), "@" + extra(), file(B), file(s.below(4) ? O : B), file(bt), file("conflict.json")};
  else v = {"@" + driver(), "@" + extra(), file(anyDb), file("out.bin")};
  auto in = [&](const std::string &d) {
    std::vector<std::string> r;
    for (auto &x : v) r.push_back(!x.empty() && x[0] == '@' ? x.substr(1) : x.empty() ? x : d + x);
    return r;
  };
  std::vector<std::string> ca = in(cli_d);
  if (s.below(4) == 3) { writeFile(api_d + "out.bin", "old"); writeFile(cli_d + "out.bin", "old"); writeFile(api_d + "conflict.json", "old"); writeFile(cli_d + "conflict.json", "old"); }
  Tree before = tree(cli_d);
  c.desc << name;
  for (auto &x : v) c.desc << " '" << x << "'";
  c.desc << "\n";
  if (kind == 1) {        // too few arguments
    int keep = (int)s.below(cmd.n);
    ca.resize(keep);
    ca.insert(ca.begin(), name);
    c.label("too few");
    c.nontrivial();
    Run r = runCli(c.tmp, ca);
    c.check(r.code >= 1 && r.code < 128, name + " with " + std::to_string(keep) + " of " + std::to_string(cmd.n) + " arguments exits with " + std::to_string(r.code));
    std::string w = treeDiff(before, tree(cli_d));
    c.check(w.empty(), name + " with " + std::to_string(keep) + " arguments: " + w);
    return;
  }
  if (kind == 2) {        // unknown command
    static const std::vector<std::string> modes = {"", "help", "--help", "-v", "createchangeset", "createChangesets", "apply", "rebase", "listChanges ", "Version", "invertChangeset2", "dumpdata", "makecopy", "create"};
    std::string mode = modes[s.below(modes.size())];
    ca.insert(ca.begin(), mode);
    if (s.below(8) == 7) ca.clear();
    c.label("unknown");
    c.nontrivial();
    Run r = runCli(c.tmp, ca);
    c.check(r.code >= 1 && r.code < 128, "command '" + mode + "' exits with " + std::to_string(r.code));
    std::string w = treeDiff(before, tree(cli_d));
    c.check(w.empty(), "command '" + mode + "': " + w);
    return;
  }
  int want = api(name, in(api_d));
  ca.insert(ca.begin(), name);
  Run r = runCli(c.tmp, ca);
  c.label(name);
  c.label(want == 0 ? "success" : "failure");
  if (want == 0) c.nontrivial();
  c.check(r.code == (want & 255), "exits with " + std::to_string(r.code) + ", the call returns " + std::to_string(want) + "\n" + r.out.substr(0, 500));
  Tree ta = tree(api_d), tc = tree(cli_d);
  std::string w = treeDiff(ta, tc);
  // databases may differ in unused bytes only
  if (!w.empty()) {
    for (auto &kv : ta) {
      auto it = tc.find(kv.first);
      if (it != tc.end() && it->second != kv.second && kv.second.rfind("file SQLite", 0) == 0 && sameDb(api_d + kv.first, cli_d + kv.first, name == "makeCopy" && kv.first == v.back())) it->second = kv.second;
    }
    w = treeDiff(ta, tc);
  }
  c.check(w.empty(), "compared with the call: " + w);
  c.check(listDir(c.tmp).empty(), "left in the temporary directory: " + (listDir(c.tmp).empty() ? "" : listDir(c.tmp)[0]));
}
static pbt::Reg r24({"C24", c24, "every command of the tool with arguments over generated databases and changesets (now and then a missing, empty or wrong one; file names with blanks, quotes, leading dashes, non-ASCII letters; outputs of an earlier run), run in one directory through the tool and in an identical one through the C interface: exit status, and every file byte for byte (databases: by content); too few arguments and unknown commands must exit with an error and change nothing. Non-trivial: the call succeeds, or must be refused.", 2500, 30000, 25});
