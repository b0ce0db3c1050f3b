// C28: bad arguments.
#include "env.hpp"
#include "merge.hpp"
#include <sys/stat.h>
#include <unistd.h>
using pbt::Ctx;

namespace {
enum Role { DB, INOUT, CS, OUT, CONF, NEWDB, DRIVER, EXTRA };
struct Arg { Role role; std::string val; bool null = false; bool read = true; };   // read: the operation cannot do without it
struct Call {
  std::string name;
  std::vector<Arg> a;
  std::function<int(const std::vector<const char *> &)> f;
};
std::string bytesOf(const std::string &p) {
  struct stat st;
  if (lstat(p.c_str(), &st) != 0) return "missing";
  if (S_ISDIR(st.st_mode)) return "dir";
  if (S_ISLNK(st.st_mode)) { char b[4096]; ssize_t n = readlink(p.c_str(), b, sizeof b); return "link " + std::string(b, n > 0 ? n : 0); }
  return "file " + readFile(p);
}
// a failed apply may leave other bytes (page counters) as long as the content is the same
bool sqliteSame(const std::string &was, const std::string &now, const std::string &path, const std::string &dir) {
  if (was.rfind("file SQLite format 3", 0) != 0 || now.rfind("file SQLite format 3", 0) != 0) return false;
  std::string old = dir + "tmp/was.gpkg", w;
  writeFile(old, was.substr(5));
  bool same = false;
  try { Snap a = snap(old), b = snap(path); same = sameSnap(a, b, &w) && integrityOk(path); } catch (std::exception &) {}
  unlink(old.c_str());
  return same;
}
}  // namespace

static void c28(Ctx &c) {
  auto &s = c.src;
  // two histories of one small table with a conflict, an own insert and an update each
  std::string base = c.dir + "base.gpkg", ours = c.dir + "ours.gpkg", theirs = c.dir + "theirs.gpkg", b2o = c.dir + "b2o.bin", b2t = c.dir + "b2t.bin";
  int rows = 2 + (int)s.below(4);
  for (auto &p : {base, ours, theirs}) {
    Db db(p);
    db.must("CREATE TABLE t(id INTEGER PRIMARY KEY, a TEXT, b INTEGER)");
    for (int i = 1; i <= rows; ++i) db.must("INSERT INTO t VALUES(" + std::to_string(i) + ",'r" + std::to_string(i) + "'," + std::to_string(i * 10) + ")");
    if (p != base) {
      db.must(std::string("UPDATE t SET a='") + (p == ours ? "ours" : "theirs") + "' WHERE id=1");
      db.must(std::string("INSERT INTO t VALUES(") + std::to_string(rows + 1) + (p == ours ? ",'o',1)" : ",'t',2)"));
    }
  }
  MUST_OK(c, GEODIFF_createChangeset(base.c_str(), ours.c_str(), b2o.c_str()));
  MUST_OK(c, GEODIFF_createChangeset(base.c_str(), theirs.c_str(), b2t.c_str()));
  // things that are no good
  std::string text = c.dir + "notes.txt", edir = c.dir + "emptydir", fdir = c.dir + "fulldir", inner = fdir + "/inner.bin", dangling = c.dir + "dangling", shortdb = c.dir + "short.gpkg", badcs = c.dir + "bad.bin";
  writeFile(text, s.below(2) ? "hello, this is not what you are looking for\n" : std::string(3000, 'T'));
  mkdir(edir.c_str(), 0755);
  mkdir(fdir.c_str(), 0755);
  writeFile(inner, "keep me");
  if (symlink((c.dir + "nowhere").c_str(), dangling.c_str()) != 0) throw pbt::Discard();
  std::string bare = c.dir + "bare.gpkg";   // a database without tables: what makeCopy can copy without layers
  { Db db(bare); db.must("PRAGMA user_version=1"); }
  writeFile(shortdb, readFile(base).substr(0, 100 + s.below(800)));
  { std::string b = readFile(b2t); b.resize(b.size() - 1 - s.below(3)); writeFile(badcs, b); }

  std::string out = c.dir + "out.bin", conf = c.dir + "conf.json", json = c.dir + "out.json", copy = c.dir + "copy.gpkg";
  bool hadOut = s.below(3) == 2;   // outputs of an earlier run
  if (hadOut) { for (auto &p : {out, conf, json}) writeFile(p, "earlier"); copyFile(theirs, copy); }
  typedef const std::vector<const char *> A;
  std::vector<Call> calls = {
    {"createChangeset", {{DB, base}, {DB, ours}, {OUT, out}}, [](A &a) { return GEODIFF_createChangeset(a[0], a[1], a[2]); }},
    {"createChangesetEx", {{DRIVER, "sqlite"}, {EXTRA, ""}, {DB, base}, {DB, ours}, {OUT, out}}, [](A &a) { return GEODIFF_createChangesetEx(a[0], a[1], a[2], a[3], a[4]); }},
    {"invertChangeset", {{CS, b2o}, {OUT, out}}, [](A &a) { return GEODIFF_invertChangeset(a[0], a[1]); }},
    {"createRebasedChangeset", {{DB, base}, {DB, ours}, {CS, b2t}, {OUT, out}, {CONF, conf}}, [](A &a) { return GEODIFF_createRebasedChangeset(a[0], a[1], a[2], a[3], a[4]); }},
    {"createRebasedChangesetEx", {{DRIVER, "sqlite"}, {EXTRA, ""}, {DB, base, false, false}, {CS, b2o}, {CS, b2t}, {OUT, out}, {CONF, conf}}, [](A &a) { return GEODIFF_createRebasedChangesetEx(a[0], a[1], a[2], a[3], a[4], a[5], a[6]); }},
    {"rebase", {{DB, base}, {DB, theirs}, {INOUT, ours}, {CONF, conf}}, [](A &a) { return GEODIFF_rebase(a[0], a[1], a[2], a[3]); }},
    {"rebaseEx", {{DRIVER, "sqlite"}, {EXTRA, ""}, {DB, base}, {INOUT, ours}, {CS, b2t}, {CONF, conf}}, [](A &a) { return GEODIFF_rebaseEx(a[0], a[1], a[2], a[3], a[4], a[5]); }},
    {"applyChangeset", {{INOUT, base}, {CS, b2o}}, [](A &a) { return GEODIFF_applyChangeset(a[0], a[1]); }},
    {"applyChangesetEx", {{DRIVER, "sqlite"}, {EXTRA, ""}, {INOUT, base}, {CS, b2t}}, [](A &a) { return GEODIFF_applyChangesetEx(a[0], a[1], a[2], a[3]); }},
    {"hasChanges", {{CS, b2o}}, [](A &a) { return GEODIFF_hasChanges(a[0]); }},
    {"changesCount", {{CS, b2o}}, [](A &a) { return GEODIFF_changesCount(a[0]); }},
    {"listChanges", {{CS, b2o}, {OUT, json}}, [](A &a) { return GEODIFF_listChanges(a[0], a[1]); }},
    {"listChangesSummary", {{CS, b2o}, {OUT, json}}, [](A &a) { return GEODIFF_listChangesSummary(a[0], a[1]); }},
    {"makeCopy", {{DRIVER, "sqlite"}, {EXTRA, ""}, {DB, bare}, {DRIVER, "sqlite"}, {EXTRA, ""}, {NEWDB, copy}}, [](A &a) { return GEODIFF_makeCopy(a[0], a[1], a[2], a[3], a[4], a[5]); }},
    {"dumpData", {{DRIVER, "sqlite"}, {EXTRA, ""}, {DB, base}, {OUT, out}}, [](A &a) { return GEODIFF_dumpData(a[0], a[1], a[2], a[3]); }},
  };
  Call call = calls[s.below(calls.size())];
  int bad = s.below(12) == 11 ? 0 : 1 + (s.below(4) == 3);
  std::vector<std::string> inputsToo;
  bool mustFail = false, parse = call.name != "hasChanges";
  std::string longName(5000, 'n');
  for (int k = 0; k < bad; ++k) {
    Arg &a = call.a[s.below(call.a.size())];
    auto set = [&](const std::string &v, const char *what, bool fatal) { a.val = v; a.null = false; c.label(what); if (fatal) mustFail = true; };
    if (s.below(8) == 7) { a.null = true; a.val.clear(); c.label("null"); if (a.role != EXTRA) mustFail = true; continue; }
    bool rd = a.read;
    switch (a.role) {
      case DB: case INOUT:
        switch (s.below(11)) {
          case 0: set(c.dir + "missing.gpkg", "missing database", rd); break;
          case 1: set(edir, "directory as database", rd); break;
          case 2: set(fdir, "directory as database", rd); break;
          case 3: set(text, "not a database", rd); break;
          case 4: set(b2o, "changeset as database", rd); break;
          case 5: set(dangling, "dangling link", rd); break;
          case 6: set(c.dir + "no/such/dir/db.gpkg", "missing directory", rd); break;
          case 7: set(c.dir + longName, "long name", rd); break;
          case 8: set("", "empty name", rd); break;
          case 9: set(shortdb, "truncated database", rd); break;
          default: set(text + "/db.gpkg", "below a file", rd); break;
        }
        break;
      case CS:
        switch (s.below(11)) {
          case 0: set(c.dir + "missing.bin", "missing changeset", true); break;
          case 1: set(edir, "directory as changeset", true); break;
          case 2: set(fdir, "directory as changeset", true); break;
          case 3: set(text, "not a changeset", parse); break;
          case 4: set(base, "database as changeset", parse); break;
          case 5: set(dangling, "dangling link", true); break;
          case 6: set(c.dir + "no/such/dir/cs.bin", "missing directory", true); break;
          case 7: set(c.dir + longName, "long name", true); break;
          case 8: set("", "empty name", true); break;
          case 9: set(badcs, "truncated changeset", parse); break;
          default: set(text + "/cs.bin", "below a file", true); break;
        }
        break;
      case OUT: case CONF: case NEWDB:
        switch (s.below(6)) {
          case 0: set(edir, "directory as output", true); break;
          case 1: set(fdir, "directory as output", true); break;
          case 2: set(c.dir + "no/such/dir/out.bin", "missing directory", true); break;
          case 3: set(c.dir + longName, "long name", true); break;
          case 4: set("", "empty name", true); break;
          default: set(text + "/out.bin", "below a file", true); break;
        }
        break;
      case DRIVER:
        switch (s.below(6)) {
          case 0: set("", "unknown driver", true); break;
          case 1: set("SQLite", "unknown driver", true); break;
          case 2: set("mysql", "unknown driver", true); break;
          case 3: set("sqlite ", "unknown driver", true); break;
          case 4: set(longName, "unknown driver", true); break;
          default: {
            set("postgres", "driver without server", call.name != "createRebasedChangesetEx");
            // the argument after the driver says where: nowhere
            (&a + 1)->val = "host=" + c.dir + " port=5999 connect_timeout=1";
            (&a + 1)->null = false;
          }
        }
        break;
      case EXTRA: {
        bool pg = (&a - 1)->val == "postgres";
        if (pg) { a.val = s.below(2) ? "host=" + c.dir + " nonsense=1" : "host=" + c.dir + " port=abc"; c.label("bad connection text"); }
        else set(s.below(2) ? "whatever" : longName, "ignored text", false);
        break;
      }
    }
  }
  if (s.below(4) == 3 && call.name != "listChanges" && call.name != "listChangesSummary" && call.name != "invertChangeset") {
    // an output is an input of the call: by its name, through a link, or on a roundabout way
    std::vector<std::string> in;
    std::vector<Arg *> outs;
    bool files = call.a[0].role != DRIVER || call.a[0].val == "sqlite";
    for (auto &x : call.a) {
      if ((((x.role == DB || x.role == INOUT) && files) || x.role == CS) && !x.null && exists(x.val)) in.push_back(x.val);
      if (x.role == OUT || x.role == CONF || (x.role == NEWDB && (&x - 2)->val == "sqlite")) outs.push_back(&x);
    }
    if (!in.empty() && !outs.empty()) {
      std::string p = s.pick(in), l = c.dir + "link";
      Arg &a = *s.pick(outs);
      a.null = false;
      switch (s.below(4)) {
        case 0: a.val = p; break;
        case 1: if (symlink(p.c_str(), l.c_str()) != 0) throw pbt::Discard(); a.val = l; break;
        case 2: a.val = link(p.c_str(), l.c_str()) == 0 ? l : p; break;
        default: { size_t at = p.rfind('/'); a.val = p.substr(0, at + 1) + "./" + p.substr(at + 1); }
      }
      if (a.val == l) inputsToo.push_back(l);
      bad = std::max(bad, 1);
      c.label("output is an input");
    }
  }
  // a repeated pick may have undone an earlier one: decide again from what is there
  auto isBad = [&](const Arg &a) {
    if (a.null) return a.role != EXTRA;
    for (auto &o : calls) if (o.name == call.name) { const Arg &g = o.a[&a - call.a.data()]; if (g.val == a.val) return false; }
    if (a.role == EXTRA) return false;
    if ((a.role == DB || a.role == INOUT) && !a.read) return false;
    if (a.role == CS && !parse && (a.val == text || a.val == base || a.val == badcs)) return false;
    if (a.role == DRIVER && a.val == "postgres" && call.name == "createRebasedChangesetEx") return false;
    return true;
  };
  mustFail = false;
  for (auto &a : call.a) mustFail |= isBad(a);
  // makeCopy from postgres to nowhere etc. all fail; an argument used twice is fine
  if (mustFail) c.nontrivial();
  c.label(call.name);
  c.desc << call.name << "(";
  std::vector<const char *> av;
  for (size_t i = 0; i < call.a.size(); ++i) {
    auto &a = call.a[i];
    std::string sh = a.val;
    if (sh.rfind(c.dir, 0) == 0) sh = "DIR/" + sh.substr(c.dir.size());
    if (sh.size() > 80) sh = sh.substr(0, 30) + "... (" + std::to_string(a.val.size()) + ")";
    c.desc << (i ? ", " : "") << (a.null ? "NULL" : "\"" + sh + "\"");
    av.push_back(a.null ? nullptr : a.val.c_str());
  }
  c.desc << ")" << (hadOut ? " with outputs of an earlier run\n" : "\n");
  std::vector<std::string> inputs = {base, ours, theirs, b2o, b2t, bare, text, edir, fdir, inner, dangling, shortdb, badcs};
  inputs.insert(inputs.end(), inputsToo.begin(), inputsToo.end());
  std::map<std::string, std::string> was;
  for (auto &p : inputs) was[p] = bytesOf(p);
  std::vector<std::string> before = listDir(c.dir);
  takeLog();
  int rc;
  try { rc = call.f(av); } catch (std::exception &e) { c.fail(std::string("exception: ") + e.what()); }
  bool count = call.name == "hasChanges" || call.name == "changesCount";
  if (mustFail) c.check(count ? rc == -1 : rc != 0, "returned " + std::to_string(rc) + " for bad arguments");
  else if (bad == 0) c.check(count ? rc >= 1 : rc == 0, "returned " + std::to_string(rc) + " for good arguments\n" + logText());
  for (auto &a : call.a) if (a.role == INOUT && rc == 0 && !a.null) was.erase(a.val);
  for (auto &kv : was) {
    std::string now = bytesOf(kv.first);
    bool inout = false;
    for (auto &a : call.a) inout |= a.role == INOUT && a.val == kv.first;
    if (now != kv.second && inout && sqliteSame(kv.second, now, kv.first, c.dir)) continue;
    if (now != kv.second) c.fail(kv.first.substr(c.dir.size()) + " was changed (" + kv.second.substr(0, 20) + " ... is now " + now.substr(0, 20) + ")");
  }
  std::set<std::string> ok(before.begin(), before.end());
  for (auto &p : {out, conf, json, copy}) ok.insert(p.substr(c.dir.size()));
  for (auto &n : listDir(c.dir)) if (!ok.count(n)) c.fail("left behind: " + n);
}
static pbt::Reg r28({"C28", c28, "one of the 15 entry points with good arguments of which one or two are replaced: NULL, missing file, empty name, name too long, empty or full directory, text file, changeset for a database and the reverse, truncated database or changeset, dangling link, path below a file or a missing directory, an output that is one of the inputs (same name, link, roundabout path), unknown driver, PostgreSQL without a server; outputs may exist from an earlier run. The call must return its error value whenever it cannot do without that argument, under AddressSanitizer and UBSan, and every input file, directory and link stays byte for byte. Non-trivial: an error is required.", 6000, 60000, 40});
