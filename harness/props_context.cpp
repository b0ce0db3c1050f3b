// C30: results depend only on the contents of the inputs.
#include "changesets.hpp"
#include "pgen.hpp"
#include "scene.hpp"
#include <algorithm>
#include <clocale>
#include <ctime>
#include <fcntl.h>
#include <locale>
#include <pthread.h>
#include <sys/stat.h>
#include <unistd.h>
using pbt::Ctx;
extern "C" void harnessLog(GEODIFF_LoggerLevel level, const char *msg);

namespace {
const std::vector<std::string> kOdd = {" ", "'", "\"", "%", "%s%n", "?mode=ro", "#1", "\xc3\xbc\xe6\x97\xa5", ";", "\\", "\n", "$HOME", "*", "&", "`", "--", "''", "\t", ".bin.gpkg", "..", "%20", "{}", "[0]", "~", ",", "=", "(", ":", "-journal1", "+", "|"};
std::string oddPart(pbt::Src &s) {
  std::string r;
  for (int i = 0, n = 1 + (int)s.below(2); i < n; ++i) r += s.pick(kOdd);
  if (s.below(10) == 9) r += std::string(120, 'l');
  return r;
}
// what is changed around a call, and put back afterwards
struct World {
  std::string locale, tmpdir, cwd, tz;
  int mask = -1, level = -1;
  bool noCallback = false, closedStdin = false, thread = false, cxx = false;
};
struct Kept {
  std::string cwd, tmp, tz;
  bool hadTz = false, hadTmp = false;
  int in = -1;
  mode_t mask = 022;
  std::string loc;
  std::locale cxx;
  const World &w;
  explicit Kept(const World &world) : w(world) {
    char b[4096];
    cwd = getcwd(b, sizeof b) ? b : "/";
    if (auto x = getenv("TMPDIR")) { tmp = x; hadTmp = true; }
    if (auto x = getenv("TZ")) { tz = x; hadTz = true; }
    loc = setlocale(LC_ALL, nullptr);
    if (!w.locale.empty()) {
      if (w.cxx) { try { std::locale::global(std::locale(w.locale)); } catch (std::exception &) {} }
      else setlocale(LC_ALL, w.locale.c_str());
    }
    if (!w.tmpdir.empty()) setenv("TMPDIR", w.tmpdir.c_str(), 1);
    if (!w.tz.empty()) { setenv("TZ", w.tz.c_str(), 1); tzset(); }
    if (w.mask >= 0) mask = umask(w.mask);
    if (w.level >= 0) GEODIFF_setMaximumLoggerLevel((GEODIFF_LoggerLevel)w.level);
    if (w.noCallback) GEODIFF_setLoggerCallback(nullptr);
    if (!w.cwd.empty() && chdir(w.cwd.c_str()) != 0) throw pbt::Discard();
    if (w.closedStdin) { in = fcntl(0, F_DUPFD, 100); close(0); }
  }
  ~Kept() {
    if (w.closedStdin && in >= 0) { dup2(in, 0); close(in); }
    if (chdir(cwd.c_str()) != 0) abort();
    if (w.noCallback) GEODIFF_setLoggerCallback(harnessLog);
    if (w.level >= 0) GEODIFF_setMaximumLoggerLevel(LevelDebug);
    if (w.mask >= 0) umask(mask);
    if (!w.tz.empty()) { if (hadTz) setenv("TZ", tz.c_str(), 1); else unsetenv("TZ"); tzset(); }
    if (!w.tmpdir.empty()) { if (hadTmp) setenv("TMPDIR", tmp.c_str(), 1); else unsetenv("TMPDIR"); }
    std::locale::global(cxx);
    setlocale(LC_ALL, loc.c_str());
  }
};
struct ThreadArg { std::function<int()> f; int rc = 99; std::string ex; };
void *threadMain(void *p) { auto *a = (ThreadArg *)p; try { a->rc = a->f(); } catch (std::exception &e) { a->ex = e.what(); } return nullptr; }
int inWorld(Ctx &c, const World &w, const std::function<int()> &f) {
  Kept k(w);
  if (!w.thread) { try { return f(); } catch (std::exception &e) { c.fail(std::string("exception escaped: ") + e.what()); } }
  ThreadArg a;
  a.f = f;
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 512 << 10);
  pthread_t t;
  if (pthread_create(&t, &at, threadMain, &a) != 0) throw pbt::Discard();
  pthread_join(t, nullptr);
  pthread_attr_destroy(&at);
  if (!a.ex.empty()) c.fail("exception escaped: " + a.ex);
  return a.rc;
}
std::string localeOf(pbt::Src &s) { return s.below(2) ? "tr_TR.UTF-8" : "de_DE.UTF-8"; }
// texts of files without the temporary names in messages
struct Result { int rc = 0; std::map<std::string, std::string> files; std::map<std::string, Snap> dbs; std::string log; };
bool haveLocales() {
  static int have = -1;
  if (have < 0) {
    std::string d = pbt::arg("locales");
    if (!d.empty()) setenv("LOCPATH", d.c_str(), 1);
    std::string old = setlocale(LC_ALL, nullptr);
    have = setlocale(LC_ALL, "de_DE.UTF-8") != nullptr && setlocale(LC_ALL, "tr_TR.UTF-8") != nullptr;
    setlocale(LC_ALL, old.c_str());
  }
  return have;
}
const std::vector<std::string> kKeys = {"base", "ours", "theirs", "bare", "b2o", "b2t", "garbage", "short", "bad", "empty", "other", "missing", "out", "conf", "copy"};
}  // namespace

static void c30(Ctx &c) {
  auto &s = c.src;
  Scene sc = genScene(c, s.below(10) == 9);
  auto calls = sceneCalls(sc);
  SceneCall call = calls[s.below(calls.size())];
  if (s.below(5) == 4) c.label("unfit: " + spoil(s, call));
  c.label(call.name);
  // two inputs that are one file (in the plain run: two files of the same content)
  std::string twin, twinOf;
  bool twinLink = false, twinInPlace = false, onto = false;
  if (s.below(8) == 7) {
    std::vector<std::pair<size_t, size_t>> v;
    auto kind = [&](size_t i) {
      const std::string &k = call.args[i].key;
      if (k == "b2o" || k == "b2t") return call.args[i].role == 'c' ? 'c' : 0;
      return (k == "base" || k == "ours" || k == "theirs") && (call.args[i].role == 'd' || call.args[i].role == 'i') ? 'd' : 0;
    };
    for (size_t j = 0; j < call.args.size(); ++j) for (size_t i = 0; i < j; ++i) if (kind(i) && kind(i) == kind(j) && call.args[i].key != call.args[j].key) v.push_back({i, j});
    if (!v.empty()) {
      auto x = v[s.below(v.size())];
      if (s.below(2)) std::swap(sc.files[call.args[x.first].key], sc.files[call.args[x.second].key]);
      twinOf = call.args[x.first].key; twin = call.args[x.second].key;
      twinInPlace = call.args[x.first].role == 'i' || call.args[x.second].role == 'i';
      twinLink = s.below(2);
      sc.files[twin] = sc.files[twinOf];
      c.label("one file as two inputs");
    } else if (call.args.size() == 2 && call.args[1].key == "out" && (call.args[0].key == "b2o" || call.args[0].key == "b2t")) {
      onto = true;   // inverted or listed in place
      c.label("output is the input");
    }
  }
  // the plain run
  auto paths = [&](const std::string &root, const std::function<std::string(const std::string &)> &name) {
    Paths p;
    for (auto &k : kKeys) p[k] = root + name(k);
    p["dir"] = root + name("folder");
    p["nodir"] = root + name("none") + "/out";
    return p;
  };
  auto collect = [&](Result &r, const Paths &p) {
    for (auto k : {"out", "conf"}) r.files[k] = exists(p.at(k)) ? "present: " + readFile(p.at(k)) : "absent";
    for (auto k : {"base", "ours", "copy"}) if (exists(p.at(k))) { r.dbs[k] = snap(p.at(k)); if (std::string(k) == "copy") r.dbs[k].tables.erase("gpkg_contents"); }
    r.log = logText();
  };
  std::string rootA = c.dir + "a/";
  mkdir(rootA.c_str(), 0755);
  Paths pa = paths(rootA, [](const std::string &k) { return k; });
  Result ra, rb;
  placeScene(sc, pa);
  takeLog();
  ra.rc = runCall(call, pa);
  collect(ra, pa);
  // the other one
  World w;
  std::string how;
  std::string rootB = c.dir + "b/", suffix;
  bool prefix = false, relative = false, links = false, stale = false, removedCwd = false, dots = false;
  int history = 0;
  std::vector<std::string> tags;
  auto tag = [&](const std::string &t) { tags.push_back(t); c.label(t); };
  int n = 1 + (int)s.below(3);
  for (int i = 0; i < n; ++i) switch (s.below(14)) {
    case 0: rootB = c.dir + "b" + oddPart(s) + "/"; tag("odd directory"); break;
    case 1: case 2: suffix = oddPart(s); prefix = s.below(2); tag("odd file names"); break;
    case 3: relative = true; tag("relative paths"); break;
    case 4: links = true; tag("links"); break;
    case 5: w.tmpdir = "tmp" + oddPart(s); tag("other TMPDIR"); break;
    case 6: w.level = (int)s.below(5); w.noCallback = s.below(2); tag("other log level"); break;
    case 7: history = 1 + (int)s.below(5); tag("earlier calls"); break;
    case 8: w.mask = s.below(2) ? 0 : 0077; tag("umask"); break;
    case 9: w.tz = s.below(2) ? "Pacific/Kiritimati" : "XXX+23:59"; tag("time zone"); break;
    case 10: stale = true; tag("outputs exist"); break;
    case 11: case 12: if (haveLocales()) { w.locale = localeOf(s); w.cxx = s.below(2); tag((w.cxx ? "C++ locale " : "locale ") + w.locale); } break;
    default: switch (s.below(4)) { case 0: w.closedStdin = true; tag("stdin closed"); break; case 1: w.thread = true; tag("thread"); break; case 2: removedCwd = true; tag("removed working directory"); break; default: dots = true; tag("roundabout paths"); }
  }
  mkdir(rootB.c_str(), 0755);
  auto nameB = [&](const std::string &k) { return prefix ? suffix + k : k + suffix; };
  for (auto &k : kKeys) if (nameB(k).find('/') != std::string::npos) throw pbt::Discard();
  Paths pb = paths(rootB, nameB);
  if (!w.tmpdir.empty()) { w.tmpdir = c.dir + w.tmpdir; mkdir(w.tmpdir.c_str(), 0755); if (s.below(2)) w.tmpdir += "/"; }
  if (history) {
    Paths ph = paths(c.dir + "h/", [](const std::string &k) { return k; });
    mkdir((c.dir + "h").c_str(), 0755);
    placeScene(sc, ph);
    for (int i = 0; i < history; ++i) {
      SceneCall x = calls[s.below(calls.size())];
      if (s.below(2)) spoil(s, x);
      try { runCall(x, ph); } catch (std::exception &e) { c.fail(std::string("exception escaped: ") + e.what()); }
      how += show(x) + "; ";
    }
  }
  placeScene(sc, pb);
  if (stale) for (auto k : {"out", "conf"}) writeFile(pb[k], std::string(1 + s.below(5000), 'o'));
  if (links) {
    std::string d = c.dir + "elsewhere/";
    mkdir(d.c_str(), 0755);
    for (auto &a : call.args) if (a.role == 'd' || a.role == 'i' || a.role == 'c') {
      std::string f = d + a.key + "x";
      if (exists(f) || !exists(pb[a.key]) || a.key == "dir") continue;
      rename(pb[a.key].c_str(), f.c_str());
      if (symlink(f.c_str(), pb[a.key].c_str()) != 0) throw pbt::Discard();
    }
  }
  if (!twin.empty()) {
    unlink(pb[twin].c_str());
    if (twinLink) { if (symlink(pb[twinOf].c_str(), pb[twin].c_str()) != 0) throw pbt::Discard(); }
    else pb[twin] = pb[twinOf];
  }
  if (onto) pb["out"] = pb[call.args[0].key];
  Paths use = pb;
  if (relative) {
    removedCwd = false;
    bool below = s.below(2);   // from the parent, or from the directory itself
    w.cwd = below ? c.dir : rootB;
    std::string dn = rootB.substr(c.dir.size());
    bool dot = s.below(2);
    for (auto &kv : use) { std::string rest = kv.second.substr(rootB.size()); if (rest.rfind("file:", 0) == 0 || rest.rfind(":", 0) == 0) rest = "./" + rest; kv.second = (dot ? "./" : "") + (below ? dn + rest : rest); }
    if (!below && rootB == c.dir + "b/" && s.below(2)) for (auto &kv : use) kv.second = "../b/" + pb[kv.first].substr(rootB.size());
  } else if (dots) {
    for (auto &kv : use) kv.second = rootB + (s.below(2) ? ".//" : "../a/.." + rootB.substr(c.dir.size() - 1)) + kv.second.substr(rootB.size());
  }
  if (removedCwd) { w.cwd = c.dir + "gone"; mkdir(w.cwd.c_str(), 0755); }
  c.desc << show(call) << "; in another place:";
  if (!twin.empty()) c.desc << " " << twin << " is " << twinOf << (twinLink ? " (link)," : ",");
  if (onto) c.desc << " onto its input,";
  for (auto &t : tags) c.desc << " " << t << ",";
  c.desc << "\n  names like " << use["base"].substr(use["base"].rfind(c.dir, 0) == 0 ? c.dir.size() : 0) << (how.empty() ? "" : "\n  earlier: " + how) << "\n";
  takeLog();
  std::set<std::string> before;
  for (auto &x : listDir(c.dir)) before.insert(x);
  rb.rc = inWorld(c, w, [&]() { if (removedCwd) rmdir(w.cwd.c_str()); return runCall(call, use); });
  collect(rb, pb);
  if (!tags.empty() || !twin.empty() || onto) c.nontrivial();
  c.label(ra.rc == 0 || (call.counts && ra.rc > 0) ? "succeeds" : "fails");
  if (ra.rc != rb.rc) c.fail("returns " + std::to_string(rb.rc) + " in place of " + std::to_string(ra.rc) + "\n" + (rb.log.empty() ? ra.log : rb.log));
  for (auto &f : ra.files) {
    std::string other = rb.files[f.first];
    if (ra.rc != 0 && stale && f.second == "absent") continue;   // a call that fails early leaves it
    if (ra.rc == 0 && stale && f.second == "absent" && f.first == "out") continue;   // not an output of this call
    bool isOut = false;
    for (auto &a : call.args) isOut |= a.key == f.first;
    if (!isOut) continue;
    if (ra.rc != 0 && stale) continue;
    if (other != f.second) c.fail(f.first + " differs (" + std::to_string(other.size()) + " in place of " + std::to_string(f.second.size()) + " bytes):\n" + other.substr(0, 1500) + "\n--- in place of\n" + f.second.substr(0, 1500));
  }
  for (auto k : {"base", "ours", "copy"}) {
    if (ra.dbs.count(k) != rb.dbs.count(k)) c.fail(std::string(k) + (ra.dbs.count(k) ? " is missing" : " was created"));
    std::string why;
    if (twinInPlace && k == twinOf) continue;   // is the one that is written
    if (ra.dbs.count(k) && !sameSnap(ra.dbs[k], rb.dbs[k], &why)) c.fail(std::string(k) + " differs: " + why);
  }
  std::set<std::string> outs;
  for (auto k : {"out", "conf", "copy"}) outs.insert(pb[k].substr(c.dir.size()));
  for (auto &x : listDir(c.dir)) if (!before.count(x) && !outs.count(x)) c.fail("left behind: " + x);
}
static pbt::Reg r30({"C30.files", c30, "one of the 15 calls (sometimes with an unfit argument) on generated files, run plainly and again with 1-3 of: odd characters in directory or file names, relative or roundabout paths, symbolic links to the inputs, another TMPDIR, log level or no callback, 1-5 earlier calls (failing ones too), umask, time zone, outputs that exist, a locale with a decimal comma or Turkish letters (C or C++), closed standard input, another thread with a small stack, a removed working directory, one file given as two inputs (compared with two copies of it), a changeset inverted or listed onto itself. Return value, output bytes, contents of databases equal; nothing left behind. Non-trivial: something was changed.", 4000, 60000, 40});

static void c30pg(Ctx &c) {
  auto &s = c.src;
  pgStart();
  PgOpts o;
  o.noKey = false; o.maxRows = 6; o.oneGeom = true; o.allGeom = s.below(3) == 2; o.mergeKeys = true;
  PDb d = genPg(s, o);
  PData a = genPgData(s, d, o), b = mutatePg(s, d, a, o, 6), e = mutatePg(s, d, a, o, 6);
  createPg("a", d, a); createPg("b", d, b); createPg("e", d, e);
  describePg(c, d);
  fpg::State st = fpg::server().st;
  auto seq = fpg::server().seq;
  std::string cs = c.dir + "ab.bin", out = c.dir + "out.bin", conf = c.dir + "conf.json", gp = c.dir + "copy.gpkg", src = c.dir + "src.gpkg";
  MUST_OK(c, GEODIFF_createChangesetEx("postgres", kPgInfo, "a", "b", cs.c_str()));
  bool haveSrc = o.allGeom && GEODIFF_makeCopy("postgres", kPgInfo, "a", "sqlite", "", src.c_str()) == 0;
  pgDone(c);
  struct Call { std::string name; std::function<int()> f; };
  std::vector<Call> calls = {
    {"createChangesetEx", [&]() { return GEODIFF_createChangesetEx("postgres", kPgInfo, "a", "b", out.c_str()); }},
    {"applyChangesetEx", [&]() { return GEODIFF_applyChangesetEx("postgres", kPgInfo, "a", cs.c_str()); }},
    {"rebaseEx", [&]() { return GEODIFF_rebaseEx("postgres", kPgInfo, "a", "e", cs.c_str(), conf.c_str()); }},
    {"dumpData", [&]() { return GEODIFF_dumpData("postgres", kPgInfo, "b", out.c_str()); }},
    {"makeCopy to schema", [&]() { return GEODIFF_makeCopy("postgres", kPgInfo, "b", "postgres", kPgInfo, "new"); }},
    {"makeCopy to file", [&]() { return GEODIFF_makeCopy("postgres", kPgInfo, "b", "sqlite", "", gp.c_str()); }},
  };
  if (haveSrc) calls.push_back({"makeCopy from file", [&]() { return GEODIFF_makeCopy("sqlite", "", src.c_str(), "postgres", kPgInfo, "new"); }});
  Call call = calls[s.below(calls.size())];
  c.label(call.name);
  auto reset = [&]() {
    auto &v = fpg::server();
    v.st = st; v.seq = seq;
    std::vector<std::string>().swap(v.log);
    for (auto &f : {out, conf, gp}) unlink(f.c_str());
    takeLog();
  };
  struct Res { int rc; std::string out, conf, log; Snap file; fpg::State st; };
  auto collect = [&](int rc) {
    Res r;
    r.rc = rc;
    r.out = readFile(out); r.conf = exists(conf) ? "present: " + readFile(conf) : "absent";
    if (exists(gp)) { r.file = snap(gp); r.file.tables.erase("gpkg_contents"); }
    r.st = fpg::server().st;
    r.log = logText();
    return r;
  };
  reset();
  Res ra = collect(call.f());
  if (!fpg::server().unsupported.empty()) throw pbt::Discard();
  World w;
  int kind = (int)s.weighted({5, 2, 1, 1});
  std::string how;
  if (kind == 0 && haveLocales()) { w.locale = localeOf(s); w.cxx = s.below(2); how = (w.cxx ? "C++ locale " : "locale ") + w.locale; }
  else if (kind <= 1) {
    how = "earlier calls";
    for (int i = 0, n = 1 + (int)s.below(4); i < n; ++i) {
      reset();
      if (s.below(2)) fpg::server().failAt = (int64_t)s.below(25);
      fpg::server().count = 0;
      calls[s.below(calls.size())].f();
      fpg::server().failAt = -1;
    }
  } else if (kind == 2) { w.tz = "Pacific/Kiritimati"; how = "time zone"; }
  else { w.level = (int)s.below(5); w.noCallback = s.below(2); how = "log level"; }
  c.label(how);
  c.desc << call.name << ", " << how << "\n";
  c.nontrivial();
  reset();
  Res rb = collect(inWorld(c, w, call.f));
  if (!fpg::server().unsupported.empty()) throw pbt::Discard();
  if (ra.rc != rb.rc) c.fail("returns " + std::to_string(rb.rc) + " in place of " + std::to_string(ra.rc) + "\n" + (rb.log.empty() ? ra.log : rb.log));
  c.check(ra.out == rb.out, "the output differs");
  c.check(ra.conf == rb.conf, "the conflict report differs:\n" + rb.conf + "\n--- in place of\n" + ra.conf);
  c.check(fpg::show(ra.st) == fpg::show(rb.st), "the database differs:\n" + fpg::show(rb.st).substr(0, 2000) + "\n--- in place of\n" + fpg::show(ra.st).substr(0, 2000));
  std::string why;
  if (!sameSnap(ra.file, rb.file, &why)) c.fail("the file differs: " + why);
}
static pbt::Reg r30p({"C30.server", c30pg, "a call of the PostgreSQL backend on generated schemas of the stand-in, run plainly and again in a locale with a decimal comma or Turkish letters, after earlier (partly failing) calls, in another time zone or with another log level: return value, outputs, the whole server and files equal. Non-trivial: every case.", 3000, 40000, 40});
