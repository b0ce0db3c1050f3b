// C12.others: files that are not named in a call are none of its business.
#include "scene.hpp"
#include <cstdarg>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
using pbt::Ctx;

namespace ot {
bool gOn;
std::set<std::string> gMade;
static void made(const char *p) { if (gOn && p) { gOn = false; gMade.insert(p); gOn = true; } }
}
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__) && !defined(__clang__)
extern "C" FILE *fopen(const char *p, const char *m) {
  static FILE *(*real)(const char *, const char *) = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, "fopen");
  if (m && m[0] != 'r') ot::made(p);
  return real(p, m);
}
extern "C" FILE *fopen64(const char *p, const char *m) {
  static FILE *(*real)(const char *, const char *) = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, "fopen64");
  if (m && m[0] != 'r') ot::made(p);
  return real(p, m);
}
extern "C" int open(const char *p, int flags, ...) {
  static int (*real)(const char *, int, ...) = (int (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open");
  va_list ap;
  va_start(ap, flags);
  int mode = flags & (O_CREAT | __O_TMPFILE) ? va_arg(ap, int) : 0;
  va_end(ap);
  if (flags & O_CREAT) ot::made(p);
  return real(p, flags, mode);
}
extern "C" int open64(const char *p, int flags, ...) {
  static int (*real)(const char *, int, ...) = (int (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open64");
  va_list ap;
  va_start(ap, flags);
  int mode = flags & (O_CREAT | __O_TMPFILE) ? va_arg(ap, int) : 0;
  va_end(ap);
  if (flags & O_CREAT) ot::made(p);
  return real(p, flags, mode);
}
#endif

static const std::vector<std::string> kKeys = {"base", "ours", "theirs", "bare", "b2o", "b2t", "garbage", "short", "bad", "empty", "other", "missing", "out", "conf", "copy"};
static void c12others(Ctx &c) {
  auto &s = c.src;
  Scene sc = genScene(c);
  auto calls = sceneCalls(sc);
  SceneCall call = calls[s.below(calls.size())];
  if (s.below(4) == 3) c.label("unfit: " + spoil(s, call));
  c.label(call.name);
  std::string root = c.dir + "w/";
  mkdir(root.c_str(), 0755);
  Paths p;
  for (auto &k : kKeys) p[k] = root + k;
  p["dir"] = root + "folder";
  p["nodir"] = root + "none/out";
  placeScene(sc, p);
  takeLog();
  ot::gMade.clear();
  ot::gOn = true;
  int first = 0;
  try { first = runCall(call, p); } catch (std::exception &e) { ot::gOn = false; c.fail(std::string("exception escaped: ") + e.what()); }
  ot::gOn = false;
  std::string out1 = exists(p["out"]) ? "1" + readFile(p["out"]) : "", conf1 = exists(p["conf"]) ? "1" + readFile(p["conf"]) : "";
  // files it made beside those it was given
  std::set<std::string> named;
  for (auto &kv : p) for (auto e : {"", "-journal", "-wal", "-shm"}) named.insert(kv.second + e);
  std::map<std::string, std::string> others;
  for (auto &f : ot::gMade) {
    if (f.rfind(root, 0) != 0 || named.count(f)) continue;
    std::string db;
    for (auto &kv : p) if (f.rfind(kv.second + "-mj", 0) == 0) db = f;   // SQLite's super-journals
    if (db.empty()) others[f] = std::string(1 + s.below(3000), (char)('a' + s.below(26)));
  }
  ot::gMade.clear();
  // files a user may well have beside the others
  static const std::vector<std::string> usual = {".bak", ".tmp", "~", ".json", ".bin", "_conflicts", ".old", "_base", "_inv", "_rebased", "_tmp", ".copy"};
  for (int i = 0; i < 3; ++i) { std::string f = p[s.pick(kKeys)] + s.pick(usual); if (!named.count(f)) others[f] = std::string(1 + s.below(300), 'u'); }
  bool same = false;
  for (auto &kv : others) same |= kv.second[0] != 'u';
  placeScene(sc, p);
  for (auto &kv : others) writeFile(kv.first, kv.second);
  c.desc << show(call) << "; other files:";
  for (auto &kv : others) c.desc << " " << kv.first.substr(root.size());
  c.desc << "\n";
  takeLog();
  int second = runCall(call, p);
  c.label(first == 0 || (call.counts && first > 0) ? "succeeds" : "fails");
  if (same) c.label("files of the call are in use");
  c.nontrivial();
  for (auto &kv : others) {
    if (!exists(kv.first)) c.fail("a file that was not named in the call was deleted: " + kv.first.substr(root.size()));
    if (readFile(kv.first) != kv.second) c.fail("a file that was not named in the call was altered: " + kv.first.substr(root.size()));
  }
  if (first != second) c.fail("returns " + std::to_string(second) + " in place of " + std::to_string(first) + " when other files are there\n" + logText());
  std::string out2 = exists(p["out"]) ? "1" + readFile(p["out"]) : "", conf2 = exists(p["conf"]) ? "1" + readFile(p["conf"]) : "";
  if (first == 0) c.check(out1 == out2 && conf1 == conf2, "outputs differ when other files are there");
}
static pbt::Reg r12o({"C12.others", c12others, "one of the 15 calls (sometimes with an unfit argument) on generated files, run once to see which files it makes (calls of open and fopen are watched), then again in the same state with files of the user under these names and under usual names beside the arguments: these stay as they are, and return value and outputs are the same. Non-trivial: all.", 2500, 30000, 40});
