// C20.mem: SQLite runs out of memory.
#include "scene.hpp"
#include <unistd.h>
using pbt::Ctx;

static void c20mem(Ctx &c) {
  auto &s = c.src;
  Scene sc = genScene(c, s.below(6) == 5);
  Paths p;
  for (auto k : {"base", "ours", "theirs", "bare", "b2o", "b2t", "out", "conf", "copy"}) p[k] = c.dir + k;
  p["dir"] = c.dir + "folder";
  auto calls = sceneCalls(sc);
  static const int pick[] = {0, 0, 1, 3, 3, 4, 5, 5, 6, 7, 7, 8, 13, 14, 14, 2, 11};
  SceneCall call = calls[pick[s.below(17)]];
  c.label(call.name);
  std::string inout;
  for (auto &a : call.args) if (a.role == 'i') inout = p[a.key];
  std::string layersCopy = p["copy"];
  bool copies = call.name == "makeCopy";
  placeScene(sc, p);
  Snap old;
  if (!inout.empty()) old = snap(inout);
  placeScene(sc, p);
  fmem::start(-1, false);
  int rc = runCall(call, p);
  int64_t n = fmem::stop();
  bool fails = rc != 0;   // a copy whose origin is refused, a rebase that is not supported
  if (fails && call.name != "makeCopy") c.fail("failed without a fault\n" + logText());
  Snap now;
  std::string want = readFile(p["out"]), wantConf = readFile(p["conf"]);
  bool haveOut = exists(p["out"]), haveConf = exists(p["conf"]);
  if (!inout.empty()) now = snap(inout);
  if (copies && !fails) now = snap(p["copy"]);
  c.desc << show(call) << ": " << n << " allocations\n";
  if (n == 0) return;
  int fired = 0;
  std::set<int64_t> at;
  for (int i = 0; i < 4; ++i) at.insert(std::max<int64_t>(0, n - 1 - (int64_t)s.below(30)));
  while ((int64_t)at.size() < std::min<int64_t>(n, 24)) at.insert((int64_t)s.below(n));
  for (int64_t k : at) for (bool once : {true, false}) {
    placeScene(sc, p);
    takeLog();
    fmem::start(k, once);
    int r = 99;
    try { r = runCall(call, p); } catch (std::exception &e) { fmem::stop(); c.fail(std::string("exception escaped: ") + e.what()); }
    fmem::stop();
    std::string how = std::string(once ? "allocation " : "allocations from ") + std::to_string(k) + " of " + std::to_string(n) + (once ? " fails" : " on fail"), w;
    c.check(r == 0 || r == 1, how + ": returned " + std::to_string(r));
    if (fmem::fired()) ++fired;
    if (!inout.empty() && !integrityOk(inout, &w)) c.fail(how + ": database damaged: " + w);
    std::set<std::string> internals;
    if (r == 0) {
      c.label("success in spite of it");
      if (fails) c.fail(how + ": success, although the call fails otherwise");
      if (!inout.empty() || copies) {
        Snap t = snap(copies ? p["copy"] : inout);
        for (auto &kv : t.tables) if (ignoredTable(kv.first)) internals.insert(kv.first);   // time stamps, index nodes
        if (!sameSnap(now, t, &w, internals)) c.fail(how + ": success, but the database is not the expected one: " + w);
      }
      c.check(exists(p["out"]) == haveOut && readFile(p["out"]) == want, how + ": success, but the output differs (" + std::to_string(readFile(p["out"]).size()) + " of " + std::to_string(want.size()) + " bytes)");
      c.check(exists(p["conf"]) == haveConf && readFile(p["conf"]) == wantConf, how + ": success, but the conflict report differs");
    } else {
      c.label("error reported");
      std::string log = logText();
      c.check(!log.empty(), how + ": error without a message");
      if (!inout.empty()) { Snap t = snap(inout); if (!sameSnap(old, t, &w)) c.fail(how + ": failure, but the database was changed: " + w); }
    }
  }
  if (fired) c.nontrivial();
  for (auto &x : listDir(c.dir)) if (x.rfind("tmp/", 0) == 0) c.fail("temporary file left: " + x);
}
static pbt::Reg r20m({"C20.mem", c20mem, "one of eleven calls that use SQLite on generated inputs; its allocations in SQLite are counted and up to 24 of them fail, once or from there on. Success is accepted only with the complete reference output or database, failure only with a message, an unchanged target and no temporary file. Non-trivial: a fault was delivered.", 1500, 20000, 25});
