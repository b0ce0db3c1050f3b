// Coverage-guided search over changeset files: every reading operation, an apply and both sides of a rebase, on whatever
// bytes arrive. Oracle: the independent decoder says which bytes are malformed; a failed apply leaves the database's
// bytes as they were; ASan and UBSan watch the rest.
#include "model.hpp"
#include "geodiff.h"
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <unistd.h>
#include <unordered_set>

extern "C" size_t LLVMFuzzerMutate(uint8_t *Data, size_t Size, size_t MaxSize);

static std::string gDir, gBase, gMod, gGood, gCs, gOut, gConf, gTarget, gBaseBytes, gModBytes, gGoodBytes;
static uint64_t gRuns, gMalformed, gWell, gApplied, gRefused;
static Snap gBaseSnap;
static std::unordered_set<uint64_t> gDistinct;
static std::vector<std::string> gSamples;

static uint64_t fnv(const uint8_t *d, size_t n) { uint64_t h = 0xcbf29ce484222325ULL; for (size_t i = 0; i < n; ++i) { h ^= d[i]; h *= 0x100000001b3ULL; } return h; }

static void stats() {
  const char *f = getenv("FUZZ_STATS");
  if (!f) return;
  FILE *o = fopen(f, "w");
  if (!o) return;
  fprintf(o, "{\"runs\":%llu,\"malformed\":%llu,\"well\":%llu,\"applied\":%llu,\"refused\":%llu,\"distinct\":%zu,\"samples\":[", (unsigned long long)gRuns, (unsigned long long)gMalformed, (unsigned long long)gWell, (unsigned long long)gApplied, (unsigned long long)gRefused, gDistinct.size());
  for (size_t i = 0; i < gSamples.size(); ++i) fprintf(o, "%s\"%s\"", i ? "," : "", gSamples[i].c_str());
  fprintf(o, "]}\n");
  fclose(o);
}
[[noreturn]] static void bad(const std::string &m) {
  fprintf(stderr, "PROPERTY VIOLATED: %s\n", m.c_str());
  stats();
  abort();
}

static void setup() {
  const char *d = getenv("FUZZ_DIR");
  gDir = d ? d : "/dev/shm/geodiff-fuzz";
  gDir += "/" + std::to_string(getpid()) + "/";
  std::filesystem::create_directories(gDir + "tmp");
  setenv("TMPDIR", (gDir + "tmp/").c_str(), 1);
  gBase = gDir + "base.gpkg"; gMod = gDir + "mod.gpkg"; gGood = gDir + "good.bin"; gCs = gDir + "cs.bin"; gOut = gDir + "out.bin"; gConf = gDir + "conf.json"; gTarget = gDir + "target.gpkg";
  {
    Db db(gBase);
    db.must("PRAGMA page_size=512");
    db.must("CREATE TABLE a (id INTEGER PRIMARY KEY, t TEXT, r REAL, b BLOB)");
    db.must("CREATE TABLE bb (k TEXT, k2 INTEGER, v, w TEXT, PRIMARY KEY (k, k2))");
    db.must("CREATE TABLE c (x, y)");
    db.must("INSERT INTO a VALUES (1,'one',1.5,x'00ff'),(2,NULL,-0.25,NULL),(3,'three',3,x'')");
    db.must("INSERT INTO bb VALUES ('p',1,'v',NULL),('q',2,7,'w')");
  }
  copyFile(gBase, gMod);
  {
    Db db(gMod);
    db.must("UPDATE a SET t='uno', r=2.5 WHERE id=1");
    db.must("DELETE FROM a WHERE id=2");
    db.must("INSERT INTO a VALUES (4,'four',4.5,x'0102'),(200,'x',NULL,NULL)");
    db.must("UPDATE bb SET v=8 WHERE k='q'");
    db.must("INSERT INTO bb VALUES ('r',300,NULL,'long text, long text, long text, long text, long text, long text, long text, long text, long text, long text, long text, long text')");
  }
  if (GEODIFF_createChangeset(gBase.c_str(), gMod.c_str(), gGood.c_str()) != 0) { fprintf(stderr, "setup failed\n"); _exit(3); }
  gBaseBytes = readFile(gBase); gModBytes = readFile(gMod); gBaseSnap = snap(gBase); gGoodBytes = readFile(gGood);
}

extern "C" int LLVMFuzzerInitialize(int *, char ***) {
  GEODIFF_setMaximumLoggerLevel((GEODIFF_LoggerLevel)0);
  setup();
  atexit(stats);
  if (const char *d = getenv("FUZZ_SEEDS")) {
    std::string s = d;
    writeFile(s + "/good", gGoodBytes);
    GEODIFF_invertChangeset(gGood.c_str(), gOut.c_str());
    writeFile(s + "/inverse", readFile(gOut));
    GEODIFF_dumpData("sqlite", "", gMod.c_str(), gOut.c_str());
    writeFile(s + "/dump", readFile(gOut));
    writeFile(s + "/empty", "");
    writeFile(s + "/byte", "T");
    Changeset c;
    Entry e; e.table = "a"; e.pk = {1, 0, 0, 0}; e.group = 1; e.op = UPD;
    e.oldv = {Val::integer(3), Val::text("three"), Val(), Val::blob("")}; e.newv = {Val(), Val::null(), Val(), Val::blob(std::string(200, 'z'))};
    c.entries.push_back(e);
    writeFile(s + "/update", encode(c));
    std::error_code ec;
    std::filesystem::remove_all(gDir, ec);
    _exit(0);
  }
  return 0;
}

static const size_t MAXLEN = 4096;

// structured mutation: decode, change entries, encode; otherwise bytes
extern "C" size_t LLVMFuzzerCustomMutator(uint8_t *data, size_t size, size_t max, unsigned int seed) {
  uint64_t r = seed * 0x9e3779b97f4a7c15ULL + 0x1234567;
  auto rnd = [&](uint64_t n) { r ^= r << 13; r ^= r >> 7; r ^= r << 17; return n ? r % n : r; };
  rnd(1); rnd(1);
  if (rnd(5) == 0) return LLVMFuzzerMutate(data, size, max);
  std::string b((char *)data, size);
  Changeset c;
  std::string err = decode(b, c);
  std::string out;
  if (err.empty() ? rnd(4) != 0 : rnd(2) == 0) {   // a malformed file is mended by leaving out what could not be read
    int n = 1 + (int)rnd(3);
    auto val = [&]() -> Val {
      switch (rnd(9)) {
        case 0: return Val();
        case 1: return Val::null();
        case 2: return Val::integer((int64_t)rnd(8));
        case 3: return Val::integer((int64_t)rnd(0));
        case 4: return Val::real((double)(int64_t)rnd(100) / 4);
        case 5: return Val::text(std::string(rnd(140), 'a'));
        case 6: return Val::blob(std::string(rnd(10), '\0'));
        case 7: { const char *t[] = {"one", "three", "p", "q", "uno"}; return Val::text(t[rnd(5)]); }
        default: { uint64_t u = rnd(0); double x; memcpy(&x, &u, 8); return Val::real(x); }
      }
    };
    for (int k = 0; k < n; ++k) {
      if (c.entries.empty() || rnd(4) == 0) {
        Entry e;
        int which = (int)rnd(4);
        e.table = which == 0 ? "a" : which == 1 ? "bb" : which == 2 ? "c" : "nosuch";
        size_t nc = rnd(12) == 0 ? rnd(200) : which == 2 ? 2 : 4;
        if (!nc) nc = 1;
        e.pk.assign(nc, 0);
        e.pk[0] = 1; if (which == 1 && nc > 1) e.pk[1] = 1;
        if (rnd(8) == 0) e.pk[rnd(nc)] ^= 1;
        e.op = rnd(3) == 0 ? INS : rnd(2) ? DEL : UPD;
        if (e.op != INS) for (size_t i = 0; i < nc; ++i) e.oldv.push_back(val());
        if (e.op != DEL) for (size_t i = 0; i < nc; ++i) e.newv.push_back(val());
        if (which < 2 && rnd(2)) {   // about a row that exists
          auto &t = gBaseSnap.tables[e.table];
          auto it = t.rows.begin();
          std::advance(it, rnd(t.rows.size()));
          e.pk.clear();
          for (auto &ci : t.cols) e.pk.push_back(ci.pk ? 1 : 0);
          e.op = rnd(2) ? DEL : UPD;
          e.oldv = it->second; e.newv.clear();
          if (e.op == UPD) { e.newv.assign(e.oldv.size(), Val()); for (size_t i = 0; i < e.oldv.size(); ++i) { if (e.pk[i]) continue; if (rnd(2)) e.newv[i] = val(); if (e.newv[i].undef()) e.oldv[i] = Val(); } }
        }
        size_t g = 0; for (auto &x : c.entries) g = std::max(g, x.group);
        e.group = g + 1;
        c.entries.push_back(e);
      } else {
        Entry &e = c.entries[rnd(c.entries.size())];
        switch (rnd(4)) {
          case 0: { Row &v = (e.op == DEL || (e.op == UPD && rnd(2))) ? e.oldv : e.newv; if (!v.empty()) v[rnd(v.size())] = val(); break; }
          case 1: { Entry x = e; size_t g = 0; for (auto &y : c.entries) g = std::max(g, y.group); x.group = g + 1; c.entries.push_back(x); break; }
          case 2: c.entries.erase(c.entries.begin() + (&e - &c.entries[0])); break;
          default: e.indirect = !e.indirect;
        }
      }
    }
    out = encode(c);
    if (rnd(5) == 0 && !out.empty()) out.resize(rnd(out.size()));
  } else {
    out = b;
    size_t at = out.empty() ? 0 : rnd(out.size());
    switch (rnd(8)) {
      case 0: out.resize(at); break;
      case 1: { static const uint64_t v[] = {0, 1, 127, 128, 16384, 65535, 65536, 65537, 0x7fffffffULL, 0x80000000ULL, 0xffffffffULL, 0x100000000ULL, 0x7fffffffffffffffULL, 0xffffffffffffffffULL}; out.replace(at, out.empty() ? 0 : 1, putVarint(v[rnd(14)])); break; }
      case 2: if (!out.empty()) out[at] = (char)rnd(8); break;
      case 3: { size_t l = std::min<size_t>(1 + rnd(40), out.size() - at); out.insert(at, out.substr(at, l)); break; }
      case 4: if (!out.empty()) out.erase(at, 1 + rnd(8)); break;
      case 5: { static const char t[] = {0x12, 0x09, 0x17, 'T', 'P', 1, 3, 4}; out.insert(at, 1, t[rnd(8)]); break; }
      case 6: out += gGoodBytes.substr(rnd(gGoodBytes.size())); break;
      default: if (!out.empty()) out[at] = (char)rnd(256);
    }
  }
  if (out.size() > max) out.resize(max);
  memcpy(data, out.data(), out.size());
  return out.size();
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
  if (size > MAXLEN) return -1;
  std::string bytes((const char *)data, size);
  Changeset d;
  std::string err = decode(bytes, d);
  bool mal = !err.empty();
  ++gRuns;
  ++(mal ? gMalformed : gWell);
  if (gDistinct.size() < 4000000) gDistinct.insert(fnv(data, size));
  if ((gRuns & (gRuns - 1)) == 0 && gSamples.size() < 4 && gRuns > 3) gSamples.push_back((mal ? err : "well-formed, " + std::to_string(d.entries.size()) + " entries") + ": " + hex(bytes.substr(0, 60)));
  writeFile(gCs, bytes);
  int rc = GEODIFF_listChanges(gCs.c_str(), gOut.c_str());
  if ((rc != 0) != mal) bad("listChanges returned " + std::to_string(rc) + " " + err);
  rc = GEODIFF_listChangesSummary(gCs.c_str(), gOut.c_str());
  if ((rc != 0) != mal) bad("listChangesSummary returned " + std::to_string(rc) + " " + err);
  rc = GEODIFF_changesCount(gCs.c_str());
  if (mal ? rc >= 0 : rc != (int)d.entries.size()) bad("changesCount returned " + std::to_string(rc) + " " + err);
  rc = GEODIFF_hasChanges(gCs.c_str());
  if (rc < -1 || rc > 1) bad("hasChanges returned " + std::to_string(rc));
  rc = GEODIFF_invertChangeset(gCs.c_str(), gOut.c_str());
  if ((rc != 0) != mal) bad("invertChangeset returned " + std::to_string(rc) + " " + err);
  writeFile(gTarget, gBaseBytes);
  rc = GEODIFF_applyChangeset(gTarget.c_str(), gCs.c_str());
  if (mal && rc == 0) bad("applyChangeset reported success: " + err);
  if (rc != 0) {
    ++gRefused;
    std::string w;
    if (readFile(gTarget) != gBaseBytes && !sameSnap(gBaseSnap, snap(gTarget), &w)) bad("database altered by a failed apply, " + err + "\n" + w);
  } else ++gApplied;
  GEODIFF_createRebasedChangesetEx("sqlite", "", gBase.c_str(), gGood.c_str(), gCs.c_str(), gOut.c_str(), gConf.c_str());
  GEODIFF_createRebasedChangesetEx("sqlite", "", gBase.c_str(), gCs.c_str(), gGood.c_str(), gOut.c_str(), gConf.c_str());
  unlink(gConf.c_str());
  if (gRuns % 8 == 0) {
    writeFile(gTarget, gModBytes);
    rc = GEODIFF_rebaseEx("sqlite", "", gBase.c_str(), gTarget.c_str(), gCs.c_str(), gConf.c_str());
    if (mal && rc == 0) bad("rebaseEx reported success: " + err);
    unlink(gConf.c_str());
  }
  return 0;
}
