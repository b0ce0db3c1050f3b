#include "scene.hpp"
#include <sys/stat.h>
#include <unistd.h>
using pbt::Ctx;

Scene genScene(Ctx &c, bool big) {
  Scene s;
  GenOpts g = mergeGenOpts();
  g.maxTables = 3; g.maxRows = big ? 60 : 8; g.maxCols = 5; g.bigValues = false; g.wide = false; g.gpkgPct = 25;
  MergeOpts o;
  o.minEdits = 1;
  s.m = genMerge(c, g, o);
  std::string b2o = c.dir + "tmp/b2o", b2t = c.dir + "tmp/b2t";
  MUST_OK(c, GEODIFF_createChangeset(s.m.base.c_str(), s.m.ours.c_str(), b2o.c_str()));
  MUST_OK(c, GEODIFF_createChangeset(s.m.base.c_str(), s.m.theirs.c_str(), b2t.c_str()));
  std::string bare = c.dir + "tmp/bare", other = c.dir + "tmp/other";
  { Db db(bare); db.must("PRAGMA user_version=1"); }
  copyFile(s.m.base, other);
  {
    Db db(other, SQLITE_OPEN_READWRITE);
    const std::string &t = s.m.spec.tables[c.src.below(s.m.spec.tables.size())].name;
    switch (c.src.below(3)) {
      case 0: db.must("ALTER TABLE " + q(t) + " ADD COLUMN zz_added TEXT"); break;
      case 1: db.must("CREATE TABLE zz_table(id INTEGER PRIMARY KEY, v)"); break;
      default: db.must("DROP TABLE " + q(t)); db.must("CREATE TABLE " + q(t) + "(zz INTEGER PRIMARY KEY)");
    }
  }
  auto &f = s.files;
  f["base"] = readFile(s.m.base); f["ours"] = readFile(s.m.ours); f["theirs"] = readFile(s.m.theirs);
  f["b2o"] = readFile(b2o); f["b2t"] = readFile(b2t); f["bare"] = readFile(bare); f["other"] = readFile(other);
  f["garbage"] = std::string(600, 'T');
  f["short"] = f["base"].substr(0, 100 + c.src.below(2000));
  f["bad"] = f["b2t"].substr(0, f["b2t"].size() - std::min<size_t>(f["b2t"].size(), 1 + c.src.below(3)));
  f["empty"] = "";
  s.layersOnly = s.m.spec.gpkg && !s.m.spec.tables.empty();
  for (auto &t : s.m.spec.tables) if (t.geomCol < 0) s.layersOnly = false;
  for (auto &p : {s.m.base, s.m.ours, s.m.theirs, b2o, b2t, bare, other}) for (auto x : {"", "-wal", "-shm", "-journal"}) unlink((p + x).c_str());
  return s;
}
void placeScene(const Scene &s, const Paths &p) {
  for (auto &kv : p) {
    if (kv.first == "dir" || kv.first == "nodir") continue;
    for (auto x : {"", "-wal", "-shm", "-journal"}) unlink((kv.second + x).c_str());
    auto f = s.files.find(kv.first);
    if (f != s.files.end()) writeFile(kv.second, f->second);
  }
  mkdir(p.at("dir").c_str(), 0755);
}
std::vector<SceneCall> sceneCalls(const Scene &s) {
  typedef const std::vector<const char *> A;
  std::string src = s.layersOnly ? "base" : "bare";
  return {
    {"createChangeset", {{'d', "base"}, {'d', "ours"}, {'o', "out"}}, [](A &a) { return GEODIFF_createChangeset(a[0], a[1], a[2]); }},
    {"createChangesetEx", {{'-', "sqlite"}, {'-', ""}, {'d', "base"}, {'d', "theirs"}, {'o', "out"}}, [](A &a) { return GEODIFF_createChangesetEx(a[0], a[1], a[2], a[3], a[4]); }},
    {"invertChangeset", {{'c', "b2o"}, {'o', "out"}}, [](A &a) { return GEODIFF_invertChangeset(a[0], a[1]); }},
    {"createRebasedChangeset", {{'d', "base"}, {'d', "ours"}, {'c', "b2t"}, {'o', "out"}, {'o', "conf"}}, [](A &a) { return GEODIFF_createRebasedChangeset(a[0], a[1], a[2], a[3], a[4]); }},
    {"createRebasedChangesetEx", {{'-', "sqlite"}, {'-', ""}, {'d', "base"}, {'c', "b2o"}, {'c', "b2t"}, {'o', "out"}, {'o', "conf"}}, [](A &a) { return GEODIFF_createRebasedChangesetEx(a[0], a[1], a[2], a[3], a[4], a[5], a[6]); }},
    {"rebase", {{'d', "base"}, {'d', "theirs"}, {'i', "ours"}, {'o', "conf"}}, [](A &a) { return GEODIFF_rebase(a[0], a[1], a[2], a[3]); }},
    {"rebaseEx", {{'-', "sqlite"}, {'-', ""}, {'d', "base"}, {'i', "ours"}, {'c', "b2t"}, {'o', "conf"}}, [](A &a) { return GEODIFF_rebaseEx(a[0], a[1], a[2], a[3], a[4], a[5]); }},
    {"applyChangeset", {{'i', "base"}, {'c', "b2o"}}, [](A &a) { return GEODIFF_applyChangeset(a[0], a[1]); }},
    {"applyChangesetEx", {{'-', "sqlite"}, {'-', ""}, {'i', "base"}, {'c', "b2t"}}, [](A &a) { return GEODIFF_applyChangesetEx(a[0], a[1], a[2], a[3]); }},
    {"hasChanges", {{'c', "b2o"}}, [](A &a) { return GEODIFF_hasChanges(a[0]); }, true},
    {"changesCount", {{'c', "b2o"}}, [](A &a) { return GEODIFF_changesCount(a[0]); }, true},
    {"listChanges", {{'c', "b2o"}, {'o', "out"}}, [](A &a) { return GEODIFF_listChanges(a[0], a[1]); }},
    {"listChangesSummary", {{'c', "b2t"}, {'o', "out"}}, [](A &a) { return GEODIFF_listChangesSummary(a[0], a[1]); }},
    {"makeCopy", {{'-', "sqlite"}, {'-', ""}, {'d', src}, {'-', "sqlite"}, {'-', ""}, {'n', "copy"}}, [](A &a) { return GEODIFF_makeCopy(a[0], a[1], a[2], a[3], a[4], a[5]); }},
    {"dumpData", {{'-', "sqlite"}, {'-', ""}, {'d', "base"}, {'o', "out"}}, [](A &a) { return GEODIFF_dumpData(a[0], a[1], a[2], a[3]); }},
  };
}
std::string spoil(pbt::Src &s, SceneCall &c) {
  std::vector<size_t> c0;
  for (size_t i = 0; i < c.args.size(); ++i) if (c.args[i].role != '-' || c.args[i].key != "") c0.push_back(i);
  SceneArg &a = c.args[c0[s.below(c0.size())]];
  switch (a.role) {
    case 'd': case 'i': { static const std::vector<std::string> v = {"missing", "garbage", "short", "other", "other", "b2o", "dir", "theirs", "ours"}; a.key = s.pick(v); break; }
    case 'c': { static const std::vector<std::string> v = {"missing", "garbage", "bad", "empty", "base", "dir", "b2t"}; a.key = s.pick(v); break; }
    case 'o': case 'n': { static const std::vector<std::string> v = {"nodir", "dir"}; a.key = s.pick(v); break; }
    default: a.key = "nosuchdriver";
  }
  return a.key;
}
int runCall(const SceneCall &c, const Paths &p) {
  std::vector<const char *> v;
  for (auto &a : c.args) v.push_back(a.role == '-' ? a.key.c_str() : p.at(a.key).c_str());
  return c.f(v);
}
std::string show(const SceneCall &c) {
  std::string r = c.name + "(";
  for (auto &a : c.args) r += (&a == &c.args[0] ? "" : ", ") + (a.role == '-' ? "\"" + a.key + "\"" : a.key);
  return r + ")";
}
