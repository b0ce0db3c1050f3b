// C01: databases with virtual tables - full text indexes and R*Trees are kept in ordinary tables, which are compared and
// altered like any other; the index must work afterwards.
#include <algorithm>
#include "env.hpp"
using pbt::Ctx;

namespace {
const std::vector<std::string> kWords = {"alpha", "beta", "gamma", "delta", "omega", "one", "two", "\xc3\xa9t\xc3\xa9"};
std::string words(pbt::Src &s) { std::string r; for (int n = (int)s.below(5); n >= 0; --n) r += kWords[s.below(kWords.size())] + (s.below(3) ? " " : ", "); return r; }
struct V { std::string name; int kind; std::string content; };   // 0: fts5, 1: fts5 of a content table kept by triggers, 2: fts4, 3: rtree, 4: rtree of integers

void create(Db &db, const V &v) {
  std::string n = q(v.name), t = q(v.content);
  switch (v.kind) {
    case 0: db.must("CREATE VIRTUAL TABLE " + n + " USING fts5(x, y)"); break;
    case 1:
      db.must("CREATE TABLE " + t + "(id INTEGER PRIMARY KEY, x TEXT, n)");
      db.must("CREATE VIRTUAL TABLE " + n + " USING fts5(x, content=" + ql(v.content) + ", content_rowid='id')");
      db.must("CREATE TRIGGER " + q(v.content + " ai") + " AFTER INSERT ON " + t + " BEGIN INSERT INTO " + n + "(rowid, x) VALUES (new.id, new.x); END");
      db.must("CREATE TRIGGER " + q(v.content + " ad") + " AFTER DELETE ON " + t + " BEGIN INSERT INTO " + n + "(" + n + ", rowid, x) VALUES ('delete', old.id, old.x); END");
      db.must("CREATE TRIGGER " + q(v.content + " au") + " AFTER UPDATE ON " + t + " BEGIN INSERT INTO " + n + "(" + n + ", rowid, x) VALUES ('delete', old.id, old.x); INSERT INTO " + n + "(rowid, x) VALUES (new.id, new.x); END");
      break;
    case 2: db.must("CREATE VIRTUAL TABLE " + n + " USING fts4(x, y)"); break;
    case 3: db.must("CREATE VIRTUAL TABLE " + n + " USING rtree(id, a, b, c, d)"); break;
    case 4: db.must("CREATE VIRTUAL TABLE " + n + " USING rtree_i32(id, a, b)"); break;
  }
}
std::string edit(pbt::Src &s, const V &v) {
  std::string id = std::to_string(s.range(1, 9)), t = v.kind == 1 ? q(v.content) : q(v.name), key = v.kind == 1 || v.kind >= 3 ? "id" : "rowid";
  int a = (int)s.range(-50, 50), b = a + (int)s.below(20), c = (int)s.range(-50, 50), d = c + (int)s.below(20);
  auto num = [](int x) { return std::to_string(x); };
  switch (s.weighted({4, 2, 2})) {
    case 0:
      if (v.kind == 3) return "INSERT OR IGNORE INTO " + t + " VALUES (" + id + ", " + num(a) + ", " + num(b) + ", " + num(c) + ", " + num(d) + ")";
      if (v.kind == 4) return "INSERT OR IGNORE INTO " + t + " VALUES (" + id + ", " + num(a) + ", " + num(b) + ")";
      if (v.kind == 1) return "INSERT OR IGNORE INTO " + t + " VALUES (" + id + ", " + ql(words(s)) + ", " + num(a) + ")";
      return "INSERT INTO " + t + "(x, y) VALUES (" + ql(words(s)) + ", " + ql(words(s)) + ")";
    case 1:
      if (v.kind >= 3) return "UPDATE " + t + " SET a = " + num(a) + ", b = " + num(b) + " WHERE id = " + id;
      return "UPDATE " + t + " SET x = " + ql(words(s)) + " WHERE " + key + " = " + id;
    default: return "DELETE FROM " + t + " WHERE " + key + " = " + id;
  }
}
// everything in the tables, the backing ones included
std::map<std::string, std::vector<std::string>> content(const std::string &path) {
  Db db(path, SQLITE_OPEN_READONLY);
  std::map<std::string, std::vector<std::string>> r;
  for (auto &t : db.query("SELECT name FROM sqlite_master WHERE type='table' ORDER BY name")) {
    auto &rows = r[t[0].s];
    for (auto &row : db.query("SELECT * FROM " + q(t[0].s))) { std::string x; for (auto &v : row) x += show(v) + "|"; rows.push_back(x); }
    std::sort(rows.begin(), rows.end());
  }
  return r;
}
// what searches find
std::string searches(const std::string &path, const std::vector<V> &vs) {
  Db db(path, SQLITE_OPEN_READONLY);
  std::string r;
  for (auto &v : vs) {
    if (v.kind >= 3) { for (int x = -60; x < 60; x += 12) for (auto &row : db.query("SELECT id, a, b FROM " + q(v.name) + " WHERE a < " + std::to_string(x + 12) + " AND b > " + std::to_string(x) + " ORDER BY id")) r += v.name + " " + std::to_string(x) + ": " + show(row[0]) + " " + show(row[1]) + " " + show(row[2]) + "\n"; continue; }
    for (auto &w : kWords) for (auto &row : db.query("SELECT rowid, x FROM " + q(v.name) + " WHERE " + q(v.name) + " MATCH " + ql(w) + " ORDER BY rowid")) r += v.name + " " + w + ": " + show(row[0]) + " " + show(row[1]) + "\n";
  }
  return r;
}
void consistent(Ctx &c, const std::string &path, const std::vector<V> &vs, const std::string &what) {
  Db db(path);
  std::string e;
  for (auto &v : vs) {
    if (v.kind >= 3) { db.query("SELECT count(*) FROM " + q(v.name)); Val r = db.scalar("SELECT rtreecheck(" + ql(v.name) + ")"); c.check(r.s == "ok", what + ": " + v.name + ": " + r.s); continue; }
    if (!db.exec("INSERT INTO " + q(v.name) + "(" + q(v.name) + ") VALUES ('integrity-check')", &e)) c.fail(what + ": index " + v.name + " is damaged: " + e);
  }
  if (!integrityOk(path, &e)) c.fail(what + ": " + e);
}
std::string firstDifference(const std::map<std::string, std::vector<std::string>> &a, const std::map<std::string, std::vector<std::string>> &b) {
  for (auto &kv : a) {
    auto it = b.find(kv.first);
    if (it == b.end()) return "no table " + kv.first;
    if (it->second != kv.second) {
      for (auto &r : kv.second) if (!std::binary_search(it->second.begin(), it->second.end(), r)) return kv.first + " lacks " + r;
      for (auto &r : it->second) if (!std::binary_search(kv.second.begin(), kv.second.end(), r)) return kv.first + " has also " + r;
      return kv.first + " differs";
    }
  }
  return a.size() == b.size() ? "" : "more tables";
}

void c01virtual(Ctx &c) {
  std::vector<V> vs;
  std::string base = c.dir + "base.db", mod = c.dir + "mod.db", work = c.dir + "work.db", cs = c.dir + "cs.bin", inv = c.dir + "inv.bin";
  static const char *names[] = {"search", "Find me", "z\"quoted", "group", "places_idx"};
  int n = 1 + (int)c.src.below(3);
  for (int k = 0; k < n; ++k) vs.push_back({std::string(names[c.src.below(5)]) + std::to_string(k), (int)c.src.below(5), "content" + std::to_string(k)});
  {
    Db db(base);
    if (c.src.below(4) == 0) db.must("PRAGMA encoding = 'UTF-16le'");
    db.must("CREATE TABLE plain(id INTEGER PRIMARY KEY, v)");
    for (auto &v : vs) { create(db, v); c.desc << v.name << " of kind " << v.kind << "\n"; }
    int edits = (int)c.src.below(8);
    for (int k = 0; k < edits; ++k) { std::string e = edit(c.src, vs[c.src.below(vs.size())]); db.must(e); c.desc << e << "\n"; }
  }
  copyFile(base, mod);
  c.desc << "--- modified:\n";
  {
    Db db(mod);
    int edits = 1 + (int)c.src.below(8);
    for (int k = 0; k < edits; ++k) { std::string e = c.src.below(6) ? edit(c.src, vs[c.src.below(vs.size())]) : "INSERT OR REPLACE INTO plain VALUES (" + std::to_string(c.src.below(5)) + ", " + std::to_string(k) + ")"; db.must(e); c.desc << e << "\n"; }
    if (c.src.below(4) == 0) for (auto &v : vs) if (v.kind < 3) db.must("INSERT INTO " + q(v.name) + "(" + q(v.name) + ") VALUES ('optimize')");
  }
  auto cb = content(base), cm = content(mod);
  if (cb != cm) c.nontrivial();
  std::string rawBase = readFile(base), rawMod = readFile(mod);
  MUST_OK(c, GEODIFF_createChangeset(base.c_str(), mod.c_str(), cs.c_str()));
  c.check(readFile(base) == rawBase && readFile(mod) == rawMod, "creating a changeset altered an input");
  copyFile(base, work);
  MUST_OK(c, GEODIFF_applyChangeset(work.c_str(), cs.c_str()));
  std::string w = firstDifference(cm, content(work));
  c.check(w.empty(), "after apply: " + w);
  c.check(searches(work, vs) == searches(mod, vs), "searches find other rows after apply than in modified");
  consistent(c, work, vs, "after apply");
  MUST_OK(c, GEODIFF_invertChangeset(cs.c_str(), inv.c_str()));
  MUST_OK(c, GEODIFF_applyChangeset(mod.c_str(), inv.c_str()));
  w = firstDifference(cb, content(mod));
  c.check(w.empty(), "after the inverse: " + w);
  consistent(c, mod, vs, "after the inverse");
}
pbt::Reg r1({"C01.virtual", c01virtual, "1-3 virtual tables (FTS5, FTS5 over a content table kept up to date by triggers, FTS4, R*Tree of reals and of integers; names that need quoting) with 0-7 edits, then 1-8 more in modified: after apply all tables, the backing ones included, hold what modified holds, searches find the same rows, the indexes pass their own checks; the inverse goes back. Non-trivial: some table differs.", 3000, 60000, 30});
}  // namespace
