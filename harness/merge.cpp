#include <array>
#include "merge.hpp"
#include "report.hpp"
#include <algorithm>
using pbt::Src;

GenOpts mergeGenOpts() {
  GenOpts g;
  g.rebaseKeys = true;
  g.composite = g.blobKey = g.realKey = false;
  g.wide = false;
  g.utf16 = true;
  g.collate = true;
  return g;
}
static bool intKeyed(const TableSpec &t) { return t.pk.size() == 1 && (t.cols[t.pk[0]].type == "INTEGER" || t.cols[t.pk[0]].type == "INT" || t.cols[t.pk[0]].type == "MEDIUMINT"); }

std::map<std::string, int64_t> idFloors(const DbSpec &d, const Data &base) {
  std::map<std::string, int64_t> f;
  for (auto &t : d.tables) {
    if (!intKeyed(t)) continue;
    int64_t m = 0;
    auto it = base.t.find(t.name);
    if (it != base.t.end()) for (auto &kv : it->second) { const Val &v = kv.second[t.pk[0]]; if (v.t == Val::Int && v.i < (1LL << 62)) m = std::max(m, v.i); }
    f[t.name] = m;
  }
  return f;
}
Data mutateMerge(Src &s, const DbSpec &d, const Data &base, const GenOpts &g, int maxEdits, const MergeOpts &o, const std::map<std::string, int64_t> &floors) {
  Data x = base;
  x.post.clear();
  int lo = std::min(maxEdits, o.minEdits), n = lo + (int)s.below(maxEdits - lo + 1);
  for (int e = 0; e < n; ++e) {
    const TableSpec &t = d.tables[s.below(d.tables.size())];
    auto &rows = x.t[t.name];
    int op = (int)s.weighted({o.updateW, o.insertW, o.deleteW});
    if (rows.empty()) op = 1;
    auto pick = [&]() { auto it = rows.begin(); std::advance(it, s.below(rows.size())); return it; };
    if (op == 0) {
      auto it = pick();
      int k = 1 + (int)s.below(3);
      for (int j = 0; j < k; ++j) {
        int c = (int)s.below(t.cols.size());
        if (t.isPk(c)) continue;
        Row fresh = it->second;
        Val v;
        if (s.below(4) < 3) v = t.pools[c][s.below(t.pools[c].size())];
        else v = c == t.geomCol ? genGeom(s) : genVal(s, t.cols[c].type, g);
        if (v.t == Val::Null && t.cols[c].notNull) continue;
        it->second[c] = v;
      }
    } else if (op == 1) {
      Row r = genRow(s, t, g);
      if (t.keyed() && intKeyed(t)) {
        int64_t fl = floors.at(t.name);
        switch (s.weighted({14, 2, 1})) {
          case 0: r[t.pk[0]] = Val::integer(fl + 1 + (int64_t)s.below(8)); break;
          case 1: r[t.pk[0]] = Val::integer(s.range(1, 12)); break;
          default: { static const std::vector<int64_t> v = {0, -1, -2, -7, 1000, 2147483647LL, 2147483648LL, 4294967296LL, 4294967297LL, 4294967298LL, 4294967301LL, (1LL << 53) + 1, (1LL << 61) + 3}; r[t.pk[0]] = Val::integer(v[s.below(v.size())]); }
        }
      }
      std::string k = t.keyed() ? keyOf(t, r) : "N" + std::to_string(e) + std::to_string(s.below(1000));
      rows[k] = r;
    } else rows.erase(pick());
  }
  if (d.gpkg && o.gpkgPost && d.tables[0].geomCol >= 0 && s.below(3) == 2) {
    const TableSpec &t = d.tables[0];
    x.post.push_back("UPDATE gpkg_contents SET last_change='2020-01-" + std::to_string(10 + s.below(18)) + "T00:00:00.000Z' WHERE table_name=" + ql(t.name));
    if (s.below(2)) x.post.push_back("UPDATE gpkg_contents SET description='d" + std::to_string(s.below(4)) + "' WHERE table_name=" + ql(t.name));
    if (s.below(3) == 2) x.post.push_back("UPDATE gpkg_contents SET min_x=" + std::to_string(-(int)s.below(4) - 2) + " WHERE table_name=" + ql(t.name));
  }
  return x;
}
MergeCase genMerge(pbt::Ctx &c, const GenOpts &g, const MergeOpts &o) {
  MergeCase m;
  Src &s = c.src;
  m.spec = genSpec(s, g);
  m.dBase = genData(s, m.spec, g);
  auto floors = idFloors(m.spec, m.dBase);
  m.dTheirs = mutateMerge(s, m.spec, m.dBase, g, o.maxEditsTheirs, o, floors);
  m.dOurs = mutateMerge(s, m.spec, m.dBase, g, o.maxEditsOurs, o, floors);
  m.base = c.dir + "base.gpkg";
  m.ours = c.dir + "ours.gpkg";
  m.theirs = c.dir + "theirs.gpkg";
  writeDb(m.base, m.spec, m.dBase, genLayout(s));
  copyFile(m.base, m.ours);
  copyFile(m.base, m.theirs);
  applyEdits(m.ours, m.spec, m.dBase, m.dOurs, s.below(1000));
  applyEdits(m.theirs, m.spec, m.dBase, m.dTheirs, s.below(1000));
  m.sb = snap(m.base);
  m.so = snap(m.ours);
  m.st = snap(m.theirs);
  describe(c, m.spec);
  c.desc << "base rows:\n" << describe(m.sb, 6) << "their changes:\n" << describeChanges(m.sb, m.st) << "our changes:\n" << describeChanges(m.sb, m.so);
  if (m.spec.gpkg) c.label("gpkg");
  return m;
}
bool reprOnly(const Snap &a, const Snap &b, const Snap &d) {
  for (auto &kv : a.tables) {
    if (ignoredTable(kv.first) || !kv.second.keyed()) continue;
    auto ib = b.tables.find(kv.first), id = d.tables.find(kv.first);
    if (ib == b.tables.end() || id == d.tables.end()) continue;
    std::set<std::string> keys;
    for (auto *t : {&kv.second, &ib->second, &id->second}) for (auto &r : t->rows) keys.insert(r.first);
    for (auto &k : keys) {
      std::vector<const Row *> rs;
      for (auto *t : {&kv.second, &ib->second, &id->second}) { auto i = t->rows.find(k); if (i != t->rows.end()) rs.push_back(&i->second); }
      for (size_t x = 0; x < rs.size(); ++x) for (size_t y = 0; y < x; ++y) for (size_t i = 0; i < rs[x]->size(); ++i)
        if (numEq((*rs[x])[i], (*rs[y])[i]) && !same((*rs[x])[i], (*rs[y])[i])) return true;
    }
  }
  return false;
}
static const TableData &tab(const Snap &s, const std::string &n) { static const TableData none; auto i = s.tables.find(n); return i == s.tables.end() ? none : i->second; }
std::set<std::string> collidingTables(const Snap &b, const Snap &o, const Snap &t) {
  std::set<std::string> r;
  for (auto &kv : b.tables) {
    if (ignoredTable(kv.first) || !kv.second.keyed()) continue;
    for (auto &x : tab(o, kv.first).rows) if (!kv.second.rows.count(x.first) && tab(t, kv.first).rows.count(x.first)) r.insert(kv.first);
  }
  return r;
}
bool gapRisk(const Snap &b, const Snap &o, const Snap &t) {
  for (auto &name : collidingTables(b, o, t)) {
    const TableData &tb = tab(b, name), &to = tab(o, name), &tt = tab(t, name);
    int64_t hi = INT64_MIN, n = 0;
    bool text = false;
    for (auto &x : tt.rows) if (!tb.rows.count(x.first)) { const Val &v = x.second[tt.pk[0]]; if (v.t != Val::Int) { text = true; break; } hi = std::max(hi, v.i); }
    if (text) {
      // the new key is the text of a large number: a base that has such keys (from an earlier merge) may have that one
      for (auto &x : tb.rows) {
        const Val &v = x.second[tb.pk[0]];
        if (v.t == Val::Text && v.s.size() > 9 && v.s.find_first_not_of("0123456789", v.s[0] == '-' ? 1 : 0) == std::string::npos) return true;
      }
      continue;
    }
    for (auto &x : to.rows) if (!tb.rows.count(x.first)) ++n;
    if (hi > INT64_MAX - n - 2) return true;
    for (auto &x : tb.rows) { int64_t k = x.second[tb.pk[0]].i; if (k > hi && k <= hi + n) return true; }
  }
  return false;
}
std::string mergeMismatch(const Snap &b, const Snap &o, const Snap &t, const Snap &res) {
  auto coll = collidingTables(b, o, t);
  for (auto &kv : b.tables) {
    if (ignoredTable(kv.first)) continue;
    const TableData &tb = kv.second, &to = tab(o, kv.first), &tt = tab(t, kv.first), &tr = tab(res, kv.first);
    if (!tb.keyed()) continue;
    std::map<std::string, Row> want;
    for (auto &x : tb.rows) {
      auto io = to.rows.find(x.first), it = tt.rows.find(x.first);
      if (io == to.rows.end() || it == tt.rows.end()) continue;
      Row r = x.second;
      for (size_t i = 0; i < r.size(); ++i) r[i] = !same(io->second[i], r[i]) ? io->second[i] : it->second[i];
      want[x.first] = r;
    }
    for (auto &x : tt.rows) if (!tb.rows.count(x.first)) want[x.first] = x.second;
    std::vector<std::string> ours, got;
    auto nonKey = [&](const Row &r) { std::string s; for (size_t i = 0; i < r.size(); ++i) if (!tb.cols[i].pk) s += keyEnc(r[i]) + (char)r[i].t + "|"; return s; };
    for (auto &x : to.rows) {
      if (tb.rows.count(x.first)) continue;
      if (coll.count(kv.first)) ours.push_back(nonKey(x.second));
      else want[x.first] = x.second;
    }
    for (auto &x : want) {
      auto i = tr.rows.find(x.first);
      if (i == tr.rows.end()) return "row missing after merge in " + q(kv.first) + ": " + show(x.second);
      for (size_t k = 0; k < x.second.size(); ++k) if (!same(i->second[k], x.second[k])) return "row wrong after merge in " + q(kv.first) + " column " + std::to_string(k) + ": is " + show(i->second) + " expected " + show(x.second);
    }
    for (auto &x : tr.rows) {
      if (want.count(x.first)) continue;
      if (!coll.count(kv.first)) return "unexpected row after merge in " + q(kv.first) + ": " + show(x.second);
      got.push_back(nonKey(x.second));
    }
    std::sort(ours.begin(), ours.end());
    std::sort(got.begin(), got.end());
    if (ours != got) return "our inserted rows are not all there, each once, after merge in " + q(kv.first) + ": " + std::to_string(ours.size()) + " inserted, " + std::to_string(got.size()) + " found beside the others";
  }
  return "";
}
std::vector<Conflict> expectedConflicts(const Snap &b, const Snap &o, const Snap &t) {
  std::vector<Conflict> r;
  for (auto &kv : b.tables) {
    if (ignoredTable(kv.first) || !kv.second.keyed()) continue;
    const TableData &tb = kv.second, &to = tab(o, kv.first), &tt = tab(t, kv.first);
    for (auto &x : tb.rows) {
      auto io = to.rows.find(x.first), it = tt.rows.find(x.first);
      if (io == to.rows.end() || it == tt.rows.end()) continue;
      Conflict c;
      c.table = kv.first;
      const Val &k = x.second[tb.pk[0]];
      c.intKey = k.t == Val::Int;
      c.key = k.i;
      for (size_t i = 0; i < x.second.size(); ++i) {
        const Val &vb = x.second[i], &vo = io->second[i], &vt = it->second[i];
        if (same(vb, vo) || same(vb, vt)) continue;
        if (kv.first == "gpkg_contents" && i == 4) continue;
        (same(vo, vt) ? c.may : c.must)[(int)i] = {vb, vt, vo};
      }
      if (!c.must.empty() || !c.may.empty()) r.push_back(c);
    }
  }
  return r;
}
std::string conflictReportMismatch(const std::vector<Conflict> &want, const std::string &file) {
  bool must = false;
  for (auto &w : want) must |= !w.must.empty();
  if (!exists(file)) return must ? "no conflict report although both sides changed a value" : "";
  if (want.empty()) return "conflict report without a conflict:\n" + readFile(file).substr(0, 1500);
  Json j;
  std::string e = parsedFile(file, j);
  if (!e.empty()) return "conflict report is not valid JSON: " + e;
  const Json *arr = j.get("geodiff");
  if (!arr || arr->k != Json::Arr) return "no array in the conflict report";
  std::map<std::string, std::vector<std::string>> gotText, wantText;   // text keys: rows as multisets
  std::map<std::string, std::set<std::string>> fids;
  std::map<std::pair<std::string, int64_t>, const Conflict *> byKey;
  std::set<const Conflict *> seen;
  std::map<std::string, bool> textTable;
  for (auto &w : want) {
    if (w.intKey) { byKey[{w.table, w.key}] = &w; continue; }
    textTable[w.table] = true;
    std::string line;
    for (auto &m : w.must) { std::string tb = renderVal(m.second[0]), tt = renderVal(m.second[1]), to = renderVal(m.second[2]); if (tt != to) line += std::to_string(m.first) + ":" + tb + "/" + tt + "/" + to + ";"; }
    if (!line.empty()) wantText[w.table].push_back(line);
  }
  for (auto &f : arr->a) {
    const Json *table = f.get("table"), *type = f.get("type"), *fid = f.get("fid"), *ch = f.get("changes");
    if (!table || !type || !fid || !ch || ch->k != Json::Arr || type->s != "conflict") return "conflict record incomplete";
    if (ch->a.empty()) return "conflict record without changes";
    if (!fids[table->s].insert(fid->s).second) return "row listed twice: " + table->s + " " + fid->s;
    if (textTable.count(table->s)) {
      std::string line;
      for (auto &x : ch->a) {
        const Json *col = x.get("column");
        if (!col) return "no column";
        std::string tb = renderJson(x.get("base")), tt = renderJson(x.get("old")), to = renderJson(x.get("new"));
        if (tt != to) line += col->s + ":" + tb + "/" + tt + "/" + to + ";";
      }
      if (!line.empty()) gotText[table->s].push_back(line);
      continue;
    }
    auto i = byKey.find({table->s, strtoll(fid->s.c_str(), nullptr, 10)});
    if (i == byKey.end() || std::to_string(i->first.second) != fid->s) return "conflict reported for a row that has none: " + table->s + " " + fid->s;
    const Conflict &w = *i->second;
    seen.insert(&w);
    std::set<int> cols;
    for (auto &x : ch->a) {
      const Json *col = x.get("column");
      if (!col || col->k != Json::Num) return "no column";
      int k = atoi(col->s.c_str());
      if (!cols.insert(k).second) return "column listed twice";
      auto m = w.must.find(k);
      if (m == w.must.end()) { m = w.may.find(k); if (m == w.may.end()) return "conflict reported for column " + col->s + " of " + table->s + " " + fid->s + " which not both sides changed"; }
      if (!jsonIs(x.get("base"), m->second[0])) return "base value wrong in conflict of " + table->s + " " + fid->s + " column " + col->s;
      if (!jsonIs(x.get("old"), m->second[1])) return "their value wrong in conflict of " + table->s + " " + fid->s + " column " + col->s;
      if (!jsonIs(x.get("new"), m->second[2])) return "our value wrong in conflict of " + table->s + " " + fid->s + " column " + col->s;
      for (auto &mem : x.o) if (mem.first != "column" && mem.first != "base" && mem.first != "old" && mem.first != "new") return "unknown member " + mem.first;
    }
    for (auto &m : w.must) if (!cols.count(m.first)) return "conflict missing: column " + std::to_string(m.first) + " of " + table->s + " " + fid->s;
  }
  for (auto &w : want) if (w.intKey && !w.must.empty() && !seen.count(&w)) return "conflict missing: row " + std::to_string(w.key) + " of " + w.table;
  for (auto &t : textTable) {
    auto g = gotText[t.first], w = wantText[t.first];
    std::sort(g.begin(), g.end());
    std::sort(w.begin(), w.end());
    if (g != w) {
      std::string s = "conflicts of table " + t.first + " with text keys: reported";
      for (auto &x : g) s += " [" + x.substr(0, 200) + "]";
      s += " expected";
      for (auto &x : w) s += " [" + x.substr(0, 200) + "]";
      return s;
    }
  }
  return "";
}
