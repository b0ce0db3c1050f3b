// Large inputs: many rows, many columns, long values. Sizes around the limits of 8, 15, 16 bits and the lengths of varints.
#include "env.hpp"
#include "merge.hpp"
#include "report.hpp"
#include <algorithm>
using pbt::Ctx;

namespace {
struct Bulk { DbSpec spec; Data base; };
Val cheap(uint64_t x) {
  switch (x % 7) {
    case 0: return Val::null();
    case 1: return Val::integer((int64_t)(x >> 3));
    case 2: return Val::text("t" + std::to_string(x >> 40));
    case 3: return Val::real((double)(int64_t)(x >> 20) / 8 + 0.5);   // never integral
    case 4: return Val::blob(std::string(1 + (x >> 8) % 5, (char)(x >> 16)));
    case 5: return Val::integer((int64_t)((x >> 5) % 3));
    default: return Val::text("");
  }
}
int64_t size(pbt::Src &s, bool big) {
  static const std::vector<int64_t> small = {127, 128, 129, 255, 256, 257, 258, 300, 511, 512, 513, 767, 768, 1000, 1001, 1023, 1024, 1025, 2048, 3000}, large = {4096, 9999, 10000, 10001, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 70000};
  if (big && s.below(4) == 3) return large[s.below(large.size())];
  return s.below(3) == 2 ? s.range(100, 3000) : small[s.below(small.size())];
}
TableSpec bulkTable(pbt::Src &s, const std::string &name, bool rebase) {
  TableSpec t;
  t.name = name;
  int kind = rebase ? 0 : (int)s.weighted({6, 2, 2});
  if (kind == 0) { t.cols.push_back({"id", "INTEGER", "", "", false}); t.pk = {0}; t.inlinePk = true; }
  else if (kind == 1) { t.cols.push_back({"k", "TEXT", "", "", true}); t.pk = {0}; t.withoutRowid = s.below(2); }
  else { t.cols.push_back({"a", "INTEGER", "", "", true}); t.cols.push_back({"b", "TEXT", "", "", true}); t.pk = {1, 0}; }
  int n = 1 + (int)s.below(3);
  for (int i = 0; i < n; ++i) t.cols.push_back({"v" + std::to_string(i), "", "", "", false});
  return t;
}
Row bulkRow(const TableSpec &t, int64_t id, uint64_t salt) {
  Row r;
  for (size_t i = 0; i < t.cols.size(); ++i) {
    if (t.isPk((int)i)) r.push_back(t.cols[i].type == "TEXT" ? Val::text("key " + std::to_string(id)) : Val::integer(t.pk.size() > 1 ? id % 10 : id));
    else r.push_back(cheap(pbt::mix(salt, (uint64_t)id * 16 + i)));
  }
  return r;
}
void put(const TableSpec &t, Data &d, const Row &r) { d.t[t.name][keyOf(t, r)] = r; }
// n rows with keys from..from+n-1 get one other value each
int64_t alter(const TableSpec &t, Data &d, int64_t from, int64_t n, uint64_t salt) {
  int64_t changed = 0;
  for (int64_t id = from; id < from + n; ++id) {
    auto it = d.t[t.name].find(keyOf(t, bulkRow(t, id, 0)));
    if (it == d.t[t.name].end()) continue;
    size_t c = t.cols.size() - 1 - pbt::mix(salt, id) % (t.cols.size() - t.pk.size());
    Val v = cheap(pbt::mix(salt, (uint64_t)id * 16 + c));
    if (same(v, it->second[c])) v = Val::text("altered " + std::to_string(id));
    it->second[c] = v;
    ++changed;
  }
  return changed;
}
void erase(const TableSpec &t, Data &d, int64_t from, int64_t n) { for (int64_t id = from; id < from + n; ++id) d.t[t.name].erase(keyOf(t, bulkRow(t, id, 0))); }

struct BulkPair { DbSpec spec; Data b, m; std::string base, mod, cs; int64_t ins = 0, upd = 0, del = 0; };
// inserts, updates and deletes of given order of magnitude in the first table, little in a second one
BulkPair bulkPair(Ctx &c, bool big) {
  auto &s = c.src;
  BulkPair p;
  p.base = c.dir + "base.db"; p.mod = c.dir + "mod.db"; p.cs = c.dir + "diff.bin";
  int shape = (int)s.weighted({8, 2, 2});
  if (shape == 1) {          // wide
    TableSpec t;
    t.name = "wide";
    static const std::vector<int> widths = {126, 127, 128, 129, 200, 255, 256, 257, 300};
    int n = widths[s.below(widths.size())], pk = (int)s.below(n);
    for (int i = 0; i < n; ++i) t.cols.push_back({"c" + std::to_string(i), "", "", "", i == pk});
    t.cols[pk].type = "INTEGER";
    t.pk = {pk};
    if (s.below(3) == 2 && pk != n - 1) { t.pk.push_back(n - 1); t.cols[n - 1].type = "INTEGER"; t.cols[n - 1].notNull = true; }
    else t.inlinePk = true;
    p.spec.tables.push_back(t);
    auto row = [&](int64_t id, uint64_t salt) { Row r; for (int i = 0; i < n; ++i) r.push_back(t.isPk(i) ? Val::integer(id) : cheap(pbt::mix(salt, id * 1024 + i))); return r; };
    for (int64_t id = 1; id <= 4; ++id) put(t, p.b, row(id, 0));
    p.m = p.b;
    erase(t, p.m, 0, 0);
    p.m.t[t.name].erase(keyOf(t, row(1, 0))); p.del = 1;
    put(t, p.m, row(2, 5)); p.upd = 1;
    put(t, p.m, row(7, 1)); p.ins = 1;
    int64_t c1 = (pk + 1) % n;
    if (t.isPk((int)c1)) c1 = (c1 + 1) % n;
    Row r = row(3, 0); r[c1] = Val::text("other"); put(t, p.m, r); ++p.upd;
    c.desc << n << " columns\n";
    c.label("wide");
  } else if (shape == 2) {   // long
    TableSpec t = bulkTable(s, "long", false);
    static const std::vector<int64_t> lens = {16383, 16384, 16385, 65535, 65536, 65537, 99999, 1 << 20, (1 << 21) - 1, 1 << 21, (1 << 21) + 1, 3000000};
    p.spec.tables.push_back(t);
    int64_t len = lens[s.below(lens.size())];
    bool text = s.below(2);
    auto val = [&](int64_t n, char f) { std::string x(n, f); for (int64_t i = 0; i < n; i += 97) x[i] = text ? (char)('a' + i % 26) : (char)(i * 7); return text ? Val::text(x) : Val::blob(x); };
    for (int64_t id = 1; id <= 3; ++id) { Row r = bulkRow(t, id, 0); r.back() = id == 3 ? val(len, 'z') : Val::integer(id); put(t, p.b, r); }
    p.m = p.b;
    Row r = bulkRow(t, 2, 0); r.back() = val(len, 'q'); put(t, p.m, r); p.upd = 1;
    r = bulkRow(t, 9, 0); r.back() = val(len, 'i'); put(t, p.m, r); p.ins = 1;
    Row r3 = bulkRow(t, 3, 0); r3.back() = val(len, 'z');
    int what = (int)s.below(3);   // the last byte differs, one byte longer, gone
    if (what == 0) { r3.back().s[len - 1] ^= 1; put(t, p.m, r3); ++p.upd; }
    else if (what == 1) { r3.back().s += 'z'; put(t, p.m, r3); ++p.upd; }
    else { erase(t, p.m, 3, 1); p.del = 1; }
    c.desc << (text ? "text" : "blob") << " of " << len << " bytes, variant " << what << "\n";
    c.label("long");
  } else {                   // many
    TableSpec t = bulkTable(s, "many", false), u = bulkTable(s, "zz few", false);
    p.spec.tables = {t, u};
    int which = (int)s.below(4);
    int64_t n = size(s, big), keep = s.range(0, 20), few = s.range(0, 10);
    if (which == 0) { p.del = few; p.upd = few; p.ins = n; }
    else if (which == 1) { p.del = n; p.upd = few; p.ins = few; }
    else if (which == 2) { p.del = few; p.upd = n; p.ins = few; }
    else { p.del = n / 3; p.upd = n / 3; p.ins = n - n / 3 * 2; }
    for (int64_t id = 1; id <= keep + p.del + p.upd; ++id) put(t, p.b, bulkRow(t, id, 0));
    for (int64_t id = 1; id <= 5; ++id) put(u, p.b, bulkRow(u, id, 0));
    p.m = p.b;
    erase(t, p.m, keep + 1, p.del);
    alter(t, p.m, keep + p.del + 1, p.upd, 77);
    for (int64_t i = 0; i < p.ins; ++i) put(t, p.m, bulkRow(t, 1000000 + i, 3));
    if (s.below(2)) { alter(u, p.m, 2, 1, 3); ++p.upd; }
    c.desc << createSql(p.spec, t)[0] << ": " << p.ins << " inserts, " << p.upd << " updates, " << p.del << " deletes\n";
    c.label(n > 4000 ? "very many" : "many");
  }
  Layout l;
  l.shuffle = s.below(2) ? 7 : 0;
  writeDb(p.base, p.spec, p.b, l);
  writeDb(p.mod, p.spec, p.m, l);
  c.nontrivial();
  maybeStale(c, p.cs);
  MUST_OK(c, GEODIFF_createChangeset(p.base.c_str(), p.mod.c_str(), p.cs.c_str()));
  return p;
}
std::string counts(const Changeset &d, const BulkPair &p) {
  int64_t i = 0, u = 0, x = 0;
  for (auto &e : d.entries) (e.op == INS ? i : e.op == UPD ? u : x)++;
  if (i == p.ins && u == p.upd && x == p.del) return "";
  return std::to_string(i) + " inserts, " + std::to_string(u) + " updates, " + std::to_string(x) + " deletes instead of " + std::to_string(p.ins) + ", " + std::to_string(p.upd) + ", " + std::to_string(p.del);
}
}  // namespace

#define BULK "many rows (127 to 70000, around 8, 15 and 16 bits), many columns (126 to 300) or long values (16 KB to 3 MB, around the lengths of varints) changed at once; "

static void b01(Ctx &c) {
  BulkPair p = bulkPair(c, true);
  std::string target = c.dir + "t.db";
  copyFile(p.base, target);
  MUST_OK(c, GEODIFF_applyChangeset(target.c_str(), p.cs.c_str()));
  std::string w;
  if (!sameSnap(snap(p.mod), snap(target), &w)) c.fail("after apply: " + w.substr(0, 2000));
}
static pbt::Reg rb01({"C01.bulk", b01, BULK "apply to base must give modified exactly. All are non-trivial.", 260, 3000, 10});

static void b02(Ctx &c) {
  BulkPair p = bulkPair(c, true);
  Changeset d = mustDecode(readFile(p.cs), "changeset");
  std::string w = counts(d, p);
  c.check(w.empty(), w);
  w = diffMismatch(snap(p.base), snap(p.mod), d);
  c.check(w.empty(), w.substr(0, 2000));
}
static pbt::Reg rb02({"C02.bulk", b02, BULK "the changeset must hold exactly the model difference. All are non-trivial.", 260, 3000, 10});

static void b03(Ctx &c) {
  BulkPair p = bulkPair(c, true);
  std::string inv = c.dir + "i.bin", inv2 = c.dir + "i2.bin", target = c.dir + "t.db";
  maybeStale(c, inv);
  MUST_OK(c, GEODIFF_invertChangeset(p.cs.c_str(), inv.c_str()));
  Changeset d = mustDecode(readFile(p.cs), "changeset"), i = mustDecode(readFile(inv), "inverse");
  c.check(d.entries.size() == i.entries.size(), "inverse has " + std::to_string(i.entries.size()) + " entries instead of " + std::to_string(d.entries.size()));
  for (size_t k = 0; k < d.entries.size(); ++k) if (!sameEntry(invertEntry(d.entries[k]), i.entries[k])) c.fail("entry " + std::to_string(k) + " of the inverse is " + show(i.entries[k]).substr(0, 500));
  MUST_OK(c, GEODIFF_invertChangeset(inv.c_str(), inv2.c_str()));
  c.check(readFile(inv2) == readFile(p.cs), "double inverse is not the original");
  copyFile(p.mod, target);
  MUST_OK(c, GEODIFF_applyChangeset(target.c_str(), inv.c_str()));
  std::string w;
  if (!sameSnap(snap(p.base), snap(target), &w)) c.fail("after undo: " + w.substr(0, 2000));
}
static pbt::Reg rb03({"C03.bulk", b03, BULK "inverse compared entry by entry, double inverse byte for byte, applied to modified gives base. All are non-trivial.", 260, 3000, 10});

// a changeset many (or a particular number) of whose entries do not match
static void b06(Ctx &c) {
  auto &s = c.src;
  TableSpec t = bulkTable(s, "t", false);
  DbSpec spec;
  spec.tables = {t};
  static const std::vector<int64_t> ns = {255, 256, 257, 512, 1024, 1, 2, 65536, 768, 100, 1000};
  int64_t bad = s.below(6) == 5 ? s.range(1, 2000) : ns[s.below(ns.size())], good = s.range(0, 30);
  int kind = (int)s.below(3);   // which entries do not match: deletes of other content, updates of other content, inserts of existing keys
  Data b, m, other;
  for (int64_t id = 1; id <= good + bad; ++id) put(t, b, bulkRow(t, id, 0));
  m = b; other = b;
  if (kind == 0) { alter(t, m, bad + 1, good, 4); erase(t, m, 1, bad); alter(t, other, 1, bad, 9); }
  else if (kind == 1) { alter(t, m, 1, good + bad, 4); erase(t, other, 1, bad); }
  else { alter(t, m, 1, good, 4); for (int64_t i = 0; i < bad; ++i) { put(t, m, bulkRow(t, 5000000 + i, 1)); put(t, other, bulkRow(t, 5000000 + i, 2)); } }
  std::string base = c.dir + "base.db", mod = c.dir + "mod.db", target = c.dir + "t.db", cs = c.dir + "d.bin", w;
  writeDb(base, spec, b); writeDb(mod, spec, m); writeDb(target, spec, other);
  MUST_OK(c, GEODIFF_createChangeset(base.c_str(), mod.c_str(), cs.c_str()));
  c.desc << bad << " entries that do not match, kind " << kind << ", " << good << " that do; " << createSql(spec, t)[0] << "\n";
  c.nontrivial();
  Snap before = snap(target);
  int rc = GEODIFF_applyChangeset(target.c_str(), cs.c_str());
  c.check(rc != 0, "apply reported success with " + std::to_string(bad) + " entries that do not match");
  if (!sameSnap(before, snap(target), &w)) c.fail("database altered by a failed apply: " + w.substr(0, 2000));
}
static pbt::Reg rb06({"C06.bulk", b06, "changesets of which a given number of entries (1 to 65536, around multiples of 256 and 1024) do not match the database: deletes or updates of rows with other content or gone, inserts of keys that are taken; must be refused and change nothing. All are non-trivial.", 220, 3000, 10});

static void b16(Ctx &c) {
  BulkPair p = bulkPair(c, true);
  std::string js = c.dir + "l.json", sum = c.dir + "s.json";
  MUST_OK(c, GEODIFF_listChanges(p.cs.c_str(), js.c_str()));
  MUST_OK(c, GEODIFF_listChangesSummary(p.cs.c_str(), sum.c_str()));
  Json j;
  std::string w = parsedFile(js, j);
  c.check(w.empty(), "listing: " + w);
  const Json *a = j.get("geodiff");
  Changeset d = mustDecode(readFile(p.cs), "changeset");
  c.check(a && a->a.size() == d.entries.size(), "listing has " + std::to_string(a ? a->a.size() : 0) + " records for " + std::to_string(d.entries.size()) + " entries");
  for (size_t k = 0; k < d.entries.size(); ++k) {
    const Entry &e = d.entries[k];
    const Json *ch = a->a[k].get("changes");
    if (!ch) c.fail("record without changes");
    size_t n = 0;
    for (size_t i = 0; i < e.pk.size(); ++i) {
      Val o = e.op == INS ? Val() : e.oldv[i], v = e.op == DEL ? Val() : e.newv[i];
      if (o.undef() && v.undef()) continue;
      if (n >= ch->a.size()) c.fail("record " + std::to_string(k) + " lacks column " + std::to_string(i));
      const Json &x = ch->a[n++];
      const Json *col = x.get("column");
      c.check(col && col->s == std::to_string(i), "record " + std::to_string(k) + ": column " + (col ? col->s : "none") + " instead of " + std::to_string(i));
      c.check(jsonIs(x.get("old"), o) && jsonIs(x.get("new"), v), "record " + std::to_string(k) + " column " + std::to_string(i) + " is " + renderJson(&x).substr(0, 300) + " for " + show(o).substr(0, 200) + " -> " + show(v).substr(0, 200));
    }
    c.check(n == ch->a.size(), "record " + std::to_string(k) + " has more columns than the entry");
  }
}
static pbt::Reg rb16({"C16.bulk", b16, BULK "the listing is valid JSON with one record per entry in order, each column with its values. All are non-trivial.", 220, 3000, 10});

static void b17(Ctx &c) {
  BulkPair p = bulkPair(c, true);
  std::string sum = c.dir + "s.json";
  MUST_OK(c, GEODIFF_listChangesSummary(p.cs.c_str(), sum.c_str()));
  int64_t n = GEODIFF_changesCount(p.cs.c_str()), want = p.ins + p.upd + p.del;
  c.check(n == want, "changesCount is " + std::to_string(n) + " for " + std::to_string(want) + " entries");
  c.check(GEODIFF_hasChanges(p.cs.c_str()) == (want ? 1 : 0), "hasChanges");
  Json j;
  std::string w = parsedFile(sum, j);
  c.check(w.empty(), "summary: " + w);
  int64_t i = 0, u = 0, d = 0;
  const Json *a = j.get("geodiff_summary");
  if (!a) c.fail("no summary");
  for (auto &r : a->a) { i += std::stoll(r.get("insert")->s); u += std::stoll(r.get("update")->s); d += std::stoll(r.get("delete")->s); }
  c.check(i == p.ins && u == p.upd && d == p.del, "summary has " + std::to_string(i) + " inserts, " + std::to_string(u) + " updates, " + std::to_string(d) + " deletes");
}
static pbt::Reg rb17({"C17.bulk", b17, BULK "changesCount, hasChanges and the summary must give the numbers of rows that were changed. All are non-trivial.", 260, 3000, 10});

static void b18(Ctx &c) {
  BulkPair p = bulkPair(c, true);
  std::string dump = c.dir + "dump.bin", target = c.dir + "t.db", w;
  maybeStale(c, dump);
  MUST_OK(c, GEODIFF_dumpData("sqlite", "", p.mod.c_str(), dump.c_str()));
  Changeset d = mustDecode(readFile(dump), "dump");
  size_t rows = 0;
  for (auto &kv : p.m.t) rows += kv.second.size();
  c.check(d.entries.size() == rows, "dump has " + std::to_string(d.entries.size()) + " entries for " + std::to_string(rows) + " rows");
  Data none;
  writeDb(target, p.spec, none);
  MUST_OK(c, GEODIFF_applyChangeset(target.c_str(), dump.c_str()));
  if (!sameSnap(snap(p.mod), snap(target), &w)) c.fail("rebuilt from the dump: " + w.substr(0, 2000));
}
static pbt::Reg rb18({"C18.bulk", b18, BULK "the dump of modified has one insert per row and rebuilds it from an empty database. All are non-trivial.", 220, 3000, 10});

// merges of large changes
struct BulkMerge { DbSpec spec; std::string base, ours, theirs; Snap sb, so, st; };
static BulkMerge bulkMerge(Ctx &c) {
  auto &s = c.src;
  BulkMerge m;
  m.base = c.dir + "base.db"; m.ours = c.dir + "ours.db"; m.theirs = c.dir + "theirs.db";
  TableSpec t = bulkTable(s, "t", true), u = bulkTable(s, "u", true);
  m.spec.tables = {t, u};
  auto n = [&]() { return s.below(3) == 2 ? s.range(0, 20) : std::min<int64_t>(size(s, false), 1100); };
  int64_t both = n(), mine = n(), theirs = n(), k1 = n(), k2 = n();
  Data b, o, x;
  int64_t rows = both + mine + theirs + 10;
  for (int64_t id = 1; id <= rows; ++id) put(t, b, bulkRow(t, id, 0));
  for (int64_t id = 1; id <= 5; ++id) put(u, b, bulkRow(u, id, 0));
  o = b; x = b;
  int how = (int)s.below(4);   // what both do to the same rows
  if (how == 3) { erase(t, o, 1, both); alter(t, x, 1, both, 5); }
  else if (how == 2) { alter(t, o, 1, both, 6); erase(t, x, 1, both); }
  else { alter(t, o, 1, both, 6); alter(t, x, 1, both, 5); }
  alter(t, o, both + 1, mine, 8);
  alter(t, x, both + mine + 1, theirs, 9);
  // new rows: the same keys, ours above, overlapping in part
  int64_t shift = s.below(3) == 2 ? s.range(0, 1200) : 0;
  for (int64_t i = 0; i < k1; ++i) put(t, x, bulkRow(t, rows + 1 + i, 2));
  for (int64_t i = 0; i < k2; ++i) put(t, o, bulkRow(t, rows + 1 + shift + i, 3));
  if (s.below(2)) { alter(u, o, 1, 1, 2); alter(u, x, 2, 1, 2); }
  c.desc << "both " << both << " (" << how << "), ours " << mine << ", theirs " << theirs << ", new: theirs " << k1 << ", ours " << k2 << " shifted by " << shift << "\n";
  writeDb(m.base, m.spec, b); writeDb(m.ours, m.spec, o); writeDb(m.theirs, m.spec, x);
  m.sb = snap(m.base); m.so = snap(m.ours); m.st = snap(m.theirs);
  c.nontrivial();
  return m;
}
static void bmerge(Ctx &c, bool report) {
  BulkMerge m = bulkMerge(c);
  std::string conf = c.dir + "conf.json", theirs = c.dir + "b2t.bin", reb = c.dir + "reb.bin", target = c.dir + "t.db";
  MUST_OK(c, GEODIFF_createChangeset(m.base.c_str(), m.theirs.c_str(), theirs.c_str()));
  MUST_OK(c, GEODIFF_createRebasedChangeset(m.base.c_str(), m.ours.c_str(), theirs.c_str(), reb.c_str(), conf.c_str()));
  if (report) {
    std::string w = conflictReportMismatch(expectedConflicts(m.sb, m.so, m.st), conf);
    c.check(w.empty(), w.substr(0, 2000));
    return;
  }
  copyFile(m.theirs, target);
  MUST_OK(c, GEODIFF_applyChangeset(target.c_str(), reb.c_str()));
  std::string w = mergeMismatch(m.sb, m.so, m.st, snap(target));
  c.check(w.empty(), "merged: " + w.substr(0, 2000));
  std::string mod = c.dir + "rebased.db";
  copyFile(m.ours, mod);
  MUST_OK(c, GEODIFF_rebase(m.base.c_str(), m.theirs.c_str(), mod.c_str(), conf.c_str()));
  w = mergeMismatch(m.sb, m.so, m.st, snap(mod));
  c.check(w.empty(), "rebased: " + w.substr(0, 2000));
}
#define BM "merges in which up to 1100 rows each are changed by both sides (updated, or deleted by one), by one side, and inserted by both under the same or overlapping keys; "
static pbt::Reg rb08({"C08.bulk", [](Ctx &c) { bmerge(c, false); }, BM "applied rebased changeset and rebased database compared with the reference merge. All are non-trivial.", 160, 2500, 10});
static pbt::Reg rb09({"C09.bulk", [](Ctx &c) { bmerge(c, false); }, BM "every new row of both sides must be there under its own key. All are non-trivial.", 160, 2500, 10});
static pbt::Reg rb10({"C10.bulk", [](Ctx &c) { bmerge(c, true); }, BM "the conflict report must list exactly the values both changed. All are non-trivial.", 160, 2500, 10});
