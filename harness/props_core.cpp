// C01-C04, C06: diff, apply, invert, format.
#include "env.hpp"
#include "changesets.hpp"
#include <algorithm>
using pbt::Ctx;

static GenOpts diffOpts(Ctx &c) {
  GenOpts o;
  o.badUtf8 = c.src.below(12) == 11;
  if (o.badUtf8) o.utf16 = false;
  if (c.src.below(15) == 14) o.maxRows = 150;
  return o;
}

static void c01(Ctx &c) {
  GenOpts o = diffOpts(c);
  EditOpts e;
  if (o.maxRows > 50) e.maxEdits = 60;
  Pair p = genPair(c, o, e);
  if (realDifferences(p.sb, p.sm)) c.nontrivial();
  std::string cs = c.dir + "diff.bin", target = c.dir + "target.gpkg";
  maybeStale(c, cs);
  MUST_OK(c, GEODIFF_createChangeset(p.base.c_str(), p.mod.c_str(), cs.c_str()));
  copyFile(p.base, target);
  MUST_OK(c, GEODIFF_applyChangeset(target.c_str(), cs.c_str()));
  std::string w = applyMismatch(p.sb, p.sm, snap(target));
  c.check(w.empty(), w);
  if (!integrityOk(target, &w)) c.fail("database damaged after apply: " + w);
  // and the rest of the way: nothing is left to be done
  std::string cs2 = c.dir + "diff2.bin";
  MUST_OK(c, GEODIFF_createChangeset(target.c_str(), p.mod.c_str(), cs2.c_str()));
  Changeset left = mustDecode(readFile(cs2), "second changeset");
  for (auto &en : left.entries) if (en.op != UPD) c.fail("still different after apply: " + show(en));
}
static pbt::Reg r01({"C01", c01, "random schema (1-3 tables: key kinds, types, collations, awkward names, GeoPackage layers), base data and 0-8 edits (up to 60 on larger tables); diff, apply to a copy of base, dump and compare exactly with the dump of modified. Non-trivial: base and modified differ in at least one keyed row.", 14000, 160000, 40});

// keys in columns with a collation
static void c01coll(Ctx &c) {
  auto &s = c.src;
  bool nocase = s.below(2), composite = s.below(3) == 2, wor = s.below(3) == 2;
  int extra = (int)s.below(3);
  static const std::vector<std::vector<std::string>> nc = {{"ab", "AB", "Ab", "aB"}, {"x", "X"}, {"\xc3\xa9", "\xc3\xa9"}, {"\xc3\x89", "\xc3\x89"}, {"", ""}, {"key 1", "Key 1", "KEY 1"}, {"x ", "X "}};
  static const std::vector<std::vector<std::string>> rt = {{"a", "a ", "a   "}, {"A", "A  "}, {"", " ", "  "}, {" a", " a "}, {"b\t", "b\t "}};
  auto &cl = nocase ? nc : rt;
  std::string sql = "CREATE TABLE t(";
  if (composite) sql += "n INTEGER NOT NULL, ";
  sql += std::string("k TEXT NOT NULL COLLATE ") + (nocase ? "NOCASE" : "RTRIM");
  for (int i = 0; i < extra; ++i) sql += ", v" + std::to_string(i) + (i ? " COLLATE NOCASE" : "");
  sql += std::string(", PRIMARY KEY(") + (composite ? "n, k" : "k") + "))" + (wor ? " WITHOUT ROWID" : "");
  std::string base = c.dir + "base.db", mod = c.dir + "mod.db", cs = c.dir + "d.bin", inv = c.dir + "i.bin", target = c.dir + "t.db", back = c.dir + "b.db", w;
  static const std::vector<Val> vals = {Val::null(), Val::integer(1), Val::text("x"), Val::text("X"), Val::blob("x")};
  Db db(base), dm(mod);
  db.must(sql); dm.must(sql);
  c.desc << sql << "\n";
  size_t changed = 0;
  for (int n = 0; n < (composite ? 2 : 1); ++n) for (auto &k : cl) {
    int there = (int)s.weighted({2, 1, 1, 6});   // neither, base, modified, both
    auto row = [&]() { Row r; if (composite) r.push_back(Val::integer(n)); r.push_back(Val::text(k[s.below(k.size())])); for (int i = 0; i < extra; ++i) r.push_back(vals[s.below(vals.size())]); return r; };
    Row b = row(), m = b;
    // (respelling only the key within its collation: known finding respelled-key)
    if (extra && s.below(2)) {
      size_t at = composite + 1 + s.below(extra);
      m[at] = vals[s.below(vals.size())];
      if (!same(b[at], m[at]) && s.below(2)) m[composite] = Val::text(k[s.below(k.size())]);
    }
    auto put = [&](Db &d, const Row &r) { std::string q = "INSERT INTO t VALUES(?"; for (size_t i = 1; i < r.size(); ++i) q += ",?"; if (d.run(q + ")", r) != SQLITE_DONE) throw std::runtime_error(sqlite3_errmsg(d.h)); };
    if (there & 1) put(db, b);
    if (there & 2) put(dm, m);
    if (there == 1 || there == 2) ++changed;
    bool eq = true;
    for (size_t i = 0; i < b.size(); ++i) eq &= same(b[i], m[i]);
    if (there == 3 && !eq) ++changed;
    if (there) c.desc << ((there & 1) ? show(b) : "-") << " -> " << ((there & 2) ? show(m) : "-") << "\n";
  }
  sqlite3_close(db.h); db.h = nullptr;
  sqlite3_close(dm.h); dm.h = nullptr;
  if (changed) c.nontrivial();
  MUST_OK(c, GEODIFF_createChangeset(base.c_str(), mod.c_str(), cs.c_str()));
  Changeset d = mustDecode(readFile(cs), "changeset");
  c.check(d.entries.size() == changed, std::to_string(d.entries.size()) + " entries for " + std::to_string(changed) + " changed rows");
  copyFile(base, target);
  MUST_OK(c, GEODIFF_applyChangeset(target.c_str(), cs.c_str()));
  if (!sameSnap(snap(mod), snap(target), &w)) c.fail("after apply: " + w);
  MUST_OK(c, GEODIFF_invertChangeset(cs.c_str(), inv.c_str()));
  copyFile(mod, back);
  MUST_OK(c, GEODIFF_applyChangeset(back.c_str(), inv.c_str()));
  if (!sameSnap(snap(base), snap(back), &w)) c.fail("after applying the inverse: " + w);
}
static pbt::Reg r01c({"C01.collated", c01coll, "a table whose text key has collation NOCASE or RTRIM (alone or in a composite key, with and without rowid, with and without other columns); rows added, removed and altered, keys respelled with other columns altered; diff has one entry per row that differs in any byte, apply gives modified exactly, the inverse gives base exactly. Non-trivial: some row differs.", 2500, 30000, 40});

static void c02(Ctx &c) {
  GenOpts o = diffOpts(c);
  EditOpts e;
  if (c.src.below(6) == 5) e.maxEdits = 0;
  Pair p = genPair(c, o, e);
  size_t diffs = realDifferences(p.sb, p.sm);
  if (c.src.below(5) == 4) {   // indexes do not affect rows
    Db db(p.mod, SQLITE_OPEN_READWRITE);
    auto &t = p.spec.tables[0];
    db.exec("CREATE INDEX extra_idx ON " + q(t.name) + "(" + q(t.cols.back().name) + ")");
    c.label("extra-index");
  }
  std::string cs = c.dir + "diff.bin";
  maybeStale(c, cs);
  MUST_OK(c, GEODIFF_createChangeset(p.base.c_str(), p.mod.c_str(), cs.c_str()));
  std::string bytes = readFile(cs);
  Changeset d = mustDecode(bytes, "changeset");
  std::string w = diffMismatch(p.sb, p.sm, d);
  c.check(w.empty(), w);
  if (diffs) c.nontrivial();
  c.check(GEODIFF_hasChanges(cs.c_str()) == (d.entries.empty() ? 0 : 1), "hasChanges is " + std::to_string(GEODIFF_hasChanges(cs.c_str())) + " with " + std::to_string(d.entries.size()) + " entries");
  if (d.entries.empty()) { c.check(bytes.empty(), "changeset without entries is not empty"); c.label("equal"); }
  for (size_t g = 0; g < d.groups; ++g) {
    bool any = false;
    for (auto &en : d.entries) any |= en.group == g + 1;
    c.check(any, "table record without entries: " + d.groupTables[g]);
  }
  // the same content in another physical layout gives the same differences
  if (c.src.below(3) == 2) {
    std::string alt = c.dir + "alt.gpkg", cs2 = c.dir + "diff2.bin";
    copyFile(p.base, alt);
    {
      Db db(alt, SQLITE_OPEN_READWRITE);
      db.exec("PRAGMA journal_mode=delete");
      db.exec("PRAGMA page_size=" + std::string(c.src.below(2) ? "1024" : "16384"));
      db.must("VACUUM");
      if (c.src.below(2)) { db.must("CREATE TABLE zz(a)"); db.must("INSERT INTO zz VALUES(randomblob(5000))"); db.must("DROP TABLE zz"); }
      db.exec("ANALYZE zz_none");
    }
    MUST_OK(c, GEODIFF_createChangeset(alt.c_str(), p.mod.c_str(), cs2.c_str()));
    Changeset d2 = mustDecode(readFile(cs2), "changeset");
    w = diffMismatch(p.sb, p.sm, d2);
    c.check(w.empty(), "with another layout: " + w);
    c.check(d2.entries.size() == d.entries.size(), "number of entries depends on the layout");
    MUST_OK(c, GEODIFF_createChangeset(p.base.c_str(), alt.c_str(), cs2.c_str()));
    c.check(readFile(cs2).empty(), "changes between databases of equal content");
    c.label("layout");
  }
}
static pbt::Reg r02({"C02", c02, "pairs as for C01 (one in six equal), extra indexes, re-layout by page size and vacuum; the changeset, decoded by an independent decoder, must equal the model difference of two dumps entry by entry and column by column. Non-trivial: at least one row differs.", 16000, 180000, 40});

static void c03(Ctx &c) {
  std::string cs = c.dir + "a.bin", inv = c.dir + "inv.bin", inv2 = c.dir + "inv2.bin";
  auto checkInverse = [&](const Changeset &d, bool bytes) {
    maybeStale(c, inv);
    MUST_OK(c, GEODIFF_invertChangeset(cs.c_str(), inv.c_str()));
    Changeset i = mustDecode(readFile(inv), "inverse");
    c.check(i.entries.size() == d.entries.size(), "inverse has " + std::to_string(i.entries.size()) + " entries instead of " + std::to_string(d.entries.size()));
    for (size_t k = 0; k < d.entries.size(); ++k) {
      Entry want = invertEntry(d.entries[k]);
      if (!sameEntry(want, i.entries[k])) c.fail("inverse entry " + std::to_string(k) + " is " + show(i.entries[k]) + " expected " + show(want));
      if (d.entries[k].group != 0 && i.entries[k].table != d.entries[k].table) c.fail("table");
    }
    MUST_OK(c, GEODIFF_invertChangeset(inv.c_str(), inv2.c_str()));
    if (bytes) c.check(readFile(inv2) == readFile(cs), "double inverse is not the original");
    else {
      Changeset ii = mustDecode(readFile(inv2), "double inverse");
      c.check(ii.entries.size() == d.entries.size(), "double inverse has another number of entries");
      for (size_t k = 0; k < d.entries.size(); ++k)
        if (!sameEntry(d.entries[k], ii.entries[k])) c.fail("double inverse entry " + std::to_string(k) + " is " + show(ii.entries[k]) + " expected " + show(d.entries[k]));
    }
  };
  if (c.src.below(4) == 3) {
    SynthOpts so;
    so.keyChange = true;
    Changeset d = genChangeset(c.src, so);
    c.label("synthetic");
    for (auto &e : d.entries) c.desc << show(e).substr(0, 300) << "\n";
    if (d.entries.size() > 1) c.nontrivial();
    writeFile(cs, encode(d));
    checkInverse(d, false);
    return;
  }
  GenOpts o = diffOpts(c);
  Pair p = genPair(c, o);
  maybeStale(c, cs);
  MUST_OK(c, GEODIFF_createChangeset(p.base.c_str(), p.mod.c_str(), cs.c_str()));
  Changeset d = mustDecode(readFile(cs), "changeset");
  if (!d.entries.empty()) c.nontrivial();
  if (d.groups > 1) c.label("several-tables");
  checkInverse(d, true);
  std::string target = c.dir + "target.gpkg";
  copyFile(p.mod, target);
  MUST_OK(c, GEODIFF_applyChangeset(target.c_str(), inv.c_str()));
  std::string w = applyMismatch(p.sm, p.sb, snap(target));
  c.check(w.empty(), "after undo: " + w);
}
static pbt::Reg r03({"C03", c03, "changesets of generated pairs (as C01), and well-formed changesets from an independent generator and encoder; inverse compared entry by entry with a model inverse, double inverse byte for byte, and applied to modified giving base. Non-trivial: the changeset has entries.", 16000, 180000, 40});

// ---- C06
static void c06(Ctx &c) {
  GenOpts o;
  o.wide = false;
  EditOpts e;
  e.maxEdits = 6;
  Pair p = genPair(c, o, e);
  std::string cs = c.dir + "diff.bin", target = c.dir + "target.gpkg", ref = c.dir + "ref.gpkg";
  MUST_OK(c, GEODIFF_createChangeset(p.base.c_str(), p.mod.c_str(), cs.c_str()));
  Changeset d = mustDecode(readFile(cs), "changeset");
  copyFile(p.base, target);
  int kind = (int)c.src.weighted({6, 3, 2, 2, 2});
  std::string what;
  if (kind == 0) {          // the database has diverged a little
    EditOpts e2;
    e2.maxEdits = 3;
    Data other = mutate(c.src, p.spec, p.baseData, o, e2);
    other.post.clear();
    applyEdits(target, p.spec, p.baseData, other, 0);
    what = "diverged";
  } else if (kind == 1 && !d.entries.empty()) {   // one value in the changeset differs
    Entry &en = d.entries[c.src.below(4) == 3 ? c.src.below(d.entries.size()) : d.entries.size() - 1];
    if (en.op != INS) {
      std::vector<size_t> cand;
      for (size_t i = 0; i < en.oldv.size(); ++i) if (!en.oldv[i].undef() && (!en.pk[i] || c.src.below(4) == 3)) cand.push_back(i);
      if (!cand.empty()) {
        size_t i = cand[c.src.below(cand.size())];
        // pass the altered value through the column, so that it is one the column can hold
        Val v = nearVal(c.src, en.oldv[i]);
        const TableData &t = p.sb.tables.at(en.table);
        std::string decl = t.cols[i].type;
        Db mem(":memory:");
        mem.must("PRAGMA encoding='" + p.spec.encoding + "'");
        mem.must("CREATE TABLE m(" + q("v") + " " + decl + ")");
        mem.run("INSERT INTO m VALUES(?)", {v});
        v = mem.scalar("SELECT v FROM m");
        if (!(v.t == Val::Null && en.pk[i])) en.oldv[i] = v;
      }
    } else {
      // its key may be taken
      const TableData &t = p.sb.tables.at(en.table);
      if (!t.rows.empty()) { auto it = t.rows.begin(); std::advance(it, c.src.below(t.rows.size())); for (int k : t.pk) en.newv[k] = it->second[k]; }
    }
    what = "altered entry";
  } else if (kind == 2) {   // entries missing, twice or in another order
    size_t n = d.entries.size();
    if (n) {
      size_t a = c.src.below(n), b = c.src.below(n);
      switch (c.src.below(3)) {
        case 0: d.entries.erase(d.entries.begin() + a); break;
        case 1: d.entries.insert(d.entries.begin() + b, d.entries[a]); break;
        default: std::swap(d.entries[a], d.entries[b]); break;
      }
      for (size_t k = 0, g = 0; k < d.entries.size(); ++k) { if (k && d.entries[k].table != d.entries[k - 1].table) ++g; d.entries[k].group = g; }
    }
    what = "reordered";
  } else if (kind == 3) {   // constraints that the base does not have
    Db db(target, SQLITE_OPEN_READWRITE);
    auto &t = p.spec.tables[c.src.below(p.spec.tables.size())];
    std::string col = q(t.cols[c.src.below(t.cols.size())].name);
    switch (c.src.below(3)) {
      case 0: db.exec("CREATE UNIQUE INDEX uq_x ON " + q(t.name) + "(" + col + ")"); what = "unique index"; break;
      case 1: db.exec("CREATE UNIQUE INDEX uq_x ON " + q(t.name) + "(typeof(" + col + ")) WHERE " + col + " IS NULL"); what = "partial unique"; break;
      default: db.exec("DROP TABLE " + q(t.name)); what = "table missing"; break;
    }
  } else what = "as is";
  writeFile(cs, encode(d));
  c.label(what);
  c.desc << "variant: " << what << "\nentries:\n";
  for (size_t k = 0; k < d.entries.size() && k < 12; ++k) c.desc << "  " << show(d.entries[k]).substr(0, 300) << "\n";
  copyFile(target, ref);
  Snap before = snap(target);
  std::string why = refApply(ref, d);
  takeLog();
  int rc = GEODIFF_applyChangeset(target.c_str(), cs.c_str());
  Snap after = snap(target);
  std::string w;
  if (!d.entries.empty() && !why.empty()) { c.nontrivial(); c.label("refused"); }
  if (!d.entries.empty() && why.empty()) { c.label("accepted"); if (what != "as is") c.nontrivial(); }
  if (why.empty()) {
    if (rc != 0) c.fail("apply refused a changeset that matches: rc " + std::to_string(rc) + "\n" + logText());
    Snap want = snap(ref);
    for (auto &kv : want.tables) {
      if (ignoredTable(kv.first)) continue;
      if (!sameTable(kv.second, after.tables[kv.first], &w)) c.fail("result differs from the reference (first: reference): " + w);
    }
    if (want.schema != after.schema) c.fail("schema changed");
  } else {
    if (rc == 0) c.fail("apply reported success although the changeset does not match: " + why);
    if (!sameSnap(before, after, &w)) c.fail("database altered by a failed apply (" + why + "): " + w);
  }
  if (!integrityOk(target, &w)) c.fail("database damaged: " + w);
}
static pbt::Reg r06({"C06", c06, "a changeset of a generated pair, applied to a database that has diverged in up to 3 edits, or with one old value or key altered in one entry, entries dropped, doubled or swapped, a unique index added or a table missing; outcome and result compared with an independent strict sequential apply. Non-trivial: the reference refuses it, or accepts a variant.", 16000, 180000, 40});

// ---- C04
// declaration positions of the key columns, as SQLite's session module writes them (and wants them) in table records
static std::vector<uint8_t> sessionFlags(Db &db, const std::string &table) {
  std::vector<uint8_t> f;
  for (auto &r : db.query("PRAGMA table_info(" + ql(table) + ")")) f.push_back((uint8_t)r[5].i);
  return f;
}
static int abortOnConflict(void *p, int what, sqlite3_changeset_iter *) { *(int *)p = what; return SQLITE_CHANGESET_ABORT; }
// applies with SQLite's session module; returns an error text
static std::string sqliteApply(const std::string &path, std::string bytes, bool dropTriggers = true) {
  Db db(path, SQLITE_OPEN_READWRITE);
  if (dropTriggers) for (auto &r : db.query("SELECT name FROM sqlite_master WHERE type='trigger'")) db.must("DROP TRIGGER " + q(r[0].s));
  int conflict = 0;
  int rc = sqlite3changeset_apply(db.h, (int)bytes.size(), &bytes[0], nullptr, abortOnConflict, &conflict);
  if (rc != SQLITE_OK) return "sqlite3changeset_apply returned " + std::to_string(rc) + " conflict " + std::to_string(conflict);
  return "";
}
static Val fromValue(sqlite3_value *v) {
  if (!v) return Val();
  switch (sqlite3_value_type(v)) {
    case SQLITE_INTEGER: return Val::integer(sqlite3_value_int64(v));
    case SQLITE_FLOAT: return Val::real(sqlite3_value_double(v));
    case SQLITE_NULL: return Val::null();
    case SQLITE_TEXT: { const char *p = (const char *)sqlite3_value_text(v); return Val::text(std::string(p ? p : "", sqlite3_value_bytes(v))); }
    default: { const char *p = (const char *)sqlite3_value_blob(v); int n = sqlite3_value_bytes(v); return Val::blob(p ? std::string(p, n) : ""); }
  }
}
// the entries as SQLite's iterator sees them
static std::string sqliteIterate(std::string bytes, std::vector<Entry> &out) {
  sqlite3_changeset_iter *it = nullptr;
  if (sqlite3changeset_start(&it, (int)bytes.size(), &bytes[0]) != SQLITE_OK) return "start";
  int rc;
  while ((rc = sqlite3changeset_next(it)) == SQLITE_ROW) {
    const char *tab; int nc, op, ind; unsigned char *pk;
    sqlite3changeset_op(it, &tab, &nc, &op, &ind);
    sqlite3changeset_pk(it, &pk, nullptr);
    Entry e;
    e.op = op; e.indirect = ind; e.table = tab;
    for (int i = 0; i < nc; ++i) e.pk.push_back(pk[i]);
    for (int i = 0; i < nc; ++i) {
      sqlite3_value *v = nullptr;
      if (op != INS) { sqlite3changeset_old(it, i, &v); e.oldv.push_back(fromValue(v)); }
      v = nullptr;
      if (op != DEL) { sqlite3changeset_new(it, i, &v); e.newv.push_back(fromValue(v)); }
    }
    out.push_back(e);
  }
  rc = sqlite3changeset_finalize(it);
  return rc == SQLITE_OK ? "" : "iteration ended with " + std::to_string(rc);
}

static void c04(Ctx &c) {
  GenOpts o = diffOpts(c);
  o.badUtf8 = false;
  o.generated = false;   // SQLite's own session module counts hidden columns
  if (c.src.below(2)) o.gpkgPct = 0;
  int kind = (int)c.src.weighted({12, 12, 1});
  std::string cs = c.dir + "cs.bin", target = c.dir + "target.gpkg";
  if (kind == 0) {   // the library writes, SQLite reads and applies
    Pair p = genPair(c, o);
    c.label("written");
    if (realDifferences(p.sb, p.sm)) c.nontrivial();
    MUST_OK(c, GEODIFF_createChangeset(p.base.c_str(), p.mod.c_str(), cs.c_str()));
    if (c.src.below(4) == 3) {   // the inverse is a changeset as well
      std::string inv = c.dir + "inv.bin";
      maybeStale(c, inv);
      MUST_OK(c, GEODIFF_invertChangeset(cs.c_str(), inv.c_str()));
      std::swap(p.base, p.mod);
      std::swap(p.sb, p.sm);
      cs = inv;
      c.label("inverse");
    }
    std::string bytes = readFile(cs);
    Changeset d = mustDecode(bytes, "changeset");
    for (auto &f : d.groupPk) for (uint8_t x : f) c.check(x <= 1, "key flag " + std::to_string(x));
    for (auto &e : d.entries) c.check(!e.indirect, "indirect flag set");
    std::vector<Entry> it;
    std::string w = sqliteIterate(bytes, it);
    c.check(w.empty(), "SQLite cannot read the changeset: " + w);
    c.check(it.size() == d.entries.size(), "SQLite sees " + std::to_string(it.size()) + " entries");
    for (size_t k = 0; k < it.size(); ++k) if (!sameEntry(it[k], d.entries[k])) c.fail("SQLite reads " + show(it[k]) + " instead of " + show(d.entries[k]));
    copyFile(p.base, target);
    // composite keys: the flags are rewritten to what SQLite wants (known finding composite-key-flags)
    {
      Db db(p.base, SQLITE_OPEN_READWRITE);
      for (auto &e : d.entries) e.pk = sessionFlags(db, e.table);
    }
    w = sqliteApply(target, encode(d));
    c.check(w.empty(), w);
    Snap after = snap(target);
    for (auto &kv : p.sb.tables) {
      if (ignoredTable(kv.first)) continue;
      Snap b1, m1, a1;
      b1.tables[kv.first] = kv.second; m1.tables[kv.first] = p.sm.tables.at(kv.first); a1.tables[kv.first] = after.tables[kv.first];
      w = applyMismatch(b1, m1, a1);
      c.check(w.empty(), "applied by SQLite: " + w);
    }
    return;
  }
  if (kind == 1) {   // SQLite records, the library reads and applies
    c.label("recorded");
    DbSpec spec = genSpec(c.src, o);
    Data d0 = genData(c.src, spec, o);
    std::string base = c.dir + "base.gpkg", mod = c.dir + "mod.gpkg";
    writeDb(base, spec, d0, genLayout(c.src));
    copyFile(base, mod);
    Snap sb = snap(base);
    int steps = 1 + (int)c.src.below(3);
    bool group = steps > 1 && c.src.below(2);
    std::vector<std::string> parts;
    std::string whole;
    {
      Db db(mod, SQLITE_OPEN_READWRITE);
      db.must("PRAGMA synchronous=off");
      sqlite3_session *ses = nullptr;
      auto startSession = [&]() {
        sqlite3session_create(db.h, "main", &ses);
        for (auto &t : spec.tables) if (t.keyed()) sqlite3session_attach(ses, t.name.c_str());
        if (c.src.below(6) == 5) { sqlite3session_indirect(ses, 1); c.label("indirect"); }
      };
      auto endSession = [&]() {
        int n = 0; void *p = nullptr;
        int rc = sqlite3session_changeset(ses, &n, &p);
        if (rc != SQLITE_OK) throw std::runtime_error("harness: session " + std::to_string(rc));
        parts.push_back(std::string((const char *)p, n));
        sqlite3_free(p);
        sqlite3session_delete(ses);
      };
      startSession();
      Data cur = d0;
      EditOpts eo;
      for (int k = 0; k < steps; ++k) {
        Data next = mutate(c.src, spec, cur, o, eo);
        next.post.clear();
        // through this connection, so that the session sees it
        for (auto &t : spec.tables) {
          if (!t.keyed()) continue;
          auto &f = cur.t[t.name]; auto &x = next.t[t.name];
          auto where = [&](const Row &r, std::vector<Val> &args) { std::string w; for (int p : t.pk) { args.push_back(r[p]); w += (w.empty() ? "" : " AND ") + q(t.cols[p].name) + "=?" + std::to_string(args.size()); } return w; };
          for (auto &kv : f) if (!x.count(kv.first)) { std::vector<Val> a; std::string w = where(kv.second, a); db.run("DELETE FROM " + q(t.name) + " WHERE " + w, a); }
          for (auto &kv : x) {
            auto b = f.find(kv.first);
            if (b == f.end()) {
              std::string cols, ph;
              for (size_t i = 0; i < t.cols.size(); ++i) { cols += (i ? "," : "") + q(t.cols[i].name); ph += i ? ",?" : "?"; }
              db.run("INSERT INTO " + q(t.name) + "(" + cols + ") VALUES(" + ph + ")", kv.second);
              continue;
            }
            std::vector<Val> a; std::string set;
            for (size_t i = 0; i < kv.second.size(); ++i) if (!same(kv.second[i], b->second[i])) { a.push_back(kv.second[i]); set += (set.empty() ? "" : ",") + q(t.cols[i].name) + "=?" + std::to_string(a.size()); }
            if (set.empty()) continue;
            std::string w = where(kv.second, a);
            db.run("UPDATE " + q(t.name) + " SET " + set + " WHERE " + w, a);
          }
        }
        cur = next;
        if (group && k + 1 < steps) { endSession(); startSession(); }
      }
      endSession();
      if (group) {
        sqlite3_changegroup *g; sqlite3changegroup_new(&g);
        for (auto &p : parts) { int rc = sqlite3changegroup_add(g, (int)p.size(), &p[0]); if (rc != SQLITE_OK) { sqlite3changegroup_delete(g); throw pbt::Discard(); } }
        int n; void *p; sqlite3changegroup_output(g, &n, &p);
        whole.assign((const char *)p, n);
        sqlite3_free(p);
        sqlite3changegroup_delete(g);
        c.label("changegroup");
      } else whole = parts[0];
    }
    Snap sm = snap(mod);
    describe(c, spec);
    c.desc << "base rows:\n" << describe(sb, 4) << "changes:\n" << describeChanges(sb, sm);
    writeFile(cs, whole);
    Changeset d = mustDecode(whole, "session changeset");
    // SQLite 3.45 records wrong entries and values for some WITHOUT ROWID tables; such recordings say nothing
    for (auto &e : d.entries) {
      const TableData &tb = sb.tables.at(e.table), &tm = sm.tables.at(e.table);
      auto ib = tb.rows.find(entryKey(e)), im = tm.rows.find(entryKey(e));
      bool ok = (e.op == INS) == (ib == tb.rows.end()) && (e.op == DEL) == (im == tm.rows.end());
      for (size_t i = 0; ok && i < e.oldv.size(); ++i) ok = e.oldv[i].undef() || same(e.oldv[i], ib->second[i]);
      for (size_t i = 0; ok && i < e.newv.size(); ++i) ok = e.newv[i].undef() || same(e.newv[i], im->second[i]);
      if (!ok) { c.label("bad recording"); throw pbt::Discard(); }
    }
    if (!d.entries.empty()) c.nontrivial();
    c.check(GEODIFF_changesCount(cs.c_str()) == (int)d.entries.size(), "changesCount");
    copyFile(base, target);
    MUST_OK(c, GEODIFF_applyChangeset(target.c_str(), cs.c_str()));
    Snap after = snap(target);
    std::string w = applyMismatch(sb, sm, after);
    c.check(w.empty(), "recorded by SQLite, applied by the library: " + w);
    // SQLite's inverse against the library's
    std::string inv = c.dir + "inv.bin";
    maybeStale(c, inv);
    MUST_OK(c, GEODIFF_invertChangeset(cs.c_str(), inv.c_str()));
    Changeset di = mustDecode(readFile(inv), "inverse");
    int n = 0; void *p = nullptr;
    if (sqlite3changeset_invert((int)whole.size(), &whole[0], &n, &p) == SQLITE_OK) {
      Changeset ds = mustDecode(std::string((const char *)p, n), "SQLite inverse");
      sqlite3_free(p);
      c.check(ds.entries.size() == di.entries.size(), "inverse: number of entries");
      for (size_t k = 0; k < ds.entries.size(); ++k) if (!sameEntry(ds.entries[k], di.entries[k])) c.fail("inverse: SQLite has " + show(ds.entries[k]) + ", the library " + show(di.entries[k]));
    }
    MUST_OK(c, GEODIFF_applyChangeset(target.c_str(), inv.c_str()));
    w = applyMismatch(sm, sb, snap(target));
    c.check(w.empty(), "undone: " + w);
    return;
  }
  // an independent encoder writes one-table changesets with lengths around the encoding boundaries
  c.label("encoded");
  static const std::vector<int> lens = {0, 1, 127, 128, 129, 16383, 16384, 16385, 70000, 2097151, 2097152, 2097153};
  std::string tn = genName(c.src, o, 0, true);
  if (c.src.below(4) == 3) tn = std::string(lens[1 + c.src.below(4)], 'n');
  int nc = c.src.below(4) == 3 ? (int)std::vector<int>{126, 127, 128, 129, 300, 600}[c.src.below(6)] : 2 + (int)c.src.below(6);
  Changeset d;
  d.groups = 1;
  std::string create = "CREATE TABLE " + q(tn) + "(";
  std::vector<uint8_t> pk(nc, 0);
  pk[c.src.below(2) ? nc - 1 : 0] = 1;
  for (int i = 0; i < nc; ++i) create += std::string(i ? "," : "") + "c" + std::to_string(i) + (pk[i] ? " INTEGER PRIMARY KEY" : "");
  create += ")";
  std::string base = c.dir + "base.gpkg";
  { Db db(base); db.must("PRAGMA synchronous=off"); db.must(create); }
  Snap want = snap(base);
  TableData &wt = want.tables[tn];
  int rows = 1 + (int)c.src.below(4);
  int big = 1;
  for (int r = 0; r < rows; ++r) {
    Entry e;
    e.op = INS; e.table = tn; e.pk = pk; e.group = 1;
    for (int i = 0; i < nc; ++i) {
      if (pk[i]) { static const std::vector<int64_t> ks = {1, -1, 0, INT64_MAX, INT64_MIN, 128, 255, 65536, 4294967296LL}; e.newv.push_back(Val::integer(c.src.below(3) ? r + 10 : ks[c.src.below(ks.size())])); continue; }
      if (c.src.below(3) == 2 || (nc > 50 && c.src.below(10) < 9)) { e.newv.push_back(genVal(c.src, "", o)); continue; }
      int n = lens[c.src.below(nc < 50 ? (big > 0 && c.src.below(3) == 2 ? lens.size() : 9) : 5)];
      if (nc < 50 && c.src.below(3) == 2) {
        // any length of each size class, not only the boundaries
        static const int top[] = {128, 16384, 200000, 2097152, 6000000};
        size_t k = c.src.below(big > 0 ? 5 : 3);
        n = (int)c.src.range(k ? top[k - 1] : 0, top[k] - 1);
      }
      if (n > 100000) --big;
      std::string s((size_t)n, (char)('a' + c.src.below(26)));
      e.newv.push_back(c.src.below(2) ? Val::text(s) : Val::blob(s));
    }
    if (!wt.rows.emplace(wt.key(e.newv), e.newv).second) continue;
    d.entries.push_back(e);
    c.desc << show(e).substr(0, 300) << "\n";
  }
  c.nontrivial();
  writeFile(cs, encode(d));
  copyFile(base, target);
  MUST_OK(c, GEODIFF_applyChangeset(target.c_str(), cs.c_str()));
  std::string w;
  c.check(sameSnap(want, snap(target), &w), "encoded independently, applied by the library: " + w);
  std::string inv = c.dir + "inv.bin", inv2 = c.dir + "inv2.bin";
  MUST_OK(c, GEODIFF_invertChangeset(cs.c_str(), inv.c_str()));
  MUST_OK(c, GEODIFF_invertChangeset(inv.c_str(), inv2.c_str()));
  c.check(readFile(inv2) == readFile(cs), "double inversion changes the bytes");
  MUST_OK(c, GEODIFF_createChangeset(base.c_str(), target.c_str(), inv2.c_str()));
  Changeset back = mustDecode(readFile(inv2), "changeset");
  Snap empty = snap(base);
  w = diffMismatch(empty, want, back);
  c.check(w.empty(), w);
}
static pbt::Reg r04({"C04", c04, "changesets written by the library iterated and applied by SQLite's session module (abort on any conflict); changesets and changegroups recorded by session objects over generated SQL edits applied and inverted by the library; independently encoded inserts with lengths around 127/128, 16383/16384, 2 MiB and any length up to 6 MB, up to 600 columns and extreme keys. Non-trivial: at least one entry.", 12000, 120000, 40});

static pbt::RegRepro k04({"composite-key-flags", [](const std::string &dir, std::string &what) {
  std::string a = dir + "a.gpkg", b = dir + "b.gpkg", cs = dir + "cs.bin";
  for (auto &p : {a, b}) { Db db(p); db.must("CREATE TABLE t(a INTEGER, b INTEGER, c TEXT, PRIMARY KEY(a, b))"); }
  { Db db(b, SQLITE_OPEN_READWRITE); db.must("INSERT INTO t VALUES(1,2,'x')"); }
  if (GEODIFF_createChangeset(a.c_str(), b.c_str(), cs.c_str()) != 0) { what = "createChangeset failed"; return true; }
  what = sqliteApply(a, readFile(cs));
  Db db(a, SQLITE_OPEN_READWRITE);
  int64_t n = db.scalar("SELECT count(*) FROM t").i;
  if (n != 1) what = "SQLite skips the table, the row is missing";
  return n != 1;
}});

static pbt::RegRepro k01({"unique-swap", [](const std::string &dir, std::string &what) {
  std::string a = dir + "a.gpkg", b = dir + "b.gpkg", cs = dir + "cs.bin";
  for (auto &p : {a, b}) { Db db(p); db.must("CREATE TABLE t(id INTEGER PRIMARY KEY, u TEXT UNIQUE)"); db.must(p == a ? "INSERT INTO t VALUES(1,'x'),(2,'y')" : "INSERT INTO t VALUES(1,'y'),(2,'x')"); }
  if (GEODIFF_createChangeset(a.c_str(), b.c_str(), cs.c_str()) != 0) { what = "createChangeset failed"; return true; }
  int rc = GEODIFF_applyChangeset(a.c_str(), cs.c_str());
  what = "applyChangeset returned " + std::to_string(rc);
  return rc != 0;
}});
static pbt::RegRepro k01r({"respelled-key", [](const std::string &dir, std::string &what) {
  std::string a = dir + "a.gpkg", b = dir + "b.gpkg", cs = dir + "cs.bin";
  for (auto &p : {a, b}) { Db db(p); db.must("CREATE TABLE t(k TEXT PRIMARY KEY COLLATE NOCASE, v TEXT)"); db.must(p == a ? "INSERT INTO t VALUES('ab','x')" : "INSERT INTO t VALUES('AB','x')"); }
  if (GEODIFF_createChangeset(a.c_str(), b.c_str(), cs.c_str()) != 0) { what = "createChangeset failed"; return true; }
  int n = GEODIFF_changesCount(cs.c_str());
  what = std::to_string(n) + " changes for a key respelled from ab to AB in a column COLLATE NOCASE";
  return n == 0;
}});
static pbt::RegRepro k02({"null-key", [](const std::string &dir, std::string &what) {
  std::string a = dir + "a.gpkg", cs = dir + "cs.bin";
  { Db db(a); db.must("CREATE TABLE t(id TEXT PRIMARY KEY, v TEXT)"); db.must("INSERT INTO t VALUES(NULL,'x')"); }
  if (GEODIFF_createChangeset(a.c_str(), a.c_str(), cs.c_str()) != 0) { what = "createChangeset failed"; return true; }
  int n = GEODIFF_changesCount(cs.c_str());
  what = std::to_string(n) + " changes between a database and itself";
  return n != 0;
}});
