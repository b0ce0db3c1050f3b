// C26: the PostgreSQL driver against the stand-in server. C27: copies between the drivers.
#include <algorithm>
#include <cstring>
#include "changesets.hpp"
#include "merge.hpp"
#include "pgen.hpp"
using pbt::Ctx;

namespace {
std::string rowsAsText(const Snap &s, size_t max = 20) { return describe(s, max); }
void dataDesc(Ctx &c, const char *what, const Snap &a, const Snap &b) { c.desc << what << "\n" << describeChanges(a, b); }

// strict sequential application on a snapshot; an error text when some entry does not match
std::string modelApply(Snap &s, const Changeset &cs) {
  for (auto &e : cs.entries) {
    if (e.table.rfind("gpkg_", 0) == 0) continue;
    auto it = s.tables.find(e.table);
    if (it == s.tables.end()) return "no table " + e.table;
    TableData &t = it->second;
    if (e.pk.size() != t.cols.size()) return "columns";
    for (size_t k = 0; k < e.pk.size(); ++k) if ((e.pk[k] != 0) != (t.cols[k].pk != 0)) return "keys";
    if (e.op == INS) {
      std::string k = t.key(e.newv);
      if (t.rows.count(k)) return "key taken: " + show(e);
      for (size_t i = 0; i < t.cols.size(); ++i) if ((t.cols[i].notNull || t.cols[i].pk) && e.newv[i].t == Val::Null) return "null in column without nulls: " + show(e);
      t.rows[k] = e.newv;
      continue;
    }
    auto r = t.rows.find(t.key(e.oldv));
    if (r == t.rows.end()) return "row missing: " + show(e);
    for (size_t i = 0; i < t.cols.size(); ++i) if (!e.oldv[i].undef() && !equiv(e.oldv[i], r->second[i])) return "row differs: " + show(e);
    if (e.op == DEL) { t.rows.erase(r); continue; }
    Row n = r->second;
    for (size_t i = 0; i < t.cols.size(); ++i) if (!e.newv[i].undef()) { if ((t.cols[i].notNull || t.cols[i].pk) && e.newv[i].t == Val::Null) return "null in column without nulls: " + show(e); n[i] = e.newv[i]; }
    std::string k = t.key(n);
    if (k != r->first && t.rows.count(k)) return "key taken: " + show(e);
    t.rows.erase(r);
    t.rows[k] = n;
  }
  return "";
}
// the difference, in an order of its own
Changeset modelDiff(pbt::Src &s, const Snap &a, const Snap &b) {
  Changeset cs;
  for (auto &kv : a.tables) {
    const TableData &t = kv.second, &u = b.tables.at(kv.first);
    if (!t.keyed()) continue;
    std::vector<Entry> es;
    auto mk = [&](int op) { Entry e; e.op = op; e.table = kv.first; for (auto &c : t.cols) e.pk.push_back(c.pk ? 1 : 0); return e; };
    for (auto &r : t.rows) {
      auto o = u.rows.find(r.first);
      if (o == u.rows.end()) { Entry e = mk(DEL); e.oldv = r.second; es.push_back(e); continue; }
      Entry e = mk(UPD);
      bool any = false;
      for (size_t i = 0; i < t.cols.size(); ++i) {
        bool d = !equiv(r.second[i], o->second[i]);
        any |= d;
        e.oldv.push_back(d || t.cols[i].pk ? r.second[i] : Val());
        e.newv.push_back(d ? o->second[i] : Val());
      }
      if (any) es.push_back(e);
    }
    for (auto &r : u.rows) if (!t.rows.count(r.first)) { Entry e = mk(INS); e.newv = r.second; es.push_back(e); }
    for (size_t k = es.size(); k > 1; --k) if (s.chance(1, 3)) std::swap(es[k - 1], es[s.below(k)]);
    if (!es.empty()) { for (auto &e : es) { e.group = cs.groups; cs.entries.push_back(e); } ++cs.groups; }
  }
  return cs;
}
std::vector<std::string> seqNames(const std::string &schema) { std::vector<std::string> r; for (auto &x : fpg::server().st.schemas.at(schema).seqs) r.push_back(x.first); return r; }
// the next value of every sequence is above all keys of its column
std::string seqBehind(const std::string &schema, const Snap *onlyNewSince = nullptr) {
  auto &sv = fpg::server();
  auto &sc = sv.st.schemas.at(schema);
  for (auto &t : sc.tables) for (size_t k = 0; k < t.second.cols.size(); ++k) {
    auto &col = t.second.cols[k];
    if (col.seq.empty()) continue;
    size_t keys = 0;
    for (auto &x : t.second.indexes) if (x.primary) keys = x.cols.size();
    if (keys != 1) continue;   // a default does not matter in keys of several columns
    int64_t mx = INT64_MIN;
    const TableData *old = onlyNewSince ? &onlyNewSince->tables.at(t.first) : nullptr;
    for (auto &r : t.second.rows) {
      Row key(t.second.cols.size());
      if (old) { bool had = false; for (auto &o : old->rows) had |= o.second[k].i == r[k].i; if (had) continue; }
      mx = std::max(mx, r[k].i);
    }
    if (mx == INT64_MIN) continue;
    auto &q = sv.seq[sc.seqs.at(col.seq)];
    int64_t next = q.called ? q.last + 1 : q.last;
    if (next <= mx) return "the next key of " + t.first + " is " + std::to_string(next) + " although a row with key " + std::to_string(mx) + " was inserted";
  }
  return "";
}
struct PgPair { PDb d; PData db, dm; Snap sb, sm; };
// sequences are where they would be had the rows been inserted without keys, or at the start
void someSeq(pbt::Src &s, const std::string &schema) {
  auto &sv = fpg::server();
  for (auto &x : sv.st.schemas.at(schema).seqs) { auto &q = sv.seq[x.second]; int64_t v = s.range(0, 12); if (v) { q.last = v; q.called = s.below(3) != 2; } }
}
PgPair pgPair(Ctx &c, const PgOpts &o, int maxEdits) {
  PgPair p;
  pgStart();
  p.d = genPg(c.src, o);
  p.db = genPgData(c.src, p.d, o);
  p.dm = mutatePg(c.src, p.d, p.db, o, maxEdits);
  createPg("base", p.d, p.db);
  clonePg("base", "mod");
  for (auto &t : fpg::server().st.schemas.at("mod").tables) t.second.rows.clear();
  fillPg("mod", p.d, p.dm);
  // the order of rows in the heap is arbitrary
  for (auto n : {"base", "mod"}) for (auto &t : fpg::server().st.schemas.at(n).tables) { auto &r = t.second.rows; if (c.src.chance(1, 3)) std::reverse(r.begin(), r.end()); }
  p.sb = snapPg("base");
  p.sm = snapPg("mod");
  describePg(c, p.d);
  dataDesc(c, "base and modified:", p.sb, p.sm);
  return p;
}
std::string failText(const std::string &m) { return m + "\n" + logText(); }

// ------------------------------------------------------------------ C26: difference, apply, inverse, dump
void c26diff(Ctx &c) {
  PgOpts o;
  PgPair p = pgPair(c, o, 8);
  auto &sv = fpg::server();
  size_t real = realDifferences(p.sb, p.sm);
  if (real) c.nontrivial();
  someSeq(c.src, "base");
  clonePg("base", "copy");
  clonePg("mod", "copy2");
  fpg::State before = sv.st;
  std::string cs = c.dir + "cs.bin", inv = c.dir + "inv.bin", dump = c.dir + "dump.bin";
  maybeStale(c, cs);
  int rc = GEODIFF_createChangesetEx("postgres", kPgInfo, "base", "mod", cs.c_str());
  pgDone(c);
  c.check(rc == 0, failText("creating the changeset failed"));
  c.check(fpg::show(before) == fpg::show(sv.st), "creating a changeset altered the server");
  Changeset d = mustDecode(readFile(cs), "changeset");
  std::string w = diffMismatch(p.sb, p.sm, d);
  if (!w.empty()) c.fail(w);
  // apply to a copy of base
  Snap oldCopy = snapPg("copy");
  rc = GEODIFF_applyChangesetEx("postgres", kPgInfo, "copy", cs.c_str());
  pgDone(c);
  c.check(rc == 0, failText("applying the changeset to its base failed"));
  Snap after = snapPg("copy");
  w = applyMismatch(p.sb, p.sm, after);
  if (!w.empty()) c.fail(w);
  for (auto n : {"base", "mod", "copy2"}) if (!sameSnap(snapPg(n), std::string(n) == "base" ? p.sb : p.sm, &w)) c.fail("another schema was altered: " + w);
  w = seqBehind("copy", &oldCopy);
  if (!w.empty()) c.fail(w);
  // and back
  MUST_OK(c, GEODIFF_invertChangeset(cs.c_str(), inv.c_str()));
  rc = GEODIFF_applyChangesetEx("postgres", kPgInfo, "copy2", inv.c_str());
  pgDone(c);
  c.check(rc == 0, failText("applying the inverse to modified failed"));
  w = applyMismatch(p.sm, p.sb, snapPg("copy2"));
  if (!w.empty()) c.fail("inverse: " + w);
  // dump
  maybeStale(c, dump);
  rc = GEODIFF_dumpData("postgres", kPgInfo, "base", dump.c_str());
  pgDone(c);
  c.check(rc == 0, failText("dumping failed"));
  Snap empty = p.sb;
  for (auto &t : empty.tables) t.second.rows.clear();
  w = diffMismatch(empty, p.sb, mustDecode(readFile(dump), "dump"));
  if (!w.empty()) c.fail("dump: " + w);
}
pbt::Reg r1({"C26.diff", c26diff, "two schemas in the stand-in server (1-3 tables; serial, integer, text, timestamp, composite keys or none; integer, double, real, boolean, text, timestamp, geometry columns with Z and M; names that need quoting; extra indexes; rows in any order) that differ by 0-8 edits, nulls included: changeset against the exact difference, applied to a copy of base, inverse applied to modified, sequences ahead of inserted keys, dump against the rows, nothing else altered, no connection left open. Non-trivial: some row differs.", 14000, 300000, 60});

// ------------------------------------------------------------------ C26: apply on diverged data
void c26apply(Ctx &c) {
  PgOpts o;
  PgPair p = pgPair(c, o, 8);
  auto &sv = fpg::server();
  Changeset d = modelDiff(c.src, p.sb, p.sm);
  if (d.entries.empty()) throw pbt::Discard();
  int kind = (int)c.src.below(5);
  PData dd = kind == 0 ? p.db : mutatePg(c.src, p.d, kind == 4 ? p.dm : p.db, o, kind == 1 ? 1 : 4);
  clonePg("base", "target");
  for (auto &t : sv.st.schemas.at("target").tables) t.second.rows.clear();
  fillPg("target", p.d, dd);
  someSeq(c.src, "target");
  // values as other writers make them: geometries with an envelope
  if (c.src.chance(1, 3)) for (auto &e : d.entries) for (Row *r : {&e.oldv, &e.newv}) for (auto &v : *r) if (v.t == Val::Blob && c.src.below(2)) {
    int env = (int)c.src.range(1, 4);
    static const int len[] = {0, 32, 48, 48, 64};
    v.s[3] = (char)(1 | env << 1);
    v.s.insert(8, std::string(len[env], '\0'));
    c.label("envelope");
  }
  if (c.src.chance(1, 6)) {   // catalogue entries of a GeoPackage are not for PostgreSQL
    Entry e; e.op = UPD; e.table = "gpkg_contents"; e.pk = {1, 0}; e.oldv = {Val::text("x"), Val::text("old")}; e.newv = {Val(), Val::text("new")};
    size_t g = 0;
    for (auto &x : d.entries) x.group += 1;
    e.group = g;
    d.entries.insert(d.entries.begin(), e);
    ++d.groups;
  }
  // changesets that do not fit the tables, or with values no writer makes
  std::string damaged;
  if (c.src.chance(1, 5)) {
    size_t g = d.entries[c.src.below(d.entries.size())].group;
    std::vector<Entry *> of;
    for (auto &e : d.entries) if (e.group == g && e.table != "gpkg_contents") of.push_back(&e);
    if (!of.empty()) {
      Entry &one = *of[c.src.below(of.size())];
      size_t n = one.pk.size(), k = c.src.below(n);
      switch (c.src.below(5)) {
        case 0: damaged = "key flag of column " + std::to_string(k); for (auto *e : of) e->pk[k] = !e->pk[k]; break;
        case 1: damaged = "a column more"; for (auto *e : of) { e->pk.push_back(0); if (e->op != INS) e->oldv.push_back(e->op == DEL ? Val::null() : Val()); if (e->op != DEL) e->newv.push_back(e->op == INS ? Val::null() : Val()); } break;
        case 2: damaged = "a column less"; if (n > 1 && !one.pk[n - 1]) for (auto *e : of) { e->pk.pop_back(); if (!e->oldv.empty()) e->oldv.pop_back(); if (!e->newv.empty()) e->newv.pop_back(); } else damaged.clear(); break;
        case 3: if (one.op == INS && !one.pk[k]) { damaged = "no value for column " + std::to_string(k) + " of an insert"; one.newv[k] = Val(); } break;
        default: {
          Row &r = one.op == DEL || (one.op == UPD && c.src.below(2)) ? one.oldv : one.newv;
          for (auto &v : r) if (v.t == Val::Blob && v.s.size() > 8) {
            damaged = "geometry without a complete header";
            int env = (v.s[3] >> 1) & 7;
            if (env == 0) { env = 1; v.s[3] = (char)(1 | env << 1); }
            switch (c.src.below(3)) { case 0: v.s.resize(c.src.below(8)); break; case 1: v.s.resize(8 + c.src.below(32)); break; default: v.s[c.src.below(2)] = 'x'; }
            break;
          }
        }
      }
      if (!damaged.empty()) c.label("does not fit");
    }
  }
  Snap before = snapPg("target"), want = before;   // sequences are not part of transactions
  Changeset norm = d;
  for (auto &e : norm.entries) for (Row *r : {&e.oldv, &e.newv}) for (auto &v : *r) if (v.t == Val::Blob && v.s.size() > 8 && (v.s[3] >> 1)) { static const int len[] = {0, 32, 48, 48, 64}; v.s.erase(8, len[(v.s[3] >> 1) & 7]); v.s[3] = 1; }
  std::string bad = damaged.empty() ? modelApply(want, norm) : damaged;
  std::string cs = c.dir + "cs.bin";
  writeFile(cs, encode(d));
  for (auto &e : d.entries) c.desc << show(e) << "\n";
  c.desc << "target: " << (bad.empty() ? "matches" : bad) << "\n" << rowsAsText(before) << "\n";
  c.label(bad.empty() ? "applies" : "conflict");
  if (d.entries.size() > 1 && (!bad.empty() || kind)) c.nontrivial();
  int rc = GEODIFF_applyChangesetEx("postgres", kPgInfo, "target", cs.c_str());
  pgDone(c);
  std::string w;
  if (bad.empty()) {
    c.check(rc == 0, failText("applying a changeset that matches failed"));
    Snap after = snapPg("target");
    if (!sameSnap(want, after, &w)) c.fail(w);
    w = seqBehind("target", &before);
    if (!w.empty()) c.fail(w);
  } else {
    c.check(rc != 0, "applying a changeset that does not match succeeded: " + bad);
    Snap after = snapPg("target");
    if (!sameSnap(before, after, &w)) c.fail(w);
  }
  if (!sameSnap(snapPg("base"), p.sb, &w) || !sameSnap(snapPg("mod"), p.sm, &w)) c.fail("another schema was altered: " + w);
}
pbt::Reg r2({"C26.apply", c26apply, "a changeset written by the model for the difference of two generated schemas, applied to base, to base with 1-4 further edits, or to modified; geometries with any envelope, catalogue entries of a GeoPackage; changesets with other columns or keys, inserts without a value, geometries with an incomplete header: success exactly when the strict sequential model applies, with the model's rows, otherwise an error and every row as before. Non-trivial: several entries and a target that is not plainly base.", 14000, 300000, 60});

// ------------------------------------------------------------------ C26: different structure
void c26schema(Ctx &c) {
  PgOpts o;
  PgPair p = pgPair(c, o, 3);
  auto &sv = fpg::server();
  PDb m = p.d;
  PTab &t = m.t[c.src.below(m.t.size())];
  t.cols.reserve(t.cols.size() + 1);
  PCol &col = t.cols[c.src.below(t.cols.size())];
  bool differs = true;
  std::string what;
  switch (c.src.below(9)) {
    case 7: {
      what = c.src.below(2) ? "table added" : "table dropped";
      if (what == "table added") { PTab x = t; x.name += c.src.below(2) ? "_z" : "A"; x.serial = false; m.t.insert(m.t.begin() + (long)c.src.below(m.t.size() + 1), x); }
      else { m.t.erase(m.t.begin() + (&t - &m.t[0])); }
      break;
    }
    case 0: what = "column renamed"; col.name += "x"; break;
    case 1: what = "type changed"; { PCol::K k = col.k; if (t.isPk((int)(&col - &t.cols[0]))) { col.k = k == PCol::INT ? PCol::TEXT : PCol::INT; t.serial = false; } else col.k = k == PCol::TEXT ? PCol::DBL : PCol::TEXT; } break;
    case 2: what = "not null changed"; if (t.isPk((int)(&col - &t.cols[0]))) throw pbt::Discard(); col.notNull = !col.notNull; break;
    case 3: what = "column added"; { PCol n; n.name = "zz_new"; n.k = PCol::INT; t.cols.push_back(n); } break;
    case 4: what = "table renamed"; t.name += "_z"; break;
    case 5: what = "key changed"; { int k = (int)(&col - &t.cols[0]); auto it = std::find(t.pk.begin(), t.pk.end(), k); t.serial = false; if (it != t.pk.end()) t.pk.erase(it); else t.pk.push_back(k); } break;
    case 6: what = "geometry definition changed"; if (col.k != PCol::GEOM) throw pbt::Discard(); if (c.src.below(2)) col.srid = col.srid == 4326 ? 3857 : 4326; else if (col.geom == "PointZ") col.geom = "Point"; else col.geom = col.geom == "Point" ? (c.src.below(2) ? "PointZ" : "Polygon") : "Point"; break;
    default: what = "index added"; differs = false; t.idx.push_back({(int)(&col - &t.cols[0])});
  }
  c.desc << what << (what[0] == 't' ? "" : " in " + t.name + "." + col.name) << "\n";
  c.label(what);
  sv.st.schemas.erase("mod");
  createPg("mod", m, differs ? PData() : p.dm);
  if (differs) for (auto &x : sv.st.schemas.at("base").tables) if (c.src.below(2)) x.second.rows.clear();
  c.nontrivial();
  fpg::State before = sv.st;
  std::string cs = c.dir + "cs.bin";
  int rc = GEODIFF_createChangesetEx("postgres", kPgInfo, "base", "mod", cs.c_str());
  pgDone(c);
  c.check(fpg::show(before) == fpg::show(sv.st), "creating a changeset altered the server");
  if (differs) c.check(rc != 0, "schemas of different structure were compared: " + what);
  else {
    c.check(rc == 0, failText("refused although only an index differs"));
    std::string w = diffMismatch(p.sb, snapPg("mod"), mustDecode(readFile(cs), "changeset"));
    if (!w.empty()) c.fail(w);
  }
  // missing schemas
  c.check(GEODIFF_createChangesetEx("postgres", kPgInfo, "base", "nowhere", cs.c_str()) != 0, "a schema that does not exist was accepted");
  c.check(GEODIFF_applyChangesetEx("postgres", kPgInfo, "nowhere", cs.c_str()) != 0, "a schema that does not exist was accepted for apply");
  c.check(fpg::show(before) == fpg::show(sv.st), "the server was altered");
  pgDone(c);
}
pbt::Reg r3({"C26.schema", c26schema, "one schema altered: a column renamed, added, of another type, key membership, not-null or geometry definition, a table renamed, added or dropped: creating a changeset is an error and alters nothing; a further index is no difference. Non-trivial: every case.", 5000, 60000, 60});

// ------------------------------------------------------------------ C26: rebase
void c26rebase(Ctx &c) {
  PgOpts o;
  o.mergeKeys = true; o.noKey = false; o.composite = false;
  o.maxTables = 2; o.maxRows = 5; o.maxCols = 4;
  pgStart();
  PDb d = genPg(c.src, o);
  PData db = genPgData(c.src, d, o), dO = mutatePg(c.src, d, db, o, 6), dT = mutatePg(c.src, d, db, o, 6);
  createPg("base", d, db);
  for (auto n : {"ours", "theirs"}) { clonePg("base", n); for (auto &t : fpg::server().st.schemas.at(n).tables) t.second.rows.clear(); fillPg(n, d, std::string(n) == "ours" ? dO : dT); }
  Snap sb = snapPg("base"), so = snapPg("ours"), st = snapPg("theirs");
  describePg(c, d);
  dataDesc(c, "ours:", sb, so);
  dataDesc(c, "theirs:", sb, st);
  if (reprOnly(sb, so, st) || gapRisk(sb, so, st)) throw pbt::Discard();
  if (realDifferences(sb, so) && realDifferences(sb, st)) c.nontrivial();
  if (!collidingTables(sb, so, st).empty()) c.label("colliding-inserts");
  std::string b2t = c.dir + "b2t.bin", conf = c.dir + "conflict.json";
  MUST_OK(c, GEODIFF_createChangesetEx("postgres", kPgInfo, "base", "theirs", b2t.c_str()));
  pgDone(c);
  auto want = expectedConflicts(sb, so, st);
  if (!want.empty()) c.label("conflicts");
  int rc = GEODIFF_rebaseEx("postgres", kPgInfo, "base", "ours", b2t.c_str(), conf.c_str());
  pgDone(c);
  c.check(rc == 0, failText("rebase failed"));
  Snap after = snapPg("ours");
  std::string w = mergeMismatch(sb, so, st, after);
  if (!w.empty()) c.fail(w);
  w = conflictReportMismatch(want, conf);
  if (!w.empty()) c.fail(w + "\nreport:\n" + (exists(conf) ? readFile(conf).substr(0, 3000) : "none"));
  if (!sameSnap(snapPg("base"), sb, &w) || !sameSnap(snapPg("theirs"), st, &w)) c.fail("another schema was altered: " + w);
}
pbt::Reg r4({"C26.rebase", c26rebase, "base and two edited schemas with integer keys: rebase in place against the reference three-way merge and its conflict report. Non-trivial: both sides changed rows.", 12000, 200000, 60});

// ------------------------------------------------------------------ C26: failing statements and lost connections
void c26fault(Ctx &c) {
  PgOpts o;
  o.maxTables = 2;
  PgPair p = pgPair(c, o, 6);
  auto &sv = fpg::server();
  if (!realDifferences(p.sb, p.sm)) throw pbt::Discard();
  std::string cs = c.dir + "cs.bin", out = c.dir + "out.bin", conf = c.dir + "conf.json", b2t = c.dir + "b2t.bin";
  writeFile(cs, encode(modelDiff(c.src, p.sb, p.sm)));
  clonePg("base", "target");
  int call = (int)c.src.below(5);
  fpg::Server saved = sv;
  auto run = [&]() {
    switch (call) {
      case 0: case 1: return GEODIFF_applyChangesetEx("postgres", kPgInfo, "target", cs.c_str());
      case 2: return GEODIFF_createChangesetEx("postgres", kPgInfo, "base", "mod", out.c_str());
      case 3: return GEODIFF_dumpData("postgres", kPgInfo, "base", out.c_str());
      default: return GEODIFF_makeCopy("postgres", kPgInfo, "base", "postgres", kPgInfo, "target");
    }
  };
  static const char *names[] = {"apply", "apply", "createChangeset", "dump", "makeCopy"};
  int rc = run();
  int64_t n = sv.count;
  pgDone(c);
  if (rc != 0) { if (call < 4) c.fail(failText(std::string(names[call]) + " failed without a fault")); throw pbt::Discard(); }
  std::string full = call >= 2 && call < 4 ? readFile(out) : "";
  Snap done = snapPg("target");
  int tries = (int)std::min<int64_t>(n, 12);
  for (int k = 0; k < tries; ++k) {
    int64_t at = n <= 12 ? k : c.src.below((uint64_t)n);
    bool lose = c.src.below(2);
    sv = saved;
    remove(out.c_str());
    (lose ? sv.loseAt : sv.failAt) = sv.count + at;
    std::string stmt = "?";
    c.desc << names[call] << ": " << (lose ? "connection lost at " : "error at ") << "statement " << at << "\n";
    takeLog();
    rc = run();
    stmt = sv.log.size() > (size_t)at ? sv.log[(size_t)(sv.log.size() > saved.log.size() + at ? saved.log.size() + at : at)] : "?";
    pgDone(c);
    c.check(sv.failed, "the fault did not happen");
    std::string w, ctx = " (" + std::string(names[call]) + ", " + (lose ? "connection lost at " : "error at ") + stmt.substr(0, 120) + ")";
    Snap after;
    if (sv.st.schemas.count("target")) after = snapPg("target");
    if (call < 2) {
      if (rc != 0) { if (!sameSnap(p.sb, after, &w)) c.fail("a failed apply left changes: " + w + ctx); }
      else if (!sameSnap(done, after, &w)) c.fail("apply reported success without its result: " + w + ctx);
    } else if (call == 4) {
      if (rc == 0 && !sameSnap(done, after, &w)) c.fail("copy reported success without its result: " + w + ctx);
    } else {
      if (rc == 0 && readFile(out) != full) c.fail("success with a different output" + ctx);
      if (!sameSnap(p.sb, snapPg("base"), &w) || !sameSnap(p.sm, snapPg("mod"), &w)) c.fail("altered: " + w + ctx);
    }
  }
  c.nontrivial();
}
pbt::Reg r5({"C26.fault", c26fault, "apply, createChangeset, dump and makeCopy with the k-th statement failing or the connection lost with it, for every or twelve k: no crash, no connection left open, an apply that fails leaves every row as before, success only with the complete result. Non-trivial: every case.", 8000, 120000, 40});

// ------------------------------------------------------------------ C27
std::string sqliteType(pbt::Src &s, const PCol &c) {
  switch (c.k) {
    case PCol::INT: return s.pick(std::vector<std::string>{"INTEGER", "INT", "MEDIUMINT", "integer", "SMALLINT", "BIGINT"});
    case PCol::DBL: case PCol::REAL: return s.pick(std::vector<std::string>{"DOUBLE", "REAL", "double precision", "FLOAT"});
    case PCol::BOOL: return s.pick(std::vector<std::string>{"BOOLEAN", "BOOL"});
    case PCol::TEXT: return s.pick(std::vector<std::string>{"TEXT", "TEXT(4000)", "VARCHAR(4000)", "text", "NCHAR(50)"});
    case PCol::TS: return "DATETIME";
    default: { std::string g = c.geom; while (g.back() == 'Z' || g.back() == 'M') g.pop_back(); for (auto &x : g) x = (char)toupper(x); return g; }
  }
}
// rows and keys of two datasets; values may differ in what the other side cannot tell apart
std::string copyMismatch(const Snap &src, const Snap &dst) {
  for (auto &kv : src.tables) {
    if (ignoredTable(kv.first) || kv.first.rfind("gpkg_", 0) == 0) continue;
    auto it = dst.tables.find(kv.first);
    if (it == dst.tables.end()) return "table " + kv.first + " is missing in the copy";
    const TableData &a = kv.second, &b = it->second;
    if (a.cols.size() != b.cols.size()) return "number of columns of " + kv.first + " differs";
    for (size_t k = 0; k < a.cols.size(); ++k) {
      if (a.cols[k].name != b.cols[k].name) return "column " + a.cols[k].name + " of " + kv.first + " is " + b.cols[k].name + " in the copy";
      if ((a.cols[k].pk != 0) != (b.cols[k].pk != 0)) return "key membership of " + kv.first + "." + a.cols[k].name + " differs";
      if ((a.cols[k].notNull || a.cols[k].pk) != (b.cols[k].notNull || b.cols[k].pk)) return "not null of " + kv.first + "." + a.cols[k].name + " differs";
    }
    if (a.rows.size() != b.rows.size()) return "number of rows of " + kv.first + ": " + std::to_string(a.rows.size()) + " copied to " + std::to_string(b.rows.size());
    for (auto &r : a.rows) {
      auto o = b.rows.find(r.first);
      if (o == b.rows.end()) return "row missing in the copy of " + kv.first + ": " + show(r.second);
      for (size_t k = 0; k < r.second.size(); ++k) if (!equiv(r.second[k], o->second[k])) return "row of " + kv.first + " differs in the copy: " + show(r.second) + " / " + show(o->second);
    }
  }
  for (auto &kv : dst.tables) if (!ignoredTable(kv.first) && kv.first.rfind("gpkg_", 0) != 0 && !src.tables.count(kv.first)) return "further table in the copy: " + kv.first;
  return "";
}
std::string geomPg(const Snap &s, const std::string &t, const std::string &col) { for (auto &c : s.tables.at(t).cols) if (c.name == col) return c.type; return ""; }
std::string geomGpkg(const std::string &path, const std::string &t, const std::string &col) {
  Db db(path, SQLITE_OPEN_READONLY);
  auto r = db.query("SELECT geometry_type_name, z, m, srs_id FROM gpkg_geometry_columns WHERE table_name=? AND column_name=?", {Val::text(t), Val::text(col)});
  if (r.size() != 1) return "none";
  std::string g = r[0][0].s;
  for (size_t k = 1; k < g.size(); ++k) g[k] = (char)tolower(g[k]);
  if (g == "Linestring") g = "LineString";
  return "geometry(" + g + (r[0][1].i ? "Z" : "") + (r[0][2].i ? "M" : "") + "," + std::to_string(r[0][3].i) + ")";
}
// geopackage with the tables of d
void writeGpkg(pbt::Src &s, const std::string &path, const PDb &d, const PData &data, DbSpec &spec, Data &out, bool allGpkg) {
  spec = DbSpec();
  spec.gpkg = true;
  for (auto &t : d.t) {
    TableSpec x;
    x.name = t.name;
    for (size_t k = 0; k < t.cols.size(); ++k) {
      ColSpec cs;
      cs.name = t.cols[k].name; cs.type = t.serial && t.pk[0] == (int)k ? "INTEGER" : sqliteType(s, t.cols[k]); cs.notNull = t.cols[k].notNull;
      x.cols.push_back(cs);
    }
    x.pk = t.pk;
    x.inlinePk = t.serial;
    x.autoinc = t.serial && s.below(2);
    spec.tables.push_back(x);
    for (size_t k = 0; k < t.cols.size(); ++k) if (t.cols[k].k == PCol::GEOM) {
      bool z = t.cols[k].geom.find('Z') != std::string::npos, m = t.cols[k].geom.back() == 'M';
      std::string sr = std::to_string(t.cols[k].srid);
      spec.extra.push_back("INSERT OR IGNORE INTO gpkg_spatial_ref_sys VALUES ('srs " + sr + "'," + sr + ",'EPSG'," + sr + ",'PROJCS[\"it''s " + sr + "\"]','d')");
      spec.extra.push_back("INSERT INTO gpkg_contents VALUES (" + ql(t.name) + ",'features'," + ql(t.name) + ",'','2019-08-02T05:01:27.000Z',-1,-1,1,1," + sr + ")");
      spec.extra.push_back("INSERT INTO gpkg_geometry_columns VALUES (" + ql(t.name) + "," + ql(t.cols[k].name) + "," + ql(spec.tables.back().cols[k].type) + "," + sr + "," + (z ? "1" : "0") + "," + (m ? "1" : "0") + ")");
    }
    for (auto &kv : data.at(t.name)) { Row r = kv.second; out.t[t.name][keyOf(x, r)] = r; }
  }
  (void)allGpkg;
  writeDb(path, spec, out, Layout());
}
Data toData(const PDb &d, const DbSpec &spec, const PData &p) { Data r; for (auto &t : spec.tables) { auto &m = r.t[t.name]; for (auto &kv : p.at(t.name)) m[keyOf(t, kv.second)] = kv.second; } (void)d; return r; }
PgOpts copyOpts() { PgOpts o; o.noKey = false; o.keyOnly = true; o.oneGeom = true; o.maxTables = 3; return o; }

void crossApply(Ctx &c, const PDb &d, const DbSpec &spec, const PData &data, const std::string &gpkg, const std::string &schema, const PgOpts &o) {
  // a changeset made on the file applies to the schema
  PData m = mutatePg(c.src, d, data, o, 6);
  std::string mod = c.dir + "cross_mod.gpkg", cs = c.dir + "cross.bin";
  copyFile(gpkg, mod);
  applyEdits(mod, spec, toData(d, spec, data), toData(d, spec, m), 0);
  Snap s0 = snap(gpkg), s1 = snap(mod);
  dataDesc(c, "edits:", s0, s1);
  if (realDifferences(s0, s1)) c.label("cross-edits");
  MUST_OK(c, GEODIFF_createChangeset(gpkg.c_str(), mod.c_str(), cs.c_str()));
  clonePg(schema, "cross");
  Snap uncrossed = snapPg("cross");
  int rc = GEODIFF_applyChangesetEx("postgres", kPgInfo, "cross", cs.c_str());
  pgDone(c);
  c.check(rc == 0, failText("a changeset made on the GeoPackage does not apply to the schema"));
  std::string w = copyMismatch(s1, snapPg("cross"));
  if (!w.empty()) c.fail("after applying a changeset of the GeoPackage to the schema: " + w);
  w = seqBehind("cross", &uncrossed);
  if (!w.empty()) c.fail(w);
  // and the other way round
  std::string cs2 = c.dir + "cross2.bin", target = c.dir + "cross_target.gpkg";
  rc = GEODIFF_createChangesetEx("postgres", kPgInfo, schema.c_str(), "cross", cs2.c_str());
  pgDone(c);
  c.check(rc == 0, failText("creating a changeset of the schema failed"));
  copyFile(gpkg, target);
  rc = GEODIFF_applyChangeset(target.c_str(), cs2.c_str());
  c.check(rc == 0, failText("a changeset made on the schema does not apply to the GeoPackage"));
  w = copyMismatch(snapPg("cross"), snap(target));
  if (!w.empty()) c.fail("after applying a changeset of the schema to the GeoPackage: " + w);
  if (!integrityOk(target, &w)) c.fail("file damaged: " + w);
}
void c27toPg(Ctx &c) {
  PgOpts o = copyOpts();
  pgStart();
  PDb d = genPg(c.src, o);
  PData data = genPgData(c.src, d, o);
  describePg(c, d);
  std::string src = c.dir + "src.gpkg";
  DbSpec spec; Data dd;
  writeGpkg(c.src, src, d, data, spec, dd, true);
  Snap s0 = snap(src);
  c.desc << rowsAsText(s0) << "\n";
  std::string raw = readFile(src);
  if (c.src.chance(1, 4)) { c.label("schema-existed"); createPg("dest", d, mutatePg(c.src, d, data, o, 3)); }
  fpg::must("CREATE SCHEMA other");
  fpg::must("CREATE TABLE other.keep (a integer PRIMARY KEY)");
  fpg::must("INSERT INTO other.keep VALUES (5)");
  int rc = GEODIFF_makeCopy("sqlite", "", src.c_str(), "postgres", kPgInfo, "dest");
  pgDone(c);
  c.check(rc == 0, failText("copying to PostgreSQL failed"));
  c.check(readFile(src) == raw, "the source file was altered");
  Snap s1 = snapPg("dest");
  std::string w = copyMismatch(s0, s1);
  if (!w.empty()) c.fail(w);
  c.check(snapPg("other").tables.at("keep").rows.size() == 1, "another schema was altered");
  size_t rows = 0;
  for (auto &t : d.t) {
    rows += data[t.name].size();
    for (auto &col : t.cols) {
      std::string ty = geomPg(s1, t.name, col.name), want = col.k == PCol::GEOM ? "geometry(" + col.geom + "," + std::to_string(col.srid) + ")" : col.k == PCol::INT ? "integer" : col.k == PCol::BOOL ? "boolean" : col.k == PCol::TEXT ? "text" : col.k == PCol::TS ? "timestamp without time zone" : "double precision";
      c.check(ty == want, "column " + t.name + "." + col.name + " is " + ty + " in the copy, not " + want);
    }
  }
  w = seqBehind("dest");
  if (!w.empty()) c.fail(w);
  if (rows > 1) c.nontrivial();
  crossApply(c, d, spec, data, src, "dest", o);
}
pbt::Reg r6({"C27.toPostgres", c27toPg, "a generated GeoPackage (layers with Z and M in three reference systems, attribute tables, all convertible declared types, integer, text, composite keys, names that need quoting) copied to a schema of the stand-in, which may exist already: tables, columns, keys, not-null, geometry definitions and rows compared, sequence ahead of the keys, then a changeset made on either side applied to the other. Non-trivial: more than one row.", 8000, 120000, 60});

void c27toGpkg(Ctx &c) {
  PgOpts o = copyOpts();
  o.allGeom = !c.src.chance(1, 12);
  pgStart();
  PDb d = genPg(c.src, o);
  PData data = genPgData(c.src, d, o);
  describePg(c, d);
  createPg("src", d, data);
  Snap s0 = snapPg("src");
  c.desc << rowsAsText(s0) << "\n";
  fpg::State before = fpg::server().st;
  std::string dst = c.dir + "dst.gpkg";
  if (c.src.chance(1, 4)) { c.label("file-existed"); if (c.src.below(2)) { Db x(dst); x.must("CREATE TABLE old(a INTEGER PRIMARY KEY)"); x.must("INSERT INTO old VALUES(1)"); } else writeFile(dst, "not a database"); }
  int rc = GEODIFF_makeCopy("postgres", kPgInfo, "src", "sqlite", "", dst.c_str());
  pgDone(c);
  bool spatial = true;
  for (auto &t : d.t) { bool g = false; for (auto &col : t.cols) g |= col.k == PCol::GEOM; spatial &= g; }
  if (rc != 0 && !spatial) { c.label("refused-non-spatial"); throw pbt::Discard(); }
  c.check(rc == 0, failText("copying to a GeoPackage failed"));
  c.check(fpg::show(before) == fpg::show(fpg::server().st), "the source schema was altered");
  Snap s1 = snap(dst);
  std::string w = copyMismatch(s0, s1);
  if (!w.empty()) c.fail(w);
  if (!integrityOk(dst, &w)) c.fail("file damaged: " + w);
  size_t rows = 0;
  for (auto &t : d.t) {
    rows += data[t.name].size();
    int srid = 0;
    for (auto &r : Db(dst, SQLITE_OPEN_READONLY).query("SELECT name, type, \"notnull\", pk FROM pragma_table_info(" + ql(t.name) + ")"))
      c.check(!r[3].i || r[2].i || (t.pk.size() == 1 && sqlite3_stricmp(r[1].s.c_str(), "INTEGER") == 0), "key column " + t.name + "." + r[0].s + " may be NULL in the copy");
    for (auto &col : t.cols) {
      std::string g = geomGpkg(dst, t.name, col.name), want = col.k == PCol::GEOM ? "geometry(" + col.geom + "," + std::to_string(col.srid) + ")" : "none";
      c.check(g == want, "geometry definition of " + t.name + "." + col.name + " is " + g + " in the copy, not " + want);
      if (col.k == PCol::GEOM) srid = col.srid;
    }
    if (srid) {
      Db db(dst, SQLITE_OPEN_READONLY);
      auto r = db.query("SELECT srs_id, data_type FROM gpkg_contents WHERE table_name=?", {Val::text(t.name)});
      c.check(r.size() == 1 && r[0][0].i == srid && r[0][1].s == "features", "layer " + t.name + " is not listed in gpkg_contents");
      r = db.query("SELECT organization, organization_coordsys_id, definition FROM gpkg_spatial_ref_sys WHERE srs_id=" + std::to_string(srid));
      c.check(r.size() == 1 && r[0][0].s == (srid == 102100 ? "ESRI" : "EPSG") && r[0][1].i == srid && !r[0][2].s.empty(), "reference system of " + t.name + " is not defined in the copy");
    }
  }
  if (rows > 1) c.nontrivial();
  DbSpec spec;   // as far as edits need it
  spec.gpkg = false;
  for (auto &t : d.t) { TableSpec x; x.name = t.name; for (auto &col : t.cols) { ColSpec cs; cs.name = col.name; x.cols.push_back(cs); } x.pk = t.pk; spec.tables.push_back(x); }
  crossApply(c, d, spec, data, dst, "src", o);
}
pbt::Reg r7({"C27.toGeoPackage", c27toGpkg, "a generated schema copied to a GeoPackage, which may exist already: tables, columns, keys, not-null, rows, layers with their geometry type, Z, M and reference system compared, then a changeset made on either side applied to the other. Non-trivial: more than one row.", 8000, 120000, 60});

void c27pgPg(Ctx &c) {
  PgOpts o = copyOpts();
  o.oneGeom = false;
  pgStart();
  PDb d = genPg(c.src, o);
  PData data = genPgData(c.src, d, o);
  describePg(c, d);
  createPg("src", d, data);
  someSeq(c.src, "src");
  if (c.src.chance(1, 4)) createPg("dest", d, mutatePg(c.src, d, data, o, 3));
  Snap s0 = snapPg("src");
  c.desc << rowsAsText(s0) << "\n";
  int rc = GEODIFF_makeCopy("postgres", kPgInfo, "src", "postgres", kPgInfo, "dest");
  pgDone(c);
  c.check(rc == 0, failText("copying to another schema failed"));
  Snap s1 = snapPg("dest");
  std::string w;
  if (!sameSnap(s0, snapPg("src"), &w)) c.fail("the source was altered: " + w);
  w = copyMismatch(s0, s1);
  if (!w.empty()) c.fail(w);
  for (auto &t : s0.tables) for (size_t k = 0; k < t.second.cols.size(); ++k) c.check(t.second.cols[k].type == s1.tables.at(t.first).cols[k].type, "type of " + t.first + "." + t.second.cols[k].name + " is " + s1.tables.at(t.first).cols[k].type + " in the copy, not " + t.second.cols[k].type);
  w = seqBehind("dest");
  if (!w.empty()) c.fail(w);
  c.nontrivial();
  std::string cs = c.dir + "cs.bin";
  rc = GEODIFF_createChangesetEx("postgres", kPgInfo, "src", "dest", cs.c_str());
  pgDone(c);
  c.check(rc == 0, failText("the copy cannot be compared with its source"));
  c.check(readFile(cs).empty(), "the copy differs from its source");
}
pbt::Reg r8({"C27.pgpg", c27pgPg, "a generated schema copied to another schema: rows, keys, types, not-null, sequences, and an empty changeset between them. Non-trivial: every case.", 6000, 80000, 60});

// ------------------------------------------------------------------ C31: another client commits while a call reads
void c31pg(Ctx &c) {
  PgOpts o;
  bool copy = c.src.chance(1, 5);
  if (copy) o = copyOpts();
  o.oneGeom = false;
  PgPair p = pgPair(c, o, 6);
  auto &sv = fpg::server();
  int what = copy ? 2 : (int)c.src.below(2);   // changeset, dump, copy
  // what the other client commits: edits of several tables at once
  PData nb = c.src.below(2) || what != 0 ? mutatePg(c.src, p.d, p.db, o, 6) : p.db, nm = mutatePg(c.src, p.d, p.dm, o, 6);
  auto commit = [&] {
    for (auto n : {"base", "mod"}) {
      for (auto &t : sv.st.schemas.at(n).tables) t.second.rows.clear();
      fillPg(n, p.d, std::string(n) == "base" ? nb : nm);
    }
  };
  fpg::State before = sv.st;
  commit();
  Snap nsb = snapPg("base"), nsm = snapPg("mod");
  sv.st = before;
  dataDesc(c, "the other client commits to base:", p.sb, nsb);
  dataDesc(c, "and to modified:", p.sm, nsm);
  std::string out = c.dir + "out.bin";
  auto run = [&] {
    sv.count = 0;
    int rc = what == 0 ? GEODIFF_createChangesetEx("postgres", kPgInfo, "base", "mod", out.c_str())
           : what == 1 ? GEODIFF_dumpData("postgres", kPgInfo, "base", out.c_str())
           : GEODIFF_makeCopy("postgres", kPgInfo, "base", "postgres", kPgInfo, "copy");
    pgDone(c);
    return rc;
  };
  int rc = run();
  c.check(rc == 0, failText("the call fails without another client"));
  int64_t total = sv.count;
  sv.st = before;
  std::vector<int64_t> at;
  if (total <= 14) for (int64_t k = 0; k < total; ++k) at.push_back(k);
  else for (int k = 0; k < 14; ++k) at.push_back((int64_t)c.src.below(total));
  Snap empty = p.sb;
  for (auto &t : empty.tables) t.second.rows.clear();
  bool same = sameSnap(p.sb, nsb) && (what != 0 || sameSnap(p.sm, nsm));
  for (int64_t k : at) {
    sv.st = before;
    sv.log.clear();
    sv.interfered = false;
    sv.interfereAt = k;
    sv.interfere = commit;
    rc = run();
    sv.interfere = nullptr;
    std::string where = "with a commit of another client at statement " + std::to_string(k) + " of " + std::to_string(total) + ": ";
    c.check(rc == 0, failText(where + "the call fails"));
    if (!same && sv.interfered) c.nontrivial();
    std::string w1, w2;
    if (what == 2) { Snap s = snapPg("copy"); w1 = copyMismatch(p.sb, s); w2 = copyMismatch(nsb, s); }
    else {
      Changeset d = mustDecode(readFile(out), "output");
      w1 = diffMismatch(what ? empty : p.sb, what ? p.sb : p.sm, d);
      w2 = diffMismatch(what ? empty : nsb, what ? nsb : nsm, d);
    }
    if (!w1.empty() && !w2.empty()) c.fail(where + "the result is that of neither committed state\nbefore: " + w1 + "\nafter: " + w2);
  }
  c.label(what == 0 ? "createChangeset" : what == 1 ? "dumpData" : "makeCopy");
}
pbt::Reg r9({"C31.pg", c31pg, "the stand-in server of C26: another client commits edits of several tables of both schemas when the k-th statement of createChangeset, dumpData or makeCopy comes in, for every or fourteen k; in a transaction that keeps its snapshot the commit shows only afterwards: the output must be that of the state before or after the commit. Non-trivial: the commit changed rows and happened within the call.", 5000, 80000, 40});
}  // namespace
