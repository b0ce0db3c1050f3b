// C08-C11, C21: rebase.
#include <array>
#include "merge.hpp"
#include "report.hpp"
using pbt::Ctx;

// rebased changeset through one of the entry points; the conflict report goes to conf
static void rebased(Ctx &c, const MergeCase &m, int how, const std::string &out, const std::string &conf) {
  std::string b2t = c.dir + "b2t.bin";
  maybeStale(c, b2t);
  maybeStale(c, out);
  MUST_OK(c, GEODIFF_createChangeset(m.base.c_str(), m.theirs.c_str(), b2t.c_str()));
  if (how == 0) MUST_OK(c, GEODIFF_createRebasedChangeset(m.base.c_str(), m.ours.c_str(), b2t.c_str(), out.c_str(), conf.c_str()));
  else {
    std::string b2o = c.dir + "b2o.bin";
    MUST_OK(c, GEODIFF_createChangeset(m.base.c_str(), m.ours.c_str(), b2o.c_str()));
    MUST_OK(c, GEODIFF_createRebasedChangesetEx("sqlite", "", m.base.c_str(), b2o.c_str(), b2t.c_str(), out.c_str(), conf.c_str()));
  }
}
static void inPlace(Ctx &c, const MergeCase &m, int how, const std::string &db, const std::string &conf) {
  if (how == 0) MUST_OK(c, GEODIFF_rebase(m.base.c_str(), m.theirs.c_str(), db.c_str(), conf.c_str()));
  else {
    std::string b2t = c.dir + "b2t.bin";
    MUST_OK(c, GEODIFF_createChangeset(m.base.c_str(), m.theirs.c_str(), b2t.c_str()));
    MUST_OK(c, GEODIFF_rebaseEx("sqlite", "", m.base.c_str(), db.c_str(), b2t.c_str(), conf.c_str()));
  }
}
static bool bothEdited(const MergeCase &m) { return realDifferences(m.sb, m.so) && realDifferences(m.sb, m.st); }
static void guard(const MergeCase &m) {
  if (reprOnly(m.sb, m.so, m.st)) throw pbt::Discard();
  if (gapRisk(m.sb, m.so, m.st)) throw pbt::Discard();
}
static void mergeBothWays(Ctx &c, const MergeCase &m) {
  int how = (int)c.src.below(2), how2 = (int)c.src.below(2);
  std::string out = c.dir + "rebased.bin", conf = c.dir + "conflict.json", server = c.dir + "server.gpkg", local = c.dir + "local.gpkg", conf2 = c.dir + "conflict2.json";
  c.desc << "through " << (how ? "createRebasedChangesetEx" : "createRebasedChangeset") << " and " << (how2 ? "rebaseEx" : "rebase") << "\n";
  rebased(c, m, how, out, conf);
  Changeset d = mustDecode(readFile(out), "rebased changeset");
  copyFile(m.theirs, server);
  MUST_OK(c, GEODIFF_applyChangeset(server.c_str(), out.c_str()));
  Snap ss = snap(server);
  std::string w = mergeMismatch(m.sb, m.so, m.st, ss);
  c.check(w.empty(), "their changes plus the rebased changeset: " + w);
  copyFile(m.ours, local);
  inPlace(c, m, how2, local, conf2);
  Snap sl = snap(local);
  w = mergeMismatch(m.sb, m.so, m.st, sl);
  c.check(w.empty(), "rebased in place: " + w);
  for (auto &kv : ss.tables) if (!ignoredTable(kv.first) && kv.second.keyed() && !sameTable(kv.second, sl.tables[kv.first], &w)) c.fail("rebase in place differs from their changes plus rebased changeset (first): " + w);
  c.check(readFile(conf) == readFile(conf2), "the two conflict reports differ");
  if (!integrityOk(local, &w)) c.fail("database damaged: " + w);
  for (auto &kv : m.so.tables) if (!ignoredTable(kv.first) && !kv.second.keyed() && !sameTable(kv.second, sl.tables[kv.first], &w)) c.fail("table without key altered: " + w);
}
static void c08(Ctx &c) {
  GenOpts g = mergeGenOpts();
  MergeOpts o;
  o.insertW = 2;
  MergeCase m = genMerge(c, g, o);
  guard(m);
  if (bothEdited(m)) c.nontrivial();
  if (!expectedConflicts(m.sb, m.so, m.st).empty()) c.label("conflicts");
  if (!collidingTables(m.sb, m.so, m.st).empty()) c.label("colliding-inserts");
  mergeBothWays(c, m);
}
static pbt::Reg r08({"C08", c08, "one base, two independent edit histories (updates, inserts, deletes on the same small set of rows, 1-3 tables, integer and text keys, GeoPackage catalogue rows); rebased changeset applied on theirs and rebase in place both compared with a reference three-way merge and with each other. Non-trivial: both sides changed rows.", 7000, 80000, 30});

// keys that rebase does not know: refused, or right
static void c08keys(Ctx &c) {
  GenOpts g = mergeGenOpts();
  g.rebaseKeys = false;
  g.composite = g.blobKey = g.realKey = true;
  g.maxCols = 5; g.maxTables = 2; g.bigValues = false;
  MergeOpts o;
  MergeCase m = genMerge(c, g, o);
  if (reprOnly(m.sb, m.so, m.st) || gapRisk(m.sb, m.so, m.st)) throw pbt::Discard();
  bool odd = false;   // some table that a side changed has a key other than one integer or text
  for (auto &kv : m.sb.tables) {
    auto &tb = kv.second;
    std::string w;
    if (ignoredTable(kv.first) || !tb.keyed()) continue;
    auto &to = m.so.tables.at(kv.first), &tt = m.st.tables.at(kv.first);
    if (sameTable(tb, to, &w) && sameTable(tb, tt, &w)) continue;
    bool o2 = tb.pk.size() > 1;
    for (auto *x : {&tb, &to, &tt}) for (auto &r : x->rows) for (int k : tb.pk) o2 |= r.second[k].t != Val::Int && r.second[k].t != Val::Text;
    odd |= o2;
  }
  if (odd) c.nontrivial(); else c.label("usual keys only");
  int how = (int)c.src.below(4);
  std::string b2t = c.dir + "b2t.bin", b2o = c.dir + "b2o.bin", out = c.dir + "rebased.bin", conf = c.dir + "conflict.json", target = c.dir + "target.gpkg", w;
  MUST_OK(c, GEODIFF_createChangeset(m.base.c_str(), m.theirs.c_str(), b2t.c_str()));
  MUST_OK(c, GEODIFF_createChangeset(m.base.c_str(), m.ours.c_str(), b2o.c_str()));
  c.desc << "entry point " << how << "\n";
  int rc;
  if (how < 2) {
    rc = how ? GEODIFF_createRebasedChangesetEx("sqlite", "", m.base.c_str(), b2o.c_str(), b2t.c_str(), out.c_str(), conf.c_str()) : GEODIFF_createRebasedChangeset(m.base.c_str(), m.ours.c_str(), b2t.c_str(), out.c_str(), conf.c_str());
    if (rc == 0) { copyFile(m.theirs, target); MUST_OK(c, GEODIFF_applyChangeset(target.c_str(), out.c_str())); }
  } else {
    copyFile(m.ours, target);
    rc = how == 2 ? GEODIFF_rebase(m.base.c_str(), m.theirs.c_str(), target.c_str(), conf.c_str()) : GEODIFF_rebaseEx("sqlite", "", m.base.c_str(), target.c_str(), b2t.c_str(), conf.c_str());
    if (rc != 0) { Snap s = snap(target); if (!sameSnap(m.so, s, &w)) c.fail("rebase refused, but the database was altered: " + w); }
  }
  takeLog();
  c.label(rc == 0 ? "merged" : "refused");
  if (rc != 0) { c.check(odd, "rebase failed although only tables with one integer or text key differ"); return; }
  w = mergeMismatch(m.sb, m.so, m.st, snap(target));
  c.check(w.empty(), "merged, but wrong: " + w);
}
static pbt::Reg r08k({"C08.keys", c08keys, "two edit histories on tables with composite, blob, real or other keys that rebase does not support, beside supported ones: each entry point either refuses (database unchanged) or gives the reference merge. Non-trivial: a table with such a key is changed.", 5000, 60000, 30});

static void c09(Ctx &c) {
  GenOpts g = mergeGenOpts();
  g.maxTables = 2;
  g.maxCols = 3;
  g.maxRows = 5;
  g.noKey = false;
  g.bigValues = false;
  MergeOpts o;
  o.insertW = 10; o.deleteW = 1; o.updateW = 1;
  o.maxEditsOurs = o.maxEditsTheirs = 14;
  MergeCase m = genMerge(c, g, o);
  guard(m);
  auto coll = collidingTables(m.sb, m.so, m.st);
  if (!coll.empty()) c.nontrivial();
  if (coll.size() > 1) c.label("two-tables");
  mergeBothWays(c, m);
}
static pbt::Reg r09({"C09", c09, "insert-heavy histories on both sides with overlapping keys just above the base's largest key, in gaps, negative and beyond 32 bits; both rebase routes compared with the reference merge, our inserts as a multiset of non-key values. Non-trivial: some inserted keys collide.", 8000, 90000, 30});

static void c10(Ctx &c) {
  GenOpts g = mergeGenOpts();
  g.badUtf8 = false;
  g.maxTables = 2;
  if (c.src.below(5)) { g.keyOnly = g.noKey = false; g.minCols = 2; g.minRows = 2; g.maxCols = 5; }
  g.maxRows = 4;
  MergeOpts o;
  o.updateW = 14; o.insertW = 1; o.deleteW = 1;
  o.maxEditsOurs = o.maxEditsTheirs = 10;
  o.minEdits = 3;
  MergeCase m = genMerge(c, g, o);
  guard(m);
  auto want = expectedConflicts(m.sb, m.so, m.st);
  bool must = false;
  for (auto &w : want) must |= !w.must.empty();
  if (must) c.nontrivial(); else if (!want.empty()) c.label("only-equal-edits"); else c.label("none");
  int how = (int)c.src.below(4);
  std::string out = c.dir + "rebased.bin", conf = c.dir + "conflict.json", local = c.dir + "local.gpkg";
  if (c.src.below(3) == 2) { writeFile(conf, "{\"geodiff\":[{\"table\":\"stale\",\"type\":\"conflict\",\"fid\":\"1\",\"changes\":[]}]}"); c.label("stale-report"); }
  if (how < 2) rebased(c, m, how, out, conf);
  else { copyFile(m.ours, local); inPlace(c, m, how - 2, local, conf); }
  std::string w = conflictReportMismatch(want, conf);
  if (!w.empty()) c.fail(w + "\nreport:\n" + (exists(conf) ? readFile(conf).substr(0, 3000) : "none"));
}
static pbt::Reg r10({"C10", c10, "update-heavy histories on both sides over few rows; the report of each of the four rebase entry points, read by a strict JSON parser, compared with the model's list of columns changed by both sides (rows with text keys are compared by content). Non-trivial: some value was changed by both to different results.", 8000, 90000, 30});

static void c11(Ctx &c) {
  GenOpts g = mergeGenOpts();
  MergeOpts o;
  int kind = (int)c.src.below(4);
  if (kind == 0) o.maxEditsTheirs = 0;
  if (kind == 1) o.maxEditsOurs = 0;
  MergeCase m = genMerge(c, g, o);
  if (kind == 0) m.dTheirs = m.dBase;
  // an empty side means no rows differ; catalogue edits count as edits
  auto emptySide = [&](const Snap &s) { std::string w; for (auto &kv : m.sb.tables) if (!ignoredTable(kv.first) && kv.second.keyed() && !sameTable(kv.second, s.tables.at(kv.first), &w)) return false; return true; };
  if (kind >= 2) {
    // disjoint: undo on our side whatever touches a row (by key) or a colliding insert that theirs touched
    DbSpec &sp = m.spec;
    Data ours = m.dBase;
    for (auto &t : sp.tables) {
      auto &b = m.dBase.t[t.name]; auto &th = m.dTheirs.t[t.name]; auto &ou = m.dOurs.t[t.name];
      std::set<std::string> touched;
      bool any = false;
      auto eq = [](const Row &x, const Row &y) { for (size_t i = 0; i < x.size(); ++i) if (!same(x[i], y[i])) return false; return true; };
      for (auto &kv : b) { auto i = th.find(kv.first); if (i == th.end() || !eq(i->second, kv.second)) { touched.insert(kv.first); any = true; } }
      for (auto &kv : th) if (!b.count(kv.first)) { touched.insert(kv.first); any = true; }
      if (kind == 3 && any) continue;          // disjoint tables
      if (!t.keyed()) continue;
      for (auto &kv : ou) if (!touched.count(kv.first)) ours.t[t.name][kv.first] = kv.second;
      for (auto &kv : b) if (!ou.count(kv.first) && !touched.count(kv.first)) ours.t[t.name].erase(kv.first);
    }
    m.dOurs = ours;
    m.ours = c.dir + "ours2.gpkg";
    copyFile(m.base, m.ours);
    applyEdits(m.ours, sp, m.dBase, m.dOurs, 0);
    m.so = snap(m.ours);
    c.desc << "our changes, made disjoint:\n" << describeChanges(m.sb, m.so);
  }
  if (reprOnly(m.sb, m.so, m.st)) throw pbt::Discard();
  bool oursEmpty = emptySide(m.so), theirsEmpty = emptySide(m.st);
  if (kind == 0 && !theirsEmpty) throw pbt::Discard();
  if (kind == 1 && !oursEmpty) throw pbt::Discard();
  std::string b2t = c.dir + "in_b2t.bin", b2o = c.dir + "in_b2o.bin", out = c.dir + "rebased.bin", conf = c.dir + "conflict.json", local = c.dir + "local.gpkg";
  maybeStale(c, b2t);
  MUST_OK(c, GEODIFF_createChangeset(m.base.c_str(), m.theirs.c_str(), b2t.c_str()));
  MUST_OK(c, GEODIFF_createChangeset(m.base.c_str(), m.ours.c_str(), b2o.c_str()));
  std::string bytesT = readFile(b2t), bytesO = readFile(b2o), rawBase = readFile(m.base), rawTheirs = readFile(m.theirs), rawOurs = readFile(m.ours);
  int how = (int)c.src.below(4);
  c.label(std::string(kind == 0 ? "theirs-empty" : kind == 1 ? "ours-empty" : kind == 2 ? "rows-disjoint" : "tables-disjoint"));
  c.desc << "entry point " << how << "\n";
  std::string w;
  if (how < 2) {
    maybeStale(c, out);
    if (how == 0) MUST_OK(c, GEODIFF_createRebasedChangeset(m.base.c_str(), m.ours.c_str(), b2t.c_str(), out.c_str(), conf.c_str()));
    else MUST_OK(c, GEODIFF_createRebasedChangesetEx("sqlite", "", m.base.c_str(), b2o.c_str(), b2t.c_str(), out.c_str(), conf.c_str()));
    c.check(exists(out), "no rebased changeset was written");
    std::string r = readFile(out);
    if (theirsEmpty) c.check(r == bytesO, "rebased changeset differs from ours although theirs is empty");
    else if (oursEmpty) c.check(r.empty(), "rebased changeset is not empty although we have no changes");
    else {
      Changeset dr = mustDecode(r, "rebased"), dO = mustDecode(bytesO, "ours");
      c.check(dr.entries.size() == dO.entries.size(), "rebased changeset has another number of entries");
      // entry for entry within each table
      std::map<std::string, std::vector<const Entry *>> ga, gb;
      for (auto &e : dr.entries) ga[e.table].push_back(&e);
      for (auto &e : dO.entries) gb[e.table].push_back(&e);
      for (auto &kv : gb) {
        auto &x = ga[kv.first];
        c.check(x.size() == kv.second.size(), "number of entries of a table differs");
        std::map<std::string, const Entry *> byKey;
        for (auto *e : x) byKey[entryKey(*e)] = e;
        for (auto *e : kv.second) { auto i = byKey.find(entryKey(*e)); if (i == byKey.end() || !sameEntry(*i->second, *e)) c.fail("entry changed by rebase: " + show(*e) + " became " + (i == byKey.end() ? "nothing" : show(*i->second))); }
      }
    }
  } else {
    copyFile(m.ours, local);
    if (how == 2) MUST_OK(c, GEODIFF_rebase(m.base.c_str(), m.theirs.c_str(), local.c_str(), conf.c_str()));
    else MUST_OK(c, GEODIFF_rebaseEx("sqlite", "", m.base.c_str(), local.c_str(), b2t.c_str(), conf.c_str()));
    Snap sl = snap(local);
    const Snap *want = theirsEmpty ? &m.so : oursEmpty ? &m.st : nullptr;
    if (want) {
      for (auto &kv : want->tables) if (!ignoredTable(kv.first) && kv.second.keyed() && !sameTable(kv.second, sl.tables[kv.first], &w)) c.fail("database after rebase (second): " + w);
    } else { w = mergeMismatch(m.sb, m.so, m.st, sl); c.check(w.empty(), w); }
  }
  c.check(!exists(conf), "conflict report without conflicts");
  if (!theirsEmpty || !oursEmpty) c.nontrivial();
  c.check(readFile(b2t) == bytesT, "their changeset was altered");
  c.check(readFile(b2o) == bytesO, "our changeset was altered");
  c.check(readFile(m.base) == rawBase && readFile(m.theirs) == rawTheirs && readFile(m.ours) == rawOurs, "an input database was altered");
}
static pbt::Reg r11({"C11", c11, "their side empty, our side empty, edits on disjoint rows, edits on disjoint tables; each of the four rebase entry points; outputs compared byte for byte, entry for entry or as dumps, inputs byte for byte. Non-trivial: the other side is not empty.", 8000, 90000, 30});

// ---- C21
static void c21(Ctx &c) {
  GenOpts g = mergeGenOpts();
  g.maxTables = 2; g.maxCols = 4; g.maxRows = 6;
  g.bigValues = false;
  g.noKey = false;
  g.gpkgPct = 20;
  DbSpec spec = genSpec(c.src, g);
  Data d0 = genData(c.src, spec, g);
  std::string server = c.dir + "server.gpkg";
  writeDb(server, spec, d0, Layout());
  describe(c, spec);
  int n = 2 + (int)c.src.below(3);
  struct Client { std::string base, work; Data baseData; };
  // data as the generator sees it, read back from a snapshot
  auto toData = [&](const Snap &s) { Data d; for (auto &t : spec.tables) { auto &m = d.t[t.name]; for (auto &kv : s.tables.at(t.name).rows) m[kv.first] = kv.second; } return d; };
  std::vector<Client> cl;
  for (int i = 0; i < n; ++i) {
    Client x;
    x.base = c.dir + "c" + std::to_string(i) + "_base.gpkg";
    x.work = c.dir + "c" + std::to_string(i) + ".gpkg";
    copyFile(server, x.base);
    copyFile(server, x.work);
    cl.push_back(x);
  }
  std::map<std::string, int64_t> high = idFloors(spec, d0);
  int pushes = 0, conflictsSeen = 0, merges = 0, serial = 0;
  auto edit = [&](int i) {
    Snap s = snap(cl[i].work);
    Data cur = toData(s);
    MergeOpts o;
    o.gpkgPost = false;
    o.insertW = 4;
    auto floors = idFloors(spec, cur);
    Data nx = mutateMerge(c.src, spec, cur, g, 5, o, floors);
    applyEdits(cl[i].work, spec, cur, nx, 0);
    c.desc << "client " << i << " edits:\n" << describeChanges(s, snap(cl[i].work), 6);
  };
  auto mergeCheck = [&](const Snap &sb, const Snap &so, const Snap &st) {
    if (reprOnly(sb, so, st) || gapRisk(sb, so, st)) throw pbt::Discard();
    if (realDifferences(sb, so) && realDifferences(sb, st)) ++merges;
  };
  auto push = [&](int i) {
    c.desc << "client " << i << " pushes\n";
    Snap sb = snap(cl[i].base), so = snap(cl[i].work), st = snap(server);
    mergeCheck(sb, so, st);
    std::string b2s = c.dir + "p_b2s.bin", reb = c.dir + "p_reb.bin", conf = c.dir + "p_conf" + std::to_string(serial++) + ".json";
    MUST_OK(c, GEODIFF_createChangeset(cl[i].base.c_str(), server.c_str(), b2s.c_str()));
    MUST_OK(c, GEODIFF_createRebasedChangeset(cl[i].base.c_str(), cl[i].work.c_str(), b2s.c_str(), reb.c_str(), conf.c_str()));
    MUST_OK(c, GEODIFF_applyChangeset(server.c_str(), reb.c_str()));
    Snap sn = snap(server);
    std::string w = mergeMismatch(sb, so, st, sn);
    c.check(w.empty(), "server after push of client " + std::to_string(i) + ": " + w);
    if (exists(conf)) ++conflictsSeen;
    ++pushes;
    // the client's own copy follows: rebased in place it must be the new server
    std::string conf2 = c.dir + "p_conf" + std::to_string(serial++) + ".json", old = c.dir + "oldserver.gpkg";
    if (c.src.below(2)) {
      // pulls what others did and what it pushed: base -> server without local changes
      std::string b2n = c.dir + "p_b2n.bin";
      MUST_OK(c, GEODIFF_createChangeset(cl[i].base.c_str(), server.c_str(), b2n.c_str()));
      MUST_OK(c, GEODIFF_applyChangeset(cl[i].base.c_str(), b2n.c_str()));
      copyFile(cl[i].base, cl[i].work);
    } else {
      std::string w2n = c.dir + "p_w2n.bin";
      MUST_OK(c, GEODIFF_createChangeset(cl[i].work.c_str(), server.c_str(), w2n.c_str()));
      MUST_OK(c, GEODIFF_applyChangeset(cl[i].work.c_str(), w2n.c_str()));
      copyFile(cl[i].work, cl[i].base);
    }
  };
  auto pull = [&](int i) {
    c.desc << "client " << i << " pulls\n";
    Snap sb = snap(cl[i].base), so = snap(cl[i].work), st = snap(server);
    mergeCheck(sb, so, st);
    std::string conf = c.dir + "p_conf" + std::to_string(serial++) + ".json";
    if (c.src.below(2)) MUST_OK(c, GEODIFF_rebase(cl[i].base.c_str(), server.c_str(), cl[i].work.c_str(), conf.c_str()));
    else {
      std::string b2s = c.dir + "p_b2s.bin";
      MUST_OK(c, GEODIFF_createChangeset(cl[i].base.c_str(), server.c_str(), b2s.c_str()));
      MUST_OK(c, GEODIFF_rebaseEx("sqlite", "", cl[i].base.c_str(), cl[i].work.c_str(), b2s.c_str(), conf.c_str()));
    }
    std::string w = mergeMismatch(sb, so, st, snap(cl[i].work));
    c.check(w.empty(), "client " + std::to_string(i) + " after pull: " + w);
    copyFile(server, cl[i].base);
  };
  // all clients insert a row with the same key
  auto burst = [&]() {
    const TableSpec &t = spec.tables[c.src.below(spec.tables.size())];
    if (!t.keyed()) return;
    Row r = genRow(c.src, t, g);
    std::string ty = t.cols[t.pk[0]].type;
    if (ty == "INTEGER" || ty == "INT" || ty == "MEDIUMINT") {
      int64_t hi = 0;
      for (int i = 0; i < n; ++i) { auto f = idFloors(spec, toData(snap(cl[i].work))); hi = std::max(hi, f[t.name]); }
      r[t.pk[0]] = Val::integer(hi + 1);
    }
    std::string k = keyOf(t, r);
    c.desc << "all clients insert " << show(r) << " in " << q(t.name) << "\n";
    c.label("burst");
    for (int i = 0; i < n; ++i) {
      Data cur = toData(snap(cl[i].work)), nx = cur;
      auto &rows = nx.t[t.name];
      if (rows.count(k)) continue;
      Row mine = genRow(c.src, t, g);
      mine[t.pk[0]] = r[t.pk[0]];
      rows[k] = mine;
      applyEdits(cl[i].work, spec, cur, nx, 0);
    }
  };
  int steps = 3 + (int)c.src.below(10);
  for (int k = 0; k < steps; ++k) {
    int i = (int)c.src.below(n);
    switch (c.src.weighted({4, 4, 2, 1})) {
      case 0: edit(i); break;
      case 1: push(i); break;
      case 2: pull(i); break;
      default: burst(); break;
    }
  }
  // everyone pushes, then everyone pulls
  for (int i = 0; i < n; ++i) push(i);
  for (int i = 0; i < n; ++i) pull(i);
  Snap ss = snap(server);
  for (int i = 0; i < n; ++i) {
    Snap s = snap(cl[i].work);
    std::string w;
    for (auto &kv : ss.tables) if (!ignoredTable(kv.first) && kv.second.keyed() && !sameTable(kv.second, s.tables[kv.first], &w)) c.fail("client " + std::to_string(i) + " does not converge (first: server): " + w);
  }
  if (merges >= 1) c.nontrivial();
  if (merges >= 2) c.label("chained-merges");
  if (conflictsSeen) c.label("conflicts");
}
static pbt::Reg r21({"C21", c21, "histories of 2-4 clients over a server: 3-12 random edit, push (rebase onto the server and apply) and pull (rebase in place) steps, then everyone pushes and pulls; at each push and pull the new state is compared with the reference merge, at the end all replicas with the server. Non-trivial: at least one real merge of two edited sides.", 2500, 30000, 20});

static pbt::RegRepro k09({"rebase-gap", [](const std::string &dir, std::string &what) {
  std::string a = dir + "a.gpkg", b = dir + "b.gpkg", o = dir + "o.gpkg", conf = dir + "conf.json";
  for (auto &p : {a, b, o}) { Db db(p); db.must("CREATE TABLE t(id INTEGER PRIMARY KEY, v TEXT)"); db.must("INSERT INTO t VALUES(4,'base')"); if (p != a) db.must(p == b ? "INSERT INTO t VALUES(3,'theirs')" : "INSERT INTO t VALUES(3,'ours')"); }
  int rc = GEODIFF_rebase(a.c_str(), b.c_str(), o.c_str(), conf.c_str());
  Db db(o, SQLITE_OPEN_READWRITE);
  int64_t n = db.scalar("SELECT count(*) FROM t").i;
  what = "rebase returned " + std::to_string(rc) + ", " + std::to_string(n) + " of 3 rows";
  return rc != 0 || n != 3;
}});
