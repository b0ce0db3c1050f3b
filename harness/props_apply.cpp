// C12-C15: what operations leave alone, refuse and keep in order.
#include "env.hpp"
#include <cstring>
#include "merge.hpp"
#include "changesets.hpp"
#include <algorithm>
#include <cmath>
#include <unistd.h>
#include <sys/stat.h>
using pbt::Ctx;

// ---- C12
struct FileImage { std::map<std::string, std::string> files; };
static FileImage image(const std::string &dir) { FileImage i; for (auto &n : listDir(dir)) { struct stat st; i.files[n] = stat((dir + n).c_str(), &st) == 0 && S_ISDIR(st.st_mode) ? "<directory>" : readFile(dir + n); } return i; }

namespace {
struct World12 {
  MergeCase m;
  std::string b2t, b2o;
};
}
static void c12(Ctx &c) {
  GenOpts g = mergeGenOpts();
  g.maxRows = 6;
  g.bigValues = false;
  MergeOpts o;
  o.maxEditsOurs = o.maxEditsTheirs = 5;
  MergeCase m = genMerge(c, g, o);
  std::string b2t = c.dir + "b2t.bin", b2o = c.dir + "b2o.bin", out = c.dir + "out.bin", out2 = c.dir + "out.json";
  MUST_OK(c, GEODIFF_createChangeset(m.base.c_str(), m.theirs.c_str(), b2t.c_str()));
  MUST_OK(c, GEODIFF_createChangeset(m.base.c_str(), m.ours.c_str(), b2o.c_str()));
  for (auto &n : listDir(c.dir)) if (n != "tmp" && n != "base.gpkg" && n != "ours.gpkg" && n != "theirs.gpkg" && n != "b2t.bin" && n != "b2o.bin" ) c.fail("left-over after createChangeset: " + n);
  int op = (int)c.src.below(14);
  int bad = (int)c.src.weighted({6, 10});   // 0: valid
  std::string base = m.base, ours = m.ours, theirs = m.theirs, csT = b2t, csO = b2o;
  struct Slot { std::string *p; bool db; };
  std::vector<Slot> slots;
  switch (op) {
    case 0: case 1: slots = {{&base, true}, {&ours, true}}; break;
    case 2: case 6: case 7: case 8: case 9: slots = {{&csO, false}}; break;
    case 3: slots = {{&base, true}, {&ours, true}, {&csT, false}}; break;
    case 4: slots = {{&base, true}, {&csO, false}, {&csT, false}}; break;
    case 5: case 10: slots = {{&base, true}, {&csO, false}}; break;
    case 11: slots = {{&base, true}, {&theirs, true}, {&ours, true}}; break;
    case 12: slots = {{&base, true}, {&ours, true}, {&csT, false}}; break;
    case 13: slots = {{&base, true}}; break;
  }
  static const char *names[] = {"createChangeset", "createChangesetEx", "invertChangeset", "createRebasedChangeset", "createRebasedChangesetEx", "applyChangeset", "hasChanges", "changesCount", "listChanges", "listChangesSummary", "applyChangesetEx", "rebase", "rebaseEx", "dumpData"};
  std::string what = "valid";
  std::unique_ptr<Db> locker;
  std::set<std::string> loose;   // files whose bytes may change although their content may not (write-ahead logs)
  if (bad) {
    Slot &s = slots[c.src.below(slots.size())];
    std::string orig = *s.p, nw = c.dir + (s.db ? "bad.gpkg" : "bad.bin");
    switch (c.src.below(s.db ? 8 : 6)) {
      case 0: what = "missing"; nw = c.dir + "missing"; break;
      case 1: what = "directory"; mkdir(nw.c_str(), 0755); break;
      case 2: what = "empty"; writeFile(nw, ""); break;
      case 3: what = "garbage"; writeFile(nw, std::string("garbage! this is neither a database nor a changeset ") + std::string(c.src.below(2000), 'x')); break;
      case 4: { what = "truncated"; std::string b = readFile(orig); writeFile(nw, b.substr(0, b.size() ? c.src.below(b.size()) : 0)); break; }
      case 5: {
        if (!s.db) {   // conflicts: the other side's changes as well
          what = "conflicting";
          writeFile(nw, readFile(b2t) + readFile(b2o) + readFile(b2o));
        } else {
          what = "other structure";
          copyFile(orig, nw);
          Db db(nw, SQLITE_OPEN_READWRITE);
          auto &t = m.spec.tables[c.src.below(m.spec.tables.size())];
          for (auto &r : db.query("SELECT name FROM sqlite_master WHERE type='trigger'")) db.must("DROP TRIGGER " + q(r[0].s));
          if (c.src.below(2)) db.must("DROP TABLE " + q(t.name)); else db.exec("ALTER TABLE " + q(t.name) + " ADD COLUMN zz_added TEXT");
        }
        break;
      }
      case 6: {
        what = "locked";
        copyFile(orig, nw);
        locker.reset(new Db(nw, SQLITE_OPEN_READWRITE));
        if (!locker->exec("BEGIN EXCLUSIVE")) what = "valid";
        for (auto s2 : {"-wal", "-shm"}) loose.insert((nw + s2).substr(c.dir.size()));
        break;
      }
      default: {
        what = "write-ahead log";
        std::string tmpdb = c.dir + "tmp/live.gpkg";
        copyFile(orig, tmpdb);
        {
          Db db(tmpdb, SQLITE_OPEN_READWRITE);
          db.must("PRAGMA journal_mode=wal");
          db.must("PRAGMA wal_autocheckpoint=0");
          auto &t = m.spec.tables[0];
          db.exec("DELETE FROM " + q(t.name) + " WHERE rowid=(SELECT max(rowid) FROM " + q(t.name) + ")");
          copyFile(tmpdb, nw);
          if (exists(tmpdb + "-wal")) copyFile(tmpdb + "-wal", nw + "-wal");
        }
        for (auto s2 : {"", "-wal", "-shm"}) unlink((tmpdb + s2).c_str());
        for (auto s2 : {"", "-wal", "-shm"}) loose.insert((nw + s2).substr(c.dir.size()));
        break;
      }
    }
    *s.p = nw;
    c.nontrivial();
  }
  bool stale = c.src.below(3) == 2;
  if (stale) { writeFile(out, std::string(200000, 'S')); if (op == 3 || op == 4 || op >= 11) {} else writeFile(out2, std::string(100000, 'S')); }
  bool noOut = bad && c.src.below(8) == 7;
  if (noOut) { out = c.dir + "nodir/out.bin"; out2 = c.dir + "nodir/out.json"; }
  std::string conf = c.dir + "conf.json";
  c.label(std::string(names[op]));
  c.label("input " + what);
  c.desc << names[op] << " with input " << what << (stale ? ", output exists already" : "") << (noOut ? ", output cannot be created" : "") << "\n";
  std::set<std::string> outputs, inout;
  auto rel = [&](const std::string &p) { return p.substr(c.dir.size()); };
  FileImage before = image(c.dir);
  std::map<std::string, Snap> contents;
  for (auto &n : loose) if (n.find("-wal") == std::string::npos && n.find("-shm") == std::string::npos) {
    // read a copy, so that the log stays
    std::string cp = c.dir + "tmp/copy.gpkg";
    copyFile(c.dir + n, cp);
    if (exists(c.dir + n + "-wal")) copyFile(c.dir + n + "-wal", cp + "-wal");
    contents[n] = snap(cp);
    for (auto s2 : {"", "-wal", "-shm"}) unlink((cp + s2).c_str());
  }
  std::string inoutDb;
  if (op == 5 || op == 10) inoutDb = base;
  if (op == 11 || op == 12) inoutDb = ours;
  Snap inoutBefore;
  bool inoutReadable = false;
  if (!inoutDb.empty() && (inoutDb == m.base || inoutDb == m.ours || what == "other structure")) { inoutBefore = snap(inoutDb); inoutReadable = true; }
  if (!inoutDb.empty() && contents.count(rel(inoutDb))) { inoutBefore = contents[rel(inoutDb)]; inoutReadable = true; }
  takeLog();
  int rc = 0;
  switch (op) {
    case 0: rc = GEODIFF_createChangeset(base.c_str(), ours.c_str(), out.c_str()); outputs = {rel(out)}; break;
    case 1: rc = GEODIFF_createChangesetEx("sqlite", c.src.below(2) ? "" : nullptr, base.c_str(), ours.c_str(), out.c_str()); outputs = {rel(out)}; break;
    case 2: rc = GEODIFF_invertChangeset(csO.c_str(), out.c_str()); outputs = {rel(out)}; break;
    case 3: rc = GEODIFF_createRebasedChangeset(base.c_str(), ours.c_str(), csT.c_str(), out.c_str(), conf.c_str()); outputs = {rel(out), rel(conf)}; break;
    case 4: rc = GEODIFF_createRebasedChangesetEx("sqlite", "", base.c_str(), csO.c_str(), csT.c_str(), out.c_str(), conf.c_str()); outputs = {rel(out), rel(conf)}; break;
    case 5: rc = GEODIFF_applyChangeset(base.c_str(), csO.c_str()); break;
    case 6: rc = GEODIFF_hasChanges(csO.c_str()); break;
    case 7: rc = GEODIFF_changesCount(csO.c_str()); break;
    case 8: rc = GEODIFF_listChanges(csO.c_str(), out2.c_str()); outputs = {rel(out2)}; break;
    case 9: rc = GEODIFF_listChangesSummary(csO.c_str(), out2.c_str()); outputs = {rel(out2)}; break;
    case 10: rc = GEODIFF_applyChangesetEx("sqlite", "", base.c_str(), csO.c_str()); break;
    case 11: rc = GEODIFF_rebase(base.c_str(), theirs.c_str(), ours.c_str(), conf.c_str()); outputs = {rel(conf)}; break;
    case 12: rc = GEODIFF_rebaseEx("sqlite", "", base.c_str(), ours.c_str(), csT.c_str(), conf.c_str()); outputs = {rel(conf)}; break;
    case 13: rc = GEODIFF_dumpData("sqlite", "", base.c_str(), out.c_str()); outputs = {rel(out)}; break;
  }
  c.desc << "returned " << rc << "\n";
  c.label(rc == 0 || (op == 6 && rc == 1) || (op == 7 && rc > 0) ? "ok" : "failed");
  if (op == 7 && rc < -1) c.fail("changesCount returned " + std::to_string(rc));
  if ((what == "missing" || what == "directory" || what == "garbage") && op != 6 && op != 3 && op != 4 && op != 11 && op != 12) c.check(op == 7 ? rc == -1 : rc != 0, std::string(names[op]) + " reported success for an input that is " + what);
  if (noOut && !outputs.empty() && op != 11 && op != 12) c.check(rc != 0, "success although the output cannot be created");
  if (locker) locker.reset();
  // the world afterwards
  FileImage after = image(c.dir);
  for (auto &kv : before.files) {
    if (outputs.count(kv.first)) continue;
    if (loose.count(kv.first)) continue;
    auto i = after.files.find(kv.first);
    if (!inoutDb.empty() && kv.first == rel(inoutDb)) {
      if (rc == 0 || op == 11 || op == 12) continue;
      c.check(i != after.files.end(), "database deleted by a failing operation");
      if (inoutReadable) { std::string w; if (!sameSnap(inoutBefore, snap(inoutDb), &w)) c.fail("database altered by a failing operation: " + w); }
      else if (what != "truncated" && i->second != kv.second) c.fail("database file altered by a failing operation");
      continue;
    }
    if (i == after.files.end()) c.fail("input " + kv.first + " was deleted");
    if (i->second != kv.second) c.fail("input " + kv.first + " was altered");
  }
  for (auto &n : contents) {
    if (!inoutDb.empty() && n.first == rel(inoutDb) && (rc == 0 || op >= 11)) continue;
    std::string w;
    if (!sameSnap(n.second, snap(c.dir + n.first), &w)) c.fail("content of " + n.first + " altered: " + w);
  }
  for (auto &kv : after.files) {
    if (before.files.count(kv.first) || outputs.count(kv.first)) continue;
    if (loose.count(kv.first)) continue;
    c.fail("left-over file: " + kv.first);
  }
  // an output that was there before is replaced completely
  if (rc == 0 && stale && !noOut) {
    std::string fresh = c.dir + "fresh.bin";
    int r2 = 0;
    bool cmp = true;
    switch (op) {
      case 0: case 1: r2 = GEODIFF_createChangeset(base.c_str(), ours.c_str(), fresh.c_str()); break;
      case 2: r2 = GEODIFF_invertChangeset(csO.c_str(), fresh.c_str()); break;
      case 4: r2 = GEODIFF_createRebasedChangesetEx("sqlite", "", base.c_str(), csO.c_str(), csT.c_str(), fresh.c_str(), (conf + "2").c_str()); break;
      case 8: r2 = GEODIFF_listChanges(csO.c_str(), fresh.c_str()); break;
      case 9: r2 = GEODIFF_listChangesSummary(csO.c_str(), fresh.c_str()); break;
      case 13: r2 = GEODIFF_dumpData("sqlite", "", base.c_str(), fresh.c_str()); break;
      default: cmp = false;
    }
    if (cmp) {
      c.check(r2 == 0, "the same call failed the second time");
      c.check(readFile(fresh) == readFile(op == 8 || op == 9 ? out2 : out), "output differs when the file existed before");
      c.label("stale-output");
    }
  }
}
static pbt::Reg r12({"C12", c12, "one of 14 calls on a generated base, two edited copies and their changesets; 5 of 8 with one input missing, a directory, empty, garbage, truncated, of another structure, locked, with a live write-ahead log, or a conflicting changeset; outputs absent, stale or impossible. All files before and after are compared: inputs byte for byte (with a log: by content), new files are the documented outputs only. Non-trivial: an input is bad.", 12000, 120000, 40});

// ---- C13
static bool changeStructure(Ctx &c, DbSpec &d, Data &x, std::string &what) {
  auto &s = c.src;
  size_t ti = s.below(d.tables.size());
  TableSpec &t = d.tables[ti];
  auto &rows = x.t[t.name];
  bool layer = d.gpkg && t.geomCol >= 0;
  int kind = (int)s.below(13);
  if (layer && kind < 6 && s.below(2)) kind = 10 + (int)s.below(3);
  auto editable = [&]() { std::vector<int> v; for (int i = 0; i < (int)t.cols.size(); ++i) if (!t.isPk(i) && i != t.geomCol) v.push_back(i); return v; };
  auto ed = editable();
  switch (kind) {
    case 0: { if (layer) return false; int i = (int)s.below(t.cols.size()); t.cols[i].name = "renamed col"; what = "column renamed"; return true; }
    case 1: {
      if (ed.size() < 2 || layer) return false;
      int a = ed[s.below(ed.size())], b = ed[s.below(ed.size())];
      if (a == b) return false;
      std::swap(t.cols[a], t.cols[b]);
      rows.clear();
      what = "columns in another order";
      return true;
    }
    case 2: {
      ColSpec n; n.name = "added col"; n.type = "TEXT";
      if (layer || s.below(2)) { t.cols.push_back(n); for (auto &r : rows) r.second.push_back(Val::null()); t.pools.push_back({Val::null()}); }
      else { t.cols.insert(t.cols.begin(), n); for (auto &r : rows) r.second.insert(r.second.begin(), Val::null()); for (auto &p : t.pk) ++p; t.pools.insert(t.pools.begin(), {Val::null()}); }
      what = "column added";
      return true;
    }
    case 3: {
      if (ed.empty()) return false;
      int a = ed[s.below(ed.size())];
      if (t.cols.size() < 2) return false;
      t.cols.erase(t.cols.begin() + a);
      t.pools.erase(t.pools.begin() + a);
      for (auto &r : rows) r.second.erase(r.second.begin() + a);
      for (auto &p : t.pk) if (p > a) --p;
      if (t.geomCol > a) --t.geomCol;
      what = "column dropped";
      return true;
    }
    case 4: {
      if (ed.empty()) return false;
      int a = ed[s.below(ed.size())];
      std::string o = t.cols[a].type;
      static const std::vector<std::string> ty = {"INTEGER", "TEXT", "REAL", "BLOB", "VARCHAR(21)", "DATE", ""};
      t.cols[a].type = ty[s.below(t.strict ? 4 : ty.size())];
      if (t.strict) rows.clear();
      if (sqlite3_stricmp(t.cols[a].type.c_str(), o.c_str()) == 0) return false;
      what = "type changed";
      return true;
    }
    case 5: {   // key membership
      if (layer || ed.empty() || t.withoutRowid) return false;
      int a = ed[s.below(ed.size())];
      t.inlinePk = t.autoinc = false;
      if (t.pk.empty()) t.pk = {a};
      else switch (s.below(3)) {
        case 0: t.pk.push_back(a); break;
        case 1: t.pk = {a}; break;
        default: t.pk.clear();
      }
      // nothing else may differ
      rows.clear();
      what = "key changed";
      return true;
    }
    case 6: { if (ed.empty()) return false; int a = ed[s.below(ed.size())]; t.cols[a].notNull = !t.cols[a].notNull; if (t.cols[a].notNull) rows.clear(); what = "not-null changed"; return true; }
    case 7: {
      static const std::vector<std::string> n = {"zz added", "a added", "extra_table", "Gpkg_x", "rtre_", "sqlit_x", "T\xc3\xa9"};
      TableSpec t2; t2.name = n[s.below(n.size())];
      ColSpec k; k.name = "id"; k.type = "INTEGER"; t2.cols = {k}; t2.pk = {0}; t2.inlinePk = true; t2.pools = {{Val::integer(1)}};
      if (s.below(4) == 3) { t2.pk.clear(); t2.inlinePk = false; }
      d.tables.push_back(t2);
      what = "table added";
      return true;
    }
    case 8: { if (layer) return false; x.t.erase(t.name); d.tables.erase(d.tables.begin() + ti); what = "table dropped"; return true; }
    case 9: { if (layer) return false; auto r = rows; x.t.erase(t.name); t.name = "renamed table"; x.t[t.name] = r; what = "table renamed"; return true; }
    default:
      if (!layer) return false;
      static const std::vector<std::string> geo = {"UPDATE gpkg_geometry_columns SET geometry_type_name='POLYGON'", "UPDATE gpkg_geometry_columns SET srs_id=0", "UPDATE gpkg_geometry_columns SET z=1", "UPDATE gpkg_geometry_columns SET m=1",
        "UPDATE gpkg_spatial_ref_sys SET definition='other' WHERE srs_id=4326", "UPDATE gpkg_spatial_ref_sys SET organization='ESRI' WHERE srs_id=4326", "UPDATE gpkg_spatial_ref_sys SET organization_coordsys_id=4327 WHERE srs_id=4326",
        "DELETE FROM gpkg_geometry_columns"};
      std::string sql = geo[s.below(geo.size())];
      if (sql.find("spatial_ref_sys") == std::string::npos) sql += " WHERE table_name=" + ql(t.name);
      x.post.push_back(sql);
      what = "geometry: " + sql.substr(0, 60);
      return true;
  }
}
static std::string acceptedChange(Ctx &c, const std::string &path, const DbSpec &d) {
  auto &s = c.src;
  auto &t = d.tables[s.below(d.tables.size())];
  std::string col = q(t.cols[s.below(t.cols.size())].name), T = q(t.name);
  Db db(path, SQLITE_OPEN_READWRITE);
  switch (s.below(6)) {
    case 0: db.exec("CREATE INDEX \"ix extra\" ON " + T + "(" + col + ")"); return "index";
    case 1: db.exec("CREATE VIEW \"v extra\" AS SELECT * FROM " + T); return "view";
    case 2: db.exec("CREATE TRIGGER \"tr extra\" AFTER INSERT ON " + T + " BEGIN SELECT 1; END"); return "trigger";
    case 3: db.exec("CREATE VIRTUAL TABLE vt_extra USING rtree(id, a, b)"); db.exec("DROP TABLE vt_extra"); return "came and went";
    case 4: db.exec("CREATE TABLE gone(a); DROP TABLE gone"); db.exec("PRAGMA user_version=7"); return "user version";
    default: db.exec("CREATE INDEX \"ix part\" ON " + T + "(" + col + ") WHERE " + col + " IS NOT NULL"); db.exec("CREATE VIEW v2 AS SELECT count(*) FROM " + T); return "partial index and view";
  }
}
static std::string userTrigger(pbt::Src &s, const DbSpec &d, int i, std::string *nameOut = nullptr) {
  static const std::vector<std::string> names = {"trg", "select", "my trigger", "it's", "dq\"x", "100%s", "%q", "a;b", "Gpkg_x", "GPKG_Y", "xgpkg_z", "rtree", "rtre_x", "my_rtree_x", "trigger_insert_feature_coun", "trigger_insert_feature", "trigger_update_feature_count_x", "trigger", "feature_count", "\xc5\xa1", "br]ack[et", "back`tick", "--x", "gpkg", "1", " ", "new\nline", "r", "rtreeX_a", "RTREE_a", "Trigger_insert_feature_count_x", "temp", "main", "sq\\lite"};
  std::string n = names[s.below(names.size())];
  if (i) n += std::to_string(i);
  if (nameOut) *nameOut = n;
  auto &t = d.tables[s.below(d.tables.size())];
  auto &t2 = d.tables[s.below(d.tables.size())];
  std::string T = q(t.name), T2 = q(t2.name);
  static const std::vector<std::string> ev = {"AFTER INSERT", "AFTER UPDATE", "AFTER DELETE", "BEFORE INSERT", "BEFORE UPDATE", "BEFORE DELETE", "INSERT", "DELETE"};
  std::string e = ev[s.below(ev.size())];
  if (e.find("UPDATE") != std::string::npos && s.below(3) == 2) e += " OF " + q(t.cols[s.below(t.cols.size())].name);
  std::string body;
  std::string col2 = q(t2.cols[t2.cols.size() - 1].name);
  switch (s.below(9)) {
    case 0: body = "INSERT INTO zlog(a) VALUES('x')"; break;
    case 1: body = "UPDATE " + T2 + " SET " + col2 + "=" + col2; break;
    case 2: body = "DELETE FROM " + T2; break;
    case 3: body = "SELECT RAISE(ABORT, 'no; way''s %s')"; break;
    case 4: body = "SELECT RAISE(IGNORE)"; break;
    case 5: body = "INSERT INTO zlog(a) VALUES('100%s; %d -- ''quoted'' \"dq\" /* c */'); UPDATE zlog SET a = a || '%'"; break;
    case 6: body = "UPDATE " + T2 + " SET " + col2 + "=NULL"; break;
    case 7: body = "SELECT RAISE(ROLLBACK, 'rolled back')"; break;
    default: body = "INSERT INTO zlog SELECT '\xc3\xa9\xf0\x9f\xa6\xa6'; SELECT CASE WHEN 1 THEN RAISE(FAIL, 'f') END"; break;
  }
  return "CREATE TRIGGER " + q(n) + " " + e + " ON " + T + (s.below(3) == 2 ? " FOR EACH ROW" : "") + (s.below(4) == 3 ? " WHEN 1=1" : "") + (s.below(4) == 3 ? " /* comment ' */" : "") + " BEGIN " + body + "; END";
}
static void c13create(Ctx &c) {
  GenOpts o;
  o.maxTables = 3; o.maxRows = 4; o.wide = false; o.bigValues = false; o.utf16 = false; o.gpkgPct = 45; o.maxCols = 5;
  DbSpec spec = genSpec(c.src, o);
  Data d0 = genData(c.src, spec, o), d1 = mutate(c.src, spec, d0, o);
  std::string base = c.dir + "base.gpkg", mod = c.dir + "mod.gpkg", out = c.dir + "out.bin";
  describe(c, spec);
  if (c.src.below(4) == 3) {   // must be accepted
    writeDb(base, spec, d0, genLayout(c.src));
    writeDb(mod, spec, d1, genLayout(c.src));
    std::string w1 = acceptedChange(c, c.src.below(2) ? base : mod, spec);
    c.desc << "accepted difference: " << w1 << "\n";
    Snap sb = snap(base), sm = snap(mod);
    c.label("accepted");
    c.nontrivial();
    MUST_OK(c, GEODIFF_createChangeset(base.c_str(), mod.c_str(), out.c_str()));
    std::string w = diffMismatch(sb, sm, mustDecode(readFile(out), "changeset"));
    c.check(w.empty(), w);
    return;
  }
  DbSpec s2 = spec;
  Data x = c.src.below(2) ? d1 : d0;
  std::string what;
  if (!changeStructure(c, s2, x, what)) throw pbt::Discard();
  c.label(what.rfind("geometry", 0) == 0 ? "geometry" : what);
  c.desc << what << ":\n";
  describe(c, s2);
  writeDb(base, spec, d0, genLayout(c.src));
  writeDb(mod, s2, x, genLayout(c.src));
  if (c.src.below(2)) std::swap(base, mod);
  c.nontrivial();
  std::string rb = readFile(base), rm = readFile(mod);
  takeLog();
  int rc = GEODIFF_createChangeset(base.c_str(), mod.c_str(), out.c_str());
  c.check(rc != 0, "createChangeset accepted databases of different structure (" + what + ")");
  bool error = false;
  for (auto &l : takeLog()) error |= l.level == 1;
  c.check(error, "no error message");
  c.check(readFile(base) == rb && readFile(mod) == rm, "a database was altered");
  std::string conf = c.dir + "conf.json", other = c.dir + "other.gpkg";
  copyFile(mod, other);
  c.check(GEODIFF_rebase(base.c_str(), mod.c_str(), other.c_str(), conf.c_str()) != 0, "rebase accepted databases of different structure (" + what + ")");
  c.check(readFile(base) == rb && readFile(mod) == rm && readFile(other) == rm, "a database was altered by rebase");
}
static pbt::Reg r13a({"C13.create", c13create, "a generated schema and a copy altered in one structural respect (column renamed, moved, added, dropped, retyped, other key, not-null; table added, dropped, renamed; geometry type, srs, z, m, srs definition), either as base or as modified: createChangeset and rebase must refuse; or altered in a respect that does not matter (indexes, views, triggers): must give the model difference. All are non-trivial; alterations that change nothing are discarded.", 6000, 60000, 40});

static void c13rebase(Ctx &c) {
  GenOpts g = mergeGenOpts();
  g.maxRows = 5; g.bigValues = false; g.utf16 = false; g.maxTables = 2; g.emptyTableName = false;
  auto &s = c.src;
  DbSpec spec = genSpec(s, g);
  int kind = (int)s.below(2);
  std::string what;
  if (kind == 1) {
    // a foreign key in some form, in all the databases
    TableSpec &t = spec.tables[s.below(spec.tables.size())];
    std::string key = t.keyed() ? q(t.cols[t.pk[0]].name) : q(t.cols[0].name);
    static const std::vector<std::string> act = {"", " ON DELETE CASCADE", " ON UPDATE SET NULL", " DEFERRABLE INITIALLY DEFERRED", " ON DELETE NO ACTION", " MATCH FULL"};
    std::string a = act[s.below(act.size())];
    static const std::vector<std::string> nm = {"fkt", "a fk", "select", "zz\"q", "sp'x", "%s"};
    std::string n = nm[s.below(nm.size())], sql;
    auto lower = [](std::string x) { for (auto &ch : x) ch = (char)tolower((unsigned char)ch); return x; };
    for (bool again = true; again;) { again = false; for (auto &u : spec.tables) if (lower(u.name) == lower(n) || lower(u.name) == "comp") { again = lower(u.name) == lower(n); if (again) n += "_"; else throw pbt::Discard(); } }
    switch (s.below(8)) {
      case 0: sql = "CREATE TABLE " + q(n) + "(id INTEGER PRIMARY KEY, ref INTEGER REFERENCES " + q(t.name) + "(" + key + ")" + a + ")"; break;
      case 1: sql = "CREATE TABLE " + q(n) + "(id INTEGER PRIMARY KEY, ref INTEGER REFERENCES " + q(t.name) + a + ")"; break;
      case 2: sql = "CREATE TABLE " + q(n) + "(id INTEGER PRIMARY KEY, ref INTEGER, FOREIGN KEY(ref) REFERENCES " + q(t.name) + "(" + key + ")" + a + ")"; break;
      case 3: sql = "CREATE TABLE " + q(n) + "(id INTEGER PRIMARY KEY, parent INTEGER REFERENCES " + q(n) + "(id)" + a + ")"; break;
      case 4: sql = "CREATE TABLE " + q(n) + "(id INTEGER PRIMARY KEY, r1 INTEGER, r2 TEXT, FOREIGN KEY(r1, r2) REFERENCES comp(a, b)" + a + ")"; break;
      case 5: sql = "CREATE TABLE " + q(n) + "(id INTEGER PRIMARY KEY, ref REFERENCES nowhere(x)" + a + ")"; break;
      case 6: sql = "CREATE TABLE " + q(n) + "(id INTEGER PRIMARY KEY, r1, r2, FOREIGN KEY(r1, r2) REFERENCES comp" + a + ")"; break;
      default: sql = "CREATE TABLE " + q(n) + "(ref INTEGER CONSTRAINT x REFERENCES " + q(t.name) + "(" + key + ")" + a + ", \"o t\" TEXT)"; break;
    }
    spec.extra.push_back("CREATE TABLE comp(a INTEGER, b TEXT, PRIMARY KEY(a, b))");
    spec.extra.push_back(sql);
    what = "foreign key: " + sql;
    c.label("foreign-key");
  }
  Data d0 = genData(s, spec, g);
  MergeOpts mo;
  mo.minEdits = 1;
  auto floors = idFloors(spec, d0);
  Data dt = mutateMerge(s, spec, d0, g, 5, mo, floors), du = mutateMerge(s, spec, d0, g, 5, mo, floors);
  std::string base = c.dir + "base.gpkg", theirs = c.dir + "theirs.gpkg", ours = c.dir + "ours.gpkg", b2t = c.dir + "b2t.bin", out = c.dir + "out.bin", conf = c.dir + "conf.json";
  writeDb(base, spec, d0, genLayout(s));
  copyFile(base, theirs); copyFile(base, ours);
  applyEdits(theirs, spec, d0, dt, 0);
  applyEdits(ours, spec, d0, du, 0);
  MUST_OK(c, GEODIFF_createChangeset(base.c_str(), theirs.c_str(), b2t.c_str()));
  if (kind == 0) {
    Db db(ours, SQLITE_OPEN_READWRITE);
    db.must("PRAGMA synchronous=off");
    db.exec("CREATE TABLE zlog(a)");
    std::string sql = s.below(5) == 4 ? "CREATE TRIGGER \"inst\" INSTEAD OF INSERT ON zview BEGIN SELECT 1; END" : userTrigger(s, spec, 0);
    if (sql.find("zview") != std::string::npos) db.must("CREATE VIEW zview AS SELECT 1 AS a");
    std::string err;
    if (!db.exec(sql, &err)) { c.label("trigger refused by SQLite"); throw pbt::Discard(); }
    if (sql.find("zlog") == std::string::npos) db.must("DROP TABLE zlog");
    what = sql;
    c.label("trigger");
    if (sql.find("zlog") != std::string::npos) { Db b2(base, SQLITE_OPEN_READWRITE); b2.exec("CREATE TABLE zlog(a)"); }
  }
  describe(c, spec);
  c.desc << what << "\n";
  c.nontrivial();
  std::string rb = readFile(base), ro = readFile(ours), rt = readFile(b2t);
  int rc = GEODIFF_createRebasedChangeset(base.c_str(), ours.c_str(), b2t.c_str(), out.c_str(), conf.c_str());
  c.check(rc != 0, "createRebasedChangeset accepted a database with a " + what);
  c.check(readFile(base) == rb && readFile(ours) == ro && readFile(b2t) == rt, "an input was altered");
  c.check(!exists(conf), "conflict report although refused");
}
static pbt::Reg r13b({"C13.rebase", c13rebase, "modified databases with one user trigger (awkward names close to the recognised ones, all events, any body, on views) or one foreign key (column, table, composite, self, without parent columns, missing parent, actions): createRebasedChangeset must refuse. All are non-trivial.", 4000, 40000, 40});

static void c13apply(Ctx &c) {
  GenOpts o;
  o.maxRows = 5; o.wide = false; o.bigValues = false; o.utf16 = false; o.gpkgPct = 20; o.maxCols = 5;
  EditOpts e;
  Pair p = genPair(c, o, e);
  std::string cs = c.dir + "cs.bin", target = c.dir + "target.gpkg";
  MUST_OK(c, GEODIFF_createChangeset(p.base.c_str(), p.mod.c_str(), cs.c_str()));
  Changeset d = mustDecode(readFile(cs), "changeset");
  // a table that the changeset touches
  std::vector<size_t> cand;
  for (size_t i = 0; i < p.spec.tables.size(); ++i) for (auto &en : d.entries) if (en.table == p.spec.tables[i].name) { cand.push_back(i); break; }
  if (cand.empty()) throw pbt::Discard();
  DbSpec s2 = p.spec;
  size_t ti = cand[c.src.below(cand.size())];
  TableSpec &t = s2.tables[ti];
  Data x = p.baseData;
  x.post.clear();
  auto &rows = x.t[t.name];
  bool layer = t.geomCol >= 0;
  std::string what;
  switch (c.src.below(6)) {
    case 0: { what = "table absent"; if (layer) throw pbt::Discard(); x.t.erase(t.name); s2.tables.erase(s2.tables.begin() + ti); break; }
    case 1: { what = "table renamed"; if (layer) throw pbt::Discard(); auto r = rows; x.t.erase(t.name); t.name = "renamed table"; x.t[t.name] = r; break; }
    case 2: { what = "column added"; ColSpec n; n.name = "added col"; n.type = "TEXT"; t.cols.push_back(n); for (auto &r : rows) r.second.push_back(Val::null()); break; }
    case 3: {
      what = "column dropped";
      int a = -1;
      for (int i = (int)t.cols.size() - 1; i >= 0; --i) if (!t.isPk(i) && i != t.geomCol) { a = i; break; }
      if (a < 0 || t.cols.size() < 2) throw pbt::Discard();
      t.cols.erase(t.cols.begin() + a);
      for (auto &r : rows) r.second.erase(r.second.begin() + a);
      for (auto &k : t.pk) if (k > a) --k;
      if (t.geomCol > a) --t.geomCol;
      break;
    }
    case 4: {   // the key is another column
      what = "other key";
      if (layer || t.cols.size() < 2 || t.withoutRowid) throw pbt::Discard();
      std::vector<int> np;
      for (int i = 0; i < (int)t.cols.size(); ++i) if (!t.isPk(i)) np.push_back(i);
      if (np.empty()) throw pbt::Discard();
      int a = np[c.src.below(np.size())];
      t.inlinePk = t.autoinc = false;
      if (c.src.below(2)) t.pk = {a}; else t.pk.push_back(a);
      // keep rows that the new key can hold
      std::map<std::string, Row> keep;
      for (auto &r : rows) { bool ok = true; for (int k : t.pk) ok &= r.second[k].t != Val::Null; if (ok) keep[keyOf(t, r.second)] = r.second; }
      rows = keep;
      break;
    }
    default: {
      what = "no key";
      if (layer || t.withoutRowid) throw pbt::Discard();
      t.inlinePk = t.autoinc = false;
      t.pk.clear();
      break;
    }
  }
  c.label(what);
  c.desc << "target: " << what << "\n";
  writeDb(target, s2, x, genLayout(c.src));
  c.nontrivial();
  Snap before = snap(target);
  int rc = GEODIFF_applyChangeset(target.c_str(), cs.c_str());
  c.check(rc != 0, "applied to a database of another structure (" + what + ")");
  std::string w;
  if (!sameSnap(before, snap(target), &w)) c.fail("database altered by the refused apply: " + w);
}
static pbt::Reg r13c({"C13.apply", c13apply, "changesets of generated pairs applied to a database in which a touched table is absent, renamed, has a column more or less, another key or none, holding the base's rows: must be refused and leave content and schema alone. All are non-trivial.", 5000, 50000, 40});

// ---- C14
// the user's triggers of each table in the order SQLite has them, which decides the order they fire in
static std::string triggerOrder(const std::string &path) {
  Db db(path, SQLITE_OPEN_READONLY);
  std::string out;
  for (auto &r : db.query("SELECT name, tbl_name FROM sqlite_master WHERE type='trigger' ORDER BY tbl_name, rowid")) {
    std::string n;
    for (char ch : r[0].s) n += (char)std::tolower((unsigned char)ch);
    bool own = true;
    for (const char *pre : {"gpkg_", "rtree_", "trigger_insert_feature_count_", "trigger_delete_feature_count_"}) if (n.rfind(pre, 0) == 0) own = false;
    if (own) out += r[1].s + "." + r[0].s + "\n";
  }
  return out;
}
static void c14(Ctx &c) {
  GenOpts o;
  o.maxRows = 6; o.wide = false; o.bigValues = false; o.gpkgPct = 30; o.maxCols = 4;
  o.keyOnly = false;
  auto &s = c.src;
  Pair p = genPair(c, o);
  std::string cs = c.dir + "cs.bin", target = c.dir + "target.gpkg", ref = c.dir + "ref.gpkg";
  MUST_OK(c, GEODIFF_createChangeset(p.base.c_str(), p.mod.c_str(), cs.c_str()));
  Changeset d = mustDecode(readFile(cs), "changeset");
  copyFile(p.base, target);
  int nt = 0;
  {
    Db db(target, SQLITE_OPEN_READWRITE);
    db.must("PRAGMA synchronous=off");
    db.must("CREATE TABLE zlog(a)");
    db.must("INSERT INTO zlog VALUES('first')");
    int n = 1 + (int)s.below(4);
    for (int i = 0; i < n; ++i) {
      std::string sql = userTrigger(s, p.spec, i);
      if (db.exec(sql)) { ++nt; c.desc << sql << "\n"; }
    }
    auto &t = p.spec.tables[s.below(p.spec.tables.size())];
    if (s.below(2)) {
      db.exec("CREATE VIEW \"v'1\" AS SELECT * FROM " + q(t.name));
      if (s.below(2) && db.exec("CREATE TRIGGER \"on view\" INSTEAD OF DELETE ON \"v'1\" BEGIN INSERT INTO zlog VALUES(1); END")) ++nt;
    }
    if (s.below(2)) db.exec("CREATE INDEX \"ix 1\" ON " + q(t.name) + "(" + q(t.cols.back().name) + " DESC)");
    if (s.below(3) == 2) db.exec("CREATE INDEX ix2 ON " + q(t.name) + "(" + q(t.cols.back().name) + ") WHERE " + q(t.cols[0].name) + " IS NOT NULL");
  }
  if (!nt) throw pbt::Discard();
  bool spoil = s.below(3) == 2 && !d.entries.empty();
  if (spoil) {
    // a conflict in one entry: the whole apply fails
    Entry e = d.entries[s.below(d.entries.size())];
    d.entries.push_back(e);
    d.entries.back().group = d.groups + 1;
    writeFile(cs, encode(d));
    c.label("failing");
  } else c.label("succeeding");
  if (!d.entries.empty()) c.nontrivial();
  Snap before = snap(target);
  std::string order = triggerOrder(target);
  // the reference has no triggers at all, apart from those that keep index and counter
  copyFile(p.base, ref);
  std::string why = refApply(ref, d);
  takeLog();
  int rc = GEODIFF_applyChangeset(target.c_str(), cs.c_str());
  Snap after = snap(target);
  std::string w;
  if (before.schema != after.schema) {
    for (auto &x : before.schema) if (std::find(after.schema.begin(), after.schema.end(), x) == after.schema.end()) w = "missing: " + x;
    for (auto &x : after.schema) if (std::find(before.schema.begin(), before.schema.end(), x) == before.schema.end()) w += " new: " + x;
    c.fail("the schema changed: " + w);
  }
  std::string order2 = triggerOrder(target);
  if (order != order2) c.fail("the triggers of a table come in another order, before:\n" + order + "after:\n" + order2);
  if (!why.empty()) {
    c.check(rc != 0, "apply accepted a changeset that does not match: " + why);
    if (!sameSnap(before, after, &w)) c.fail("database altered by a failed apply: " + w);
    return;
  }
  if (rc != 0) c.fail("apply failed on a database with triggers\n" + logText());
  Snap want = snap(ref);
  for (auto &kv : want.tables) {
    if (ignoredTable(kv.first)) continue;
    if (!sameTable(kv.second, after.tables[kv.first], &w)) c.fail("not exactly the recorded changes (first: expected): " + w);
  }
  if (!sameTable(before.tables["zlog"], after.tables["zlog"], &w)) c.fail("a trigger fired: " + w);
}
static pbt::Reg r14({"C14", c14, "changesets of generated pairs applied to base with 1-4 user triggers (all events, awkward names, bodies that log, write to the same or other tables, raise abort, ignore, fail, rollback), views with INSTEAD OF triggers and indexes; one in three changesets conflicts. Schema texts must be identical, contents equal the recorded changes only. Non-trivial: the changeset has entries.", 9000, 90000, 40});

// ---- C15
static bool geomBox(const Val &g, double *b) {
  if (g.t != Val::Blob || g.s.size() < 8 || g.s[0] != 'G' || g.s[1] != 'P') return false;
  unsigned flags = (unsigned char)g.s[3];
  if ((flags >> 4) & 1) return false;
  auto rd = [&](size_t off) { double d; memcpy(&d, g.s.data() + off, 8); return d; };
  if ((flags >> 1) & 7) { for (int i = 0; i < 4; ++i) b[i] = rd(8 + 8 * i); return true; }
  double x = rd(8 + 5), y = rd(8 + 13);
  if (std::isnan(x) || std::isnan(y)) return false;
  b[0] = b[1] = x; b[2] = b[3] = y;
  return true;
}
static void indexesRight(Ctx &c, const std::string &path, const DbSpec &d, const std::string &when) {
  Db db(path, SQLITE_OPEN_READWRITE);
  for (auto &t : d.tables) {
    if (t.geomCol < 0) continue;
    if (t.counter) {
      int64_t n = db.scalar("SELECT count(*) FROM " + q(t.name)).i, k = db.scalar("SELECT feature_count FROM gpkg_ogr_contents WHERE table_name=" + ql(t.name)).i;
      if (n != k) c.fail(when + ": feature count of " + t.name + " is " + std::to_string(k) + " with " + std::to_string(n) + " rows");
    }
    if (!t.rtree) continue;
    std::string rt = "rtree_" + t.name + "_" + t.cols[t.geomCol].name;
    Db mem(":memory:");
    mem.must("CREATE VIRTUAL TABLE r USING rtree(id, minx, maxx, miny, maxy)");
    for (auto &r : db.query("SELECT " + q(t.cols[t.pk[0]].name) + "," + q(t.cols[t.geomCol].name) + " FROM " + q(t.name))) {
      double b[4];
      if (!geomBox(r[1], b)) continue;
      if (mem.run("INSERT INTO r VALUES(?,?,?,?,?)", {r[0], Val::real(b[0]), Val::real(b[1]), Val::real(b[2]), Val::real(b[3])}) != SQLITE_DONE) throw std::runtime_error("harness: rtree");
    }
    auto want = mem.query("SELECT id,minx,maxx,miny,maxy FROM r ORDER BY id"), got = db.query("SELECT id,minx,maxx,miny,maxy FROM " + q(rt) + " ORDER BY id");
    for (size_t i = 0; i < std::max(want.size(), got.size()); ++i) {
      if (i >= want.size()) c.fail(when + ": spatial index of " + t.name + " has an entry too many: " + show(got[i]));
      if (i >= got.size()) c.fail(when + ": spatial index of " + t.name + " misses " + show(want[i]));
      for (int k = 0; k < 5; ++k) if (!equiv(want[i][k], got[i][k])) c.fail(when + ": spatial index of " + t.name + " has " + show(got[i]) + " instead of " + show(want[i]));
    }
  }
  std::string w;
  if (!integrityOk(path, &w)) c.fail(when + ": database damaged: " + w);
}
static void noInternals(Ctx &c, const std::string &file) {
  for (auto &e : mustDecode(readFile(file), "changeset").entries)
    if (e.table.rfind("rtree_", 0) == 0 || e.table.rfind("gpkg_ogr_contents", 0) == 0 || e.table.rfind("sqlite_", 0) == 0) c.fail("changeset contains internal table " + e.table);
}
static void c15(Ctx &c) {
  auto &s = c.src;
  GenOpts g = mergeGenOpts();
  g.gpkgOnly = true; g.maxTables = 3; g.maxRows = 8; g.bigValues = false; g.utf16 = false;
  MergeOpts mo;
  mo.insertW = 4; mo.deleteW = 3; mo.updateW = 5;
  MergeCase m = genMerge(c, g, mo);
  bool any = false;
  for (auto &t : m.spec.tables) any |= t.geomCol >= 0 && (t.rtree || t.counter);
  if (!any) throw pbt::Discard();
  indexesRight(c, m.base, m.spec, "harness: base");
  std::string cs = c.dir + "cs.bin", target = c.dir + "target.gpkg";
  MUST_OK(c, GEODIFF_createChangeset(m.base.c_str(), m.ours.c_str(), cs.c_str()));
  noInternals(c, cs);
  copyFile(m.base, target);
  bool geom = false;
  for (auto &e : mustDecode(readFile(cs), "changeset").entries) { auto t = m.spec.find(e.table); if (t && t->geomCol >= 0) geom = true; }
  if (geom) c.nontrivial();
  if (s.below(3) == 2) {   // user triggers of its own do not matter
    Db db(target, SQLITE_OPEN_READWRITE);
    db.must("CREATE TABLE zlog(a)");
    for (int i = 0; i < 2; ++i) db.exec(userTrigger(s, m.spec, i));
    c.label("user-triggers");
  }
  MUST_OK(c, GEODIFF_applyChangeset(target.c_str(), cs.c_str()));
  indexesRight(c, target, m.spec, "after apply");
  std::string inv = c.dir + "inv.bin";
  MUST_OK(c, GEODIFF_invertChangeset(cs.c_str(), inv.c_str()));
  MUST_OK(c, GEODIFF_applyChangeset(target.c_str(), inv.c_str()));
  indexesRight(c, target, m.spec, "after apply of the inverse");
  // a failing apply leaves index and counter alone, too
  if (!readFile(cs).empty()) {
    Changeset d = mustDecode(readFile(cs), "cs");
    d.entries.push_back(d.entries[s.below(d.entries.size())]);
    d.entries.back().group = d.groups + 1;
    writeFile(cs, encode(d));
    if (GEODIFF_applyChangeset(target.c_str(), cs.c_str()) != 0) { indexesRight(c, target, m.spec, "after a failed apply"); c.label("failed-apply"); }
  }
  if (reprOnly(m.sb, m.so, m.st) || gapRisk(m.sb, m.so, m.st)) return;
  std::string conf = c.dir + "conf.json", local = c.dir + "local.gpkg", b2t = c.dir + "b2t.bin", reb = c.dir + "reb.bin", server = c.dir + "server.gpkg";
  copyFile(m.ours, local);
  MUST_OK(c, GEODIFF_rebase(m.base.c_str(), m.theirs.c_str(), local.c_str(), conf.c_str()));
  indexesRight(c, local, m.spec, "after rebase");
  MUST_OK(c, GEODIFF_createChangeset(m.base.c_str(), m.theirs.c_str(), b2t.c_str()));
  noInternals(c, b2t);
  MUST_OK(c, GEODIFF_createRebasedChangeset(m.base.c_str(), m.ours.c_str(), b2t.c_str(), reb.c_str(), conf.c_str()));
  noInternals(c, reb);
  copyFile(m.theirs, server);
  MUST_OK(c, GEODIFF_applyChangeset(server.c_str(), reb.c_str()));
  indexesRight(c, server, m.spec, "after the rebased changeset");
  std::string dump = c.dir + "dump.bin";
  MUST_OK(c, GEODIFF_dumpData("sqlite", "", m.base.c_str(), dump.c_str()));
  noInternals(c, dump);
}
static pbt::Reg r15({"C15", c15, "GeoPackages with 1-3 layers carrying the standard spatial-index and counter triggers; edits insert, delete and change geometries to and from null, empty, points, envelopes, large coordinates; after apply, undo, failed apply, rebase and rebased apply every index must equal one built anew in memory from the geometries, every counter the number of rows; changesets hold no internals. Non-trivial: the changeset touches a layer.", 4000, 40000, 25});

static pbt::RegRepro k06({"on-conflict-replace", [](const std::string &dir, std::string &what) {
  std::string a = dir + "a.gpkg", b = dir + "b.gpkg", cs = dir + "cs.bin", other = dir + "other.gpkg";
  for (auto &p : {a, b, other}) { Db db(p); db.must("CREATE TABLE t(id INTEGER PRIMARY KEY ON CONFLICT REPLACE, u TEXT)"); db.must("INSERT INTO t VALUES(1,'x')"); }
  { Db db(b, SQLITE_OPEN_READWRITE); db.must("INSERT INTO t VALUES(2,'theirs')"); }
  { Db db(other, SQLITE_OPEN_READWRITE); db.must("INSERT INTO t VALUES(2,'mine')"); }
  if (GEODIFF_createChangeset(a.c_str(), b.c_str(), cs.c_str()) != 0) { what = "createChangeset failed"; return true; }
  int rc = GEODIFF_applyChangeset(other.c_str(), cs.c_str());
  Db db(other, SQLITE_OPEN_READONLY);
  std::string u = db.scalar("SELECT u FROM t WHERE id = 2").s;
  what = "applyChangeset returned " + std::to_string(rc) + ", row 2 holds " + u;
  return rc == 0 || u != "mine";
}});
