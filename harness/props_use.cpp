// C31: databases that other connections use at the same time.
#include "env.hpp"
#include "merge.hpp"
#include <algorithm>
#include <cstring>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using pbt::Ctx;

namespace {
struct NoYield { ~NoYield() { setYield(nullptr); } };
void removeDb(const std::string &p) { for (auto x : {"", "-journal", "-wal", "-shm"}) unlink((p + x).c_str()); }

// one transaction of the other connection
struct Tx {
  bool data = false;      // also edits of the generated tables
  Data from, to;
  int n = 0, bulk = 0;
};
bool runTx(Db &db, const DbSpec &spec, const Tx &t) {
  std::string N = std::to_string(t.n);
  if (!db.exec("UPDATE zz_other SET v=v+" + N + " WHERE id%2=1")) return false;
  db.exec("INSERT INTO zz_other(v) VALUES(" + N + ")");
  db.exec("DELETE FROM zz_other WHERE id=(SELECT min(id) FROM zz_other)");
  for (int i = 0; i < t.bulk; ++i) db.exec("INSERT INTO zz_other(v) VALUES(zeroblob(" + std::to_string(500 + i) + "))");
  if (t.data) applyEdits(db, spec, t.from, t.to);
  return true;
}
const char *kOps[] = {"diff", "diff", "dump", "apply", "rebase", "rebaseEx", "rebased"};
const char *kKinds[] = {"commits", "reader", "reserved", "exclusive", "spilled", "crashed", "ends in between"};
}  // namespace

static void c31(Ctx &c) {
  auto &s = c.src;
  NoYield cleanup;
  setYield(nullptr);
  GenOpts g = mergeGenOpts();
  g.maxTables = 3; g.maxRows = 8; g.maxCols = 4; g.bigValues = false; g.wide = false; g.gpkgPct = 15;
  MergeOpts o;
  o.minEdits = 1;
  MergeCase m = genMerge(c, g, o);
  std::string op = kOps[s.below(7)];
  bool wal = s.below(2);
  std::string b2t = c.dir + "b2t.bin", b2o = c.dir + "b2o.bin", out = c.dir + "out.bin", conf = c.dir + "conf.json", copy = c.dir + "tmp/copy.gpkg";
  std::vector<std::string> files = {m.base, m.ours, m.theirs};
  for (auto &f : files) {
    Db db(f, SQLITE_OPEN_READWRITE);
    db.must("PRAGMA synchronous=off");
    db.must("CREATE TABLE zz_other(id INTEGER PRIMARY KEY, v)");
    db.must("INSERT INTO zz_other(v) VALUES(1),(2),(3),(4)");
  }
  MUST_OK(c, GEODIFF_createChangeset(m.base.c_str(), m.theirs.c_str(), b2t.c_str()));
  MUST_OK(c, GEODIFF_createChangeset(m.base.c_str(), m.ours.c_str(), b2o.c_str()));
  // whom the other connection is in
  std::string victim;
  Data vData;
  std::string target = op == "apply" ? m.base : op == "rebase" || op == "rebaseEx" ? m.ours : "";
  switch (op == "dump" ? 1 : op == "apply" ? 0 : op == "rebase" ? s.below(3) : s.below(2)) {
    case 0: victim = m.base; vData = m.dBase; break;
    case 1: victim = m.ours; vData = m.dOurs; break;
    default: victim = m.theirs; vData = m.dTheirs; break;
  }
  if (op == "rebase" || op == "rebaseEx") if (s.below(2)) { victim = m.ours; vData = m.dOurs; }
  bool reading = victim != target;
  { Db db(victim, SQLITE_OPEN_READWRITE); db.must(wal ? "PRAGMA journal_mode=wal" : "PRAGMA journal_mode=delete"); }
  c.label(op); c.label(wal ? "wal" : "rollback journal"); c.label(reading ? "an input is used" : "the target is used");
  std::map<std::string, std::string> orig;
  for (auto &f : files) { removeDb(f + "x"); orig[f] = readFile(f); }
  auto reset = [&]() { for (auto &f : files) { removeDb(f); writeFile(f, orig[f]); } unlink(out.c_str()); unlink(conf.c_str()); };
  auto call = [&]() -> int {
    if (op == "diff") return GEODIFF_createChangeset(m.base.c_str(), m.ours.c_str(), out.c_str());
    if (op == "dump") return GEODIFF_dumpData("sqlite", "", m.ours.c_str(), out.c_str());
    if (op == "apply") return GEODIFF_applyChangeset(m.base.c_str(), b2t.c_str());
    if (op == "rebase") return GEODIFF_rebase(m.base.c_str(), m.theirs.c_str(), m.ours.c_str(), conf.c_str());
    if (op == "rebaseEx") return GEODIFF_rebaseEx("sqlite", "", m.base.c_str(), m.ours.c_str(), b2t.c_str(), conf.c_str());
    return GEODIFF_createRebasedChangeset(m.base.c_str(), m.ours.c_str(), b2t.c_str(), out.c_str(), conf.c_str());
  };
  Snap sBase = snap(m.base), sOurs = snap(m.ours), refTarget;
  reset();
  int64_t n = 0;
  setYield([&](const char *) { ++n; });
  int rc = call();
  setYield(nullptr);
  MUST_OK(c, rc);
  std::string refOut = readFile(out);
  if (!target.empty()) refTarget = snap(target);
  c.desc << op << ", " << (victim == m.base ? "base" : victim == m.ours ? "ours" : "theirs") << " is in use (" << (wal ? "wal" : "rollback journal") << "), " << n << " steps\n";
  bool generic = op == "diff" || op == "dump";
  for (int round = 0; round < 6; ++round) {
    std::string kind = kKinds[s.weighted({6, 1, 2, 1, 1, 1, 3})];
    int nTx = kind == "reader" ? 0 : kind == "commits" ? (int)s.range(1, 3) : 1;
    std::vector<Tx> txs;
    std::vector<int64_t> at;
    Data d = vData;
    d.post.clear();
    for (int i = 0; i < nTx; ++i) {
      Tx t;
      t.n = i + 5;
      if (kind == "spilled" || kind == "crashed") t.bulk = 200;
      if (generic && s.below(4) != 3) {
        t.data = true;
        t.from = d;
        t.to = mutate(s, m.spec, d, g);
        t.to.post.clear();
        d = t.to;
      }
      txs.push_back(t);
      at.push_back((int64_t)s.below(n));
    }
    std::sort(at.begin(), at.end());
    reset();
    // what the database holds after each transaction
    std::vector<Snap> states;
    removeDb(copy);
    copyFile(victim, copy);
    states.push_back(snap(copy));
    for (auto &t : txs) {
      { Db db(copy, SQLITE_OPEN_READWRITE); db.must("PRAGMA synchronous=off"); db.must("BEGIN"); if (!runTx(db, m.spec, t)) c.fail("harness: edit failed"); db.must("COMMIT"); }
      states.push_back(snap(copy));
    }
    removeDb(copy);
    std::string what = kind + (nTx ? " x" + std::to_string(nTx) : "");
    size_t committed = 0;
    bool held = false, commitHeld = s.below(2), endCommits = s.below(2);
    Db *other = nullptr;
    std::unique_ptr<Db> own;
    sqlite3_stmt *cursor = nullptr;
    size_t rowsRead = 0;
    if (kind == "crashed") {
      pid_t pid = fork();
      if (pid == 0) {
        Db *db = new Db(victim, SQLITE_OPEN_READWRITE);
        db->exec("PRAGMA cache_size=1"); db->exec("PRAGMA cache_spill=1"); db->exec("PRAGMA synchronous=off");
        bool ok = db->exec("BEGIN IMMEDIATE") && runTx(*db, m.spec, txs[0]);
        _exit(ok ? 0 : 1);
      }
      int ws = 0;
      while (waitpid(pid, &ws, 0) < 0 && errno == EINTR) {}
      if (!WIFEXITED(ws) || WEXITSTATUS(ws)) c.fail("harness: crashed writer");
    } else {
      own.reset(new Db(victim, SQLITE_OPEN_READWRITE));
      other = own.get();
      sqlite3_busy_timeout(other->h, 0);
      other->exec("PRAGMA synchronous=off");
      other->exec("PRAGMA wal_autocheckpoint=" + std::to_string(s.below(2) ? 1000 : 1));
      if (kind == "reader") {
        if (sqlite3_prepare_v2(other->h, "SELECT id FROM zz_other", -1, &cursor, nullptr) != SQLITE_OK || sqlite3_step(cursor) != SQLITE_ROW) c.fail("harness: reader");
        rowsRead = 1;
        held = true;
      } else if (kind != "commits") {
        if (kind == "spilled") { other->exec("PRAGMA cache_size=1"); other->exec("PRAGMA cache_spill=1"); }
        if (!other->exec(kind == "exclusive" ? "BEGIN EXCLUSIVE" : "BEGIN IMMEDIATE") || !runTx(*other, m.spec, txs[0])) c.fail("harness: writer");
        held = true;
      }
    }
    // events in between
    int64_t step = 0;
    size_t next = 0;
    bool inside = false, lateFail = false;
    int refused = 0;
    auto endHeld = [&]() {
      if (cursor) { while (sqlite3_step(cursor) == SQLITE_ROW) ++rowsRead; sqlite3_finalize(cursor); cursor = nullptr; held = false; return; }
      if (!held) return;
      if (endCommits) {
        if (other->exec("COMMIT")) { ++committed; held = false; }
        else ++refused;
      } else { other->exec("ROLLBACK"); held = false; }
    };
    setYield([&](const char *) {
      if (inside) return;
      inside = true;
      int64_t k = step++;
      if (kind == "commits" && next < txs.size() && k >= at[next]) {
        if (other->exec("BEGIN IMMEDIATE") && runTx(*other, m.spec, txs[next]) && other->exec("COMMIT")) { ++next; ++committed; }
        else { if (!sqlite3_get_autocommit(other->h)) other->exec("ROLLBACK"); ++refused; }
      }
      if (kind == "ends in between" && held && k >= at[0]) endHeld();
      inside = false;
    });
    takeLog();
    int r = call();
    setYield(nullptr);
    std::string log = logText();
    size_t during = committed;
    if (refused) c.label("a writer was held off");
    if (kind == "commits") what += ", " + std::to_string(during) + " committed meanwhile, from step " + std::to_string(at[0]) + " on";
    if (kind == "ends in between") what += ", " + std::string(endCommits ? "commit" : "rollback") + " at step " + std::to_string(at[0]);
    what += r == 0 ? ": success" : ": failure";
    // the other connection goes on undisturbed
    if (held) {
      if (cursor) { endHeld(); if (rowsRead != 4) lateFail = true; }
      else {
        endCommits = commitHeld;
        endHeld();
        if (held) c.fail(what + ": the other connection cannot end its transaction afterwards: " + sqlite3_errmsg(other->h));
      }
    }
    if (lateFail) c.fail(what + ": the reader saw " + std::to_string(rowsRead) + " rows instead of 4");
    own.reset();
    std::string w;
    if (!integrityOk(victim, &w)) c.fail(what + ": database damaged: " + w);
    Snap now = snap(victim);
    if (r == 0) c.label(kind + ": success"); else c.label(kind + ": failure");
    if (during) c.label("committed meanwhile");
    if (kind != "reader") c.nontrivial();
    if (reading) {
      if (!sameSnap(states[committed], now, &w)) c.fail(what + ": the database in use does not hold what was committed there: " + w);
      bool quiet = wal ? kind != "crashed" : kind == "reader" || kind == "reserved" || kind == "commits";
      if (r != 0 && (quiet || kind == "crashed") && target.empty()) c.fail(what + " although nothing kept it from reading\n" + log);
      if (r == 0 && generic) {
        Changeset cs = mustDecode(readFile(out), "output");
        std::string why, first;
        bool ok = false;
        for (size_t i = 0; i <= during && !ok; ++i) {
          if (op == "diff") why = victim == m.base ? diffMismatch(states[i], sOurs, cs) : diffMismatch(sBase, states[i], cs);
          else { Snap none = states[i]; for (auto &kv : none.tables) { kv.second.rows.clear(); kv.second.loose.clear(); } why = diffMismatch(none, states[i], cs); }
          ok = why.empty();
          if (first.empty()) first = why;
        }
        if (!ok) c.fail(what + ": the output is not of any one state of the database; against the state before: " + first + "; against the last: " + why);
      }
      if (r == 0 && op == "rebased" && readFile(out) != refOut && !during) c.fail(what + ": other output than alone");
    }
    if (!target.empty()) {
      Snap t = reading ? snap(target) : now;
      Snap oldT = reading ? (target == m.base ? sBase : sOurs) : states[committed];
      Snap newT = refTarget;
      if (!reading) newT.tables["zz_other"] = states[committed].tables["zz_other"];
      if (!integrityOk(target, &w)) c.fail(what + ": target damaged: " + w);
      std::set<std::string> internals;   // nodes of a spatial index depend on the order of the changes
      for (auto &kv : t.tables) if (ignoredTable(kv.first) && kv.first.rfind("rtree_", 0) == 0) internals.insert(kv.first);
      if (r == 0 && !sameSnap(newT, t, &w, internals) && !(reading && during)) c.fail(what + ": the target is not in the new state: " + w);
      if (r != 0 && !sameSnap(oldT, t, &w)) c.fail(what + ": the target is not in the old state: " + w);
      if (r != 0 && (kind == "crashed" || (kind == "reader" && (wal || reading)))) c.fail(what + " although nothing was in the way\n" + log);
    }
    for (auto &x : {m.base, m.ours, m.theirs}) for (auto e : {"-journal", "-wal"}) if (exists(x + e)) c.fail(what + ": " + e + " of " + x + " is left although all connections are closed");
  }
}
static pbt::Reg r31({"C31", c31, "diff, dump, apply, rebase (in place) or rebased changeset of generated databases of which one is used by another connection (six times each): it commits 1-3 transactions at generated storage operations of the call, reads, holds a reserved or exclusive lock with uncommitted changes (in memory or spilled to the file), ends that transaction in the middle of the call, or is a writer that died; rollback journal and WAL. The other connection must go on undisturbed, outputs must be of one committed state, targets old or new, reading must succeed unless locked out. Non-trivial: the other connection writes.", 1500, 20000, 20});
