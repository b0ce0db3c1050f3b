// C05, C16-C18: reading changesets, listings, counts, dumps.
#include <unistd.h>
#include <array>
#include "env.hpp"
#include "changesets.hpp"
#include "merge.hpp"
#include "report.hpp"
#include <algorithm>
using pbt::Ctx;

static GenOpts smallOpts() {
  GenOpts o;
  o.maxRows = 6; o.maxCols = 5; o.wide = false; o.bigValues = false; o.badUtf8 = false;
  return o;
}
// a changeset file by one of the routes that make changesets; d is its content
static std::string someChangeset(Ctx &c, const std::string &path, Changeset &d, bool utf8 = true) {
  auto &s = c.src;
  switch (s.weighted({6, 4, 1, 1, 2})) {
    case 0: {
      SynthOpts so;
      so.keyChange = true; so.odd = s.below(3) == 2; so.validUtf8 = utf8; so.emptyGroups = s.below(3) == 2;
      d = genChangeset(s, so);
      std::string bytes;
      // table records of groups without entries are written as well
      size_t e = 0;
      for (size_t g = 0; g < d.groups; ++g) {
        bytes += encodeTable(d.groupTables[g], d.groupPk[g]);
        for (; e < d.entries.size() && d.entries[e].group == g + 1; ++e) bytes += encodeEntry(d.entries[e]);
      }
      writeFile(path, bytes);
      c.label("encoded");
      break;
    }
    case 1: case 2: case 3: {
      GenOpts o = smallOpts();
      o.bigValues = true;
      Pair p = genPair(c, o);
      if (s.below(3) == 2) { MUST_OK(c, GEODIFF_dumpData("sqlite", "", p.mod.c_str(), path.c_str())); c.label("dumped"); break; }
      MUST_OK(c, GEODIFF_createChangeset(p.base.c_str(), p.mod.c_str(), path.c_str()));
      if (s.below(3) == 2) {
        std::string inv = path + ".inv";
        MUST_OK(c, GEODIFF_invertChangeset(path.c_str(), inv.c_str()));
        rename(inv.c_str(), path.c_str());
        c.label("inverted");
      } else c.label("created");
      break;
    }
    default: {
      GenOpts g = mergeGenOpts();
      g.maxRows = 6; g.maxCols = 4;
      MergeOpts mo;
      MergeCase m = genMerge(c, g, mo);
      std::string b2t = c.dir + "m_b2t.bin", conf = c.dir + "m_conf.json";
      MUST_OK(c, GEODIFF_createChangeset(m.base.c_str(), m.theirs.c_str(), b2t.c_str()));
      MUST_OK(c, GEODIFF_createRebasedChangeset(m.base.c_str(), m.ours.c_str(), b2t.c_str(), path.c_str(), conf.c_str()));
      c.label("rebased");
    }
  }
  std::string bytes = readFile(path);
  d = mustDecode(bytes, "changeset");
  return bytes;
}
static void describeEntries(Ctx &c, const Changeset &d) {
  c.desc << d.entries.size() << " entries in " << d.groups << " table records\n";
  for (size_t k = 0; k < d.entries.size() && k < 12; ++k) c.desc << "  " << show(d.entries[k]).substr(0, 300) << "\n";
}

// ---- C16
static void c16(Ctx &c) {
  std::string cs = c.dir + "cs.bin", js = c.dir + "list.json";
  Changeset d;
  std::string bytes = someChangeset(c, cs, d);
  describeEntries(c, d);
  if (!d.entries.empty()) c.nontrivial();
  maybeStale(c, js);
  MUST_OK(c, GEODIFF_listChanges(cs.c_str(), js.c_str()));
  Json j;
  std::string w = parsedFile(js, j);
  c.check(w.empty(), "the listing is not valid JSON: " + w);
  const Json *arr = j.get("geodiff");
  c.check(arr && arr->k == Json::Arr && j.o.size() == 1, "the listing has no array");
  c.check(arr->a.size() == d.entries.size(), "the listing has " + std::to_string(arr->a.size()) + " records for " + std::to_string(d.entries.size()) + " entries");
  for (size_t k = 0; k < d.entries.size(); ++k) {
    const Entry &e = d.entries[k];
    const Json &r = arr->a[k];
    std::string at = "record " + std::to_string(k) + ": ";
    const Json *t = r.get("table"), *ty = r.get("type"), *ch = r.get("changes");
    c.check(t && t->k == Json::Str && t->s == e.table, at + "table");
    c.check(ty && ty->s == (e.op == INS ? "insert" : e.op == DEL ? "delete" : "update"), at + "operation");
    c.check(ch && ch->k == Json::Arr && r.o.size() == 3, at + "changes");
    size_t n = 0;
    for (size_t i = 0; i < e.pk.size(); ++i) {
      Val o = i < e.oldv.size() ? e.oldv[i] : Val(), nw = i < e.newv.size() ? e.newv[i] : Val();
      if (o.undef() && nw.undef()) continue;
      c.check(n < ch->a.size(), at + "column " + std::to_string(i) + " missing");
      const Json &x = ch->a[n++];
      const Json *col = x.get("column");
      c.check(col && col->k == Json::Num && col->s == std::to_string(i), at + "column index instead of " + std::to_string(i));
      c.check(jsonIs(x.get("old"), o), at + "old value of column " + std::to_string(i) + " is " + renderJson(x.get("old")) + " for " + show(o));
      c.check(jsonIs(x.get("new"), nw), at + "new value of column " + std::to_string(i) + " is " + renderJson(x.get("new")) + " for " + show(nw));
      c.check(x.o.size() == 1 + (o.undef() ? 0 : 1) + (nw.undef() ? 0 : 1), at + "additional members");
    }
    c.check(n == ch->a.size(), at + "too many columns");
  }
}
static pbt::Reg r16({"C16", c16, "changesets by an independent encoder (all value types, awkward texts and names, undefined values, key changes, repeated and empty table records) and by diffing, inverting, dumping and rebasing; the listing is read by a strict JSON parser and compared entry by entry and value by value. Non-trivial: at least one entry.", 14000, 140000, 50});

// ---- C17
static void c17(Ctx &c) {
  std::string cs = c.dir + "cs.bin", js = c.dir + "sum.json";
  Changeset d;
  if (c.src.below(6) == 5) {   // unreadable or malformed
    std::string bytes = someChangeset(c, cs, d);
    std::string what;
    Changeset x;
    bool readable = true;
    switch (c.src.below(4)) {
      case 0: cs = c.dir + "missing.bin"; what = "missing"; readable = false; break;
      case 1: if (bytes.empty()) throw pbt::Discard(); bytes = bytes.substr(0, 1 + c.src.below(bytes.size())); writeFile(cs, bytes); what = "truncated"; break;
      case 2: bytes += (char)(c.src.below(2) ? 'x' : 0); writeFile(cs, bytes); what = "garbage at the end"; break;
      default: bytes = "\x12" + bytes; writeFile(cs, bytes); what = "entry before a table"; break;
    }
    if (readable && decode(bytes, x).empty()) throw pbt::Discard();
    c.label("bad");
    c.nontrivial();
    c.desc << what << "\n";
    c.check(GEODIFF_changesCount(cs.c_str()) < 0, "changesCount gives " + std::to_string(GEODIFF_changesCount(cs.c_str())) + " for a file that is " + what);
    c.check(GEODIFF_listChangesSummary(cs.c_str(), js.c_str()) != 0, "summary succeeds for a file that is " + what);
    if (!readable) c.check(GEODIFF_hasChanges(cs.c_str()) < 0, "hasChanges gives " + std::to_string(GEODIFF_hasChanges(cs.c_str())) + " for a missing file");
    return;
  }
  std::string bytes = someChangeset(c, cs, d);
  describeEntries(c, d);
  if (d.entries.size() > 1) c.nontrivial();
  if (d.groups > 1) c.label("several-groups");
  int n = GEODIFF_changesCount(cs.c_str());
  c.check(n == (int)d.entries.size(), "changesCount is " + std::to_string(n));
  int h = GEODIFF_hasChanges(cs.c_str());
  bool own = true;
  for (auto &l : c.labels) own &= l != "encoded";
  if (own || bytes.empty() || !d.entries.empty()) c.check(h == (d.entries.empty() ? 0 : 1), "hasChanges is " + std::to_string(h) + " with " + std::to_string(d.entries.size()) + " entries");
  maybeStale(c, js);
  MUST_OK(c, GEODIFF_listChangesSummary(cs.c_str(), js.c_str()));
  Json j;
  std::string w = parsedFile(js, j);
  c.check(w.empty(), "the summary is not valid JSON: " + w);
  const Json *arr = j.get("geodiff_summary");
  c.check(arr && arr->k == Json::Arr && j.o.size() == 1, "the summary has no array");
  std::map<std::string, std::array<int, 3>> want;
  for (auto &e : d.entries) { auto &x = want.emplace(e.table, std::array<int, 3>{0, 0, 0}).first->second; ++x[e.op == INS ? 0 : e.op == UPD ? 1 : 2]; }
  std::set<std::string> seen;
  for (auto &r : arr->a) {
    const Json *t = r.get("table");
    c.check(t && t->k == Json::Str, "no table name");
    c.check(seen.insert(t->s).second, "table listed twice: " + t->s);
    auto i = want.find(t->s);
    c.check(i != want.end(), "table without entries listed: " + t->s);
    static const char *f[] = {"insert", "update", "delete"};
    for (int k = 0; k < 3; ++k) {
      const Json *v = r.get(f[k]);
      c.check(v && v->k == Json::Num && v->s == std::to_string(i->second[k]), std::string(f[k]) + " of " + t->s + " is " + (v ? v->s : "absent") + " instead of " + std::to_string(i->second[k]));
    }
    c.check(r.o.size() == 4, "additional members");
  }
  c.check(seen.size() == want.size(), "a table is missing in the summary");
}
static pbt::Reg r17({"C17", c17, "changesets as for C16, one in six missing, truncated, with garbage at the end or starting with an entry; count, has-changes and summary compared with an independent decoding. Non-trivial: more than one entry, or a bad file.", 14000, 140000, 50});

// ---- C18
static void c18(Ctx &c) {
  GenOpts o;
  o.wide = c.src.below(10) == 9;
  if (c.src.below(15) == 14) o.maxRows = 200;
  auto &s = c.src;
  DbSpec spec = genSpec(s, o);
  Data d = genData(s, spec, o), none;
  std::string db = c.dir + "db.gpkg", empty = c.dir + "empty.gpkg", dump = c.dir + "dump.bin", cs = c.dir + "cs.bin";
  writeDb(db, spec, d, genLayout(s));
  writeDb(empty, spec, none, genLayout(s));
  if (spec.gpkg) {   // catalogue rows are data as well; the reference systems of layers are part of the structure
    Db e(empty, SQLITE_OPEN_READWRITE);
    e.must("UPDATE gpkg_contents SET description='other'");
  }
  describe(c, spec);
  Snap sn = snap(db);
  c.desc << describe(sn, 4);
  size_t rows = 0;
  for (auto &kv : sn.tables) if (!ignoredTable(kv.first)) rows += kv.second.rows.size();
  if (rows > 1) c.nontrivial();
  for (auto &t : spec.tables) { if (!t.keyed()) c.label("no-key"); if (t.withoutRowid) c.label("without-rowid"); }
  if (spec.gpkg) c.label("gpkg");
  maybeStale(c, dump);
  MUST_OK(c, GEODIFF_dumpData("sqlite", s.below(2) ? "" : nullptr, db.c_str(), dump.c_str()));
  Changeset x = mustDecode(readFile(dump), "dump");
  std::map<std::string, std::set<std::string>> seen;
  for (auto &e : x.entries) {
    c.check(e.op == INS, "not an insert: " + show(e));
    auto t = sn.tables.find(e.table);
    c.check(t != sn.tables.end() && !ignoredTable(e.table) && t->second.keyed(), "entry of table " + e.table);
    std::vector<uint8_t> pk;
    for (auto &ci : t->second.cols) pk.push_back(ci.pk ? 1 : 0);
    c.check(e.pk.size() == pk.size(), "column count");
    for (size_t i = 0; i < pk.size(); ++i) c.check((e.pk[i] != 0) == (pk[i] != 0), "key flags of " + e.table);
    auto r = t->second.rows.find(entryKey(e));
    c.check(r != t->second.rows.end(), "row that does not exist: " + show(e));
    c.check(seen[e.table].insert(r->first).second, "row dumped twice: " + show(e));
    for (size_t i = 0; i < e.newv.size(); ++i) c.check(same(e.newv[i], r->second[i]), "value of " + show(e) + " column " + std::to_string(i) + " is " + show(r->second[i]) + " in the database");
  }
  for (auto &kv : sn.tables) if (!ignoredTable(kv.first) && kv.second.keyed()) c.check(seen[kv.first].size() == kv.second.rows.size(), "rows missing from the dump of " + kv.first);
  std::string w;
  for (size_t g = 0; g < x.groups; ++g) { bool any = false; for (auto &e : x.entries) any |= e.group == g + 1; c.check(any, "table record without rows"); }
  if (spec.gpkg) return;
  // rebuilds the data
  Snap se = snap(empty);
  MUST_OK(c, GEODIFF_createChangeset(empty.c_str(), db.c_str(), cs.c_str()));
  Changeset y = mustDecode(readFile(cs), "changeset from the empty database");
  auto keys = [](const Changeset &z) { std::vector<std::string> v; for (auto &e : z.entries) v.push_back(e.table + "|" + encodeEntry(e)); std::sort(v.begin(), v.end()); return v; };
  c.check(keys(x) == keys(y), "the dump is not the changeset from the empty database");
  MUST_OK(c, GEODIFF_applyChangeset(empty.c_str(), dump.c_str()));
  w = applyMismatch(se, sn, snap(empty));
  c.check(w.empty(), "data rebuilt from the dump: " + w);
}
static pbt::Reg r18({"C18", c18, "generated databases (as C01, up to 200 rows, 200 columns); the dump decoded independently: one complete insert per row of every keyed table, and for databases without catalogue tables equal as a set to the changeset from the empty database, and rebuilding the data when applied to it. Non-trivial: more than one row.", 12000, 120000, 40});

// ---- C05
static std::string mangle(pbt::Src &s, const std::string &in, const std::string &other) {
  std::string b = in;
  int n = 1 + (s.below(3) == 2 ? (int)s.below(4) : 0);
  for (int k = 0; k < n; ++k) {
    size_t at = b.empty() ? 0 : s.below(b.size());
    if (s.below(3) == 2 && b.size() > 24) at = s.below(24);
    switch (s.below(13)) {
      case 0: b = b.substr(0, at); break;
      case 1: if (!b.empty()) b[at] = (char)s.below(256); break;
      case 2: if (!b.empty()) b[at] ^= (char)(1u << s.below(8)); break;
      case 3: b.insert(at, 1, (char)s.below(256)); break;
      case 4: if (!b.empty()) b.erase(at, 1 + s.below(8)); break;
      case 5: { size_t l = std::min<size_t>(1 + s.below(40), b.size() - at); b.insert(at, b.substr(at, l)); break; }
      case 6: { static const std::vector<uint64_t> v = {0, 1, 127, 128, 16383, 16384, 65535, 65536, 65537, 2097152, 0x7fffffffULL, 0x80000000ULL, 0xffffffffULL, 0x100000000ULL, 0x7fffffffffffffffULL, 0xffffffffffffffffULL};
                b.replace(at, std::min<size_t>(1, b.size() - at), putVarint(v[s.below(v.size())])); break; }
      case 7: b += other.substr(0, s.below(other.size() + 1)); break;
      case 8: { static const std::string t[] = {std::string("T\x00", 2), std::string("T\x01\x01", 3), "T\x80", "T\xff\xff\xff\xff\xff\xff\xff\xff\xff", std::string("T\x84\x80\x00", 4), "\x12", std::string("\x17\x00", 2), std::string("\x09\x00\x03\xff\xff\xff\xff\x7f", 8), "\x04\x88", "\x00", std::string("\x12\x00\x00", 3), "P", "t"};
                b.insert(at, t[s.below(13)]); break; }
      case 9: { size_t l = s.below(12); for (size_t i = 0; i < l; ++i) b += (char)s.below(256); break; }
      case 10: if (b.size() > 1) b[at] = (char)s.below(7); break;   // value types
      case 11: { // the last byte of the file is part of a length
                b += std::string("\x12\x00\x03", 3) + (char)(0x80 | s.below(128)); break; }
      default: if (b.size() > 3) b.resize(b.size() - 1 - s.below(3)); break;
    }
  }
  return b;
}
static void c05(Ctx &c) {
  auto &s = c.src;
  GenOpts o = smallOpts();
  o.maxRows = 4; o.maxCols = 4; o.rebaseKeys = s.below(2); if (o.rebaseKeys) o.composite = o.blobKey = o.realKey = false;
  o.emptyTableName = false;
  Pair p = genPair(c, o);
  std::string good = c.dir + "good.bin", cs = c.dir + "cs.bin", out = c.dir + "out.bin", conf = c.dir + "conf.json", target = c.dir + "target.gpkg";
  MUST_OK(c, GEODIFF_createChangeset(p.base.c_str(), p.mod.c_str(), good.c_str()));
  std::string gb = readFile(good), bytes;
  Changeset syn;
  if (s.below(3) == 2) { SynthOpts so; so.keyChange = so.odd = true; syn = genChangeset(s, so); }
  switch (s.weighted({6, 2, 1})) {
    case 0: bytes = mangle(s, gb, encode(syn)); break;
    case 1: bytes = mangle(s, encode(syn), gb); break;
    default: { size_t n = s.below(60); for (size_t i = 0; i < n; ++i) bytes += (char)s.below(256); }
  }
  writeFile(cs, bytes);
  Changeset d;
  std::string err = decode(bytes, d);
  c.desc << "file of " << bytes.size() << " bytes: " << hex(bytes.substr(0, 200)) << "\n" << (err.empty() ? "well-formed" : err) << "\n";
  c.label(err.empty() ? "well-formed" : "malformed");
  c.nontrivial();
  c.hash = pbt::hashBytes(bytes) + 1;
  bool bad = !err.empty();
  copyFile(p.base, target);
  Snap before = snap(target);
  int rc = GEODIFF_listChanges(cs.c_str(), out.c_str());
  c.check((rc != 0) == bad, "listChanges returned " + std::to_string(rc) + " (" + err + ")");
  rc = GEODIFF_listChangesSummary(cs.c_str(), out.c_str());
  c.check((rc != 0) == bad, "listChangesSummary returned " + std::to_string(rc) + " (" + err + ")");
  rc = GEODIFF_changesCount(cs.c_str());
  c.check(bad ? rc < 0 : rc == (int)d.entries.size(), "changesCount returned " + std::to_string(rc) + " (" + err + ")");
  rc = GEODIFF_hasChanges(cs.c_str());
  c.check(rc >= -1 && rc <= 1, "hasChanges returned " + std::to_string(rc));
  rc = GEODIFF_invertChangeset(cs.c_str(), out.c_str());
  c.check((rc != 0) == bad, "invertChangeset returned " + std::to_string(rc) + " (" + err + ")");
  rc = GEODIFF_applyChangeset(target.c_str(), cs.c_str());
  if (bad) c.check(rc != 0, "applyChangeset reported success (" + err + ")");
  std::string w;
  if (rc != 0 && !sameSnap(before, snap(target), &w)) c.fail("database altered by a failed apply: " + w);
  if (!bad && d.entries.empty() && rc != 0) c.fail("apply of a changeset without entries fails");
  // a rebase has to return, whatever it makes of them
  GEODIFF_createRebasedChangesetEx("sqlite", "", p.base.c_str(), good.c_str(), cs.c_str(), out.c_str(), conf.c_str());
  GEODIFF_createRebasedChangesetEx("sqlite", "", p.base.c_str(), cs.c_str(), good.c_str(), out.c_str(), conf.c_str());
  if (s.below(4) == 3) {
    copyFile(p.mod, target);
    before = snap(target);
    rc = GEODIFF_rebaseEx("sqlite", "", p.base.c_str(), target.c_str(), cs.c_str(), conf.c_str());
    if (rc != 0 && !sameSnap(before, snap(target), &w)) c.fail("database altered by a failed rebase: " + w);
    if (bad) c.check(rc != 0, "rebaseEx reported success (" + err + ")");
  }
  c.check(readFile(cs) == bytes, "the changeset was altered");
}
static pbt::Reg r05({"C05.gen", c05, "a changeset of a generated pair or by the independent encoder with 1-5 byte-level changes (cut, flipped, inserted, erased, doubled, lengths replaced by boundary values, record types, splices, cut varints) or random bytes, run through every reading operation under AddressSanitizer and UBSan; whether it has to be refused is decided by an independent decoder. All are non-trivial (labels tell malformed from well-formed).", 5000, 60000, 40});

// files whose size does not fit the types sizes are kept in: the start of the file is a complete changeset
static void c05huge(Ctx &c) {
  auto &s = c.src;
  GenOpts o = smallOpts();
  o.maxRows = 4; o.maxCols = 4; o.rebaseKeys = true; o.composite = o.blobKey = o.realKey = false;
  o.emptyTableName = false;
  Pair p = genPair(c, o);
  std::string good = c.dir + "good.bin", cs = c.dir + "cs.bin", out = c.dir + "out.bin", conf = c.dir + "conf.json", target = c.dir + "target.gpkg";
  MUST_OK(c, GEODIFF_createChangeset(p.base.c_str(), p.mod.c_str(), good.c_str()));
  std::string gb = readFile(good);
  if (s.below(8) == 7) gb.clear();
  std::vector<uint64_t> sizes = {0x80000000ULL, 0xffffffffULL, 0x80000000ULL + gb.size(), 0x7fffffffULL};
  for (int64_t k : {1, 2, 3, 256}) { uint64_t b = (uint64_t)k << 32; sizes.push_back(b); sizes.push_back(b + gb.size()); sizes.push_back(b + gb.size() / 2); sizes.push_back(b + gb.size() + 1); }
  uint64_t size = sizes[s.below(sizes.size())];
  writeFile(cs, gb);
  if (truncate(cs.c_str(), (off_t)size) != 0) { c.label("the file system has no files of this size"); return; }
  c.desc << "changeset of " << gb.size() << " bytes, then zeros up to " << size << " bytes\n";
  c.label(size >> 32 ? ((size & 0xffffffffULL) == gb.size() ? "a changeset, modulo 2^32" : "above 2^32") : "between 2^31 and 2^32");
  c.nontrivial();
  copyFile(p.base, target);
  Snap before = snap(target);
  int rc = GEODIFF_changesCount(cs.c_str());
  c.check(rc < 0, "changesCount returned " + std::to_string(rc));
  rc = GEODIFF_hasChanges(cs.c_str());
  c.check(rc != 0, "hasChanges returned 0 (no changes)");
  rc = GEODIFF_listChanges(cs.c_str(), out.c_str());
  c.check(rc != 0, "listChanges reported success");
  rc = GEODIFF_listChangesSummary(cs.c_str(), out.c_str());
  c.check(rc != 0, "listChangesSummary reported success");
  rc = GEODIFF_invertChangeset(cs.c_str(), out.c_str());
  c.check(rc != 0, "invertChangeset reported success");
  rc = GEODIFF_applyChangeset(target.c_str(), cs.c_str());
  c.check(rc != 0, "applyChangeset reported success");
  std::string w;
  if (!sameSnap(before, snap(target), &w)) c.fail("database altered by a failed apply: " + w);
  if (!gb.empty()) {
    rc = GEODIFF_createRebasedChangesetEx("sqlite", "", p.base.c_str(), good.c_str(), cs.c_str(), out.c_str(), conf.c_str());
    c.check(rc != 0, "createRebasedChangesetEx reported success (the file is theirs)");
    rc = GEODIFF_createRebasedChangesetEx("sqlite", "", p.base.c_str(), cs.c_str(), good.c_str(), out.c_str(), conf.c_str());
    c.check(rc != 0, "createRebasedChangesetEx reported success (the file is ours)");
  }
  copyFile(p.mod, target);
  before = snap(target);
  rc = GEODIFF_rebaseEx("sqlite", "", p.base.c_str(), target.c_str(), cs.c_str(), conf.c_str());
  c.check(rc != 0, "rebaseEx reported success");
  if (!sameSnap(before, snap(target), &w)) c.fail("database altered by a failed rebase: " + w);
}
static pbt::Reg r05h({"C05.huge", c05huge, "sparse files of 2^31-1 to 2^40 bytes that start with a complete changeset (sizes whose low 32 bits are those of the changeset among them), through every operation that reads changesets: all have to report an error and leave the database alone.", 300, 4000, 20});
