#include "model.hpp"
#include "gpkgstub/gpkg.h"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <unistd.h>
#include <sys/stat.h>
namespace fs = std::filesystem;

bool same(const Val &a, const Val &b) {
  if (a.t != b.t) return false;
  if (a.t == Val::Int) return a.i == b.i;
  if (a.t == Val::Real) return memcmp(&a.r, &b.r, 8) == 0;
  if (a.t == Val::Text || a.t == Val::Blob) return a.s == b.s;
  return true;
}
bool numEq(const Val &a, const Val &b) {
  if (!a.num() || !b.num()) return false;
  long double x = a.t == Val::Int ? (long double)a.i : (long double)a.r;
  long double y = b.t == Val::Int ? (long double)b.i : (long double)b.r;
  return x == y;
}
std::string hex(const std::string &s) {
  static const char *d = "0123456789abcdef";
  std::string r;
  for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
  return r;
}
std::string show(const Val &v) {
  char b[64];
  switch (v.t) {
    case Val::Undef: return "-";
    case Val::Null: return "NULL";
    case Val::Int: return std::to_string(v.i);
    case Val::Real: snprintf(b, sizeof b, "%.17gr", v.r); return b;
    case Val::Text: {
      std::string r = "'";
      for (unsigned char c : v.s.substr(0, 40)) {
        if (c < 0x20 || c == 0x7f) { snprintf(b, sizeof b, "\\x%02x", c); r += b; } else r += c;
      }
      r += "'";
      if (v.s.size() > 40) r += "[" + std::to_string(v.s.size()) + "]";
      return r;
    }
    case Val::Blob: return "x'" + hex(v.s.substr(0, 24)) + "'" + (v.s.size() > 24 ? "[" + std::to_string(v.s.size()) + "]" : "");
  }
  return "?";
}
std::string show(const Row &r) {
  std::string s = "(";
  for (size_t i = 0; i < r.size(); ++i) s += (i ? ", " : "") + show(r[i]);
  return s + ")";
}
std::string keyEnc(const Val &v) {
  std::string r;
  Val w = v;
  if (w.t == Val::Real && w.r == std::floor(w.r) && w.r >= -9.2e18 && w.r <= 9.2e18 && (double)(int64_t)w.r == w.r) w = Val::integer((int64_t)w.r);
  r += (char)('0' + w.t);
  if (w.t == Val::Int) {
    uint64_t x = (uint64_t)w.i ^ 0x8000000000000000ULL;
    for (int k = 7; k >= 0; --k) r += (char)(x >> (8 * k));
  } else if (w.t == Val::Real) r.append((const char *)&w.r, 8);
  else r += std::to_string(w.s.size()) + ":" + w.s;
  return r;
}
std::string TableData::key(const Row &r) const { std::string k; for (int i : pk) k += keyEnc(r[i]); return k; }

bool ignoredTable(const std::string &n) { return n.rfind("gpkg_ogr_contents", 0) == 0 || n.rfind("rtree_", 0) == 0 || n.rfind("sqlite_", 0) == 0; }

static bool sameRow(const Row &a, const Row &b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i])) return false;
  return true;
}
bool sameTable(const TableData &a, const TableData &b, std::string *why) {
  auto w = [&](const std::string &s) { if (why) *why = "table " + q(a.name) + ": " + s; return false; };
  if (a.keyed() != b.keyed()) return w("key differs");
  if (!a.keyed()) {
    if (a.loose.size() != b.loose.size()) return w("number of rows differs: " + std::to_string(a.loose.size()) + " / " + std::to_string(b.loose.size()));
    for (size_t i = 0; i < a.loose.size(); ++i) if (!sameRow(a.loose[i], b.loose[i])) return w("rows differ " + show(a.loose[i]) + " / " + show(b.loose[i]));
    return true;
  }
  for (auto &kv : a.rows) {
    auto it = b.rows.find(kv.first);
    if (it == b.rows.end()) return w("row missing in the second: " + show(kv.second));
    if (!sameRow(kv.second, it->second)) return w("row differs: " + show(kv.second) + " / " + show(it->second));
  }
  for (auto &kv : b.rows) if (!a.rows.count(kv.first)) return w("row missing in the first: " + show(kv.second));
  return true;
}
bool sameSnap(const Snap &a, const Snap &b, std::string *why, const std::set<std::string> &skip) {
  if (a.schema != b.schema) {
    if (why) {
      *why = "schema differs:";
      for (auto &s : a.schema) if (std::find(b.schema.begin(), b.schema.end(), s) == b.schema.end()) *why += "\n  only first: " + s;
      for (auto &s : b.schema) if (std::find(a.schema.begin(), a.schema.end(), s) == a.schema.end()) *why += "\n  only second: " + s;
    }
    return false;
  }
  for (auto &kv : a.tables) {
    if (skip.count(kv.first)) continue;
    auto it = b.tables.find(kv.first);
    if (it == b.tables.end()) { if (why) *why = "table " + kv.first + " missing"; return false; }
    if (!sameTable(kv.second, it->second, why)) return false;
  }
  return true;
}

Db::Db(const std::string &path, int flags) {
  if (sqlite3_open_v2(path.c_str(), &h, flags, "unix") != SQLITE_OK) throw std::runtime_error("harness: cannot open " + path + ": " + (h ? sqlite3_errmsg(h) : ""));
  sqlite3_busy_timeout(h, 5000);
  sqlite3_gpkg_auto_init(h, nullptr, nullptr);
}
Db::~Db() { if (h) sqlite3_close_v2(h); }
bool Db::exec(const std::string &sql, std::string *err) {
  char *e = nullptr;
  int rc = sqlite3_exec(h, sql.c_str(), nullptr, nullptr, &e);
  if (err && e) *err = e;
  sqlite3_free(e);
  return rc == SQLITE_OK;
}
void Db::must(const std::string &sql) {
  std::string e;
  if (!exec(sql, &e)) throw std::runtime_error("harness: " + e + " in " + sql);
}
Val colVal(sqlite3_stmt *s, int i) {
  switch (sqlite3_column_type(s, i)) {
    case SQLITE_INTEGER: return Val::integer(sqlite3_column_int64(s, i));
    case SQLITE_FLOAT: return Val::real(sqlite3_column_double(s, i));
    case SQLITE_NULL: return Val::null();
    case SQLITE_TEXT: { const char *p = (const char *)sqlite3_column_text(s, i); return Val::text(std::string(p ? p : "", sqlite3_column_bytes(s, i))); }
    default: { const char *p = (const char *)sqlite3_column_blob(s, i); int n = sqlite3_column_bytes(s, i); return Val::blob(p ? std::string(p, n) : ""); }
  }
}
int Db::run(const std::string &sql, const std::vector<Val> &args, std::vector<Row> *out) {
  sqlite3_stmt *s = nullptr;
  int rc = sqlite3_prepare_v2(h, sql.c_str(), -1, &s, nullptr);
  if (rc != SQLITE_OK) return rc;
  for (size_t k = 0; k < args.size(); ++k) {
    int i = (int)k + 1;
    const Val &v = args[k];
    if (v.t == Val::Int) sqlite3_bind_int64(s, i, v.i);
    else if (v.t == Val::Real) sqlite3_bind_double(s, i, v.r);
    else if (v.t == Val::Text) sqlite3_bind_text64(s, i, v.s.c_str(), v.s.size(), SQLITE_TRANSIENT, SQLITE_UTF8);
    else if (v.t == Val::Blob) sqlite3_bind_blob64(s, i, v.s.c_str(), v.s.size(), SQLITE_TRANSIENT);
    else sqlite3_bind_null(s, i);
  }
  while ((rc = sqlite3_step(s)) == SQLITE_ROW)
    if (out) { Row r; for (int i = 0; i < sqlite3_column_count(s); ++i) r.push_back(colVal(s, i)); out->push_back(std::move(r)); }
  sqlite3_finalize(s);
  return rc;
}
Val Db::scalar(const std::string &sql, const std::vector<Val> &args) { auto r = query(sql, args); return r.empty() ? Val() : r[0][0]; }
std::vector<Row> Db::query(const std::string &sql, const std::vector<Val> &args) {
  std::vector<Row> out;
  int rc = run(sql, args, &out);
  if (rc != SQLITE_DONE) throw std::runtime_error("harness query failed: " + std::string(sqlite3_errmsg(h)) + " in " + sql);
  return out;
}
std::string q(const std::string &s) { std::string r = "\""; for (char c : s) { if (c == '"') r += '"'; r += c; } return r + "\""; }
std::string ql(const std::string &s) { std::string r = "'"; for (char c : s) { if (c == '\'') r += '\''; r += c; } return r + "'"; }

static bool rowLess(const Row &a, const Row &b) { return show(a) < show(b); }

TableData readTable(Db &db, const std::string &name) {
  TableData t;
  t.name = name;
  for (auto &r : db.query("PRAGMA table_info(" + ql(name) + ")")) {
    ColInfo c;
    c.name = r[1].s; c.type = r[2].s; c.notNull = r[3].i != 0; c.pk = (int)r[5].i;
    if (c.pk) t.pk.push_back((int)t.cols.size());
    t.cols.push_back(c);
  }
  std::string cols;
  for (auto &c : t.cols) cols += (cols.empty() ? "" : ",") + q(c.name);
  for (auto &r : db.query("SELECT " + cols + " FROM " + q(name))) {
    if (t.keyed()) {
      std::string k = t.key(r);
      if (!t.rows.emplace(k, r).second) t.rows.emplace(k + "#" + std::to_string(t.rows.size()), r);   // NULL in keys
    } else t.loose.push_back(r);
  }
  std::sort(t.loose.begin(), t.loose.end(), rowLess);
  return t;
}
Snap snap(const std::string &path) {
  Snap s;
  Db db(path, SQLITE_OPEN_READWRITE);
  std::vector<std::string> names;
  for (auto &r : db.query("SELECT type, name, tbl_name, sql FROM sqlite_master")) {
    s.schema.push_back(r[0].s + "|" + r[1].s + "|" + r[2].s + "|" + r[3].s);
    if (r[0].s == "table") names.push_back(r[1].s);
  }
  std::sort(s.schema.begin(), s.schema.end());
  for (auto &n : names) s.tables[n] = readTable(db, n);
  return s;
}
bool integrityOk(const std::string &path, std::string *why) {
  Db db(path, SQLITE_OPEN_READWRITE);
  std::vector<Row> r;
  int rc = db.run("PRAGMA integrity_check", {}, &r);
  if (rc == SQLITE_DONE && r.size() == 1 && r[0][0].s == "ok") return true;
  if (why) *why = r.empty() ? "rc " + std::to_string(rc) : r[0][0].s;
  return false;
}

std::string readFile(const std::string &path, bool *ok) {
  std::ifstream in(path, std::ios::binary);
  if (ok) *ok = (bool)in;
  return std::string((std::istreambuf_iterator<char>(in)), {});
}
void writeFile(const std::string &path, const std::string &data) {
  std::ofstream o(path, std::ios::binary | std::ios::trunc);
  o.write(data.data(), data.size());
  o.close();
  if (!o) throw std::runtime_error("harness: cannot write " + path);
}
void copyFile(const std::string &from, const std::string &to) {
  writeFile(to, readFile(from));
  for (const char *sfx : {"-wal", "-journal"}) if (exists(from + sfx)) writeFile(to + sfx, readFile(from + sfx));
}
bool exists(const std::string &p) { struct stat st; return lstat(p.c_str(), &st) == 0; }
std::vector<std::string> listDir(const std::string &dir) {
  std::vector<std::string> v;
  std::error_code ec;
  for (auto &e : fs::recursive_directory_iterator(dir, ec)) v.push_back(fs::relative(e.path(), dir).string());
  std::sort(v.begin(), v.end());
  return v;
}

// ---------- changesets
namespace {
struct Rd {
  const std::string &b;
  size_t p = 0;
  std::string err;
  bool byte(uint8_t &v) { if (p >= b.size()) { err = "truncated"; return false; } v = (uint8_t)b[p++]; return true; }
  bool varint(uint64_t &v) {
    v = 0;
    for (int k = 0; k < 9; ++k) {
      uint8_t c;
      if (!byte(c)) return false;
      if (k == 8) { v = (v << 8) | c; return true; }
      v = (v << 7) | (c & 0x7f);
      if (!(c & 0x80)) return true;
    }
    return true;
  }
};
}  // namespace
static bool readRow(Rd &r, size_t n, Row &row) {
  row.clear();
  for (size_t k = 0; k < n; ++k) {
    uint8_t t;
    if (!r.byte(t)) return false;
    Val v;
    if (t == 1 || t == 2) {
      if (r.b.size() - r.p < 8) { r.err = "truncated number"; return false; }
      uint64_t x = 0;
      for (int j = 0; j < 8; ++j) x = (x << 8) | (uint8_t)r.b[r.p++];
      if (t == 1) v = Val::integer((int64_t)x); else { double d; memcpy(&d, &x, 8); v = Val::real(d); }
    } else if (t == 3 || t == 4) {
      uint64_t len;
      if (!r.varint(len)) return false;
      if (len > r.b.size() - r.p) { r.err = "length beyond the end"; return false; }
      v = t == 3 ? Val::text(r.b.substr(r.p, len)) : Val::blob(r.b.substr(r.p, len));
      r.p += len;
    } else if (t == 5) v = Val::null();
    else if (t != 0) { r.err = "unknown value type " + std::to_string(t); return false; }
    row.push_back(std::move(v));
  }
  return true;
}
std::string decode(const std::string &bytes, Changeset &out) {
  Rd r{bytes};
  std::string table;
  std::vector<uint8_t> pk;
  out = Changeset();
  while (r.p < bytes.size()) {
    uint8_t c;
    r.byte(c);
    if (c == 'T') {
      uint64_t n;
      if (!r.varint(n)) return r.err;
      if (n == 0 || n > 65536) return "column count " + std::to_string(n);
      pk.clear();
      for (uint64_t k = 0; k < n; ++k) { uint8_t f; if (!r.byte(f)) return r.err; pk.push_back(f); }
      size_t e = bytes.find('\0', r.p);
      if (e == std::string::npos) return "unterminated table name";
      table = bytes.substr(r.p, e - r.p);
      r.p = e + 1;
      out.groups++;
      out.groupTables.push_back(table);
      out.groupPk.push_back(pk);
    } else if (c == INS || c == DEL || c == UPD) {
      if (pk.empty()) return "entry before a table";
      Entry e;
      e.op = c;
      uint8_t ind;
      if (!r.byte(ind)) return r.err;
      e.indirect = ind != 0;
      e.table = table;
      e.pk = pk;
      e.group = out.groups;
      if (c != INS && !readRow(r, pk.size(), e.oldv)) return r.err;
      if (c != DEL && !readRow(r, pk.size(), e.newv)) return r.err;
      out.entries.push_back(std::move(e));
    } else return "unknown record " + std::to_string(c);
  }
  return "";
}
Changeset mustDecode(const std::string &bytes, const std::string &what) {
  Changeset cs;
  std::string e = decode(bytes, cs);
  if (!e.empty()) throw std::runtime_error(what + " is not a well-formed changeset: " + e);
  return cs;
}
std::string putVarint(uint64_t v) {
  if (v >> 56) {
    std::string s(9, 0);
    s[8] = (char)v;
    v >>= 8;
    for (int i = 7; i >= 0; --i) { s[i] = (char)((v & 0x7f) | 0x80); v >>= 7; }
    return s;
  }
  std::string s;
  do { s.insert(s.begin(), (char)((v & 0x7f) | (s.empty() ? 0 : 0x80))); v >>= 7; } while (v);
  return s;
}
std::string encodeVal(const Val &v) {
  std::string s(1, (char)v.t);
  if (v.t == Val::Int || v.t == Val::Real) {
    uint64_t x;
    if (v.t == Val::Int) x = (uint64_t)v.i; else memcpy(&x, &v.r, 8);
    for (int k = 7; k >= 0; --k) s += (char)(x >> (8 * k));
  } else if (v.t == Val::Text || v.t == Val::Blob) s += putVarint(v.s.size()) + v.s;
  return s;
}
std::string encodeTable(const std::string &name, const std::vector<uint8_t> &pk) {
  std::string s = "T" + putVarint(pk.size());
  for (uint8_t f : pk) s += (char)f;
  return s + name + std::string(1, 0);
}
std::string encodeEntry(const Entry &e) {
  std::string s(1, (char)e.op);
  s += (char)(e.indirect ? 1 : 0);
  if (e.op != INS) for (auto &v : e.oldv) s += encodeVal(v);
  if (e.op != DEL) for (auto &v : e.newv) s += encodeVal(v);
  return s;
}
std::string encode(const Changeset &cs) {
  std::string s;
  size_t g = (size_t)-1;
  for (auto &e : cs.entries) {
    if (e.group != g) { s += encodeTable(e.table, e.pk); g = e.group; }
    s += encodeEntry(e);
  }
  return s;
}
std::string show(const Entry &e) {
  std::string s = e.op == INS ? "INSERT " : e.op == DEL ? "DELETE " : "UPDATE ";
  s += q(e.table);
  if (e.op != INS) s += " old" + show(e.oldv);
  if (e.op != DEL) s += " new" + show(e.newv);
  return s;
}
std::string entryKey(const Entry &e) {
  std::string k;
  for (size_t i = 0; i < e.pk.size(); ++i) if (e.pk[i]) k += keyEnc(e.keyRow()[i]);
  return k;
}
bool sameEntry(const Entry &a, const Entry &b) {
  if (a.op != b.op || a.table != b.table || a.pk.size() != b.pk.size()) return false;
  for (size_t i = 0; i < a.pk.size(); ++i) if (!a.pk[i] != !b.pk[i]) return false;
  return sameRow(a.oldv, b.oldv) && sameRow(a.newv, b.newv);
}
Entry invertEntry(const Entry &e) {
  Entry r = e;
  r.indirect = false;
  std::swap(r.oldv, r.newv);
  if (e.op == INS) r.op = DEL;
  else if (e.op == DEL) r.op = INS;
  else for (size_t i = 0; i < e.pk.size(); ++i) if (e.pk[i] && r.oldv[i].undef()) { r.oldv[i] = r.newv[i]; r.newv[i] = Val(); }
  return r;
}

std::string diffMismatch(const Snap &base, const Snap &mod, const Changeset &cs) {
  std::map<std::string, std::map<std::string, const Entry *>> got;
  for (auto &e : cs.entries) {
    auto bt = base.tables.find(e.table);
    if (bt == base.tables.end()) return "entry of an unknown table: " + show(e);
    if (ignoredTable(e.table) || !bt->second.keyed()) return "entry of a table that is not to be compared: " + show(e);
    if (e.pk.size() != bt->second.cols.size()) return "wrong number of columns: " + show(e);
    for (size_t i = 0; i < e.pk.size(); ++i) if ((e.pk[i] != 0) != (bt->second.cols[i].pk != 0)) return "wrong key flags: " + show(e);
    for (size_t i = 0; i < e.pk.size(); ++i) {
      if (e.op == INS && e.newv[i].undef()) return "undefined value in an insert: " + show(e);
      if (e.op == DEL && e.oldv[i].undef()) return "undefined value in a delete: " + show(e);
    }
    if (!got[e.table].emplace(entryKey(e), &e).second) return "two entries for one row: " + show(e);
  }
  for (auto &kv : base.tables) {
    const TableData &bt = kv.second;
    if (ignoredTable(kv.first) || !bt.keyed()) continue;
    auto mi = mod.tables.find(kv.first);
    if (mi == mod.tables.end()) return "table missing in modified";
    const TableData &mt = mi->second;
    auto &g = got[kv.first];
    size_t used = 0;
    auto find = [&](const std::string &k) -> const Entry * { auto i = g.find(k); return i == g.end() ? nullptr : i->second; };
    for (auto &m : mt.rows) {
      const Entry *e = find(m.first);
      auto b = bt.rows.find(m.first);
      if (b == bt.rows.end()) {
        if (!e || e->op != INS) return "no insert entry for added row of " + q(kv.first) + " " + show(m.second) + (e ? " but " + show(*e) : "");
        if (!sameRow(e->newv, m.second)) return "insert entry with wrong values: " + show(*e) + " row " + show(m.second);
        ++used;
        continue;
      }
      bool differs = false, repr = false;
      for (size_t i = 0; i < m.second.size(); ++i) {
        if (!equiv(b->second[i], m.second[i])) differs = true;
        else if (!same(b->second[i], m.second[i])) repr = true;
      }
      if (!differs && !repr) {
        if (e) return "entry for an unchanged row " + show(m.second) + ": " + show(*e);
        continue;
      }
      if (!e) { if (differs) return "no update entry for altered row of " + q(kv.first) + " " + show(b->second) + " -> " + show(m.second); continue; }
      if (e->op != UPD) return "wrong entry for an altered row " + show(b->second) + " -> " + show(m.second) + ": " + show(*e);
      ++used;
      for (size_t i = 0; i < m.second.size(); ++i) {
        const Val &o = e->oldv[i], &n = e->newv[i], &bv = b->second[i], &mv = m.second[i];
        bool ok;
        if (bt.cols[i].pk) ok = same(o, bv) && (n.undef() || (!same(bv, mv) && same(n, mv)));
        else if (same(bv, mv)) ok = o.undef() && n.undef();
        else if (numEq(bv, mv)) ok = (o.undef() && n.undef()) || (same(o, bv) && same(n, mv));
        else ok = same(o, bv) && same(n, mv);
        if (!ok) return "update entry wrong in column " + std::to_string(i) + ": " + show(*e) + " for " + show(b->second) + " -> " + show(m.second);
      }
    }
    for (auto &b : bt.rows) {
      if (mt.rows.count(b.first)) continue;
      const Entry *e = find(b.first);
      if (!e || e->op != DEL) return "no delete entry for removed row of " + q(kv.first) + " " + show(b.second);
      if (!sameRow(e->oldv, b.second)) return "delete entry with wrong values: " + show(*e) + " row " + show(b.second);
      ++used;
    }
    if (used != g.size()) return "entries for rows that are in neither database, table " + q(kv.first);
  }
  return "";
}
size_t realDifferences(const Snap &base, const Snap &mod) {
  size_t n = 0;
  for (auto &kv : base.tables) {
    if (ignoredTable(kv.first) || !kv.second.keyed()) continue;
    auto it = mod.tables.find(kv.first);
    if (it == mod.tables.end()) continue;
    for (auto &b : kv.second.rows) {
      auto m = it->second.rows.find(b.first);
      if (m == it->second.rows.end()) { ++n; continue; }
      for (size_t i = 0; i < b.second.size(); ++i) if (!equiv(b.second[i], m->second[i])) { ++n; break; }
    }
    for (auto &m : it->second.rows) if (!kv.second.rows.count(m.first)) ++n;
  }
  return n;
}
std::string applyMismatch(const Snap &base, const Snap &mod, const Snap &after) {
  if (base.schema != after.schema) { std::string w; sameSnap(base, after, &w); return w; }
  for (auto &kv : base.tables) {
    if (ignoredTable(kv.first)) continue;
    auto ai = after.tables.find(kv.first);
    if (ai == after.tables.end()) return "table " + q(kv.first) + " is gone";
    const TableData &at = ai->second;
    if (!kv.second.keyed()) { std::string w; if (!sameTable(kv.second, at, &w)) return "table without key altered: " + w; continue; }
    const TableData &mt = mod.tables.at(kv.first);
    for (auto &m : mt.rows) {
      auto a = at.rows.find(m.first);
      if (a == at.rows.end()) return "row missing after apply in " + q(kv.first) + ": " + show(m.second);
      auto b = kv.second.rows.find(m.first);
      for (size_t i = 0; i < m.second.size(); ++i) {
        if (same(a->second[i], m.second[i])) continue;
        if (b != kv.second.rows.end() && numEq(a->second[i], m.second[i]) && same(a->second[i], b->second[i])) continue;
        return "row differs after apply in " + q(kv.first) + " column " + std::to_string(i) + ": is " + show(a->second) + " expected " + show(m.second) +
               (b == kv.second.rows.end() ? "" : " base " + show(b->second));
      }
    }
    for (auto &a : at.rows) if (!mt.rows.count(a.first)) return "unexpected row after apply in " + q(kv.first) + ": " + show(a.second);
  }
  return "";
}

std::string refApply(const std::string &path, const Changeset &cs) {
  Db db(path, SQLITE_OPEN_READWRITE);
  db.must("PRAGMA synchronous=off");
  db.must("BEGIN IMMEDIATE");
  // user triggers must not fire
  std::vector<std::pair<std::string, std::string>> trg;
  for (auto &r : db.query("SELECT name, sql FROM sqlite_master WHERE type='trigger'")) {
    const std::string &n = r[0].s;
    if (n.rfind("gpkg_", 0) == 0 || n.rfind("rtree_", 0) == 0 || n.rfind("trigger_insert_feature_count_", 0) == 0 || n.rfind("trigger_delete_feature_count_", 0) == 0) continue;
    trg.emplace_back(n, r[1].s);
    db.must("DROP TRIGGER " + q(n));
  }
  auto fail = [&](const std::string &m) { if (!sqlite3_get_autocommit(db.h)) db.must("ROLLBACK"); return m; };
  std::string tname;
  TableData t;
  size_t group = (size_t)-1;
  for (auto &e : cs.entries) {
    if (e.group != group) {
      group = e.group;
      if (db.query("SELECT 1 FROM sqlite_master WHERE type='table' AND name=?1", {Val::text(e.table)}).empty()) return fail("no such table " + e.table);
      t = TableData();
      t.name = e.table;
      for (auto &r : db.query("PRAGMA table_info(" + ql(e.table) + ")")) { ColInfo c; c.name = r[1].s; c.pk = (int)r[5].i; if (c.pk) t.pk.push_back((int)t.cols.size()); t.cols.push_back(c); }
      if (t.cols.size() != e.pk.size()) return fail("wrong number of columns");
      for (size_t i = 0; i < e.pk.size(); ++i) if ((t.cols[i].pk != 0) != (e.pk[i] != 0)) return fail("wrong key");
    }
    std::string where, cols;
    std::vector<Val> key;
    for (int i : t.pk) { where += (where.empty() ? "" : " AND ") + q(t.cols[i].name) + " = ?" + std::to_string(key.size() + 1); key.push_back(e.keyRow()[i]); }
    for (auto &c : t.cols) cols += (cols.empty() ? "" : ",") + q(c.name);
    if (e.op != INS) {
      if (t.pk.empty()) return fail("no key");
      auto rows = db.query("SELECT " + cols + " FROM " + q(t.name) + " WHERE " + where, key);
      if (rows.size() != 1) return fail("row not found: " + show(e));
      for (size_t i = 0; i < t.cols.size(); ++i) {
        if (t.cols[i].pk) continue;
        bool listed = e.op == DEL || !e.newv[i].undef();
        if (!listed) continue;
        Val o = e.oldv[i].undef() ? Val::null() : e.oldv[i];
        if (!equiv(rows[0][i], o)) return fail("old value differs in column " + std::to_string(i) + ": " + show(e) + " row " + show(rows[0]));
      }
    }
    int rc;
    if (e.op == INS) {
      std::string ph;
      for (size_t i = 0; i < t.cols.size(); ++i) ph += i ? ",?" : "?";
      for (auto &v : e.newv) if (v.undef()) return fail("undefined value in insert");
      rc = db.run("INSERT INTO " + q(t.name) + "(" + cols + ") VALUES(" + ph + ")", e.newv);
    } else if (e.op == DEL) {
      rc = db.run("DELETE FROM " + q(t.name) + " WHERE " + where, key);
    } else {
      std::string set;
      std::vector<Val> args = key;
      for (size_t i = 0; i < t.cols.size(); ++i) if (!e.newv[i].undef()) { args.push_back(e.newv[i]); set += (set.empty() ? "" : ",") + q(t.cols[i].name) + "=?" + std::to_string(args.size()); }
      if (set.empty()) rc = SQLITE_DONE;
      else rc = db.run("UPDATE " + q(t.name) + " SET " + set + " WHERE " + where, args);
    }
    if (rc != SQLITE_DONE) return fail("constraint: " + std::string(sqlite3_errmsg(db.h)) + " at " + show(e));
  }
  for (auto &x : trg) db.must(x.second);
  std::string err;
  if (!db.exec("COMMIT", &err)) { db.exec("ROLLBACK"); return "commit: " + err; }
  return "";
}

// ---------- JSON
const Json *Json::get(const std::string &key) const { for (auto &x : o) if (x.first == key) return &x.second; return nullptr; }
namespace {
struct JP {
  const std::string &t;
  size_t p = 0;
  std::string err;
  void ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\n' || t[p] == '\r' || t[p] == '\t')) ++p; }
  bool bad(const std::string &m) { if (err.empty()) err = m + " at offset " + std::to_string(p); return false; }
  bool utf8(std::string &out) {
    unsigned char c = t[p];
    int n = c < 0x80 ? 1 : c >= 0xc2 && c < 0xe0 ? 2 : c >= 0xe0 && c < 0xf0 ? 3 : c >= 0xf0 && c < 0xf5 ? 4 : 0;
    if (!n || p + n > t.size()) return bad("invalid UTF-8");
    for (int i = 1; i < n; ++i) if (((unsigned char)t[p + i] & 0xc0) != 0x80) return bad("invalid UTF-8");
    out.append(t, p, n);
    p += n;
    return true;
  }
  static void put(std::string &o, uint32_t c) {
    if (c < 0x80) o += (char)c;
    else if (c < 0x800) { o += (char)(0xc0 | c >> 6); o += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { o += (char)(0xe0 | c >> 12); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); }
    else { o += (char)(0xf0 | c >> 18); o += (char)(0x80 | ((c >> 12) & 63)); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); }
  }
  bool hex4(uint32_t &v) {
    v = 0;
    for (int i = 0; i < 4; ++i, ++p) {
      if (p >= t.size() || !isxdigit((unsigned char)t[p])) return bad("bad \\u");
      v = v * 16 + (isdigit((unsigned char)t[p]) ? t[p] - '0' : (tolower(t[p]) - 'a' + 10));
    }
    return true;
  }
  bool str(std::string &out) {
    if (p >= t.size() || t[p] != '"') return bad("string expected");
    ++p;
    for (;;) {
      if (p >= t.size()) return bad("unterminated string");
      unsigned char c = t[p];
      if (c == '"') { ++p; return true; }
      if (c < 0x20) return bad("control character in string");
      if (c == '\\') {
        ++p;
        if (p >= t.size()) return bad("unterminated escape");
        char e = t[p++];
        if (e == '"' || e == '\\' || e == '/') out += e;
        else if (e == 'b') out += '\b';
        else if (e == 'f') out += '\f';
        else if (e == 'n') out += '\n';
        else if (e == 'r') out += '\r';
        else if (e == 't') out += '\t';
        else if (e == 'u') {
          uint32_t v;
          if (!hex4(v)) return false;
          if (v >= 0xd800 && v < 0xdc00) {
            if (p + 1 >= t.size() || t[p] != '\\' || t[p + 1] != 'u') return bad("lone surrogate");
            p += 2;
            uint32_t w;
            if (!hex4(w)) return false;
            if (w < 0xdc00 || w > 0xdfff) return bad("lone surrogate");
            v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00);
          } else if (v >= 0xdc00 && v < 0xe000) return bad("lone surrogate");
          put(out, v);
        } else { --p; return bad("bad escape"); }
      } else if (!utf8(out)) return false;
    }
  }
  bool num(std::string &out) {
    size_t b = p;
    if (p < t.size() && t[p] == '-') ++p;
    if (p >= t.size() || !isdigit((unsigned char)t[p])) return bad("bad number");
    if (t[p] == '0') ++p; else while (p < t.size() && isdigit((unsigned char)t[p])) ++p;
    if (p < t.size() && t[p] == '.') { ++p; if (p >= t.size() || !isdigit((unsigned char)t[p])) return bad("bad fraction"); while (p < t.size() && isdigit((unsigned char)t[p])) ++p; }
    if (p < t.size() && (t[p] == 'e' || t[p] == 'E')) {
      ++p;
      if (p < t.size() && (t[p] == '+' || t[p] == '-')) ++p;
      if (p >= t.size() || !isdigit((unsigned char)t[p])) return bad("bad exponent");
      while (p < t.size() && isdigit((unsigned char)t[p])) ++p;
    }
    out = t.substr(b, p - b);
    return true;
  }
  bool val(Json &j, int depth) {
    if (depth > 50) return bad("too deep");
    ws();
    if (p >= t.size()) return bad("value expected");
    char c = t[p];
    if (c == '{') {
      j.k = Json::Obj; ++p; ws();
      if (p < t.size() && t[p] == '}') { ++p; return true; }
      for (;;) {
        ws();
        std::string k;
        if (!str(k)) return false;
        for (auto &x : j.o) if (x.first == k) return bad("duplicate member " + k);
        ws();
        if (p >= t.size() || t[p] != ':') return bad("':' expected");
        ++p;
        j.o.emplace_back(k, Json());
        if (!val(j.o.back().second, depth + 1)) return false;
        ws();
        if (p < t.size() && t[p] == ',') { ++p; continue; }
        if (p < t.size() && t[p] == '}') { ++p; return true; }
        return bad("',' or '}' expected");
      }
    }
    if (c == '[') {
      j.k = Json::Arr; ++p; ws();
      if (p < t.size() && t[p] == ']') { ++p; return true; }
      for (;;) {
        j.a.emplace_back();
        if (!val(j.a.back(), depth + 1)) return false;
        ws();
        if (p < t.size() && t[p] == ',') { ++p; continue; }
        if (p < t.size() && t[p] == ']') { ++p; return true; }
        return bad("',' or ']' expected");
      }
    }
    if (c == '"') { j.k = Json::Str; return str(j.s); }
    if (t.compare(p, 4, "null") == 0) { p += 4; j.k = Json::Nul; return true; }
    if (t.compare(p, 4, "true") == 0) { p += 4; j.k = Json::Bool; j.b = true; return true; }
    if (t.compare(p, 5, "false") == 0) { p += 5; j.k = Json::Bool; return true; }
    j.k = Json::Num;
    return num(j.s);
  }
};
}  // namespace
bool parseJson(const std::string &text, Json &out, std::string &err) {
  JP jp{text};
  out = Json();
  if (!jp.val(out, 0)) { err = jp.err; return false; }
  jp.ws();
  if (jp.p != text.size()) { err = "trailing text at offset " + std::to_string(jp.p); return false; }
  return true;
}
std::string b64(const std::string &s) {
  static const char *d = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string r;
  for (size_t i = 0; i < s.size(); i += 3) {
    uint32_t v = (uint8_t)s[i] << 16 | (i + 1 < s.size() ? (uint8_t)s[i + 1] << 8 : 0) | (i + 2 < s.size() ? (uint8_t)s[i + 2] : 0);
    r += d[v >> 18]; r += d[(v >> 12) & 63];
    r += i + 1 < s.size() ? d[(v >> 6) & 63] : '=';
    r += i + 2 < s.size() ? d[v & 63] : '=';
  }
  return r;
}
