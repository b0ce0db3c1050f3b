#include "pgen.hpp"
#include <algorithm>
#include <charconv>
#include <cmath>
#include <cstring>
using pbt::Src;
const char *kPgInfo = "host=stand-in";

void pgStart() { fpg::server().reset(); }
void pgDone(pbt::Ctx &c) {
  if (!fpg::server().unsupported.empty()) throw pbt::Discard();
  c.check(fpg::server().connections == 0, "a connection to the server was left open");
}
static std::string f2s(double d, bool single) {
  if (std::isinf(d)) return d < 0 ? "-Infinity" : "Infinity";
  char b[64];
  auto r = single ? std::to_chars(b, b + 64, (float)d) : std::to_chars(b, b + 64, d);
  return std::string(b, r.ptr);
}
static std::string wkbOf(Src &s, const std::string &geom) {
  std::string o;
  bool z = geom.find('Z') != std::string::npos, m = geom.back() == 'M';
  std::string flat = geom;
  while (flat.back() == 'Z' || flat.back() == 'M') flat.pop_back();
  uint32_t ty = flat == "Point" ? 1 : flat == "LineString" ? 2 : 3;
  auto u32 = [&](uint32_t v) { for (int k = 0; k < 4; ++k) o += (char)(v >> (8 * k)); };
  auto dbl = [&]() { double v = s.chance(1, 4) ? (double)s.range(-1800000, 1800000) / 9999.0 : (double)s.range(-3, 9); o.append((char *)&v, 8); };
  auto pt = [&]() { for (int k = 0; k < 2 + z + m; ++k) dbl(); };
  o += '\1';
  u32(ty + (z ? 1000 : 0) + (m ? 2000 : 0));
  if (ty == 1) pt();
  else if (ty == 2) { uint32_t n = (uint32_t)s.below(4); if (n == 1) n = 2; u32(n); while (n--) pt(); }
  else { uint32_t n = (uint32_t)s.below(3); u32(n); while (n--) { u32(4); std::string p; size_t at = o.size(); pt(); p = o.substr(at); pt(); pt(); o += p; } }
  return o;
}
static std::string gpHeader(int srid) { std::string o("GP\0\1", 4); for (int k = 0; k < 4; ++k) o += (char)((unsigned)srid >> (8 * k)); return o; }
static std::string tsText(Src &s, const PgOpts &o) {
  char b[64];
  int64_t y = s.chance(1, 6) ? s.range(1000, 9999) : s.range(1999, 2022);
  snprintf(b, sizeof b, "%04d-%02d-%02dT%02d:%02d:%02d", (int)y, (int)s.range(1, 12), (int)s.range(1, 28), (int)s.range(0, 23), (int)s.range(0, 59), (int)s.range(0, 59));
  std::string r = b;
  if (o.fractions && s.chance(1, 5)) { std::string f = std::to_string(s.pick(std::vector<int>{5, 25, 123, 1, 999999, 100001})); r += "." + std::string(s.below(2) && f.size() < 6 ? "0" : "") + f; while (r.back() == '0') r.pop_back(); }
  return r + "Z";
}
Val pgVal(Src &s, const PCol &c, const PgOpts &o, bool key) {
  switch (c.k) {
    case PCol::INT: if (key) return Val::integer(s.chance(1, 12) && !o.mergeKeys ? s.pick(std::vector<int64_t>{-5, -1, 0, 100000, INT32_MAX - 3}) : s.range(1, 9)); return Val::integer(s.chance(1, 5) ? s.pick(std::vector<int64_t>{INT32_MIN, INT32_MAX, -1, 65536, 16777217}) : s.range(0, 9));
    case PCol::DBL: {
      static const std::vector<double> v = {0, 1, -1, 0.5, 0.1, 1.0 / 3, -2.5, 1e-7, 123456.789012345, 1e300, -1e-300, 5e-324, 1e16, 123456789012345680.0, 0.30000000000000004, 1e22};
      if (o.specialReal && s.chance(1, 15)) return Val::real(s.below(2) ? -INFINITY : INFINITY);
      return Val::real(s.chance(1, 4) ? (double)s.range(-1000000, 1000000) / 7.0 : s.pick(v));
    }
    case PCol::REAL: {
      static const std::vector<float> v = {0, 1, -1, 0.5f, 0.1f, -2.5f, 1.0f / 3, 1e-7f, 16777216.0f, 3.4e38f, 1e-38f, 0.3f};
      float f = s.chance(1, 4) ? (float)s.range(-100000, 100000) / 7.0f : s.pick(v);
      return Val::real(strtod(f2s(f, true).c_str(), nullptr));
    }
    case PCol::BOOL: return Val::integer(s.below(2));
    case PCol::TEXT: {
      if (key) return Val::text(s.pick(std::vector<std::string>{"a", "b", "A", "", "it's", "a\\b", "žluť", "x y", "c", "d"}));
      static const std::vector<std::string> v = {"", "a", "abc", "it's", "\\", "a\\'b", "E'x'", "\"q\"", "$1 %s %d", "line\nfeed\ttab", "příliš", "日本", "\xF0\x9F\x98\x80", "NULL", "; DROP TABLE x; --", "\\x41", "''", "0", "t", " lead", "trail "};
      if (s.chance(1, 10)) return Val::text(std::string((size_t)s.range(50, 3000), (char)s.range('a', 'z')));
      return Val::text(s.pick(v));
    }
    case PCol::TS: return Val::text(tsText(s, o));
    case PCol::GEOM: return Val::blob(gpHeader(c.srid) + wkbOf(s, c.geom));
  }
  return Val::null();
}
static const char *kNames[] = {"simple", "fid", "name", "Simple", "user", "my table", "select", "tbl_1", "UPPER", "naïve", "a\"b", "it's", "a.b", "Name", "x", "order", "1st", "group"};
PDb genPg(Src &s, const PgOpts &o) {
  PDb d;
  int n = (int)s.range(1, o.maxTables);
  for (int i = 0; i < n; ++i) {
    PTab t;
    auto name = [&](bool table) { std::string r = s.chance(1, 2) && !o.plainNames ? kNames[s.below(18)] : std::string(table ? "t" : "c") + std::to_string(s.below(9)); return r; };
    auto fold = [](std::string a) { for (auto &x : a) x = (char)tolower(x); return a; };
    t.name = name(true);
    for (auto &x : d.t) if (x.name == t.name || ((o.mergeKeys || o.oneGeom) && fold(x.name) == fold(t.name))) { t.name += "_" + std::to_string(i); break; }
    int kind = (int)s.weighted({6, o.mergeKeys ? 0 : 2, o.mergeKeys ? 0 : 2, o.composite && !o.mergeKeys ? 2 : 0, o.noKey ? 1 : 0, o.mergeKeys ? 0 : 1});   // serial, int, text, composite, none, other
    int nc = (int)s.range(1, o.maxCols), nk = kind == 3 ? 2 : kind == 4 ? 0 : 1;
    if (kind == 3 && s.chance(1, 4)) nk = 3;
    bool keyOnly = o.keyOnly && !o.allGeom && s.chance(1, 12) && nk;
    int total = std::max(keyOnly ? nk : nk + 1, keyOnly ? nk : nc);
    std::vector<int> order;
    for (int k = 0; k < total; ++k) order.push_back(k);
    if (s.chance(1, 4)) for (int k = total - 1; k > 0; --k) std::swap(order[k], order[(int)s.below(k + 1)]);
    bool geom = false;
    t.cols.resize(total);
    for (int k = 0; k < total; ++k) {
      PCol &c = t.cols[order[k]];
      bool key = k < nk;
      if (key) {
        t.pk.push_back(order[k]);
        static const PCol::K ck[] = {PCol::INT, PCol::TEXT, PCol::TS, PCol::BOOL};
        c.k = kind == 0 || kind == 1 ? PCol::INT : kind == 2 ? PCol::TEXT : kind == 3 ? ck[s.below(4)] : std::vector<PCol::K>{PCol::TS, PCol::DBL, PCol::BOOL}[s.below(3)];
      } else {
        c.k = (PCol::K)s.weighted({3, 3, 2, 2, 4, 2, 2});
        if (c.k == PCol::GEOM && o.oneGeom && (geom || (kind > 1 && !o.allGeom))) c.k = PCol::TEXT;
        c.notNull = s.chance(1, 5);
      }
      if (o.allGeom && !geom && k + 1 == total && !key) c.k = PCol::GEOM;
      if (c.k == PCol::GEOM) {
        geom = true;
        c.geom = s.pick(std::vector<std::string>{"Point", "LineString", "Polygon"}) + s.pick(std::vector<std::string>{"", "", "Z", "M", "ZM"});
        c.srid = s.chance(1, 3) ? s.pick(std::vector<int>{3857, 5514, 102100}) : 4326;
      }
      for (;;) {
        c.name = name(false);
        bool dup = false;
        for (int j = 0; j < k; ++j) { std::string a = t.cols[order[j]].name, b = c.name; for (auto &x : a) x = (char)tolower(x); for (auto &x : b) x = (char)tolower(x); dup |= a == b; }
        if (!dup) break;
        c.name = "d" + std::to_string(k);
        break;
      }
      int np = (int)s.range(2, 4);
      for (int j = 0; j < np; ++j) c.pool.push_back(pgVal(s, c, o, key));
    }
    // one spatial reference system per table, as everywhere else in the library
    int srid = 0;
    for (auto &c : t.cols) if (c.k == PCol::GEOM) { if (!srid) srid = c.srid; else if (c.srid != srid) { c.srid = srid; for (auto &v : c.pool) { std::string h = gpHeader(srid); memcpy(&v.s[0], h.data(), 8); } } }
    t.serial = kind == 0;
    if (t.serial) { for (std::string *n : {&t.name, &t.cols[t.pk[0]].name}) if (n->find('\'') != std::string::npos) n->erase(n->find('\''), 1); for (auto &x : d.t) if (x.name == t.name) t.name += "_s"; }
    if (nk == 3 || nk == 2) if (s.chance(1, 3)) std::reverse(t.pk.begin(), t.pk.end());
    int ni = (int)s.weighted({5, 2, 1});
    for (int k = 0; k < ni; ++k) { std::vector<int> x = {(int)s.below(total)}; if (total > 1 && s.below(2)) { int y = (int)s.below(total); if (y != x[0]) x.push_back(y); } t.idx.push_back(x); }
    d.t.push_back(t);
  }
  return d;
}
std::string pgKey(const PTab &t, const Row &r) {
  std::string k;
  for (size_t i = 0; i < t.cols.size(); ++i) if (t.isPk((int)i)) k += keyEnc(r[i]) + "|";
  return k;
}
static Val cell(Src &s, const PTab &t, int c, const PgOpts &o) {
  const PCol &col = t.cols[c];
  bool key = t.isPk(c);
  if (!key && !col.notNull && s.chance(1, 5)) return Val::null();
  if (key || s.chance(1, 4)) return pgVal(s, col, o, key);
  return s.pick(col.pool);
}
PData genPgData(Src &s, const PDb &d, const PgOpts &o) {
  PData r;
  for (auto &t : d.t) {
    auto &m = r[t.name];
    int n = (int)s.range(0, o.maxRows);
    for (int k = 0; k < n; ++k) {
      Row row;
      for (size_t c = 0; c < t.cols.size(); ++c) row.push_back(cell(s, t, (int)c, o));
      m[t.keyed() ? pgKey(t, row) : "n" + std::to_string(k)] = row;
    }
  }
  return r;
}
PData mutatePg(Src &s, const PDb &d, const PData &from, const PgOpts &o, int maxEdits) {
  PData r = from;
  int n = (int)s.range(0, maxEdits);
  for (int e = 0; e < n; ++e) {
    const PTab &t = d.t[s.below(d.t.size())];
    auto &m = r[t.name];
    int k = (int)s.weighted({5, 3, 2});
    if (k == 1 || m.empty()) {
      Row row;
      for (size_t c = 0; c < t.cols.size(); ++c) row.push_back(cell(s, t, (int)c, o));
      std::string key = t.keyed() ? pgKey(t, row) : "n" + std::to_string(s.range(20, 40));
      if (!m.count(key)) m[key] = row;
    } else {
      auto it = m.begin();
      std::advance(it, s.below(m.size()));
      if (k == 2) { m.erase(it); continue; }
      Row row = it->second;
      for (size_t c = 0; c < t.cols.size(); ++c) if (!t.isPk((int)c) && s.below(2)) row[c] = cell(s, t, (int)c, o);
      it->second = row;
    }
  }
  return r;
}
std::string pgType(const PCol &c) {
  switch (c.k) {
    case PCol::INT: return "integer";
    case PCol::DBL: return "double precision";
    case PCol::REAL: return "real";
    case PCol::BOOL: return "boolean";
    case PCol::TEXT: return "text";
    case PCol::TS: return "timestamp";
    default: return "geometry(" + c.geom + ", " + std::to_string(c.srid) + ")";
  }
}
static std::string lit(const std::string &s) { std::string o = "'"; for (char c : s) { if (c == '\'') o += '\''; o += c; } return o + "'"; }
static std::string literal(const PCol &c, const Val &v) {
  if (v.t == Val::Null) return "NULL";
  switch (c.k) {
    case PCol::INT: return "'" + std::to_string(v.i) + "'";
    case PCol::BOOL: return v.i ? "true" : "false";
    case PCol::DBL: return "'" + f2s(v.r, false) + "'";
    case PCol::REAL: return "'" + f2s(v.r, true) + "'";
    case PCol::TEXT: case PCol::TS: return lit(v.s);
    default: return "ST_GeomFromWKB('\\x" + hex(v.s.substr(8)) + "', " + std::to_string(c.srid) + ")";
  }
}
void fillPg(const std::string &schema, const PDb &d, const PData &data) {
  for (auto &t : d.t) {
    auto it = data.find(t.name);
    if (it == data.end()) continue;
    for (auto &kv : it->second) {
      std::string sql = "INSERT INTO " + q(schema) + "." + q(t.name) + " VALUES (";
      for (size_t k = 0; k < t.cols.size(); ++k) sql += (k ? ", " : "") + literal(t.cols[k], kv.second[k]);
      fpg::must(sql + ")");
    }
  }
}
void createPg(const std::string &schema, const PDb &d, const PData &data) {
  fpg::must("CREATE SCHEMA " + q(schema));
  for (auto &t : d.t) {
    std::string sql = "CREATE TABLE " + q(schema) + "." + q(t.name) + " (";
    for (size_t k = 0; k < t.cols.size(); ++k) sql += (k ? ", " : "") + q(t.cols[k].name) + " " + (t.serial && t.pk[0] == (int)k ? "serial" : pgType(t.cols[k])) + (t.cols[k].notNull ? " NOT NULL" : "");
    if (t.keyed()) { sql += ", PRIMARY KEY ("; for (size_t k = 0; k < t.pk.size(); ++k) sql += (k ? ", " : "") + q(t.cols[t.pk[k]].name); sql += ")"; }
    fpg::must(sql + ")");
    for (auto &x : t.idx) { sql = "CREATE INDEX ON " + q(schema) + "." + q(t.name) + " ("; for (size_t k = 0; k < x.size(); ++k) sql += (k ? ", " : "") + q(t.cols[x[k]].name); fpg::must(sql + ")"); }
  }
  fillPg(schema, d, data);
}
void clonePg(const std::string &from, const std::string &to) {
  auto &sv = fpg::server();
  fpg::Schema s = sv.st.schemas.at(from);
  s.oid = sv.st.nextOid++;
  for (auto &t : s.tables) t.second.oid = sv.st.nextOid++;
  for (auto &q : s.seqs) { int64_t o = sv.st.nextOid++; sv.seq[o] = sv.seq[q.second]; q.second = o; }
  sv.st.schemas[to] = s;
}
static Val toVal(const fpg::PV &v, const fpg::Type &ty) {
  if (v.null) return Val::null();
  switch (ty.t) {
    case fpg::BOOL: case fpg::INT2: case fpg::INT4: case fpg::INT8: return Val::integer(v.i);
    case fpg::FLOAT8: return Val::real(v.d);
    case fpg::FLOAT4: return Val::real(strtod(fpg::text(v).c_str(), nullptr));
    case fpg::TIMESTAMP: { std::string s = fpg::text(v); s[s.find(' ')] = 'T'; return Val::text(s + "Z"); }
    case fpg::BYTEA: return Val::blob(v.s);
    case fpg::GEOM: return Val::blob(gpHeader((int)v.i) + v.s);
    default: return Val::text(fpg::text(v));
  }
}
Snap snapPg(const std::string &schema, bool withSeq) {
  Snap r;
  auto &sv = fpg::server();
  for (auto &kv : sv.st.schemas.at(schema).tables) {
    TableData t;
    t.name = kv.first;
    const fpg::Index *pk = nullptr;
    for (auto &x : kv.second.indexes) if (x.primary) pk = &x;
    std::string d = kv.first + "|";
    for (size_t k = 0; k < kv.second.cols.size(); ++k) {
      auto &c = kv.second.cols[k];
      ColInfo ci;
      ci.name = c.name; ci.type = fpg::typeName(c.type); ci.notNull = c.notNull;
      if (pk) for (size_t j = 0; j < pk->cols.size(); ++j) if (pk->cols[j] == (int)k) ci.pk = (int)j + 1;
      if (ci.pk) t.pk.push_back((int)k);
      d += c.name + " " + ci.type + (c.notNull ? " not null" : "") + (c.seq.empty() ? "" : " serial") + (c.hasDefault ? " default" : "") + ",";
      t.cols.push_back(ci);
    }
    for (auto &x : kv.second.indexes) { d += x.primary ? " pk" : x.unique ? " unique" : " index"; for (int k : x.cols) d += "," + std::to_string(k); }
    r.schema.push_back(d);
    for (auto &row : kv.second.rows) {
      Row v;
      for (size_t k = 0; k < row.size(); ++k) v.push_back(toVal(row[k], kv.second.cols[k].type));
      if (t.keyed()) t.rows[t.key(v)] = v; else t.loose.push_back(v);
    }
    std::sort(t.loose.begin(), t.loose.end(), [](const Row &a, const Row &b) { return show(a) < show(b); });
    r.tables[kv.first] = t;
  }
  if (withSeq) for (auto &x : sv.st.schemas.at(schema).seqs) { auto &q = sv.seq[x.second]; r.schema.push_back("seq " + x.first + " " + std::to_string(q.called ? q.last + 1 : q.last)); }
  std::sort(r.schema.begin(), r.schema.end());
  return r;
}
void describePg(pbt::Ctx &c, const PDb &d) {
  for (auto &t : d.t) {
    c.desc << "table " << q(t.name) << " (";
    for (size_t k = 0; k < t.cols.size(); ++k) c.desc << (k ? ", " : "") << q(t.cols[k].name) << " " << (t.serial && t.pk[0] == (int)k ? "serial" : pgType(t.cols[k])) << (t.isPk((int)k) ? " key" : "") << (t.cols[k].notNull ? " not null" : "");
    c.desc << ")" << (t.idx.empty() ? "" : " with indexes") << "\n";
  }
}
