#include "gen.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <limits>
using pbt::Src;

static const std::vector<std::string> kWords = {"", "a", "b", "A", "abc", "abc ", "0", "1", "1.0", "x'y", "he said \"hi\"", "back\\slash", "tab\there", "line\nbreak",
  "\xc5\xa1\xc4\x8d\xc5\xa5", "\xe6\xbc\xa2\xe5\xad\x97", "\xf0\x9f\xa6\xa6", "null", "NULL", "true", "-1", "1e3", "\x01\x1f", "</script>", "%s%n", "\xc3\xa9", "e\xcc\x81"};

std::string genText(Src &s, const GenOpts &o) {
  switch (s.weighted({10, 4, o.nulInText ? 1 : 0, o.bigValues ? 1 : 0, o.badUtf8 ? 1 : 0})) {
    case 0: return kWords[s.below(kWords.size())];
    case 1: {
      size_t n = s.below(6);
      std::string r;
      for (size_t i = 0; i < n; ++i) {
        switch (s.weighted({6, 1, 1, 1, 1})) {
          case 0: r += (char)s.range(0x20, 0x7e); break;
          case 1: r += (char)s.range(1, 0x1f); break;
          case 2: r += (char)(0xc3); r += (char)s.range(0x80, 0xbf); break;
          case 3: r += '\xe2'; r += (char)s.range(0x80, 0xbf); r += (char)s.range(0x80, 0xbf); break;
          default: r += '\xf0'; r += (char)s.range(0x90, 0xbf); r += (char)s.range(0x80, 0xbf); r += (char)s.range(0x80, 0xbf); break;
        }
      }
      return r;
    }
    case 2: { std::string r = kWords[s.below(6)]; r += '\0'; if (s.below(2)) r += kWords[s.below(6)]; return r; }
    case 3: {
      static const std::vector<int> lens = {126, 127, 128, 129, 255, 256, 1000, 16382, 16383, 16384, 16385, 40000};
      int n = lens[s.below(lens.size())];
      return std::string(n, (char)('a' + s.below(3)));
    }
    default: { std::string r = "x"; r += (char)s.range(0x80, 0xff); if (s.below(2)) r += "y"; return r; }
  }
}
static Val genInt(Src &s) {
  switch (s.weighted({8, 3, 1})) {
    case 0: return Val::integer(s.range(0, 20) - (int64_t)(s.below(4) == 3 ? 20 : 0));
    case 1: {
      static const std::vector<int64_t> v = {-1, 127, 128, 255, 256, 32767, 32768, 65536, 2147483647LL, 2147483648LL, -2147483648LL, -2147483649LL, 4294967295LL, 4294967296LL,
        9007199254740991LL, 9007199254740992LL, 9007199254740993LL, INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1};
      return Val::integer(v[s.below(v.size())]);
    }
    default: return Val::integer((int64_t)s.bits());
  }
}
static Val genReal(Src &s, const GenOpts &o) {
  switch (s.weighted({5, 4, 1, o.specialReal ? 1 : 0})) {
    case 0: return Val::real((double)s.range(0, 40) / 4 - (s.below(3) == 2 ? 5 : 0));
    case 1: {
      static const std::vector<double> v = {0.1, -0.0, 1e-7, 1.0000001, 123456.789, 1e15, 1e16, 1e300, -1e300, 5e-324, 9007199254740993.0, 0.30000000000000004, -2.5, 1e22, 9.2233720368547758e18};
      return Val::real(v[s.below(v.size())]);
    }
    case 2: { uint64_t b = s.bits(); double d; memcpy(&d, &b, 8); if (std::isnan(d) || std::isinf(d)) d = 1.5; return Val::real(d); }
    default: return Val::real(s.below(2) ? -std::numeric_limits<double>::infinity() : std::numeric_limits<double>::infinity());
  }
}
static Val genBlob(Src &s, const GenOpts &o) {
  if (o.bigValues && s.below(20) == 19) {
    static const std::vector<int> lens = {127, 128, 16383, 16384, 50000};
    return Val::blob(std::string(lens[s.below(lens.size())], (char)s.below(256)));
  }
  size_t n = s.below(7);
  std::string b;
  for (size_t i = 0; i < n; ++i) b += (char)s.below(256);
  return Val::blob(b);
}
Val genVal(Src &s, const std::string &type, const GenOpts &o) {
  std::string t = type;
  for (auto &c : t) c = (char)toupper(c);
  int kind = 4;
  if (t.find("INT") != std::string::npos || t == "BOOLEAN") kind = 0;
  else if (t.find("CHAR") != std::string::npos || t.find("TEXT") != std::string::npos || t.find("DATE") != std::string::npos) kind = 1;
  else if (t.find("REAL") != std::string::npos || t.find("DOUB") != std::string::npos || t == "NUMERIC") kind = 2;
  else if (t == "BLOB") kind = 3;
  if (kind == 4 || s.below(7) == 6) kind = (int)s.below(4);
  if (s.below(8) == 7) return Val::null();
  switch (kind) {
    case 0: return genInt(s);
    case 1: return Val::text(genText(s, o));
    case 2: return genReal(s, o);
    default: return genBlob(s, o);
  }
}
Val nearVal(Src &s, const Val &v) {
  switch (v.t) {
    case Val::Int:
      switch (s.below(4)) {
        case 0: return Val::integer((int64_t)((uint64_t)v.i + 1));
        case 1: return Val::text(std::to_string(v.i));
        case 2: return Val::real((double)v.i + 0.5);
        default: return Val::integer(v.i ^ 0x100000000LL);
      }
    case Val::Real:
      switch (s.below(3)) {
        case 0: return Val::real(std::nextafter(v.r, 1e308));
        case 1: return Val::real(-v.r);
        default: return Val::real(v.r + 1);
      }
    case Val::Text: {
      Val w = v;
      switch (s.below(5)) {
        case 0: w.s += ' '; return w;
        case 1: for (auto &c : w.s) if (isalpha((unsigned char)c)) { c ^= 0x20; return w; } w.s += 'a'; return w;
        case 2: w.t = Val::Blob; return w;
        case 3: w.s += '\0'; return w;
        default: if (!w.s.empty() && (unsigned char)w.s.back() < 0x80) w.s.pop_back(); else w.s += 'z'; return w;
      }
    }
    case Val::Blob: {
      Val w = v;
      switch (s.below(3)) {
        case 0: w.s += '\0'; return w;
        case 1: if (!w.s.empty()) w.s.back() ^= 1; else w.s = "x"; return w;
        default: return Val::null();
      }
    }
    default: return s.below(2) ? Val::integer(0) : Val::text("");
  }
}
static void putD(std::string &o, double d) { o.append((const char *)&d, 8); }
Val genGeom(Src &s) {
  int kind = (int)s.weighted({8, 2, 1, 2, 1});
  if (kind == 1) return Val::null();
  double x = (double)s.range(0, 20) / 2 - 3, y = (double)s.range(0, 20) / 4 - 2;
  if (s.below(10) == 9) { x = x * 123456.789; y = -y * 98765.4321; }
  std::string g = "GP";
  g += '\0';
  std::string wkb = std::string("\x01\x01\x00\x00\x00", 5);
  if (kind == 2) {   // empty
    g += (char)(0x11);
    g += std::string("\xe6\x10\0\0", 4);
    double n = std::numeric_limits<double>::quiet_NaN();
    putD(wkb, n); putD(wkb, n);
    return Val::blob(g + wkb);
  }
  if (kind == 3) {   // with an envelope (a line)
    double x2 = x + (double)s.range(0, 8), y2 = y + (double)s.range(0, 8);
    g += (char)(0x03);
    g += std::string("\xe6\x10\0\0", 4);
    putD(g, x); putD(g, x2); putD(g, y); putD(g, y2);
    wkb = std::string("\x01\x02\x00\x00\x00\x02\x00\x00\x00", 9);
    putD(wkb, x); putD(wkb, y); putD(wkb, x2); putD(wkb, y2);
    return Val::blob(g + wkb);
  }
  g += (char)(0x01);
  g += std::string("\xe6\x10\0\0", 4);
  if (kind == 4) { x = 1e6 + 0.1; y = 5e6 + 0.7; }
  putD(wkb, x); putD(wkb, y);
  return Val::blob(g + wkb);
}

Val genKeyVal(Src &s, const ColSpec &c, const GenOpts &o) {
  std::string t = c.type;
  for (auto &ch : t) ch = (char)toupper(ch);
  if (t == "INTEGER" || t == "INT" || t == "MEDIUMINT") {
    if (o.rebaseKeys) {
      switch (s.weighted({12, 1})) {
        case 0: return Val::integer(s.range(1, 12));
        default: { static const std::vector<int64_t> v = {0, -1, -5, 1000, 2147483647LL, 2147483648LL, 4294967296LL, 4294967297LL, 4294967298LL, 1LL << 40, (1LL << 53) + 1, (1LL << 61) + 3}; return Val::integer(v[s.below(v.size())]); }
      }
    }
    switch (s.weighted({12, 1})) {
      case 0: return Val::integer(s.range(1, 14));
      default: return genInt(s);
    }
  }
  if (t.find("TEXT") != std::string::npos || t.find("CHAR") != std::string::npos) {
    GenOpts p = o;
    p.bigValues = o.bigValues && s.below(30) == 29;
    if (s.below(3) < 2) return Val::text("k" + std::to_string(s.below(12)));
    return Val::text(genText(s, p));
  }
  if (t == "REAL" || t == "DOUBLE") return Val::real((double)s.range(0, 12) + 0.5);
  if (t == "BLOB") { std::string b(1, (char)s.below(4)); if (s.below(2)) b += (char)s.below(256); return Val::blob(b); }
  // untyped key: anything but integral reals
  switch (s.below(4)) {
    case 0: return Val::integer(s.range(1, 12));
    case 1: return Val::text("k" + std::to_string(s.below(8)));
    case 2: return Val::real((double)s.range(0, 12) + 0.25);
    default: return Val::blob(std::string(1, (char)s.below(8)));
  }
}

std::string genName(Src &s, const GenOpts &o, int i, bool table) {
  static const std::vector<std::string> weird = {"select", "My Table", "sp'quote", "dq\"quote", "per%cent%s", "semi;colon", "br[ack]et", "back\\slash", "\xc5\xa1\xc4\x8d", "UPPER", "a.b", "ta\tb",
    "new\nline", "tick`", "--comment", "1digit", "table", "q?1", "rowid", "oid", "main", "aux", "\xf0\x9f\xa6\xa6", ":named", "Create Virtual", "sqlitex", "gpkgx", "rtreex", "%w%q", "_underscore", "$x", "old", "new", "x/*y*/"};
  std::string base = std::string(table ? "t" : "c") + std::to_string(i);
  if (!o.weirdNames || s.below(3) < 2) return base;
  std::string n = weird[s.below(weird.size())];
  if (!table && (n == "rowid" || n == "oid") && s.below(2)) n = base;
  if (i > 0 || s.below(2)) n += std::to_string(i);
  return n;
}

static const std::vector<std::string> kTypes = {"INTEGER", "TEXT", "REAL", "BLOB", "NUMERIC", "", "VARCHAR(20)", "MEDIUMINT", "BOOLEAN", "DATETIME", "DOUBLE", "DATE", "TEXT(5)", "INT8"};

DbSpec genSpec(Src &s, const GenOpts &o) {
  DbSpec d;
  d.gpkg = o.gpkgOnly || (int)s.below(100) >= 100 - o.gpkgPct;
  if (o.utf16) { size_t e = s.weighted({8, 1, 1}); if (!d.gpkg && e) d.encoding = e == 1 ? "UTF-16le" : "UTF-16be"; }
  int n = 1 + (int)s.below(o.maxTables);
  for (int i = 0; i < n; ++i) {
    TableSpec t;
    bool layer = d.gpkg && (i == 0 || s.below(2));
    if (layer) {
      t.name = s.below(4) == 3 && o.weirdNames ? "Layer " + std::to_string(i) + "'s" : "layer" + std::to_string(i);
      t.inlinePk = t.autoinc = true;
      t.cols.push_back({"fid", "INTEGER", "", "", true});
      t.pk = {0};
      t.cols.push_back({"geometry", "POINT", "", "", false});
      t.geomCol = 1;
      t.rtree = s.below(5) < 4;
      if (t.rtree) t.newTriggers = s.below(3) == 2;
      t.counter = s.below(5) < 4;
      int m = 1 + (int)s.below(3);
      for (int k = 0; k < m; ++k) t.cols.push_back({k == 0 ? "name" : "attr" + std::to_string(k), k == 0 ? "TEXT" : kTypes[s.below(kTypes.size())], "", "", false});
    } else {
      t.name = genName(s, o, i, true);
      if (o.emptyTableName && o.weirdNames && s.below(60) == 59) t.name = "";
      int nc = o.minCols + (int)s.below(o.maxCols - o.minCols + 1);
      if (o.wide && s.below(60) == 59) nc = (int)s.range(100, 200);
      bool hasNoKey = o.noKey && s.below(10) == 9;
      for (int k = 0; k < nc; ++k) {
        ColSpec c;
        c.name = genName(s, o, k, false);
        c.type = kTypes[s.below(kTypes.size())];
        c.notNull = s.below(6) == 5;
        if (o.collate && s.below(8) == 7) c.collate = s.below(2) ? "NOCASE" : "RTRIM";
        if (s.below(10) == 9) c.dflt = s.below(2) ? "5" : "'dflt'";
        t.cols.push_back(c);
      }
      if (!hasNoKey) {
        std::vector<int> kinds = {8, o.textKey ? 4 : 0, o.composite && !o.rebaseKeys ? 4 : 0, o.blobKey && !o.rebaseKeys ? 1 : 0, o.realKey && !o.rebaseKeys ? 1 : 0, o.rebaseKeys ? 0 : 1, 1};
        size_t kind = s.weighted(kinds);
        if (nc == 1 && !o.keyOnly) { t.cols.push_back({"extra", "TEXT", "", "", false}); ++nc; }
        int pos = s.below(4) == 3 ? (int)s.below(nc) : 0;
        ColSpec &c = t.cols[pos];
        c.collate.clear();
        c.dflt.clear();
        if (kind == 0) { c.type = "INTEGER"; t.inlinePk = true; t.autoinc = s.below(3) == 2; c.notNull = s.below(2); t.pk = {pos}; }
        else if (kind == 1) { c.type = s.below(2) ? "VARCHAR(30)" : "TEXT"; t.pk = {pos}; }
        else if (kind == 2) {
          int want = 2 + (int)s.below(2);
          std::vector<int> idx;
          for (int k = 0; k < nc; ++k) idx.push_back(k);
          for (size_t k = idx.size(); k > 1; --k) std::swap(idx[k - 1], idx[s.below(k)]);
          for (int k = 0; k < want && k < nc; ++k) {
            int ci = idx[k];
            t.cols[ci].collate.clear(); t.cols[ci].dflt.clear();
            static const std::vector<std::string> kt = {"INTEGER", "TEXT", "INT", "BLOB", "REAL"};
            t.cols[ci].type = kt[s.below(kt.size())];
            t.pk.push_back(ci);
          }
        } else if (kind == 3) { c.type = "BLOB"; t.pk = {pos}; }
        else if (kind == 4) { c.type = "REAL"; t.pk = {pos}; }
        else if (kind == 5) { c.type = ""; t.pk = {pos}; }
        else { c.type = s.below(2) ? "INT" : "INTEGER"; t.pk = {pos}; }   // INT PRIMARY KEY is not a rowid alias
        if (!t.inlinePk && o.withoutRowid && s.below(4) == 3) t.withoutRowid = true;
        if (kind == 6 && t.cols[pos].type == "INTEGER") { t.withoutRowid = true; }
        for (int p : t.pk) if (!t.inlinePk) t.cols[p].notNull = t.withoutRowid || s.below(2);
      }
      // column names unique without regard to case
      for (size_t a = 0; a < t.cols.size(); ++a)
        for (size_t b = 0; b < a; ++b)
          if (sqlite3_stricmp(t.cols[a].name.c_str(), t.cols[b].name.c_str()) == 0) t.cols[a].name += "_" + std::to_string(a);
    }
    if (o.generated && !layer && t.cols.size() < 50 && s.below(16) == 15) {
      static const std::vector<std::string> fn = {"length(%)", "quote(%)", "typeof(%)", "% || 'g'"};
      std::string e = fn[s.below(fn.size())];
      e.replace(e.find('%'), 1, q(t.cols[s.below(t.cols.size())].name));
      t.genAt = (int)s.below(t.cols.size() + 1);
      for (auto &c : t.cols) if (c.dflt == "'dflt'") c.dflt = "5";   // SQLite's integrity_check misreads text defaults beside virtual columns
      t.genDef = std::string("gen_col") + (s.below(2) ? " TEXT" : "") + " AS (" + e + ")" + (s.below(2) ? " STORED" : " VIRTUAL");
    }
    if (!layer && t.inlinePk && t.genDef.empty() && s.below(12) == 11) {
      t.strict = true;
      for (size_t k = 0; k < t.cols.size(); ++k) { if (!t.isPk((int)k)) { t.cols[k].type = "ANY"; t.cols[k].dflt.clear(); } else t.cols[k].type = "INTEGER"; }
    }
    bool dup = false;
    for (auto &x : d.tables) if (sqlite3_stricmp(x.name.c_str(), t.name.c_str()) == 0) dup = true;
    if (dup) t.name += "_" + std::to_string(i);
    for (size_t k = 0; k < t.cols.size(); ++k) {
      std::vector<Val> pool;
      int np = t.cols.size() > 50 ? 2 : 2 + (int)s.below(4);
      for (int j = 0; j < np; ++j) pool.push_back((int)k == t.geomCol ? genGeom(s) : t.isPk((int)k) ? genKeyVal(s, t.cols[k], o) : genVal(s, t.cols[k].type, o));
      t.pools.push_back(pool);
    }
    d.tables.push_back(t);
  }
  return d;
}

std::string keyOf(const TableSpec &t, const Row &r) {
  std::string k;
  for (size_t i = 0; i < r.size(); ++i) if (t.isPk((int)i)) k += keyEnc(r[i]);
  return k;
}
static Val cellVal(Src &s, const TableSpec &t, int c, const GenOpts &o) {
  Val v;
  if (s.below(4) < 3) v = t.pools[c][s.below(t.pools[c].size())];
  else v = c == t.geomCol ? genGeom(s) : t.isPk(c) ? genKeyVal(s, t.cols[c], o) : genVal(s, t.cols[c].type, o);
  if (v.t == Val::Null && (t.cols[c].notNull || t.isPk(c))) v = t.isPk(c) ? genKeyVal(s, t.cols[c], o) : Val::integer(0);
  return v;
}
Row genRow(Src &s, const TableSpec &t, const GenOpts &o) {
  Row r;
  for (size_t c = 0; c < t.cols.size(); ++c)
    r.push_back(t.isPk((int)c) && t.pk.size() == 1 ? genKeyVal(s, t.cols[c], o) : cellVal(s, t, (int)c, o));
  return r;
}
Data genData(Src &s, const DbSpec &d, const GenOpts &o) {
  Data x;
  for (auto &t : d.tables) {
    auto &rows = x.t[t.name];
    int n = o.minRows + (int)s.below(o.maxRows - o.minRows + 1);
    if (t.cols.size() > 50) n = std::min(n, 3);
    for (int i = 0; i < n; ++i) {
      Row r = genRow(s, t, o);
      rows[t.keyed() ? keyOf(t, r) : "L" + std::to_string(i)] = r;
    }
  }
  return x;
}
Data mutate(Src &s, const DbSpec &d, const Data &from, const GenOpts &o, const EditOpts &eo) {
  Data x = from;
  x.post.clear();
  int n = (int)s.below(eo.maxEdits + 1);
  for (int e = 0; e < n; ++e) {
    const TableSpec &t = d.tables[s.below(d.tables.size())];
    auto &rows = x.t[t.name];
    int op = (int)s.weighted({eo.updateW, eo.insertW, eo.deleteW, eo.reinsert ? 1 : 0});
    if (rows.empty()) op = 1;
    auto pick = [&]() { auto it = rows.begin(); std::advance(it, s.below(rows.size())); return it; };
    if (op == 0) {
      auto it = pick();
      Row r = it->second;
      int k = 1 + (int)s.below(3);
      for (int j = 0; j < k; ++j) {
        int c = (int)s.below(t.cols.size());
        if (t.isPk(c)) continue;
        Val v = s.below(4) == 3 && c != t.geomCol ? nearVal(s, r[c]) : cellVal(s, t, c, o);
        if (v.t == Val::Null && t.cols[c].notNull) continue;
        r[c] = v;
      }
      it->second = r;
    } else if (op == 1) {
      Row r = genRow(s, t, o);
      rows[t.keyed() ? keyOf(t, r) : "N" + std::to_string(e)] = r;
    } else if (op == 2) {
      rows.erase(pick());
    } else {   // the same values under another key
      auto it = pick();
      Row r = it->second;
      Row k = genRow(s, t, o);
      for (int p : t.pk) r[p] = k[p];
      if (s.below(2)) rows.erase(it);
      if (t.keyed()) rows[keyOf(t, r)] = r;
    }
  }
  if (d.gpkg && s.below(3) == 2) {
    const TableSpec &t = d.tables[0];
    if (t.geomCol >= 0) {
      x.post.push_back("UPDATE gpkg_contents SET last_change='2020-01-" + std::to_string(10 + s.below(18)) + "T00:00:00.000Z' WHERE table_name=" + ql(t.name));
      if (s.below(2)) x.post.push_back("UPDATE gpkg_contents SET min_x=" + std::to_string(-(int)s.below(50)) + ", description='d" + std::to_string(s.below(4)) + "' WHERE table_name=" + ql(t.name));
    }
  }
  return x;
}
Layout genLayout(Src &s) {
  Layout l;
  static const std::vector<int> ps = {4096, 1024, 512, 8192, 65536};
  l.pageSize = ps[s.weighted({6, 2, 1, 1, 1})];
  l.shuffle = s.below(3) ? s.below(1000) : 0;
  l.junk = s.below(4) == 3;
  l.vacuum = s.below(6) == 5;
  l.wal = s.below(8) == 7;
  l.autovac = s.below(10) == 9;
  l.analyze = s.below(10) == 9;
  l.staleStats = l.analyze ? (int)s.below(4) : 0;
  l.objects = s.below(8) == 7;
  return l;
}

std::vector<std::string> createSql(const DbSpec &d, const TableSpec &t) {
  std::vector<std::string> out;
  std::string sql = "CREATE TABLE " + q(t.name) + " (";
  for (size_t i = 0; i < t.cols.size(); ++i) {
    const ColSpec &c = t.cols[i];
    if (i) sql += ", ";
    if (t.genAt == (int)i) sql += t.genDef + ", ";
    sql += q(c.name) + (c.type.empty() ? "" : " " + c.type);
    if (t.inlinePk && t.pk[0] == (int)i) sql += std::string(" PRIMARY KEY") + (t.autoinc ? " AUTOINCREMENT" : "");
    if (c.notNull) sql += " NOT NULL";
    if (!c.dflt.empty()) sql += " DEFAULT " + c.dflt;
    if (!c.collate.empty()) sql += " COLLATE " + c.collate;
  }
  if (t.genAt == (int)t.cols.size()) sql += ", " + t.genDef;
  if (!t.inlinePk && !t.pk.empty()) {
    sql += ", PRIMARY KEY (";
    for (size_t i = 0; i < t.pk.size(); ++i) sql += (i ? ", " : "") + q(t.cols[t.pk[i]].name);
    sql += ")";
  }
  sql += t.strict ? ") STRICT" : t.withoutRowid ? ") WITHOUT ROWID" : ")";
  out.push_back(sql);
  if (d.gpkg && t.geomCol >= 0) {
    std::string n = t.name, f = q(t.cols[t.pk[0]].name), g = q(t.cols[t.geomCol].name);
    out.push_back("INSERT INTO gpkg_contents VALUES (" + ql(n) + ",'features'," + ql(n) + ",'','2019-08-02T05:01:27.000Z',-1,-1,1,1,4326)");
    out.push_back("INSERT INTO gpkg_geometry_columns VALUES (" + ql(n) + "," + ql(t.cols[t.geomCol].name) + ",'POINT',4326,0,0)");
    std::string rt = "rtree_" + n + "_" + t.cols[t.geomCol].name;
    if (t.counter) {
      out.push_back("INSERT INTO gpkg_ogr_contents VALUES (" + ql(n) + ",0)");
      out.push_back("CREATE TRIGGER " + q("trigger_insert_feature_count_" + n) + " AFTER INSERT ON " + q(n) + " BEGIN UPDATE gpkg_ogr_contents SET feature_count = feature_count + 1 WHERE lower(table_name) = lower(" + ql(n) + "); END");
      out.push_back("CREATE TRIGGER " + q("trigger_delete_feature_count_" + n) + " AFTER DELETE ON " + q(n) + " BEGIN UPDATE gpkg_ogr_contents SET feature_count = feature_count - 1 WHERE lower(table_name) = lower(" + ql(n) + "); END");
    }
    if (t.rtree) {
      std::string R = q(rt), T = q(n);
      std::string vals = " VALUES (NEW." + f + ",ST_MinX(NEW." + g + "), ST_MaxX(NEW." + g + "),ST_MinY(NEW." + g + "), ST_MaxY(NEW." + g + "))";
      out.push_back("CREATE VIRTUAL TABLE " + R + " USING rtree(id, minx, maxx, miny, maxy)");
      out.push_back("INSERT INTO gpkg_extensions VALUES (" + ql(n) + "," + ql(t.cols[t.geomCol].name) + ",'gpkg_rtree_index','http://www.geopackage.org/spec120/#extension_rtree','write-only')");
      out.push_back("CREATE TRIGGER " + q(rt + "_insert") + " AFTER INSERT ON " + T + " WHEN (new." + g + " NOT NULL AND NOT ST_IsEmpty(NEW." + g + ")) BEGIN INSERT OR REPLACE INTO " + R + vals + "; END");
      std::string has = "(NEW." + g + " NOTNULL AND NOT ST_IsEmpty(NEW." + g + "))", had = "(OLD." + g + " NOTNULL AND NOT ST_IsEmpty(OLD." + g + "))";
      if (t.newTriggers) {
        out.push_back("CREATE TRIGGER " + q(rt + "_update6") + " AFTER UPDATE OF " + g + " ON " + T + " WHEN OLD." + f + " = NEW." + f + " AND " + has + " AND " + had + " BEGIN UPDATE " + R + " SET minx = ST_MinX(NEW." + g + "), maxx = ST_MaxX(NEW." + g + "), miny = ST_MinY(NEW." + g + "), maxy = ST_MaxY(NEW." + g + ") WHERE id = NEW." + f + "; END");
        out.push_back("CREATE TRIGGER " + q(rt + "_update7") + " AFTER UPDATE OF " + g + " ON " + T + " WHEN OLD." + f + " = NEW." + f + " AND " + has + " AND NOT " + had + " BEGIN INSERT INTO " + R + vals + "; END");
        out.push_back("CREATE TRIGGER " + q(rt + "_update5") + " AFTER UPDATE ON " + T + " WHEN OLD." + f + " != NEW." + f + " AND " + has + " BEGIN DELETE FROM " + R + " WHERE id = OLD." + f + "; INSERT OR REPLACE INTO " + R + vals + "; END");
      } else {
        out.push_back("CREATE TRIGGER " + q(rt + "_update1") + " AFTER UPDATE OF " + g + " ON " + T + " WHEN OLD." + f + " = NEW." + f + " AND (NEW." + g + " NOTNULL AND NOT ST_IsEmpty(NEW." + g + ")) BEGIN INSERT OR REPLACE INTO " + R + vals + "; END");
        out.push_back("CREATE TRIGGER " + q(rt + "_update3") + " AFTER UPDATE ON " + T + " WHEN OLD." + f + " != NEW." + f + " AND (NEW." + g + " NOTNULL AND NOT ST_IsEmpty(NEW." + g + ")) BEGIN DELETE FROM " + R + " WHERE id = OLD." + f + "; INSERT OR REPLACE INTO " + R + vals + "; END");
      }
      out.push_back("CREATE TRIGGER " + q(rt + "_update2") + " AFTER UPDATE OF " + g + " ON " + T + " WHEN OLD." + f + " = NEW." + f + " AND (NEW." + g + " ISNULL OR ST_IsEmpty(NEW." + g + ")) BEGIN DELETE FROM " + R + " WHERE id = OLD." + f + "; END");
      out.push_back("CREATE TRIGGER " + q(rt + "_update4") + " AFTER UPDATE ON " + T + " WHEN OLD." + f + " != NEW." + f + " AND (NEW." + g + " ISNULL OR ST_IsEmpty(NEW." + g + ")) BEGIN DELETE FROM " + R + " WHERE id IN (OLD." + f + ", NEW." + f + "); END");
      out.push_back("CREATE TRIGGER " + q(rt + "_delete") + " AFTER DELETE ON " + T + " WHEN old." + g + " NOT NULL BEGIN DELETE FROM " + R + " WHERE id = OLD." + f + "; END");
    }
  }
  return out;
}
static const char *kGpkgMeta =
  "CREATE TABLE gpkg_spatial_ref_sys (srs_name TEXT NOT NULL,srs_id INTEGER NOT NULL PRIMARY KEY,organization TEXT NOT NULL,organization_coordsys_id INTEGER NOT NULL,definition TEXT NOT NULL,description TEXT);"
  "INSERT INTO gpkg_spatial_ref_sys VALUES ('Undefined cartesian SRS',-1,'NONE',-1,'undefined','x'),('Undefined geographic SRS',0,'NONE',0,'undefined','y'),('WGS 84 geodetic',4326,'EPSG',4326,'GEOGCS[\"WGS 84\"]','z');"
  "CREATE TABLE gpkg_contents (table_name TEXT NOT NULL PRIMARY KEY,data_type TEXT NOT NULL,identifier TEXT UNIQUE,description TEXT DEFAULT '',last_change DATETIME NOT NULL DEFAULT (strftime('%Y-%m-%dT%H:%M:%fZ','now')),min_x DOUBLE, min_y DOUBLE,max_x DOUBLE, max_y DOUBLE,srs_id INTEGER,CONSTRAINT fk_gc_r_srs_id FOREIGN KEY (srs_id) REFERENCES gpkg_spatial_ref_sys(srs_id));"
  "CREATE TABLE gpkg_ogr_contents(table_name TEXT NOT NULL PRIMARY KEY,feature_count INTEGER DEFAULT NULL);"
  "CREATE TABLE gpkg_geometry_columns (table_name TEXT NOT NULL,column_name TEXT NOT NULL,geometry_type_name TEXT NOT NULL,srs_id INTEGER NOT NULL,z TINYINT NOT NULL,m TINYINT NOT NULL,CONSTRAINT pk_geom_cols PRIMARY KEY (table_name, column_name),CONSTRAINT uk_gc_table_name UNIQUE (table_name),CONSTRAINT fk_gc_tn FOREIGN KEY (table_name) REFERENCES gpkg_contents(table_name),CONSTRAINT fk_gc_srs FOREIGN KEY (srs_id) REFERENCES gpkg_spatial_ref_sys (srs_id));"
  "CREATE TABLE gpkg_tile_matrix_set (table_name TEXT NOT NULL PRIMARY KEY,srs_id INTEGER NOT NULL,min_x DOUBLE NOT NULL,min_y DOUBLE NOT NULL,max_x DOUBLE NOT NULL,max_y DOUBLE NOT NULL);"
  "CREATE TRIGGER gpkg_metadata_check BEFORE INSERT ON gpkg_tile_matrix_set FOR EACH ROW BEGIN SELECT RAISE(ABORT, 'srs') WHERE NEW.srs_id < -5; END;"
  "CREATE TABLE gpkg_extensions (table_name TEXT,column_name TEXT,extension_name TEXT NOT NULL,definition TEXT NOT NULL,scope TEXT NOT NULL,CONSTRAINT ge_tce UNIQUE (table_name, column_name, extension_name));";

static uint64_t rnd(uint64_t &st) { return st = pbt::mix(st, 12345); }

static std::string insertSql(const TableSpec &t) {
  std::string cols, ph;
  for (size_t i = 0; i < t.cols.size(); ++i) { cols += (i ? "," : "") + q(t.cols[i].name); ph += i ? ",?" : "?"; }
  return "INSERT INTO " + q(t.name) + "(" + cols + ") VALUES(" + ph + ")";
}
void writeDb(const std::string &path, const DbSpec &d, const Data &data, const Layout &l) {
  Db db(path);
  db.must("PRAGMA page_size=" + std::to_string(l.pageSize));
  db.must("PRAGMA encoding='" + d.encoding + "'");
  db.must("PRAGMA synchronous=off");
  if (l.autovac) db.must("PRAGMA auto_vacuum=1");
  if (l.wal) db.must("PRAGMA journal_mode=wal"); else db.must("PRAGMA journal_mode=delete");
  db.must("BEGIN");
  if (d.gpkg) db.must(kGpkgMeta);
  for (auto &t : d.tables) for (auto &sql : createSql(d, t)) db.must(sql);
  for (auto &sql : d.extra) db.must(sql);
  uint64_t st = l.shuffle;
  for (auto &t : d.tables) {
    auto it = data.t.find(t.name);
    if (it == data.t.end()) continue;
    std::vector<const Row *> rows;
    for (auto &kv : it->second) rows.push_back(&kv.second);
    if (l.shuffle) for (size_t k = rows.size(); k > 1; --k) std::swap(rows[k - 1], rows[rnd(st) % k]);
    std::string sql = insertSql(t);
    for (auto r : rows) db.run(sql, *r);
  }
  if (l.junk) {
    db.must("CREATE TABLE zz_junk(a,b)");
    db.must("WITH RECURSIVE n(i) AS (SELECT 1 UNION ALL SELECT i+1 FROM n WHERE i<60) INSERT INTO zz_junk SELECT i, randomblob(90) FROM n");
    db.must("DROP TABLE zz_junk");
  }
  for (auto &sql : data.post) db.must(sql);
  db.must("COMMIT");
  if (!l.extraIndexOn.empty()) db.exec(l.extraIndexOn);
  if (l.objects && !d.tables.empty()) {   // nothing of this is compared or changed
    const TableSpec &t = d.tables[0];
    std::string k = q(t.cols.back().name);
    db.must("CREATE VIEW \"a view\" AS SELECT * FROM " + q(t.name));
    db.must("CREATE INDEX \"part %s\" ON " + q(t.name) + "(" + k + " DESC) WHERE " + k + " IS NOT NULL");
    db.must("CREATE INDEX expr_idx ON " + q(t.name) + "(typeof(" + k + "))");
  }
  if (l.analyze) db.must("ANALYZE");
  if (l.analyze && l.staleStats) db.exec(l.staleStats == 1 ? "DELETE FROM sqlite_stat1" : l.staleStats == 2 ? "DELETE FROM sqlite_stat1 WHERE rowid % 2" : "UPDATE sqlite_stat1 SET stat = '1 1 1'");
  if (l.vacuum) db.must("VACUUM");
}
void applyEdits(const std::string &path, const DbSpec &d, const Data &from, const Data &to, uint64_t order) {
  Db db(path, SQLITE_OPEN_READWRITE);
  db.must("PRAGMA synchronous=off");
  db.must("BEGIN");
  applyEdits(db, d, from, to, order);
  db.must("COMMIT");
}
void applyEdits(Db &db, const DbSpec &d, const Data &from, const Data &to, uint64_t order) {
  struct Op { std::string sql; std::vector<Val> args; };
  std::vector<Op> ops;
  for (auto &t : d.tables) {
    auto fi = from.t.find(t.name);
    auto ti = to.t.find(t.name);
    static const std::map<std::string, Row> none;
    const auto &f = fi == from.t.end() ? none : fi->second;
    const auto &x = ti == to.t.end() ? none : ti->second;
    if (!t.keyed()) {
      for (auto &kv : x) if (!f.count(kv.first)) ops.push_back({insertSql(t), kv.second});
      if (f.size() > x.size()) ops.push_back({"DELETE FROM " + q(t.name) + " WHERE rowid=(SELECT min(rowid) FROM " + q(t.name) + ")", {}});
      continue;
    }
    auto where = [&](const Row &r, std::vector<Val> &args) {
      std::string w;
      for (int p : t.pk) { args.push_back(r[p]); w += (w.empty() ? "" : " AND ") + q(t.cols[p].name) + "=?" + std::to_string(args.size()); }
      return w;
    };
    for (auto &kv : f) if (!x.count(kv.first)) { Op o; std::string w = where(kv.second, o.args); o.sql = "DELETE FROM " + q(t.name) + " WHERE " + w; ops.push_back(o); }
    for (auto &kv : x) {
      auto b = f.find(kv.first);
      if (b == f.end()) { ops.push_back({insertSql(t), kv.second}); continue; }
      Op o;
      std::string set;
      for (size_t i = 0; i < kv.second.size(); ++i) if (!same(kv.second[i], b->second[i])) { o.args.push_back(kv.second[i]); set += (set.empty() ? "" : ", ") + q(t.cols[i].name) + "=?" + std::to_string(o.args.size()); }
      if (set.empty()) continue;
      std::string w = where(kv.second, o.args);
      o.sql = "UPDATE " + q(t.name) + " SET " + set + " WHERE " + w;
      ops.push_back(o);
    }
  }
  if (order) { uint64_t st = order; for (size_t k = ops.size(); k > 1; --k) std::swap(ops[k - 1], ops[rnd(st) % k]); }
  for (auto &o : ops) db.run(o.sql, o.args);
  for (auto &sql : to.post) db.must(sql);
}

void describe(pbt::Ctx &c, const DbSpec &d) {
  c.desc << (d.gpkg ? "GeoPackage" : "plain") << " " << d.encoding << "\n";
  for (auto &t : d.tables) {
    std::string s = createSql(d, t)[0];
    c.desc << "  " << (s.size() > 300 ? s.substr(0, 300) + "..." : s) << "\n";
  }
}
std::string describe(const Snap &s, size_t maxRows) {
  std::string r;
  for (auto &kv : s.tables) {
    if (ignoredTable(kv.first) || kv.first.rfind("gpkg_", 0) == 0) continue;
    r += "  " + q(kv.first) + ": " + std::to_string(kv.second.keyed() ? kv.second.rows.size() : kv.second.loose.size()) + " rows\n";
    size_t n = 0;
    for (auto &row : kv.second.rows) { if (n++ >= maxRows) break; r += "    " + show(row.second).substr(0, 300) + "\n"; }
  }
  return r;
}
std::string describeChanges(const Snap &a, const Snap &b, size_t max) {
  std::string r;
  size_t n = 0;
  for (auto &kv : a.tables) {
    if (ignoredTable(kv.first) || !kv.second.keyed()) continue;
    auto bi = b.tables.find(kv.first);
    if (bi == b.tables.end()) { r += "  table " + q(kv.first) + " gone\n"; continue; }
    for (auto &x : kv.second.rows) {
      auto y = bi->second.rows.find(x.first);
      std::string line;
      if (y == bi->second.rows.end()) line = "  - " + q(kv.first) + " " + show(x.second);
      else if (show(x.second) != show(y->second)) line = "  * " + q(kv.first) + " " + show(x.second) + " -> " + show(y->second);
      if (!line.empty() && n++ < max) r += line.substr(0, 400) + "\n";
    }
    for (auto &y : bi->second.rows) if (!kv.second.rows.count(y.first) && n++ < max) r += ("  + " + q(kv.first) + " " + show(y.second)).substr(0, 400) + "\n";
  }
  if (n > max) r += "  ... " + std::to_string(n) + " changes\n";
  return r;
}

Pair genPair(pbt::Ctx &c, const GenOpts &o, const EditOpts &e) {
  Pair p;
  Src &s = c.src;
  p.spec = genSpec(s, o);
  p.baseData = genData(s, p.spec, o);
  p.modData = mutate(s, p.spec, p.baseData, o, e);
  Layout lb = genLayout(s);
  p.base = c.dir + "base.gpkg";
  p.mod = c.dir + "mod.gpkg";
  writeDb(p.base, p.spec, p.baseData, lb);
  if (s.below(3) == 2) {
    Layout lm = genLayout(s);
    writeDb(p.mod, p.spec, p.modData, lm);
    c.label("modified-fresh");
  } else {
    copyFile(p.base, p.mod);
    applyEdits(p.mod, p.spec, p.baseData, p.modData, s.below(1000));
    c.label("modified-edited");
  }
  p.sb = snap(p.base);
  p.sm = snap(p.mod);
  describe(c, p.spec);
  c.desc << "base rows:\n" << describe(p.sb, 4) << "changes:\n" << describeChanges(p.sb, p.sm);
  if (p.spec.gpkg) c.label("gpkg");
  if (p.spec.encoding != "UTF-8") c.label("utf16");
  if (lb.wal) c.label("wal");
  for (auto &t : p.spec.tables) {
    if (t.pk.size() > 1) c.label("composite-key");
    if (!t.keyed()) c.label("no-key");
    if (t.withoutRowid) c.label("without-rowid");
    if (t.keyed() && t.pk.size() == t.cols.size()) c.label("key-only");
    if (t.cols.size() > 50) c.label("wide");
  }
  return p;
}

void maybeStale(pbt::Ctx &c, const std::string &path) {
  size_t k = c.src.below(6);
  if (k < 4) return;
  c.label("output-existed");
  writeFile(path, std::string(k == 4 ? 300000 : 9, 'S'));
}
