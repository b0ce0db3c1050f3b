#include "fakepg.hpp"
#include <clocale>
#include <locale.h>
#include <algorithm>
#include <charconv>
#include <cmath>
#include <cstring>
#include <functional>
#include <memory>
#include <set>
#include <stdexcept>
extern "C" {
#include <libpq-fe.h>
}

namespace fpg {
struct PgError : std::runtime_error { using std::runtime_error::runtime_error; };
[[noreturn]] static void err(const std::string &m) { throw PgError("ERROR:  " + m); }

static Server gServer;
Server &server() { return gServer; }
void Server::reset() {
  *this = Server();
  st.schemas["public"].oid = 2200;
  srs = {{4326, "EPSG", 4326, "GEOGCS[\"WGS 84\",DATUM[\"WGS_1984\"]]"}, {3857, "EPSG", 3857, "PROJCS[\"WGS 84 / Pseudo-Mercator\"]"}, {5514, "EPSG", 5514, "PROJCS[\"S-JTSK / Krovak's East North\"]"}, {102100, "ESRI", 102100, "PROJCS[\"WGS 1984 Web Mercator Auxiliary Sphere\"]"}};
}

// ------------------------------------------------------------------ values
static const char *tyName(Ty t) {
  static const char *n[] = {"unknown", "boolean", "smallint", "integer", "bigint", "numeric", "real", "double precision", "text", "character varying", "name", "timestamp without time zone", "date", "bytea", "geometry", "regclass", "oid", "int2vector"};
  return n[t];
}
std::string typeName(const Type &t) {
  std::string r = tyName(t.t);
  if (t.t == VARCHAR && t.len >= 0) r += "(" + std::to_string(t.len) + ")";
  if (t.t == GEOM && !t.geom.empty()) r += "(" + t.geom + (t.srid ? "," + std::to_string(t.srid) : "") + ")";
  return r;
}
static bool isText(Ty t) { return t == TEXT || t == VARCHAR || t == NAME; }
static bool isNum(Ty t) { return t == INT2 || t == INT4 || t == INT8 || t == NUMERIC || t == FLOAT4 || t == FLOAT8 || t == OID; }
static bool isInt(Ty t) { return t == INT2 || t == INT4 || t == INT8 || t == OID; }
static bool isFloat(Ty t) { return t == FLOAT4 || t == FLOAT8; }
static PV mk(Ty t) { PV v; v.t = t; v.null = false; return v; }
static PV mkNull(Ty t) { PV v; v.t = t; return v; }
static PV mkText(const std::string &s) { PV v = mk(TEXT); v.s = s; return v; }
static PV mkInt(int64_t i, Ty t = INT8) { PV v = mk(t); v.i = i; return v; }
static PV mkBool(bool b) { PV v = mk(BOOL); v.i = b; return v; }

static int64_t daysFromCivil(int64_t y, unsigned m, unsigned d) {
  y -= m <= 2;
  const int64_t era = (y >= 0 ? y : y - 399) / 400;
  const unsigned yoe = (unsigned)(y - era * 400), doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097 + (int64_t)doe - 719468;
}
static void civil(int64_t z, int64_t &y, unsigned &m, unsigned &d) {
  z += 719468;
  const int64_t era = (z >= 0 ? z : z - 146096) / 146097;
  const unsigned doe = (unsigned)(z - era * 146097), yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  y = (int64_t)yoe + era * 400;
  const unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
  d = doy - (153 * mp + 2) / 5 + 1;
  m = mp + (mp < 10 ? 3 : -9);
  y += m <= 2;
}
static int64_t floorDiv(int64_t a, int64_t b) { return a / b - ((a % b) < 0); }
static std::string pad(int64_t v, int n) { std::string s = std::to_string(v); while ((int)s.size() < n) s = "0" + s; return s; }
static PV parseTs(const std::string &in, Ty ty) {
  std::string s = in;
  while (!s.empty() && s.back() == ' ') s.pop_back();
  while (!s.empty() && s[0] == ' ') s.erase(0, 1);
  const char *p = s.c_str();
  auto bad = [&]() { err("invalid input syntax for type " + std::string(tyName(ty)) + ": \"" + in + "\""); };
  auto num = [&](int min, int max) { int64_t v = 0; int n = 0; while (n < max && isdigit((unsigned char)*p)) { v = v * 10 + (*p++ - '0'); ++n; } if (n < min) bad(); return v; };
  int64_t y = num(4, 6);
  if (*p++ != '-') bad();
  int64_t mo = num(1, 2);
  if (*p++ != '-') bad();
  int64_t d = num(1, 2);
  static const int dm[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  bool leap = (y % 4 == 0 && y % 100) || y % 400 == 0;
  if (mo < 1 || mo > 12 || d < 1 || d > dm[mo - 1] + (mo == 2 && leap)) err("date/time field value out of range: \"" + in + "\"");
  int64_t us = 0;
  if (*p == 'T' || *p == ' ') {
    ++p;
    int64_t h = num(1, 2), mi = 0, se = 0, fr = 0;
    if (*p++ != ':') bad();
    mi = num(2, 2);
    if (*p == ':') {
      ++p;
      se = num(2, 2);
      if (*p == '.') {
        ++p;
        int64_t scale = 100000; int n = 0;
        while (isdigit((unsigned char)*p)) { if (n++ < 6) { fr += (*p - '0') * scale; scale /= 10; } ++p; }
      }
    }
    if (h > 24 || mi > 59 || se > 60) err("date/time field value out of range: \"" + in + "\"");
    us = ((h * 60 + mi) * 60 + se) * 1000000 + fr;
  }
  if (*p == 'Z' || *p == 'z') ++p;
  else if (*p == '+' || *p == '-') { ++p; num(1, 2); if (*p == ':') { ++p; num(2, 2); } }
  if (*p) bad();
  PV v = mk(ty);
  int64_t days = daysFromCivil(y, (unsigned)mo, (unsigned)d);
  v.i = ty == DATE ? days : days * 86400000000LL + us;
  return v;
}
static std::string fmtDouble(double d, bool single) {
  if (std::isnan(d)) return "NaN";
  if (std::isinf(d)) return d < 0 ? "-Infinity" : "Infinity";
  char b[64];
  auto r = single ? std::to_chars(b, b + 64, (float)d) : std::to_chars(b, b + 64, d);
  return std::string(b, r.ptr);
}
static std::string hexOf(const std::string &s) { static const char *h = "0123456789abcdef"; std::string o; for (unsigned char c : s) { o += h[c >> 4]; o += h[c & 15]; } return o; }
std::string text(const PV &v) {
  switch (v.t) {
    case BOOL: return v.i ? "t" : "f";
    case INT2: case INT4: case INT8: case OID: return std::to_string(v.i);
    case NUMERIC: return v.s;
    case FLOAT4: case FLOAT8: return fmtDouble(v.d, v.t == FLOAT4);
    case BYTEA: return "\\x" + hexOf(v.s);
    case GEOM: return hexOf(v.s);
    case DATE: case TIMESTAMP: {
      int64_t days = v.t == DATE ? v.i : floorDiv(v.i, 86400000000LL), us = v.t == DATE ? 0 : v.i - days * 86400000000LL, y; unsigned m, d;
      civil(days, y, m, d);
      std::string s = pad(y, 4) + "-" + pad(m, 2) + "-" + pad(d, 2);
      if (v.t == DATE) return s;
      s += " " + pad(us / 3600000000LL, 2) + ":" + pad(us / 60000000 % 60, 2) + ":" + pad(us / 1000000 % 60, 2);
      if (us % 1000000) { std::string f = pad(us % 1000000, 6); while (f.back() == '0') f.pop_back(); s += "." + f; }
      return s;
    }
    case INTARR: { std::string s; for (auto x : v.a) s += (s.empty() ? "" : " ") + std::to_string(x); return s; }
    default: return v.s;
  }
}

// WKB: parsed completely and written again in little endian, ISO codes for Z and M
static bool readWkb(const std::string &in, size_t &p, std::string &out, int &base, bool &z, bool &m, int depth = 0) {
  if (p >= in.size()) return false;
  int le = (unsigned char)in[p++];
  if (le > 1) return false;
  auto u32 = [&](uint32_t &v) { if (in.size() - p < 4) return false; unsigned char b[4]; memcpy(b, &in[p], 4); p += 4; v = le ? (uint32_t)b[0] | b[1] << 8 | b[2] << 16 | (uint32_t)b[3] << 24 : (uint32_t)b[3] | b[2] << 8 | b[1] << 16 | (uint32_t)b[0] << 24; return true; };
  auto w32 = [&](uint32_t v) { for (int k = 0; k < 4; ++k) out += (char)(v >> (8 * k)); };
  uint32_t ty;
  if (!u32(ty)) return false;
  z = ty & 0x80000000u; m = ty & 0x40000000u;
  if (ty & 0x20000000u) { uint32_t srid; if (!u32(srid)) return false; }
  ty &= 0x0fffffff;
  if (ty >= 3000) { z = m = true; ty -= 3000; } else if (ty >= 2000) { m = true; ty -= 2000; } else if (ty >= 1000) { z = true; ty -= 1000; }
  base = (int)ty;
  if (ty < 1 || ty > 7) return false;
  out += '\1';
  w32(ty + (z && m ? 3000 : m ? 2000 : z ? 1000 : 0));
  int dims = 2 + z + m;
  auto coords = [&](uint32_t n) {
    if ((in.size() - p) / 8 / dims < n) return false;
    for (uint32_t k = 0; k < n * dims; ++k, p += 8) for (int b = 0; b < 8; ++b) out += in[p + (le ? b : 7 - b)];
    return true;
  };
  uint32_t n;
  if (ty == 1) return coords(1);
  if (!u32(n)) return false;
  w32(n);
  if (ty == 2) return coords(n);
  if (ty == 3) { for (uint32_t k = 0; k < n; ++k) { uint32_t q; if (!u32(q)) return false; w32(q); if (!coords(q)) return false; } return true; }
  if (depth > 5) return false;
  for (uint32_t k = 0; k < n; ++k) { int b; bool z2, m2; if (!readWkb(in, p, out, b, z2, m2, depth + 1)) return false; }
  return true;
}
static std::string geomTypeOf(const std::string &wkb) {
  static const char *n[] = {"", "Point", "LineString", "Polygon", "MultiPoint", "MultiLineString", "MultiPolygon", "GeometryCollection"};
  size_t p = 0; std::string o; int b; bool z, m;
  if (!readWkb(wkb, p, o, b, z, m)) return "";
  return std::string(n[b]) + (z ? "Z" : "") + (m ? "M" : "");
}

static void validText(const std::string &s) {
  for (size_t i = 0; i < s.size();) {
    unsigned char c = s[i];
    size_t n = c < 0x80 ? 1 : c >= 0xc2 && c <= 0xdf ? 2 : c >= 0xe0 && c <= 0xef ? 3 : c >= 0xf0 && c <= 0xf4 ? 4 : 0;
    bool ok = n && c && i + n <= s.size();
    for (size_t k = 1; ok && k < n; ++k) ok = ((unsigned char)s[i + k] & 0xc0) == 0x80;
    if (ok && n == 3) { unsigned char d = s[i + 1]; ok = !(c == 0xe0 && d < 0xa0) && !(c == 0xed && d > 0x9f); }
    if (ok && n == 4) { unsigned char d = s[i + 1]; ok = !(c == 0xf0 && d < 0x90) && !(c == 0xf4 && d > 0x8f); }
    if (!ok) err("invalid byte sequence for encoding \"UTF8\"");
    i += n;
  }
}
static size_t chars(const std::string &s) { size_t n = 0; for (unsigned char c : s) n += (c & 0xc0) != 0x80; return n; }
static std::string trim(std::string s) { while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back(); while (!s.empty() && isspace((unsigned char)s[0])) s.erase(0, 1); return s; }
static std::string lower(std::string s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
static void intRange(int64_t v, Ty t) {
  if (t == INT4 && (v < INT32_MIN || v > INT32_MAX)) err("integer out of range");
  if (t == INT2 && (v < INT16_MIN || v > INT16_MAX)) err("smallint out of range");
}
static std::string quoteIfNeeded(const std::string &s);
static const Schema *findSchema(const std::string &n) { auto it = gServer.st.schemas.find(n); return it == gServer.st.schemas.end() ? nullptr : &it->second; }
static bool splitName(const std::string &s, std::vector<std::string> &out);
// name of a relation given as text
static std::string regclassOf(const std::string &s, int64_t *oid = nullptr) {
  std::vector<std::string> parts;
  if (!splitName(s, parts) || parts.empty() || parts.size() > 2) err("invalid name syntax");
  std::string sc = parts.size() == 2 ? parts[0] : "public", rel = parts.back();
  const Schema *p = findSchema(sc);
  if (!p) err("schema \"" + sc + "\" does not exist");
  auto it = p->tables.find(rel);
  auto is = p->seqs.find(rel);
  if (it == p->tables.end() && is == p->seqs.end()) err("relation \"" + s + "\" does not exist");
  if (oid) *oid = it != p->tables.end() ? it->second.oid : is->second;
  return (sc == "public" ? "" : quoteIfNeeded(sc) + ".") + quoteIfNeeded(rel);
}
// the input function of a type
static PV input(const std::string &s, const Type &ty, bool explicitCast) {
  PV v = mk(ty.t);
  switch (ty.t) {
    case UNKNOWN: case TEXT: validText(s); v.s = s; return v;
    case NAME: v.s = s; return v;
    case VARCHAR: {
      validText(s);
      v.s = s;
      if (ty.len >= 0 && (int)chars(s) > ty.len) {
        std::string t = s;
        while ((int)chars(t) > ty.len && t.back() == ' ') t.pop_back();
        if ((int)chars(t) > ty.len && !explicitCast) err("value too long for type character varying(" + std::to_string(ty.len) + ")");
        while ((int)chars(t) > ty.len) t.pop_back();
        v.s = t;
      }
      return v;
    }
    case BOOL: {
      std::string t = lower(trim(s));
      for (auto w : {"true", "yes", "on", "1"}) if (!t.empty() && std::string(w).rfind(t, 0) == 0 && !(t == "o")) { v.i = 1; return v; }
      for (auto w : {"false", "no", "off", "0"}) if (!t.empty() && std::string(w).rfind(t, 0) == 0 && !(t == "o")) { v.i = 0; return v; }
      err("invalid input syntax for type boolean: \"" + s + "\"");
    }
    case INT2: case INT4: case INT8: case OID: {
      std::string t = trim(s);
      size_t k = !t.empty() && (t[0] == '-' || t[0] == '+');
      if (t.size() == k || t.find_first_not_of("0123456789", k) != std::string::npos) err(std::string("invalid input syntax for type ") + tyName(ty.t) + ": \"" + s + "\"");
      errno = 0;
      v.i = strtoll(t.c_str(), nullptr, 10);
      if (errno) err("value \"" + s + "\" is out of range for type " + tyName(ty.t));
      intRange(v.i, ty.t);
      return v;
    }
    case NUMERIC: {
      std::string t = trim(s);
      char *e;
      strtold(t.c_str(), &e);
      if (t.empty() || *e || t.find_first_of("xXiI") != std::string::npos) err("invalid input syntax for type numeric: \"" + s + "\"");
      v.s = t;
      return v;
    }
    case FLOAT4: case FLOAT8: {
      std::string t = lower(trim(s));
      std::string u = !t.empty() && (t[0] == '-' || t[0] == '+') ? t.substr(1) : t;
      if (u == "infinity" || u == "inf") v.d = t[0] == '-' ? -INFINITY : INFINITY;
      else if (u == "nan") v.d = NAN;
      else {
        char *e;
        if (u.empty() || u.find_first_not_of("0123456789.e+-") != std::string::npos) err(std::string("invalid input syntax for type ") + tyName(ty.t) + ": \"" + s + "\"");
        errno = 0;
        v.d = ty.t == FLOAT4 ? (double)strtof(t.c_str(), &e) : strtod(t.c_str(), &e);
        if (*e) err(std::string("invalid input syntax for type ") + tyName(ty.t) + ": \"" + s + "\"");
        bool zero = v.d == 0 && u.find_first_of("123456789") < u.find('e');
        if (std::isinf(v.d) || zero) err("\"" + s + "\" is out of range for type " + tyName(ty.t));
      }
      return v;
    }
    case TIMESTAMP: case DATE: return parseTs(s, ty.t);
    case BYTEA: {
      if (s.rfind("\\x", 0) == 0) {
        std::string h;
        for (size_t k = 2; k < s.size(); ++k) if (!isspace((unsigned char)s[k])) h += s[k];
        if (h.size() % 2) err("invalid hexadecimal data: odd number of digits");
        for (size_t k = 0; k < h.size(); k += 2) {
          auto dig = [&](char c) { if (isdigit((unsigned char)c)) return c - '0'; c |= 32; if (c < 'a' || c > 'f') err("invalid hexadecimal digit"); return c - 'a' + 10; };
          v.s += (char)(dig(h[k]) * 16 + dig(h[k + 1]));
        }
        return v;
      }
      for (size_t k = 0; k < s.size(); ++k) {
        if (s[k] != '\\') { v.s += s[k]; continue; }
        if (k + 1 < s.size() && s[k + 1] == '\\') { v.s += '\\'; ++k; continue; }
        if (k + 3 < s.size() && s[k + 1] >= '0' && s[k + 1] <= '3' && s[k + 2] >= '0' && s[k + 2] <= '7' && s[k + 3] >= '0' && s[k + 3] <= '7') { v.s += (char)((s[k + 1] - '0') * 64 + (s[k + 2] - '0') * 8 + s[k + 3] - '0'); k += 3; continue; }
        err("invalid input syntax for type bytea");
      }
      return v;
    }
    case GEOM: {   // hexadecimal (E)WKB
      Type b; b.t = BYTEA;
      PV raw;
      try { raw = input("\\x" + s, b, false); } catch (PgError &) { err("parse error - invalid geometry"); }
      size_t p = 0; int bs; bool z, m;
      if (s.empty() || !readWkb(raw.s, p, v.s, bs, z, m) || p != raw.s.size()) err("parse error - invalid geometry");
      if (raw.s.size() > 9 && (raw.s[0] ? raw.s[4] : raw.s[1]) & 0x20) { uint32_t sr; memcpy(&sr, &raw.s[5], 4); v.i = sr; }
      return v;
    }
    case REGCLASS: v.s = regclassOf(s, &v.i); return v;
    default: err("cannot read this type");
  }
}
static void geomTypmod(const PV &v, const Type &ty) {
  if (ty.geom.empty() || v.null) return;
  if (ty.srid && v.i != ty.srid) err("Geometry SRID (" + std::to_string(v.i) + ") does not match column SRID (" + std::to_string(ty.srid) + ")");
  std::string g = geomTypeOf(v.s);
  if (lower(ty.geom) == "geometry") return;
  if (lower(g) != lower(ty.geom)) err("Geometry type (" + g + ") does not match column type (" + ty.geom + ")");
}
static double num(const PV &v) { return v.t == NUMERIC ? strtod(v.s.c_str(), nullptr) : isFloat(v.t) ? v.d : (double)v.i; }
// 0 implicit/assignment, 1 explicit
static PV cast(const PV &v, const Type &to, bool expl) {
  auto no = [&]() { err(std::string("column is of type ") + tyName(to.t) + " but expression is of type " + tyName(v.t)); };
  if (v.null) { if (v.t != UNKNOWN && v.t != to.t && !expl && !(isNum(v.t) && isNum(to.t)) && !isText(to.t)) no(); return mkNull(to.t); }
  if (v.t == UNKNOWN) { PV r = input(v.s, to, expl); if (to.t == GEOM) geomTypmod(r, to); return r; }
  if (v.t == to.t && to.t == GEOM) { geomTypmod(v, to); return v; }
  if (v.t == to.t && to.t != VARCHAR) return v;
  PV r = mk(to.t);
  if (isText(to.t)) { Type x = to; return input(v.t == BOOL ? (v.i ? "true" : "false") : text(v), x, expl); }
  if (isNum(v.t) && isNum(to.t)) {
    if (isInt(to.t)) {
      if (isInt(v.t)) r.i = v.i;
      else {
        long double x = v.t == NUMERIC ? roundl(strtold(v.s.c_str(), nullptr)) : rintl(v.d);
        if (!(x >= -9223372036854775808.0L && x <= 9223372036854775807.0L)) err(std::string(to.t == INT4 ? "integer" : "bigint") + " out of range");
        r.i = (int64_t)x;
      }
      intRange(r.i, to.t);
    } else if (isFloat(to.t)) {
      if (v.t == NUMERIC) return input(v.s, to, expl);
      r.d = num(v);
      if (to.t == FLOAT4) { float f = (float)r.d; if (std::isinf(f) && !std::isinf(r.d)) err("value out of range: overflow"); r.d = f; }
    } else r.s = text(v);
    return r;
  }
  if (v.t == DATE && to.t == TIMESTAMP) { r.i = v.i * 86400000000LL; return r; }
  if (v.t == TIMESTAMP && to.t == DATE) { r.i = floorDiv(v.i, 86400000000LL); return r; }
  if (v.t == REGCLASS && isNum(to.t)) { r.i = v.i; return r; }
  if (v.t == OID && to.t == REGCLASS) {
    r.i = v.i;
    for (auto &s : gServer.st.schemas) {
      for (auto &t : s.second.tables) if (t.second.oid == v.i) { r.s = (s.first == "public" ? "" : quoteIfNeeded(s.first) + ".") + quoteIfNeeded(t.first); return r; }
      for (auto &t : s.second.seqs) if (t.second == v.i) { r.s = (s.first == "public" ? "" : quoteIfNeeded(s.first) + ".") + quoteIfNeeded(t.first); return r; }
    }
    r.s = std::to_string(v.i);
    return r;
  }
  if (expl) {
    if (isText(v.t)) return input(v.s, to, true);
    if (isInt(v.t) && to.t == BOOL) { r.i = v.i != 0; return r; }
    if (v.t == BOOL && isInt(to.t)) { r.i = v.i; return r; }
  }
  if (isText(v.t) && to.t == REGCLASS) return input(v.s, to, true);
  no();
  return r;
}
static int cmp(const PV &a, const PV &b) {   // both of comparable types, not null
  if (isNum(a.t) && isNum(b.t)) {
    if (isFloat(a.t) || isFloat(b.t)) {
      double x = num(a), y = num(b);
      if (std::isnan(x) || std::isnan(y)) return std::isnan(x) ? (std::isnan(y) ? 0 : 1) : -1;
      return x < y ? -1 : x > y;
    }
    long double x = a.t == NUMERIC ? strtold(a.s.c_str(), nullptr) : (long double)a.i, y = b.t == NUMERIC ? strtold(b.s.c_str(), nullptr) : (long double)b.i;
    return x < y ? -1 : x > y;
  }
  if (a.t == BOOL || a.t == TIMESTAMP || a.t == DATE) {
    int64_t x = a.i, y = b.i;
    if (a.t == DATE && b.t == TIMESTAMP) x *= 86400000000LL;
    if (a.t == TIMESTAMP && b.t == DATE) y *= 86400000000LL;
    return x < y ? -1 : x > y;
  }
  if (a.t == GEOM && a.i != b.i) return a.i < b.i ? -1 : 1;
  int c = a.s.compare(b.s);
  return c < 0 ? -1 : c > 0;
}
static bool comparable(Ty a, Ty b) {
  if (a == b) return a != INTARR;
  if (isNum(a) && isNum(b)) return true;
  if (isText(a) && isText(b)) return true;
  auto dt = [](Ty t) { return t == DATE || t == TIMESTAMP; };
  return dt(a) && dt(b);
}

// ------------------------------------------------------------------ lexer
struct Tok { enum K { ID, QID, STR, NUM, OP, END } k = END; std::string s; };
static std::vector<Tok> lex(const std::string &in) {
  std::vector<Tok> out;
  size_t i = 0, n = in.size();
  validText(in);
  while (i < n) {
    unsigned char c = in[i];
    if (isspace(c)) { ++i; continue; }
    if (c == '-' && i + 1 < n && in[i + 1] == '-') { while (i < n && in[i] != '\n') ++i; continue; }
    if (c == '/' && i + 1 < n && in[i + 1] == '*') { size_t e = in.find("*/", i + 2); if (e == std::string::npos) err("unterminated /* comment"); i = e + 2; continue; }
    Tok t;
    if ((c == 'E' || c == 'e') && i + 1 < n && in[i + 1] == '\'') {
      t.k = Tok::STR;
      i += 2;
      for (;;) {
        if (i >= n) err("unterminated quoted string");
        if (in[i] == '\'') { if (i + 1 < n && in[i + 1] == '\'') { t.s += '\''; i += 2; continue; } ++i; break; }
        if (in[i] == '\\' && i + 1 < n) {
          char e = in[i + 1];
          i += 2;
          if (e == 'n') t.s += '\n'; else if (e == 't') t.s += '\t'; else if (e == 'r') t.s += '\r'; else if (e == 'b') t.s += '\b'; else if (e == 'f') t.s += '\f';
          else if (e == 'x') { int v = 0, k = 0; while (k < 2 && i < n && isxdigit((unsigned char)in[i])) { v = v * 16 + (isdigit((unsigned char)in[i]) ? in[i] - '0' : (in[i] | 32) - 'a' + 10); ++i; ++k; } t.s += k ? (char)v : 'x'; }
          else if (e >= '0' && e <= '7') { int v = e - '0', k = 1; while (k < 3 && i < n && in[i] >= '0' && in[i] <= '7') { v = v * 8 + in[i++] - '0'; ++k; } t.s += (char)v; }
          else t.s += e;
          continue;
        }
        t.s += in[i++];
      }
      out.push_back(t);
      continue;
    }
    if (c == '\'' || c == '"') {
      t.k = c == '"' ? Tok::QID : Tok::STR;
      ++i;
      for (;;) {
        if (i >= n) err(c == '"' ? "unterminated quoted identifier" : "unterminated quoted string");
        if (in[i] == (char)c) { if (i + 1 < n && in[i + 1] == (char)c) { t.s += (char)c; i += 2; continue; } ++i; break; }
        t.s += in[i++];
      }
      if (c == '"' && t.s.empty()) err("zero-length delimited identifier at or near \"\"\"\"");
      out.push_back(t);
      continue;
    }
    if (isalpha(c) || c == '_' || c >= 0x80) {
      t.k = Tok::ID;
      while (i < n && (isalnum((unsigned char)in[i]) || in[i] == '_' || in[i] == '$' || (unsigned char)in[i] >= 0x80)) t.s += in[i++];
      t.s = lower(t.s);
      out.push_back(t);
      continue;
    }
    if (isdigit(c) || (c == '.' && i + 1 < n && isdigit((unsigned char)in[i + 1]))) {
      t.k = Tok::NUM;
      while (i < n && (isdigit((unsigned char)in[i]) || in[i] == '.')) t.s += in[i++];
      if (i < n && (in[i] == 'e' || in[i] == 'E')) {
        size_t k = i + 1;
        if (k < n && (in[k] == '+' || in[k] == '-')) ++k;
        if (k < n && isdigit((unsigned char)in[k])) { while (i < k) t.s += in[i++]; while (i < n && isdigit((unsigned char)in[i])) t.s += in[i++]; }
      }
      if (i < n && (isalpha((unsigned char)in[i]) || in[i] == '_')) err("trailing junk after numeric literal");
      out.push_back(t);
      continue;
    }
    t.k = Tok::OP;
    for (auto op : {"::", "<>", "!=", "<=", ">=", "||"}) if (in.compare(i, 2, op) == 0) t.s = op;
    if (t.s.empty()) {
      if (!strchr("()[],;.=<>+-*/%~^:", c)) err("syntax error at or near \"" + std::string(1, (char)c) + "\"");
      t.s = std::string(1, (char)c);
    }
    i += t.s.size();
    out.push_back(t);
  }
  out.push_back(Tok());
  return out;
}
static const std::set<std::string> kReserved = {"all", "analyse", "analyze", "and", "any", "array", "as", "asc", "asymmetric", "both", "case", "cast", "check", "collate", "column", "constraint", "create", "current_date", "current_role", "current_time", "current_timestamp", "current_user", "default", "deferrable", "desc", "distinct", "do", "else", "end", "except", "false", "fetch", "for", "foreign", "from", "grant", "group", "having", "in", "initially", "intersect", "into", "lateral", "leading", "limit", "localtime", "localtimestamp", "not", "null", "offset", "on", "only", "or", "order", "placing", "primary", "references", "returning", "select", "session_user", "some", "symmetric", "table", "then", "to", "trailing", "true", "union", "unique", "user", "using", "variadic", "when", "where", "window", "with",
  // reserved, but usable as names of functions or types
  "authorization", "binary", "concurrently", "cross", "current_schema", "freeze", "full", "ilike", "inner", "is", "isnull", "join", "left", "like", "natural", "notnull", "outer", "overlaps", "right", "similar", "tablesample", "verbose"};
static std::string quoteIfNeeded(const std::string &s) {
  bool plain = !s.empty() && (islower((unsigned char)s[0]) || s[0] == '_') && !kReserved.count(s);
  for (unsigned char c : s) plain = plain && (islower(c) || isdigit(c) || c == '_');
  if (plain) return s;
  std::string r = "\"";
  for (char c : s) { if (c == '"') r += '"'; r += c; }
  return r + "\"";
}
static bool splitName(const std::string &s, std::vector<std::string> &out) {
  auto t = lex(s);
  size_t i = 0;
  for (;;) {
    if (t[i].k != Tok::ID && t[i].k != Tok::QID) return false;
    out.push_back(t[i++].s);
    if (t[i].k == Tok::END) return true;
    if (t[i].k != Tok::OP || t[i].s != ".") return false;
    ++i;
  }
}

// ------------------------------------------------------------------ syntax tree
struct Query;
struct Expr {
  enum K { LIT, COL, STAR, CMP, DIST, AND, OR, NOT, ISNULL, ISBOOL, EXISTS, SUBQ, IN, ANY, FUNC, CAST, CONCAT, ARITH, NEG, CASE, COALESCE, LIKE } k = LIT;
  std::vector<Expr> a;
  PV lit;
  std::vector<std::string> name;   // column parts, or function name
  std::string op;
  bool neg = false;                // NOT IN, IS NOT NULL, ...
  Type type;
  std::shared_ptr<Query> q;
  // resolved
  int depth = -1, rel = -1, col = -1;
  Ty ty = UNKNOWN;
};
struct From { std::string schema, table, alias; std::shared_ptr<Query> sub; int join = 0; /* 0 cross, 1 inner, 2 left */ bool hasOn = false; Expr on; };
struct Query {
  bool distinct = false;
  std::vector<Expr> list;
  std::vector<std::string> names;
  std::vector<From> from;
  bool hasWhere = false;
  Expr where;
  std::vector<std::pair<Expr, bool>> order;
  bool hasLimit = false; Expr limit;
  std::string setOp; bool setAll = false;      // union, except, intersect with next
  std::shared_ptr<Query> next;
};
struct Rel { std::string schema, table, alias; std::vector<std::string> cols; std::vector<Ty> types; std::vector<std::vector<PV>> rows; const std::vector<PV> *cur = nullptr; };
struct Scope { std::vector<Rel> rels; Scope *parent = nullptr; };

static Schema &schemaOf(const std::string &n) { auto it = gServer.st.schemas.find(n); if (it == gServer.st.schemas.end()) err("schema \"" + n + "\" does not exist"); return it->second; }
static Table &tableOf(const std::string &s, const std::string &t) {
  std::string sc = s.empty() ? "public" : s;
  auto is = gServer.st.schemas.find(sc);
  if (is == gServer.st.schemas.end() || !is->second.tables.count(t)) err("relation \"" + (s.empty() ? t : s + "." + t) + "\" does not exist");
  return is->second.tables[t];
}
static std::string upper(std::string s) { for (auto &c : s) if (c >= 'a' && c <= 'z') c -= 32; return s; }
static int64_t typeOid(Ty t) { return 1000 + t; }

struct Conn { bool bad = false; bool inTx = false, aborted = false, keepsSnapshot = false, hasSnapshot = false; State saved; std::vector<std::pair<std::string, State>> points; std::string lastError; };
static std::vector<Conn *> gConns;

static Rel catalogue(const std::string &schema, const std::string &name, bool &found) {
  Rel r;
  found = true;
  auto &st = gServer.st;
  auto add = [&](std::initializer_list<std::pair<const char *, Ty>> l) { for (auto &c : l) { r.cols.push_back(c.first); r.types.push_back(c.second); } };
  auto T = [](const std::string &s, Ty t = NAME) { PV v = mkText(s); v.t = t; return v; };
  if (schema == "information_schema") {
    if (name == "schemata") { add({{"schema_name", NAME}}); for (auto &s : st.schemas) r.rows.push_back({T(s.first)}); return r; }
    if (name == "tables") { add({{"table_schema", NAME}, {"table_name", NAME}, {"table_type", TEXT}}); for (auto &s : st.schemas) for (auto &t : s.second.tables) r.rows.push_back({T(s.first), T(t.first), T("BASE TABLE", TEXT)}); return r; }
    found = false;
    return r;
  }
  if (!schema.empty() && schema != "pg_catalog" && schema != "public") { found = false; return r; }
  if (name == "pg_namespace") { add({{"oid", OID}, {"nspname", NAME}}); for (auto &s : st.schemas) r.rows.push_back({mkInt(s.second.oid, OID), T(s.first)}); }
  else if (name == "pg_tables") { add({{"schemaname", NAME}, {"tablename", NAME}, {"tableowner", NAME}}); for (auto &s : st.schemas) for (auto &t : s.second.tables) r.rows.push_back({T(s.first), T(t.first), T("postgres")}); }
  else if (name == "pg_class") {
    add({{"oid", OID}, {"relname", NAME}, {"relnamespace", OID}, {"relkind", TEXT}});
    for (auto &s : st.schemas) {
      for (auto &t : s.second.tables) r.rows.push_back({mkInt(t.second.oid, OID), T(t.first), mkInt(s.second.oid, OID), T("r", TEXT)});
      for (auto &t : s.second.seqs) r.rows.push_back({mkInt(t.second, OID), T(t.first), mkInt(s.second.oid, OID), T("S", TEXT)});
    }
  } else if (name == "pg_attribute") {
    add({{"attrelid", OID}, {"attname", NAME}, {"atttypid", OID}, {"attnum", INT2}, {"atttypmod", INT4}, {"attnotnull", BOOL}, {"atthasdef", BOOL}, {"attisdropped", BOOL}});
    for (auto &s : st.schemas) for (auto &t : s.second.tables) {
      for (size_t k = 0; k < t.second.cols.size(); ++k) {
        auto &c = t.second.cols[k];
        r.rows.push_back({mkInt(t.second.oid, OID), T(c.name), mkInt(typeOid(c.type.t), OID), mkInt((int64_t)k + 1, INT2), mkInt(t.second.oid * 1000 + (int64_t)k, INT4), mkBool(c.notNull), mkBool(c.hasDefault || !c.seq.empty()), mkBool(false)});
      }
      r.rows.push_back({mkInt(t.second.oid, OID), T("ctid"), mkInt(27, OID), mkInt(-1, INT2), mkInt(-1, INT4), mkBool(true), mkBool(false), mkBool(false)});
    }
  } else if (name == "pg_index") {
    add({{"indexrelid", OID}, {"indrelid", OID}, {"indisunique", BOOL}, {"indisprimary", BOOL}, {"indkey", INTARR}});
    for (auto &s : st.schemas) for (auto &t : s.second.tables) for (auto &x : t.second.indexes) {
      PV k = mk(INTARR);
      for (int c : x.cols) k.a.push_back(c + 1);
      r.rows.push_back({mkInt(1, OID), mkInt(t.second.oid, OID), mkBool(x.unique), mkBool(x.primary), k});
    }
  } else if (name == "pg_attrdef") {
    add({{"oid", OID}, {"adrelid", OID}, {"adnum", INT2}, {"adbin", TEXT}});
    for (auto &s : st.schemas) for (auto &t : s.second.tables) for (size_t k = 0; k < t.second.cols.size(); ++k) {
      auto &c = t.second.cols[k];
      if (!c.seq.empty()) {
        std::string rel = (s.first == "public" ? "" : quoteIfNeeded(s.first) + ".") + quoteIfNeeded(c.seq), lit;
        for (char ch : rel) { if (ch == '\'') lit += '\''; lit += ch; }
        r.rows.push_back({mkInt(1, OID), mkInt(t.second.oid, OID), mkInt((int64_t)k + 1, INT2), T("nextval('" + lit + "'::regclass)", TEXT)});
      } else if (c.hasDefault) r.rows.push_back({mkInt(1, OID), mkInt(t.second.oid, OID), mkInt((int64_t)k + 1, INT2), T("'" + text(c.dflt) + "'::" + typeName(c.type), TEXT)});
    }
  } else if (name == "geometry_columns") {
    add({{"f_table_catalog", VARCHAR}, {"f_table_schema", NAME}, {"f_table_name", NAME}, {"f_geometry_column", NAME}, {"coord_dimension", INT4}, {"srid", INT4}, {"type", VARCHAR}});
    for (auto &s : st.schemas) for (auto &t : s.second.tables) for (auto &c : t.second.cols) if (c.type.t == GEOM) {
      std::string g = upper(c.type.geom.empty() ? "GEOMETRY" : c.type.geom);
      int dims = 2;
      bool zm = g.size() > 2 && g.compare(g.size() - 2, 2, "ZM") == 0;
      if (zm) dims = 4; else if (g.back() == 'Z' || g.back() == 'M') dims = 3;
      if (zm) g.resize(g.size() - 2); else if (g.back() == 'Z') g.pop_back();   // as the view of PostGIS does
      r.rows.push_back({T("db", VARCHAR), T(s.first), T(t.first), T(c.name), mkInt(dims, INT4), mkInt(c.type.srid, INT4), T(g, VARCHAR)});
    }
  } else if (name == "spatial_ref_sys") {
    add({{"srid", INT4}, {"auth_name", VARCHAR}, {"auth_srid", INT4}, {"srtext", VARCHAR}, {"proj4text", VARCHAR}});
    for (auto &s : gServer.srs) r.rows.push_back({mkInt(s.srid, INT4), T(s.auth, VARCHAR), mkInt(s.code, INT4), T(s.wkt, VARCHAR), T("+proj", VARCHAR)});
  } else found = false;
  return r;
}

// ------------------------------------------------------------------ parser
struct Parser {
  std::vector<Tok> t;
  size_t p = 0;
  [[noreturn]] void fail() { err("syntax error at " + (t[p].k == Tok::END ? std::string("end of input") : "or near \"" + t[p].s + "\"")); }
  [[noreturn]] void unsup(const std::string &w) { if (gServer.unsupported.empty()) gServer.unsupported = w; err("not supported by the stand-in: " + w); }
  bool kw(const char *w) const { return t[p].k == Tok::ID && t[p].s == w; }
  bool op(const char *w) const { return t[p].k == Tok::OP && t[p].s == w; }
  bool eatKw(const char *w) { if (kw(w)) { ++p; return true; } return false; }
  bool eat(const char *w) { if (op(w)) { ++p; return true; } return false; }
  void needKw(const char *w) { if (!eatKw(w)) fail(); }
  void need(const char *w) { if (!eat(w)) fail(); }
  bool isIdent() const { return t[p].k == Tok::QID || (t[p].k == Tok::ID && !kReserved.count(t[p].s)); }
  std::string ident() { if (!isIdent()) fail(); return t[p++].s; }
  std::string label() { if (t[p].k != Tok::QID && t[p].k != Tok::ID) fail(); return t[p++].s; }

  Type type() {
    Type r;
    std::string n = label();
    if (n == "pg_catalog" && eat(".")) n = label();
    if (n == "double") { needKw("precision"); r.t = FLOAT8; }
    else if (n == "character") { r.t = eatKw("varying") ? VARCHAR : VARCHAR; }
    else if (n == "timestamp") { r.t = TIMESTAMP; if (eat("(")) { ++p; need(")"); } if (eatKw("without")) { needKw("time"); needKw("zone"); } else if (kw("with")) unsup("timestamp with time zone"); }
    else {
      static const std::map<std::string, Ty> m = {{"int", INT4}, {"integer", INT4}, {"int4", INT4}, {"serial", INT4}, {"serial4", INT4}, {"smallint", INT2}, {"int2", INT2}, {"bigint", INT8}, {"int8", INT8}, {"bigserial", INT8}, {"serial8", INT8}, {"real", FLOAT4}, {"float4", FLOAT4}, {"float8", FLOAT8}, {"float", FLOAT8}, {"numeric", NUMERIC}, {"decimal", NUMERIC}, {"bool", BOOL}, {"boolean", BOOL}, {"text", TEXT}, {"varchar", VARCHAR}, {"name", NAME}, {"date", DATE}, {"bytea", BYTEA}, {"geometry", GEOM}, {"regclass", REGCLASS}, {"oid", OID}};
      auto it = m.find(n);
      if (it == m.end()) err("type \"" + n + "\" does not exist");
      r.t = it->second;
    }
    if (r.t == GEOM && eat("(")) {
      std::string g = label();
      static const char *names[] = {"Geometry", "Point", "LineString", "Polygon", "MultiPoint", "MultiLineString", "MultiPolygon", "GeometryCollection"};
      for (auto nm : names) for (auto sf : {"", "Z", "M", "ZM"}) if (lower(std::string(nm) + sf) == lower(g)) r.geom = std::string(nm) + sf;
      if (r.geom.empty()) err("Invalid geometry type modifier: " + g);
      if (eat(",")) { bool neg = eat("-"); if (t[p].k != Tok::NUM) fail(); r.srid = atoi(t[p++].s.c_str()); if (neg || r.srid > 999999) r.srid = 0; }
      need(")");
      if (r.srid && std::none_of(gServer.srs.begin(), gServer.srs.end(), [&](const Srs &s) { return s.srid == r.srid; })) {}   // PostGIS only warns
    } else if (eat("(")) {
      if (t[p].k != Tok::NUM) fail();
      int n2 = atoi(t[p++].s.c_str());
      if (eat(",")) ++p;
      need(")");
      if (r.t == VARCHAR) r.len = n2; else if (r.t != NUMERIC) err("type modifier is not allowed for type");
    }
    return r;
  }
  Expr expr() { return orE(); }
  Expr bin(Expr::K k, Expr l, Expr r, const std::string &o = "") { Expr e; e.k = k; e.op = o; e.a.push_back(std::move(l)); e.a.push_back(std::move(r)); return e; }
  Expr orE() { Expr l = andE(); while (eatKw("or")) l = bin(Expr::OR, std::move(l), andE()); return l; }
  Expr andE() { Expr l = notE(); while (eatKw("and")) l = bin(Expr::AND, std::move(l), notE()); return l; }
  Expr notE() { if (eatKw("not")) { Expr e; e.k = Expr::NOT; e.a.push_back(notE()); return e; } return isE(); }
  Expr isE() {
    Expr l = cmpE();
    for (;;) {
      if (eatKw("isnull") || eatKw("notnull")) { bool neg = t[p - 1].s == "notnull"; Expr e; e.k = Expr::ISNULL; e.neg = neg; e.a.push_back(std::move(l)); l = std::move(e); continue; }
      if (!eatKw("is")) return l;
      bool neg = eatKw("not");
      Expr e;
      e.neg = neg;
      if (eatKw("null")) { e.k = Expr::ISNULL; e.a.push_back(std::move(l)); }
      else if (eatKw("true") || eatKw("false")) { e.k = Expr::ISBOOL; e.op = t[p - 1].s; e.a.push_back(std::move(l)); }
      else if (eatKw("distinct")) { needKw("from"); e.k = Expr::DIST; e.a.push_back(std::move(l)); e.a.push_back(cmpE()); }
      else fail();
      l = std::move(e);
    }
  }
  Expr cmpE() {
    Expr l = inE();
    for (auto o : {"=", "<>", "!=", "<=", ">=", "<", ">"}) if (op(o)) {
      ++p;
      std::string oo = std::string(o) == "!=" ? "<>" : o;
      if (kw("any") || kw("some") || kw("all")) {
        bool all = kw("all");
        ++p;
        need("(");
        Expr e;
        e.k = Expr::ANY; e.op = oo; e.neg = all;
        e.a.push_back(std::move(l));
        if (kw("select") || kw("with")) e.q = query(); else e.a.push_back(expr());
        need(")");
        return e;
      }
      return bin(Expr::CMP, std::move(l), inE(), oo);
    }
    return l;
  }
  Expr inE() {
    Expr l = catE();
    bool neg = false;
    size_t save = p;
    if (kw("not")) { ++p; if (!kw("in") && !kw("like") && !kw("between")) { p = save; return l; } neg = true; }
    if (eatKw("in")) {
      Expr e;
      e.k = Expr::IN; e.neg = neg;
      e.a.push_back(std::move(l));
      need("(");
      if (kw("select") || kw("with")) e.q = query(); else do e.a.push_back(expr()); while (eat(","));
      need(")");
      return e;
    }
    if (eatKw("like")) { Expr e = bin(Expr::LIKE, std::move(l), catE()); e.neg = neg; return e; }
    if (eatKw("between")) { Expr lo = catE(); needKw("and"); Expr hi = catE(); Expr a = l; Expr e = bin(Expr::AND, bin(Expr::CMP, std::move(l), std::move(lo), ">="), bin(Expr::CMP, std::move(a), std::move(hi), "<=")); if (neg) { Expr n; n.k = Expr::NOT; n.a.push_back(std::move(e)); return n; } return e; }
    return l;
  }
  Expr catE() { Expr l = addE(); while (eat("||")) l = bin(Expr::CONCAT, std::move(l), addE()); return l; }
  Expr addE() { Expr l = mulE(); while (op("+") || op("-")) { std::string o = t[p++].s; l = bin(Expr::ARITH, std::move(l), mulE(), o); } return l; }
  Expr mulE() { Expr l = unE(); while (op("*") || op("/") || op("%")) { std::string o = t[p++].s; l = bin(Expr::ARITH, std::move(l), unE(), o); } return l; }
  Expr unE() {
    if (eat("-")) {
      Expr x = unE();
      if (x.k == Expr::LIT && isNum(x.lit.t) && !x.lit.null) { if (x.lit.t == NUMERIC) x.lit.s = "-" + x.lit.s; else x.lit.i = -x.lit.i; return x; }
      Expr e; e.k = Expr::NEG; e.a.push_back(std::move(x)); return e;
    }
    if (eat("+")) return unE();
    return castE();
  }
  Expr castE() {
    Expr l = prim();
    while (eat("::")) { Expr e; e.k = Expr::CAST; e.type = type(); e.a.push_back(std::move(l)); l = std::move(e); }
    if (op("[")) unsup("subscripts");
    return l;
  }
  Expr prim() {
    Expr e;
    Tok tk = t[p];
    if (tk.k == Tok::STR) { ++p; e.lit = mk(UNKNOWN); e.lit.s = tk.s; return e; }
    if (tk.k == Tok::NUM) {
      ++p;
      if (tk.s.find_first_of(".eE") == std::string::npos) {
        errno = 0;
        int64_t v = strtoll(tk.s.c_str(), nullptr, 10);
        if (!errno) { e.lit = mkInt(v, v <= INT32_MAX ? INT4 : INT8); return e; }
      }
      e.lit = mk(NUMERIC); e.lit.s = tk.s;
      return e;
    }
    if (eat("(")) {
      if (kw("select") || kw("with")) { e.k = Expr::SUBQ; e.q = query(); need(")"); return e; }
      e = expr();
      if (op(",")) unsup("row constructors");
      need(")");
      return e;
    }
    if (tk.k == Tok::ID) {
      if (tk.s == "null") { ++p; e.lit = mkNull(UNKNOWN); return e; }
      if (tk.s == "true" || tk.s == "false") { ++p; e.lit = mkBool(tk.s == "true"); return e; }
      if (tk.s == "exists") { ++p; need("("); e.k = Expr::EXISTS; e.q = query(); need(")"); return e; }
      if (tk.s == "cast") { ++p; need("("); e.k = Expr::CAST; e.a.push_back(expr()); needKw("as"); e.type = type(); need(")"); return e; }
      if (tk.s == "coalesce" || tk.s == "nullif") { ++p; need("("); e.k = Expr::COALESCE; e.op = tk.s; do e.a.push_back(expr()); while (eat(",")); need(")"); return e; }
      if (tk.s == "case") {
        ++p;
        e.k = Expr::CASE;
        bool simple = !kw("when");
        Expr sel;
        if (simple) sel = expr();
        while (eatKw("when")) { Expr c = expr(); if (simple) c = bin(Expr::CMP, sel, std::move(c), "="); needKw("then"); e.a.push_back(std::move(c)); e.a.push_back(expr()); }
        if (eatKw("else")) e.a.push_back(expr());
        needKw("end");
        return e;
      }
      if ((tk.s == "date" || tk.s == "timestamp" || tk.s == "bytea") && t[p + 1].k == Tok::STR) { e.k = Expr::CAST; e.type = type(); Expr l; l.lit = mk(UNKNOWN); l.lit.s = t[p++].s; e.a.push_back(std::move(l)); return e; }
    }
    if (!isIdent()) { if (kw("array") || kw("row")) unsup(tk.s); fail(); }
    e.name.push_back(ident());
    while (op(".")) { ++p; if (op("*")) { ++p; e.k = Expr::STAR; return e; } e.name.push_back(label()); }
    if (op("(")) {
      ++p;
      e.k = Expr::FUNC;
      if (eat("*")) { e.op = "*"; need(")"); }
      else if (!eat(")")) { if (kw("distinct")) unsup("aggregates"); do e.a.push_back(expr()); while (eat(",")); need(")"); }
      if (kw("over") || kw("filter")) unsup("window functions");
      if (e.name.size() == 2 && (e.name[0] == "pg_catalog" || e.name[0] == "public")) e.name.erase(e.name.begin());
      return e;
    }
    e.k = Expr::COL;
    return e;
  }
  std::shared_ptr<Query> query() {
    auto q = std::make_shared<Query>();
    if (kw("with")) unsup("WITH");
    needKw("select");
    if (eatKw("distinct")) { q->distinct = true; if (kw("on")) unsup("DISTINCT ON"); }
    else eatKw("all");
    if (!kw("from") && !op(")") && !op(";") && t[p].k != Tok::END) do {
      if (eat("*")) { Expr e; e.k = Expr::STAR; q->list.push_back(e); q->names.push_back(""); continue; }
      Expr e = expr();
      std::string n = e.k == Expr::COL ? e.name.back() : e.k == Expr::FUNC ? e.name.back() : "?column?";
      if (eatKw("as")) n = label();
      else if (isIdent()) n = ident();
      q->list.push_back(std::move(e));
      q->names.push_back(n);
    } while (eat(","));
    if (eatKw("from")) {
      q->from.push_back(fromItem());
      for (;;) {
        if (eat(",")) { q->from.push_back(fromItem()); continue; }
        int j = -1;
        if (eatKw("cross")) { needKw("join"); j = 0; }
        else if (eatKw("inner")) { needKw("join"); j = 1; }
        else if (eatKw("left")) { eatKw("outer"); needKw("join"); j = 2; }
        else if (kw("right") || kw("full") || kw("natural")) unsup(t[p].s + " join");
        else if (eatKw("join")) j = 1;
        if (j < 0) break;
        From f = fromItem();
        f.join = j;
        if (j) { if (kw("using")) unsup("JOIN USING"); needKw("on"); f.hasOn = true; f.on = expr(); }
        q->from.push_back(std::move(f));
      }
    }
    if (eatKw("where")) { q->hasWhere = true; q->where = expr(); }
    if (kw("group") || kw("having")) unsup("GROUP BY");
    for (auto s : {"union", "except", "intersect"}) if (eatKw(s)) { q->setOp = s; q->setAll = eatKw("all"); bool par = eat("("); q->next = query(); if (par) need(")"); return q; }
    if (eatKw("order")) { needKw("by"); do { Expr e = expr(); bool desc = eatKw("desc"); if (!desc) eatKw("asc"); if (kw("nulls")) unsup("NULLS"); q->order.push_back({std::move(e), desc}); } while (eat(",")); }
    if (eatKw("limit")) { q->hasLimit = true; q->limit = expr(); }
    if (kw("offset") || kw("fetch")) unsup(t[p].s);
    if (eatKw("for")) { label(); }   // FOR UPDATE, FOR SHARE
    return q;
  }
  void qname(std::string &s, std::string &n) {
    n = ident();
    s.clear();
    if (eat(".")) { s = n; n = label(); }
    if (op(".")) { ++p; s = n; n = label(); }
  }
  From fromItem() {
    From f;
    if (kw("lateral")) unsup("LATERAL");
    if (eat("(")) { f.sub = query(); need(")"); }
    else { eatKw("only"); qname(f.schema, f.table); if (op("(")) unsup("table functions"); }
    if (eatKw("as")) f.alias = ident();
    else if (isIdent()) f.alias = ident();
    if (f.sub && f.alias.empty()) err("subquery in FROM must have an alias");
    return f;
  }
};

// ------------------------------------------------------------------ analysis and evaluation
struct Result { bool rows = false; std::vector<std::string> names; std::vector<Ty> types; std::vector<std::vector<PV>> data; std::string tuples; };
static Result runQuery(Query &q, Scope *outer, bool onlyAnalyse = false);
static Scope *up(Scope *s, int d) { while (d--) s = s->parent; return s; }
static void toType(Expr &e, const Type &t) {   // unknown literals take the type they meet
  if (e.ty != UNKNOWN) return;
  if (e.k == Expr::LIT) { e.lit = e.lit.null ? mkNull(t.t) : cast(e.lit, t, false); e.ty = t.t; return; }
  Expr c; c.k = Expr::CAST; c.type = t; c.ty = t.t;
  c.a.push_back(std::move(e));
  e = std::move(c);
}
static Ty unify(Expr &a, Expr &b, const std::string &op) {
  Type t;
  if (a.ty == UNKNOWN && b.ty == UNKNOWN) { t.t = TEXT; toType(a, t); toType(b, t); return TEXT; }
  if (a.ty == UNKNOWN) { t.t = b.ty; toType(a, t); return t.t; }
  if (b.ty == UNKNOWN) { t.t = a.ty; toType(b, t); return t.t; }
  if (!comparable(a.ty, b.ty)) err(std::string("operator does not exist: ") + tyName(a.ty) + " " + op + " " + tyName(b.ty));
  return a.ty;
}
static void wantBool(Expr &e, const char *what) { Type b; b.t = BOOL; toType(e, b); if (e.ty != BOOL) err(std::string("argument of ") + what + " must be type boolean, not type " + tyName(e.ty)); }
static void analyse(Expr &e, Scope *s) {
  if (e.k != Expr::COL) for (auto &x : e.a) if (x.k != Expr::STAR) analyse(x, s);
  Type text; text.t = TEXT;
  switch (e.k) {
    case Expr::LIT: e.ty = e.lit.t; return;
    case Expr::STAR: return;
    case Expr::COL: {
      int d = 0;
      for (Scope *x = s; x; x = x->parent, ++d) {
        int hits = 0;
        bool relSeen = false;
        for (size_t r = 0; r < x->rels.size(); ++r) {
          Rel &rel = x->rels[r];
          if (e.name.size() == 2 && (rel.alias.empty() ? rel.table : rel.alias) != e.name[0]) continue;
          if (e.name.size() == 3 && (!rel.alias.empty() || rel.table != e.name[1] || (rel.schema.empty() ? "public" : rel.schema) != e.name[0])) continue;
          relSeen = true;
          for (size_t c = 0; c < rel.cols.size(); ++c) if (rel.cols[c] == e.name.back()) { ++hits; e.depth = d; e.rel = (int)r; e.col = (int)c; e.ty = rel.types[c]; }
        }
        if (hits > 1) err("column reference \"" + e.name.back() + "\" is ambiguous");
        if (hits) return;
        if (relSeen && e.name.size() > 1) break;
      }
      if (e.name.size() > 1) {
        bool seen = false;
        for (Scope *x = s; x; x = x->parent) for (auto &rel : x->rels) seen |= (rel.alias.empty() ? rel.table : rel.alias) == e.name[e.name.size() - 2];
        if (!seen) err("missing FROM-clause entry for table \"" + e.name[e.name.size() - 2] + "\"");
      }
      std::string n;
      for (auto &x : e.name) n += (n.empty() ? "" : ".") + x;
      err("column " + n + " does not exist");
    }
    case Expr::CMP: case Expr::DIST: { unify(e.a[0], e.a[1], e.op.empty() ? "=" : e.op); if (e.a[0].ty == INTARR) err("operator does not exist"); e.ty = BOOL; return; }
    case Expr::AND: case Expr::OR: wantBool(e.a[0], e.k == Expr::AND ? "AND" : "OR"); wantBool(e.a[1], e.k == Expr::AND ? "AND" : "OR"); e.ty = BOOL; return;
    case Expr::NOT: wantBool(e.a[0], "NOT"); e.ty = BOOL; return;
    case Expr::ISBOOL: wantBool(e.a[0], "IS TRUE"); e.ty = BOOL; return;
    case Expr::ISNULL: e.ty = BOOL; return;
    case Expr::EXISTS: runQuery(*e.q, s, true); e.ty = BOOL; return;
    case Expr::SUBQ: { Result r = runQuery(*e.q, s, true); if (r.types.size() != 1) err("subquery must return only one column"); e.ty = r.types[0]; return; }
    case Expr::IN: case Expr::ANY:
      e.ty = BOOL;
      if (e.q) { Result r = runQuery(*e.q, s, true); if (r.types.size() != 1) err("subquery has too many columns"); if (e.a[0].ty == UNKNOWN) { Type t; t.t = r.types[0]; toType(e.a[0], t); } if (!comparable(e.a[0].ty, r.types[0])) err("operator does not exist"); return; }
      if (e.k == Expr::ANY) { if (e.a[1].ty != INTARR || !isNum(e.a[0].ty)) err("op ANY/ALL (array) requires array on right side"); return; }
      for (size_t k = 1; k < e.a.size(); ++k) unify(e.a[0], e.a[k], "=");
      return;
    case Expr::LIKE: toType(e.a[0], text); toType(e.a[1], text); e.ty = BOOL; return;
    case Expr::CAST: { if (e.a[0].ty == UNKNOWN && e.a[0].k == Expr::LIT) { if (!e.a[0].lit.null) cast(e.a[0].lit, e.type, true); } e.ty = e.type.t; return; }
    case Expr::CONCAT: e.ty = TEXT; return;
    case Expr::ARITH: { Type i; i.t = INT4; if (e.a[0].ty == UNKNOWN) { i.t = e.a[1].ty == UNKNOWN ? INT4 : e.a[1].ty; toType(e.a[0], i); } if (e.a[1].ty == UNKNOWN) { i.t = e.a[0].ty; toType(e.a[1], i); } if (!isNum(e.a[0].ty) || !isNum(e.a[1].ty)) err("operator does not exist"); e.ty = isFloat(e.a[0].ty) || isFloat(e.a[1].ty) ? FLOAT8 : e.a[0].ty == NUMERIC || e.a[1].ty == NUMERIC ? NUMERIC : INT8; return; }
    case Expr::NEG: if (!isNum(e.a[0].ty)) err("operator does not exist: - " + std::string(tyName(e.a[0].ty))); e.ty = e.a[0].ty; return;
    case Expr::COALESCE: { Ty t = UNKNOWN; for (auto &x : e.a) if (x.ty != UNKNOWN) { t = x.ty; break; } Type tt; tt.t = t == UNKNOWN ? TEXT : t; for (auto &x : e.a) { toType(x, tt); if (!comparable(x.ty, tt.t)) err("COALESCE types cannot be matched"); } e.ty = tt.t; return; }
    case Expr::CASE: {
      Ty t = UNKNOWN;
      for (size_t k = 0; k + 1 < e.a.size(); k += 2) wantBool(e.a[k], "CASE/WHEN");
      auto each = [&](const std::function<void(Expr &)> &f) { for (size_t k = 0; k < e.a.size(); ++k) if ((k % 2) || k + 1 == e.a.size()) f(e.a[k]); };
      each([&](Expr &x) { if (t == UNKNOWN) t = x.ty; });
      Type tt; tt.t = t == UNKNOWN ? TEXT : t;
      each([&](Expr &x) { toType(x, tt); });
      e.ty = tt.t;
      return;
    }
    case Expr::FUNC: {
      const std::string &f = e.name.back();
      auto argn = [&](size_t lo, size_t hi) { if (e.a.size() < lo || e.a.size() > hi) err("function " + f + "() does not exist"); };
      auto arg = [&](size_t k, Ty t) { Type tt; tt.t = t; toType(e.a[k], tt); bool ok = e.a[k].ty == t || (t == TEXT && isText(e.a[k].ty)) || (isInt(t) && isInt(e.a[k].ty)) || (t == TIMESTAMP && e.a[k].ty == DATE); if (!ok) err("function " + f + "(" + tyName(e.a[k].ty) + ") does not exist"); };
      if (f == "st_asbinary" || f == "st_asewkb") { argn(1, 2); if (e.a.size() == 2) arg(1, TEXT); arg(0, GEOM); e.ty = BYTEA; }
      else if (f == "st_geomfromwkb") { argn(1, 2); arg(0, BYTEA); if (e.a.size() == 2) arg(1, INT4); e.ty = GEOM; }
      else if (f == "st_setsrid") { argn(2, 2); arg(0, GEOM); arg(1, INT4); e.ty = GEOM; }
      else if (f == "st_srid") { argn(1, 1); arg(0, GEOM); e.ty = INT4; }
      else if (f == "encode") { argn(2, 2); arg(0, BYTEA); arg(1, TEXT); e.ty = TEXT; }
      else if (f == "decode") { argn(2, 2); arg(0, TEXT); arg(1, TEXT); e.ty = BYTEA; }
      else if (f == "to_char") { argn(2, 2); arg(0, TIMESTAMP); arg(1, TEXT); e.ty = TEXT; }
      else if (f == "lower" || f == "upper" || f == "quote_ident") { argn(1, 1); arg(0, TEXT); e.ty = TEXT; }
      else if (f == "replace") { argn(3, 3); for (int k = 0; k < 3; ++k) arg(k, TEXT); e.ty = TEXT; }
      else if (f == "quote_literal" || f == "btrim") { argn(1, 1); arg(0, TEXT); e.ty = TEXT; }
      else if (f == "length" || f == "char_length") { argn(1, 1); arg(0, TEXT); e.ty = INT4; }
      else if (f == "concat") { for (auto &x : e.a) { Type tt; tt.t = TEXT; toType(x, tt); } e.ty = TEXT; }
      else if (f == "format_type") { argn(2, 2); arg(0, OID); arg(1, INT4); e.ty = TEXT; }
      else if (f == "pg_get_expr") { argn(2, 3); e.ty = TEXT; }
      else if (f == "pg_get_serial_sequence") { argn(2, 2); arg(0, TEXT); arg(1, TEXT); e.ty = TEXT; }
      else if (f == "setval") { argn(2, 3); arg(0, REGCLASS); arg(1, INT8); e.ty = INT8; }
      else if (f == "nextval") { argn(1, 1); arg(0, REGCLASS); e.ty = INT8; }
      else if (f == "count" || f == "max" || f == "min") { e.ty = f == "count" ? INT8 : e.a.empty() ? INT8 : e.a[0].ty; }
      else if (f == "version") e.ty = TEXT;
      else { if (gServer.unsupported.empty()) gServer.unsupported = "function " + f; err("function " + f + "() does not exist"); }
      return;
    }
  }
}
static bool like(const char *s, const char *p) {
  for (; *p; ++p) {
    if (*p == '%') { for (; ; ++s) { if (like(s, p + 1)) return true; if (!*s) return false; } }
    if (*p == '\\' && p[1]) ++p; else if (*p == '_') { if (!*s) return false; ++s; while (((unsigned char)*s & 0xc0) == 0x80) ++s; continue; }
    if (*s != *p) return false;
    ++s;
  }
  return !*s;
}
static std::string toChar(const PV &v, const std::string &f) {
  int64_t t = v.t == DATE ? v.i * 86400000000LL : v.i, days = floorDiv(t, 86400000000LL), us = t - days * 86400000000LL, y; unsigned m, d;
  civil(days, y, m, d);
  std::string o;
  for (size_t i = 0; i < f.size();) {
    auto is = [&](const char *w) { if (f.compare(i, strlen(w), w) == 0) { i += strlen(w); return true; } return false; };
    if (f[i] == '"') { ++i; while (i < f.size() && f[i] != '"') o += f[i++]; ++i; continue; }
    if (is("YYYY")) o += pad(y, 4); else if (is("MM")) o += pad(m, 2); else if (is("DD")) o += pad(d, 2); else if (is("HH24")) o += pad(us / 3600000000LL, 2);
    else if (is("MI")) o += pad(us / 60000000 % 60, 2); else if (is("SS")) o += pad(us / 1000000 % 60, 2); else if (is("US")) o += pad(us % 1000000, 6); else if (is("MS")) o += pad(us % 1000000 / 1000, 3);
    else if (is("HH12") || is("HH")) { int64_t h = us / 3600000000LL % 12; o += pad(h ? h : 12, 2); }
    else if (isupper((unsigned char)f[i])) { if (gServer.unsupported.empty()) gServer.unsupported = "to_char " + f; o += f[i++]; }
    else o += f[i++];
  }
  return o;
}
static PV eval(Expr &e, Scope *s) {
  auto tri = [](const PV &v) { return v.null ? -1 : (int)(v.i != 0); };
  auto fromTri = [](int x) { return x < 0 ? mkNull(BOOL) : mkBool(x != 0); };
  switch (e.k) {
    case Expr::LIT: return e.lit;
    case Expr::STAR: err("unexpected *");
    case Expr::COL: { Rel &r = up(s, e.depth)->rels[e.rel]; return r.cur ? (*r.cur)[e.col] : mkNull(e.ty); }
    case Expr::CMP: case Expr::DIST: {
      PV a = eval(e.a[0], s), b = eval(e.a[1], s);
      if (e.k == Expr::DIST) { bool d = a.null || b.null ? a.null != b.null : cmp(a, b) != 0; return mkBool(d != e.neg); }
      if (a.null || b.null) return mkNull(BOOL);
      int c = cmp(a, b);
      return mkBool(e.op == "=" ? c == 0 : e.op == "<>" ? c != 0 : e.op == "<" ? c < 0 : e.op == ">" ? c > 0 : e.op == "<=" ? c <= 0 : c >= 0);
    }
    case Expr::AND: { int a = tri(eval(e.a[0], s)); if (a == 0) return mkBool(false); int b = tri(eval(e.a[1], s)); return b == 0 ? mkBool(false) : fromTri(a < 0 || b < 0 ? -1 : 1); }
    case Expr::OR: { int a = tri(eval(e.a[0], s)); if (a == 1) return mkBool(true); int b = tri(eval(e.a[1], s)); return b == 1 ? mkBool(true) : fromTri(a < 0 || b < 0 ? -1 : 0); }
    case Expr::NOT: { int a = tri(eval(e.a[0], s)); return fromTri(a < 0 ? -1 : !a); }
    case Expr::ISNULL: return mkBool(eval(e.a[0], s).null != e.neg);
    case Expr::ISBOOL: { int a = tri(eval(e.a[0], s)); return mkBool((a == (e.op == "true")) != e.neg); }
    case Expr::EXISTS: return mkBool(!runQuery(*e.q, s).data.empty());
    case Expr::SUBQ: { Result r = runQuery(*e.q, s); if (r.data.size() > 1) err("more than one row returned by a subquery used as an expression"); return r.data.empty() ? mkNull(e.ty) : r.data[0][0]; }
    case Expr::IN: case Expr::ANY: {
      PV v = eval(e.a[0], s);
      std::vector<PV> set;
      if (e.q) for (auto &r : runQuery(*e.q, s).data) set.push_back(r[0]);
      else if (e.k == Expr::ANY) { PV a = eval(e.a[1], s); if (a.null) return mkNull(BOOL); for (auto x : a.a) set.push_back(mkInt(x, INT2)); }
      else for (size_t k = 1; k < e.a.size(); ++k) set.push_back(eval(e.a[k], s));
      bool any = false, nul = false, allT = true;
      for (auto &x : set) {
        if (x.null || v.null) { nul = true; continue; }
        int c = cmp(v, x);
        bool hit = e.k == Expr::IN || e.op == "=" ? c == 0 : e.op == "<>" ? c != 0 : e.op == "<" ? c < 0 : e.op == ">" ? c > 0 : e.op == "<=" ? c <= 0 : c >= 0;
        any |= hit; allT &= hit;
      }
      if (e.k == Expr::ANY) return e.neg ? (!allT ? mkBool(false) : nul ? mkNull(BOOL) : mkBool(true)) : (any ? mkBool(true) : nul ? mkNull(BOOL) : mkBool(false));
      if (any) return mkBool(!e.neg);
      return nul ? mkNull(BOOL) : mkBool(e.neg);
    }
    case Expr::LIKE: { PV a = eval(e.a[0], s), b = eval(e.a[1], s); if (a.null || b.null) return mkNull(BOOL); return mkBool(like(a.s.c_str(), b.s.c_str()) != e.neg); }
    case Expr::CAST: { PV v = eval(e.a[0], s); return cast(v, e.type, true); }
    case Expr::CONCAT: { PV a = eval(e.a[0], s), b = eval(e.a[1], s); if (a.null || b.null) return mkNull(TEXT); return mkText(text(a) + text(b)); }
    case Expr::ARITH: {
      PV a = eval(e.a[0], s), b = eval(e.a[1], s);
      if (a.null || b.null) return mkNull(e.ty);
      PV r = mk(e.ty);
      if (isInt(e.ty)) { if ((e.op == "/" || e.op == "%") && b.i == 0) err("division by zero"); r.i = e.op == "+" ? a.i + b.i : e.op == "-" ? a.i - b.i : e.op == "*" ? a.i * b.i : e.op == "/" ? a.i / b.i : a.i % b.i; }
      else { double x = num(a), y = num(b); r.d = e.op == "+" ? x + y : e.op == "-" ? x - y : e.op == "*" ? x * y : x / y; if (e.ty == NUMERIC) r.s = fmtDouble(r.d, false); }
      return r;
    }
    case Expr::NEG: { PV v = eval(e.a[0], s); v.i = -v.i; v.d = -v.d; if (v.t == NUMERIC) v.s = v.s[0] == '-' ? v.s.substr(1) : "-" + v.s; return v; }
    case Expr::COALESCE:
      if (e.op == "nullif") { PV a = eval(e.a[0], s), b = eval(e.a[1], s); return !a.null && !b.null && cmp(a, b) == 0 ? mkNull(e.ty) : a; }
      for (auto &x : e.a) { PV v = eval(x, s); if (!v.null) return v; }
      return mkNull(e.ty);
    case Expr::CASE:
      for (size_t k = 0; k + 1 < e.a.size(); k += 2) if (tri(eval(e.a[k], s)) == 1) return eval(e.a[k + 1], s);
      return e.a.size() % 2 ? eval(e.a.back(), s) : mkNull(e.ty);
    case Expr::FUNC: {
      std::vector<PV> v;
      for (auto &x : e.a) v.push_back(eval(x, s));
      const std::string &f = e.name.back();
      if (f == "concat") { std::string o; for (auto &x : v) if (!x.null) o += text(x); return mkText(o); }
      for (auto &x : v) if (x.null) return mkNull(e.ty);
      if (f == "replace") { std::string o; const std::string &a = v[0].s, &b = v[1].s; for (size_t k = 0; k < a.size();) if (!b.empty() && a.compare(k, b.size(), b) == 0) { o += v[2].s; k += b.size(); } else o += a[k++]; return mkText(o); }
      if (f == "quote_literal") { std::string o; bool esc = v[0].s.find('\\') != std::string::npos; for (char ch : v[0].s) { if (ch == '\'' || ch == '\\') o += ch; o += ch; } return mkText((esc ? "E'" : "'") + o + "'"); }
      if (f == "btrim") { std::string o = v[0].s; o.erase(0, o.find_first_not_of(' ') == std::string::npos ? o.size() : o.find_first_not_of(' ')); while (!o.empty() && o.back() == ' ') o.pop_back(); return mkText(o); }
      if (f == "length" || f == "char_length") { int64_t n = 0; for (unsigned char ch : v[0].s) n += (ch & 0xc0) != 0x80; return mkInt(n, INT4); }
      if (f == "st_asbinary") { PV r = mk(BYTEA); r.s = v[0].s; return r; }
      if (f == "st_asewkb") { if (gServer.unsupported.empty()) gServer.unsupported = f; PV r = mk(BYTEA); r.s = v[0].s; return r; }
      if (f == "st_geomfromwkb") { PV r = mk(GEOM); size_t p = 0; int b; bool z, m; if (!readWkb(v[0].s, p, r.s, b, z, m) || p > v[0].s.size()) err("WKB structure does not match expected size!"); r.i = v.size() > 1 ? v[1].i : 0; return r; }
      if (f == "st_setsrid") { PV r = v[0]; r.i = v[1].i; return r; }
      if (f == "st_srid") return mkInt(v[0].i, INT4);
      if (f == "encode") { if (v[1].s != "hex") { gServer.unsupported = "encode " + v[1].s; } return mkText(hexOf(v[0].s)); }
      if (f == "decode") { if (v[1].s != "hex") { gServer.unsupported = "decode " + v[1].s; } Type b; b.t = BYTEA; return input("\\x" + v[0].s, b, true); }
      if (f == "to_char") return mkText(toChar(v[0], v[1].s));
      if (f == "lower") return mkText(lower(v[0].s));
      if (f == "upper") return mkText(upper(v[0].s));
      if (f == "quote_ident") return mkText(quoteIfNeeded(v[0].s));
      if (f == "pg_get_expr") return mkText(v[0].s);
      if (f == "version") return mkText("PostgreSQL 15 (stand-in)");
      if (f == "format_type") {
        for (auto &sc : gServer.st.schemas) for (auto &t : sc.second.tables) { int64_t k = v[1].i - t.second.oid * 1000; if (k >= 0 && k < (int64_t)t.second.cols.size() && typeOid(t.second.cols[k].type.t) == v[0].i) return mkText(typeName(t.second.cols[k].type)); }
        return mkText(v[0].i >= 1000 ? tyName((Ty)(v[0].i - 1000)) : "tid");
      }
      if (f == "pg_get_serial_sequence") {
        std::vector<std::string> parts;
        if (!splitName(v[0].s, parts) || parts.size() > 2) err("invalid name syntax");
        std::string sc = parts.size() == 2 ? parts[0] : "public";
        Table &t = tableOf(sc, parts.back());
        for (auto &c : t.cols) if (c.name == v[1].s) return c.seq.empty() ? mkNull(TEXT) : mkText(quoteIfNeeded(sc) + "." + quoteIfNeeded(c.seq));
        err("column \"" + v[1].s + "\" of relation \"" + parts.back() + "\" does not exist");
      }
      if (f == "setval") { if (v[1].i < 1) err("setval: value " + std::to_string(v[1].i) + " is out of bounds for sequence"); Seq &q = gServer.seq[v[0].i]; q.last = v[1].i; q.called = v.size() < 3 || v[2].i; return mkInt(v[1].i); }
      if (f == "nextval") { Seq &q = gServer.seq[v[0].i]; if (q.called) ++q.last; q.called = true; return mkInt(q.last); }
      err("aggregate functions are not allowed here");
    }
  }
  err("unexpected expression");
}
static bool rowEq(const std::vector<PV> &a, const std::vector<PV> &b) { for (size_t k = 0; k < a.size(); ++k) if (a[k].null != b[k].null || (!a[k].null && cmp(a[k], b[k]) != 0)) return false; return true; }
static Result runQuery(Query &q, Scope *outer, bool onlyAnalyse) {
  Scope sc;
  sc.parent = outer;
  for (auto &f : q.from) {
    Rel r;
    if (f.sub) { Result x = runQuery(*f.sub, outer); r.cols = x.names; r.types = x.types; r.rows = x.data; }
    else {
      bool found = false;
      const Schema *s = findSchema(f.schema.empty() ? "public" : f.schema);
      if (s && s->tables.count(f.table)) {
        const Table &t = s->tables.at(f.table);
        found = true;
        for (auto &c : t.cols) { r.cols.push_back(c.name); r.types.push_back(c.type.t); }
        r.rows = t.rows;
      } else if (s && s->seqs.count(f.table)) {
        found = true;
        Seq &x = gServer.seq[s->seqs.at(f.table)];
        r.cols = {"last_value", "is_called"}; r.types = {INT8, BOOL};
        r.rows.push_back({mkInt(x.last), mkBool(x.called)});
      } else r = catalogue(f.schema, f.table, found);
      if (!found) err("relation \"" + (f.schema.empty() ? "" : f.schema + ".") + f.table + "\" does not exist");
    }
    r.schema = f.schema; r.table = f.table; r.alias = f.alias;
    for (auto &o : sc.rels) if ((o.alias.empty() ? o.table : o.alias) == (r.alias.empty() ? r.table : r.alias) && (!(o.alias.empty() && r.alias.empty()) || o.schema == r.schema)) err("table name \"" + (r.alias.empty() ? r.table : r.alias) + "\" specified more than once");
    sc.rels.push_back(std::move(r));
  }
  for (auto &f : q.from) if (f.hasOn) { analyse(f.on, &sc); wantBool(f.on, "JOIN/ON"); }
  // star expansion
  std::vector<Expr> list;
  std::vector<std::string> names;
  for (size_t k = 0; k < q.list.size(); ++k) {
    if (q.list[k].k != Expr::STAR) { list.push_back(q.list[k]); names.push_back(q.names[k]); continue; }
    bool any = false;
    for (size_t r = 0; r < sc.rels.size(); ++r) {
      Rel &rel = sc.rels[r];
      if (!q.list[k].name.empty() && (rel.alias.empty() ? rel.table : rel.alias) != q.list[k].name.back()) continue;
      any = true;
      for (size_t c = 0; c < rel.cols.size(); ++c) { Expr e; e.k = Expr::COL; e.name = {"*"}; e.depth = 0; e.rel = (int)r; e.col = (int)c; e.ty = rel.types[c]; list.push_back(e); names.push_back(rel.cols[c]); }
    }
    if (!any) err("missing FROM-clause entry");
  }
  Result res;
  res.rows = true;
  res.names = names;
  bool agg = false;
  for (auto &e : list) {
    if (!(e.k == Expr::COL && e.col >= 0 && e.name == std::vector<std::string>{"*"})) analyse(e, &sc);
    if (e.k == Expr::FUNC && (e.name.back() == "count" || e.name.back() == "max" || e.name.back() == "min")) agg = true;
    res.types.push_back(e.ty == UNKNOWN ? TEXT : e.ty);
  }
  if (q.hasWhere) { analyse(q.where, &sc); wantBool(q.where, "WHERE"); }
  for (auto &o : q.order) { bool outName = o.first.k == Expr::COL && o.first.name.size() == 1 && std::count(names.begin(), names.end(), o.first.name[0]) == 1; if (o.first.k != Expr::LIT && !outName) analyse(o.first, &sc); }
  if (onlyAnalyse) { if (q.next) runQuery(*q.next, outer, true); return res; }
  std::vector<std::pair<std::vector<PV>, std::vector<PV>>> out;
  std::vector<std::vector<PV>> aggRows;
  std::function<void(size_t)> loop = [&](size_t k) {
    if (k == sc.rels.size()) {
      if (q.hasWhere) { PV w = eval(q.where, &sc); if (w.null || !w.i) return; }
      std::vector<PV> row, ord;
      if (agg) { for (auto &e : list) row.push_back(e.k == Expr::FUNC && !e.a.empty() ? eval(e.a[0], &sc) : mkInt(1)); aggRows.push_back(row); return; }
      for (auto &e : list) row.push_back(eval(e, &sc));
      for (auto &o : q.order) {
        if (o.first.k == Expr::LIT) { if (o.first.lit.i < 1 || o.first.lit.i > (int64_t)row.size()) err("ORDER BY position is not in select list"); ord.push_back(row[o.first.lit.i - 1]); }
        else if (o.first.k == Expr::COL && o.first.col < 0) ord.push_back(row[std::find(names.begin(), names.end(), o.first.name[0]) - names.begin()]);
        else ord.push_back(eval(o.first, &sc));
      }
      out.push_back({row, ord});
      return;
    }
    From &f = q.from[k];
    bool any = false;
    for (auto &r : sc.rels[k].rows) {
      sc.rels[k].cur = &r;
      if (f.hasOn) { PV w = eval(f.on, &sc); if (w.null || !w.i) continue; }
      any = true;
      loop(k + 1);
    }
    if (!any && f.join == 2) { sc.rels[k].cur = nullptr; loop(k + 1); }
  };
  loop(0);
  if (agg) {
    std::vector<PV> row;
    for (size_t k = 0; k < list.size(); ++k) {
      const std::string f = list[k].k == Expr::FUNC ? list[k].name.back() : "";
      if (f == "count") { int64_t n = 0; for (auto &r : aggRows) n += !r[k].null; row.push_back(mkInt(n)); }
      else { PV b = mkNull(list[k].ty); for (auto &r : aggRows) if (!r[k].null && (b.null || (f == "max" ? cmp(r[k], b) > 0 : cmp(r[k], b) < 0))) b = r[k]; row.push_back(b); }
    }
    out.push_back({row, {}});
  }
  if (!q.order.empty()) std::stable_sort(out.begin(), out.end(), [&](auto &x, auto &y) {
    for (size_t k = 0; k < q.order.size(); ++k) {
      const PV &a = x.second[k], &b = y.second[k];
      int c = a.null || b.null ? (int)a.null - (int)b.null : cmp(a, b);
      if (c) return q.order[k].second ? c > 0 : c < 0;
    }
    return false;
  });
  for (auto &r : out) { if (q.distinct && std::any_of(res.data.begin(), res.data.end(), [&](auto &o) { return rowEq(o, r.first); })) continue; res.data.push_back(r.first); }
  if (q.next) {
    Result n = runQuery(*q.next, outer);
    if (n.types.size() != res.types.size()) err("each UNION query must have the same number of columns");
    auto has = [](const std::vector<std::vector<PV>> &v, const std::vector<PV> &r) { return std::any_of(v.begin(), v.end(), [&](auto &o) { return rowEq(o, r); }); };
    std::vector<std::vector<PV>> o;
    auto put = [&](const std::vector<PV> &r) { if (q.setAll || !has(o, r)) o.push_back(r); };
    if (q.setOp == "union") { for (auto &r : res.data) put(r); for (auto &r : n.data) put(r); }
    else if (q.setOp == "except") { for (auto &r : res.data) if (!has(n.data, r)) put(r); }
    else for (auto &r : res.data) if (has(n.data, r)) put(r);
    res.data = o;
  }
  if (q.hasLimit) { Expr l = q.limit; analyse(l, nullptr); PV v = eval(l, nullptr); if (!v.null && v.i < (int64_t)res.data.size()) res.data.resize((size_t)v.i); }
  return res;
}

static void checkRow(const std::string &name, Table &t, const std::vector<PV> &row, size_t self) {
  for (size_t k = 0; k < t.cols.size(); ++k) if (t.cols[k].notNull && row[k].null) err("null value in column \"" + t.cols[k].name + "\" of relation \"" + name + "\" violates not-null constraint");
  for (auto &x : t.indexes) {
    if (!x.unique) continue;
    for (size_t r = 0; r < t.rows.size(); ++r) {
      if (r == self) continue;
      bool eq = true;
      for (int c : x.cols) eq = eq && !row[c].null && !t.rows[r][c].null && cmp(row[c], t.rows[r][c]) == 0;
      if (eq) err("duplicate key value violates unique constraint of \"" + name + "\"");
    }
  }
}
static Result statement(Parser &ps) {
  Result res;
  auto colIndex = [&](Table &t, const std::string &rel, const std::string &c) { for (size_t k = 0; k < t.cols.size(); ++k) if (t.cols[k].name == c) return (int)k; err("column \"" + c + "\" of relation \"" + rel + "\" does not exist"); };
  auto endOfStatement = [&]() { if (!ps.op(";") && ps.t[ps.p].k != Tok::END) { if (ps.kw("returning")) ps.unsup("RETURNING"); ps.fail(); } };
  auto relOf = [&](const std::string &s, const std::string &n, const std::string &al, Table &t) { Rel r; r.schema = s; r.table = n; r.alias = al; for (auto &c : t.cols) { r.cols.push_back(c.name); r.types.push_back(c.type.t); } return r; };
  std::string s, n;
  if (ps.kw("select")) {
    auto q = ps.query();
    endOfStatement();
    res = runQuery(*q, nullptr);
    res.tuples = std::to_string(res.data.size());
    return res;
  }
  if (ps.kw("with")) ps.unsup("WITH");
  if (ps.eatKw("create")) {
    if (ps.eatKw("schema")) {
      bool ine = false;
      if (ps.eatKw("if")) { ps.needKw("not"); ps.needKw("exists"); ine = true; }
      n = ps.ident();
      endOfStatement();
      if (gServer.st.schemas.count(n)) { if (ine) return res; err("schema \"" + n + "\" already exists"); }
      gServer.st.schemas[n].oid = gServer.st.nextOid++;
      return res;
    }
    if (ps.kw("index") || ps.kw("unique")) {
      bool un = ps.eatKw("unique");
      ps.needKw("index");
      if (ps.isIdent()) ps.ident();
      ps.needKw("on");
      ps.qname(s, n);
      Table &t = tableOf(s, n);
      if (ps.eatKw("using")) ps.ident();
      Index x;
      x.unique = un;
      ps.need("(");
      do x.cols.push_back(colIndex(t, n, ps.ident())); while (ps.eat(","));
      ps.need(")");
      endOfStatement();
      t.indexes.push_back(x);
      return res;
    }
    ps.needKw("table");
    bool ine = false;
    if (ps.eatKw("if")) { ps.needKw("not"); ps.needKw("exists"); ine = true; }
    ps.qname(s, n);
    Table t;
    std::string sc = s.empty() ? "public" : s;
    ps.need("(");
    std::vector<std::vector<std::string>> keys;
    std::vector<bool> isPk;
    if (!ps.op(")")) do {
      if (ps.kw("constraint")) { ps.label(); ps.ident(); }
      if (ps.kw("primary") || ps.kw("unique")) {
        bool pk = ps.kw("primary");
        ++ps.p;
        if (pk) ps.needKw("key");
        ps.need("(");
        std::vector<std::string> c;
        do c.push_back(ps.ident()); while (ps.eat(","));
        ps.need(")");
        keys.push_back(c); isPk.push_back(pk);
        continue;
      }
      Col c;
      c.name = ps.ident();
      std::string tn = ps.t[ps.p].s;
      c.type = ps.type();
      if (tn == "serial" || tn == "bigserial" || tn == "serial4" || tn == "serial8") { c.notNull = true; c.seq = n + "_" + c.name + "_seq"; }
      for (;;) {
        if (ps.eatKw("not")) { ps.needKw("null"); c.notNull = true; }
        else if (ps.eatKw("null")) {}
        else if (ps.eatKw("primary")) { ps.needKw("key"); keys.push_back({c.name}); isPk.push_back(true); }
        else if (ps.eatKw("unique")) { keys.push_back({c.name}); isPk.push_back(false); }
        else if (ps.eatKw("default")) { Expr e = ps.catE(); analyse(e, nullptr); c.hasDefault = true; c.dflt = cast(eval(e, nullptr), c.type, false); }
        else break;
      }
      for (auto &o : t.cols) if (o.name == c.name) err("column \"" + c.name + "\" specified more than once");
      t.cols.push_back(c);
    } while (ps.eat(","));
    ps.need(")");
    endOfStatement();
    Schema &S = schemaOf(sc);
    if (S.tables.count(n) || S.seqs.count(n)) { if (ine) return res; err("relation \"" + n + "\" already exists"); }
    int pks = 0;
    for (size_t k = 0; k < keys.size(); ++k) {
      Index x;
      x.unique = true; x.primary = isPk[k];
      if (isPk[k] && ++pks > 1) err("multiple primary keys for table \"" + n + "\" are not allowed");
      for (auto &c : keys[k]) { int i = colIndex(t, n, c); x.cols.push_back(i); if (isPk[k]) t.cols[i].notNull = true; }
      t.indexes.push_back(x);
    }
    t.oid = gServer.st.nextOid++;
    for (auto &c : t.cols) if (!c.seq.empty()) { while (S.tables.count(c.seq) || S.seqs.count(c.seq)) c.seq += "1"; S.seqs[c.seq] = gServer.st.nextOid; gServer.seq[gServer.st.nextOid] = Seq(); ++gServer.st.nextOid; }
    S.tables[n] = t;
    return res;
  }
  if (ps.eatKw("drop")) {
    bool schema = ps.eatKw("schema");
    if (!schema) ps.needKw("table");
    bool ife = false;
    if (ps.eatKw("if")) { ps.needKw("exists"); ife = true; }
    if (schema) n = ps.ident(); else ps.qname(s, n);
    bool cascade = ps.eatKw("cascade");
    if (!cascade) ps.eatKw("restrict");
    endOfStatement();
    if (schema) {
      auto it = gServer.st.schemas.find(n);
      if (it == gServer.st.schemas.end()) { if (ife) return res; err("schema \"" + n + "\" does not exist"); }
      if (!cascade && !it->second.tables.empty()) err("cannot drop schema " + n + " because other objects depend on it");
      gServer.st.schemas.erase(it);
    } else {
      if (ife && (!findSchema(s.empty() ? "public" : s) || !findSchema(s.empty() ? "public" : s)->tables.count(n))) return res;
      tableOf(s, n);
      schemaOf(s.empty() ? "public" : s).tables.erase(n);
    }
    return res;
  }
  if (ps.eatKw("insert")) {
    ps.needKw("into");
    ps.qname(s, n);
    Table &t = tableOf(s, n);
    std::vector<int> cols;
    if (ps.eat("(")) { do { int k = colIndex(t, n, ps.ident()); if (std::count(cols.begin(), cols.end(), k)) err("column specified more than once"); cols.push_back(k); } while (ps.eat(",")); ps.need(")"); }
    else for (size_t k = 0; k < t.cols.size(); ++k) cols.push_back((int)k);
    if (ps.kw("select") || ps.kw("default")) ps.unsup("INSERT " + ps.t[ps.p].s);
    ps.needKw("values");
    int64_t cnt = 0;
    std::vector<std::vector<PV>> rows;
    do {
      ps.need("(");
      std::vector<PV> vals;
      std::vector<bool> def;
      do {
        if (ps.eatKw("default")) { vals.push_back(PV()); def.push_back(true); continue; }
        Expr e = ps.expr();
        analyse(e, nullptr);
        if (vals.size() >= cols.size()) err("INSERT has more expressions than target columns");
        vals.push_back(cast(eval(e, nullptr), t.cols[cols[vals.size()]].type, false));
        def.push_back(false);
      } while (ps.eat(","));
      ps.need(")");
      if (vals.size() < cols.size()) { if (cols.size() == t.cols.size()) err("INSERT has more target columns than expressions"); err("INSERT has more target columns than expressions"); }
      std::vector<PV> row(t.cols.size());
      std::vector<bool> given(t.cols.size());
      for (size_t k = 0; k < cols.size(); ++k) if (!def[k]) { row[cols[k]] = vals[k]; given[cols[k]] = true; }
      for (size_t k = 0; k < row.size(); ++k) if (!given[k]) {
        row[k] = mkNull(t.cols[k].type.t);
        if (!t.cols[k].seq.empty()) { Seq &q = gServer.seq[schemaOf(s.empty() ? "public" : s).seqs[t.cols[k].seq]]; if (q.called) ++q.last; q.called = true; row[k] = mkInt(q.last, t.cols[k].type.t); }
        else if (t.cols[k].hasDefault) row[k] = t.cols[k].dflt;
      }
      rows.push_back(row);
    } while (ps.eat(","));
    bool skip = false;
    if (ps.eatKw("on")) { ps.needKw("conflict"); if (ps.op("(")) ps.unsup("ON CONFLICT target"); ps.needKw("do"); if (!ps.eatKw("nothing")) ps.unsup("ON CONFLICT DO UPDATE"); skip = true; }
    endOfStatement();
    for (auto &row : rows) {
      if (skip) { try { checkRow(n, t, row, (size_t)-1); } catch (PgError &e) { if (std::string(e.what()).find("duplicate") != std::string::npos) continue; throw; } }
      else checkRow(n, t, row, (size_t)-1);
      t.rows.push_back(row);
      ++cnt;
    }
    res.tuples = std::to_string(cnt);
    return res;
  }
  if (ps.eatKw("update")) {
    ps.eatKw("only");
    ps.qname(s, n);
    std::string al;
    if (ps.eatKw("as")) al = ps.ident(); else if (!ps.kw("set") && ps.isIdent()) al = ps.ident();
    ps.needKw("set");
    Table &t = tableOf(s, n);
    std::vector<std::pair<int, Expr>> sets;
    do { int k = colIndex(t, n, ps.ident()); ps.need("="); for (auto &o : sets) if (o.first == k) err("multiple assignments to same column"); sets.push_back({k, ps.expr()}); } while (ps.eat(","));
    if (ps.kw("from")) ps.unsup("UPDATE FROM");
    bool w = ps.eatKw("where");
    Expr where;
    if (w) where = ps.expr();
    endOfStatement();
    Scope sc;
    sc.rels.push_back(relOf(s, n, al, t));
    for (auto &x : sets) { analyse(x.second, &sc); if (x.second.ty == UNKNOWN && x.second.k == Expr::LIT && !x.second.lit.null) cast(x.second.lit, t.cols[x.first].type, false); }
    if (w) { analyse(where, &sc); wantBool(where, "WHERE"); }
    std::vector<std::pair<size_t, std::vector<PV>>> upd;
    for (size_t r = 0; r < t.rows.size(); ++r) {
      sc.rels[0].cur = &t.rows[r];
      if (w) { PV v = eval(where, &sc); if (v.null || !v.i) continue; }
      auto row = t.rows[r];
      for (auto &x : sets) row[x.first] = cast(eval(x.second, &sc), t.cols[x.first].type, false);
      upd.push_back({r, row});
    }
    for (auto &u : upd) { checkRow(n, t, u.second, u.first); t.rows[u.first] = u.second; }
    // an updated row moves to the end of the heap
    for (auto it = upd.rbegin(); it != upd.rend(); ++it) { auto row = t.rows[it->first]; t.rows.erase(t.rows.begin() + it->first); t.rows.push_back(row); }
    res.tuples = std::to_string(upd.size());
    return res;
  }
  if (ps.eatKw("delete")) {
    ps.needKw("from");
    ps.eatKw("only");
    ps.qname(s, n);
    std::string al;
    if (ps.eatKw("as")) al = ps.ident(); else if (ps.isIdent()) al = ps.ident();
    Table &t = tableOf(s, n);
    if (ps.kw("using")) ps.unsup("DELETE USING");
    bool w = ps.eatKw("where");
    Expr where;
    if (w) where = ps.expr();
    endOfStatement();
    Scope sc;
    sc.rels.push_back(relOf(s, n, al, t));
    if (w) { analyse(where, &sc); wantBool(where, "WHERE"); }
    std::vector<std::vector<PV>> keep;
    int64_t cnt = 0;
    for (auto &r : t.rows) {
      sc.rels[0].cur = &r;
      bool hit = true;
      if (w) { PV v = eval(where, &sc); hit = !v.null && v.i; }
      if (hit) ++cnt; else keep.push_back(r);
    }
    t.rows = keep;
    res.tuples = std::to_string(cnt);
    return res;
  }
  if (ps.eatKw("set")) { while (!ps.op(";") && ps.t[ps.p].k != Tok::END) ++ps.p; return res; }
  if (ps.kw("lock") || ps.kw("copy") || ps.kw("declare") || ps.kw("fetch") || ps.kw("prepare") || ps.kw("execute") || ps.kw("alter") || ps.kw("comment") || ps.kw("grant") || ps.kw("truncate") || ps.kw("show") || ps.kw("do")) ps.unsup(ps.t[ps.p].s);
  ps.fail();
}
// skips the statement; whether it asks for one snapshot for the whole transaction
static bool isolation(Parser &ps) {
  bool keeps = false;
  for (; !ps.op(";") && ps.t[ps.p].k != Tok::END; ++ps.p) { std::string w = lower(ps.t[ps.p].s); keeps |= w == "repeatable" || w == "serializable"; }
  return keeps;
}
static Result exec(Conn &c, const std::string &sql) {
  Parser ps;
  Result last;
  bool implicit = false;
  State before;
  try {
    ps.t = lex(sql);
    while (ps.t[ps.p].k != Tok::END) {
      if (ps.eat(";")) continue;
      if (ps.kw("begin") || (ps.kw("start") && ps.t[ps.p + 1].s == "transaction")) {
        bool keeps = isolation(ps);
        if (c.aborted) err("current transaction is aborted, commands ignored until end of transaction block");
        if (!c.inTx) { c.keepsSnapshot = keeps; c.hasSnapshot = false; }
        if (!c.inTx) { c.inTx = true; c.saved = implicit ? before : gServer.st; implicit = false; c.points.clear(); }
        last = Result();
        continue;
      }
      if (ps.kw("commit") || ps.kw("end")) {
        while (!ps.op(";") && ps.t[ps.p].k != Tok::END) ++ps.p;
        if (c.inTx && c.aborted) gServer.st = c.saved;    // COMMIT of an aborted transaction rolls back, without an error
        c.inTx = c.aborted = false;
        implicit = false;
        last = Result();
        continue;
      }
      if (ps.kw("rollback") || ps.kw("abort")) {
        ++ps.p;
        ps.eatKw("work"); ps.eatKw("transaction");
        if (ps.eatKw("to")) {
          ps.eatKw("savepoint");
          std::string n = ps.ident();
          bool found = false;
          while (!c.points.empty()) { if (c.points.back().first == n) { gServer.st = c.points.back().second; found = true; break; } c.points.pop_back(); }
          if (!found) err("savepoint \"" + n + "\" does not exist");
          c.aborted = false;
        } else {
          if (c.inTx) gServer.st = c.saved;
          c.inTx = c.aborted = false;
        }
        last = Result();
        continue;
      }
      if (c.aborted) err("current transaction is aborted, commands ignored until end of transaction block");
      if (ps.kw("savepoint") || ps.kw("release")) {
        bool rel = ps.kw("release");
        ++ps.p;
        ps.eatKw("savepoint");
        std::string n = ps.ident();
        if (!c.inTx) err("SAVEPOINT can only be used in transaction blocks");
        if (!rel) c.points.push_back({n, gServer.st});
        last = Result();
        continue;
      }
      if (!c.inTx && !implicit) { implicit = true; before = gServer.st; }
      if (ps.kw("set") && lower(ps.t[ps.p + 1].s) == "transaction") { bool keeps = isolation(ps); if (c.inTx && !c.hasSnapshot) c.keepsSnapshot = keeps; last = Result(); continue; }
      c.hasSnapshot = true;
      last = statement(ps);
      if (!ps.op(";") && ps.t[ps.p].k != Tok::END) ps.fail();
    }
  } catch (PgError &) {
    if (c.inTx) c.aborted = true;
    else if (implicit) gServer.st = before;
    throw;
  }
  return last;
}
void must(const std::string &sql) {
  Conn c;
  int64_t n = gServer.count;
  try { exec(c, sql); } catch (PgError &e) { throw std::runtime_error("harness: " + std::string(e.what()) + " in " + sql); }
  gServer.count = n;
}
std::string show(const State &st) {
  std::string o;
  for (auto &s : st.schemas) for (auto &t : s.second.tables) {
    o += s.first + "." + t.first + "(";
    for (auto &c : t.second.cols) o += c.name + " " + typeName(c.type) + (c.notNull ? " not null" : "") + (c.seq.empty() ? "" : " serial") + ", ";
    for (auto &x : t.second.indexes) { o += x.primary ? "primary key" : x.unique ? "unique" : "index"; for (int k : x.cols) o += " " + std::to_string(k); o += ", "; }
    o += ")\n";
    std::vector<std::string> rows;
    for (auto &r : t.second.rows) { std::string x = "  "; for (auto &v : r) x += (v.null ? "NULL" : text(v)) + " | "; rows.push_back(x); }
    std::sort(rows.begin(), rows.end());
    for (auto &r : rows) o += r + "\n";
  }
  return o;
}
}  // namespace fpg

// ------------------------------------------------------------------ libpq
using namespace fpg;
struct pg_conn { Conn c; bool ok = false; std::string err; };
struct pg_result { ExecStatusType status = PGRES_COMMAND_OK; std::string err, tuples; Result r; std::vector<std::vector<std::string>> text; };
extern "C" {
PGconn *PQconnectdb(const char *info) {
  auto *c = new pg_conn;
  ++gServer.liveConns;
  c->ok = std::string(info ? info : "").find("stand-in") != std::string::npos;
  if (!c->ok) c->err = "could not connect to server\n"; else { ++gServer.connections; gConns.push_back(&c->c); }
  return c;
}
ConnStatusType PQstatus(const PGconn *c) { return c && c->ok && !c->c.bad ? CONNECTION_OK : CONNECTION_BAD; }
char *PQerrorMessage(const PGconn *c) { return const_cast<char *>(c->err.c_str()); }
void PQfinish(PGconn *c) {
  if (!c) return;
  if (c->ok) { --gServer.connections; if (c->c.inTx) gServer.st = c->c.saved; }
  gConns.erase(std::remove(gConns.begin(), gConns.end(), &c->c), gConns.end());
  --gServer.liveConns;
  delete c;
}
// the server has a locale of its own
struct ServerLocale { locale_t old; ServerLocale() { static locale_t l = newlocale(LC_ALL_MASK, "C", (locale_t)0); old = uselocale(l); } ~ServerLocale() { uselocale(old); } };
PGresult *PQexec(PGconn *c, const char *q) {
  ServerLocale sl;
  auto *r = new pg_result;
  ++gServer.liveResults;
  if (!c || !c->ok || c->c.bad) { r->status = PGRES_FATAL_ERROR; r->err = "no connection to the server\n"; if (c) c->err = r->err; return r; }
  int64_t k = gServer.count++;
  gServer.log.push_back(q);
  if (k >= gServer.interfereAt && gServer.interfere && !gServer.interfered && !(c->c.inTx && c->c.keepsSnapshot && c->c.hasSnapshot)) {
    gServer.interfered = true;
    gServer.interfere();
    if (c->c.inTx) c->c.saved = gServer.st;   // (only for clients that have not written in their transaction)
  }
  if (k == gServer.loseAt) {
    gServer.failed = true;
    if (c->c.inTx) gServer.st = c->c.saved;
    c->c.inTx = c->c.aborted = false;
    c->c.bad = true;
    c->err = r->err = "server closed the connection unexpectedly\n";
    r->status = PGRES_FATAL_ERROR;
    return r;
  }
  try {
    if (k == gServer.failAt) {
      gServer.failed = true;
      Parser ps;
      ps.t = lex(q);
      bool end = ps.kw("commit") || ps.kw("rollback") || ps.kw("end");
      if (c->c.inTx) { if (end) { gServer.st = c->c.saved; c->c.inTx = c->c.aborted = false; } else c->c.aborted = true; }
      err("could not serialize access (injected)");
    }
    r->r = exec(c->c, q);
    r->tuples = r->r.tuples;
    if (r->r.rows) r->status = PGRES_TUPLES_OK;
    else { std::string t = lower(trim(q)); r->status = t.empty() || t == ";" ? PGRES_EMPTY_QUERY : PGRES_COMMAND_OK; }
    for (auto &row : r->r.data) { r->text.emplace_back(); for (auto &v : row) r->text.back().push_back(v.null ? "" : text(v)); }
  } catch (PgError &e) {
    r->status = PGRES_FATAL_ERROR;
    r->err = std::string(e.what()) + "\n";
    c->err = r->err;
  }
  return r;
}
ExecStatusType PQresultStatus(const PGresult *r) { return r ? r->status : PGRES_FATAL_ERROR; }
char *PQresultErrorMessage(const PGresult *r) { return const_cast<char *>(r ? r->err.c_str() : ""); }
int PQntuples(const PGresult *r) { return r ? (int)r->text.size() : 0; }
int PQnfields(const PGresult *r) { return r ? (int)r->r.names.size() : 0; }
char *PQfname(const PGresult *r, int c) { return r && c >= 0 && c < (int)r->r.names.size() ? const_cast<char *>(r->r.names[c].c_str()) : nullptr; }
int PQfnumber(const PGresult *r, const char *n) { for (size_t k = 0; r && k < r->r.names.size(); ++k) if (r->r.names[k] == n) return (int)k; return -1; }
static bool in(const PGresult *r, int a, int b) { return r && a >= 0 && b >= 0 && a < (int)r->text.size() && b < (int)r->text[a].size(); }
char *PQgetvalue(const PGresult *r, int a, int b) { return in(r, a, b) ? const_cast<char *>(r->text[a][b].c_str()) : nullptr; }
int PQgetisnull(const PGresult *r, int a, int b) { return in(r, a, b) ? r->r.data[a][b].null : 1; }
int PQgetlength(const PGresult *r, int a, int b) { return in(r, a, b) ? (int)r->text[a][b].size() : 0; }
char *PQcmdTuples(PGresult *r) { static char e[1] = ""; return r && r->status != PGRES_FATAL_ERROR ? const_cast<char *>(r->tuples.c_str()) : e; }
char *PQcmdStatus(PGresult *) { static char e[1] = ""; return e; }
void PQclear(PGresult *r) { if (r) --gServer.liveResults; delete r; }
}
