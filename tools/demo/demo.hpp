// helpers of the demonstrations; everything happens in the current (scratch) directory
#pragma once
#include "geodiff.h"
#include <sqlite3.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <iterator>
#include <string>
#include <vector>
#define CHECK(x) do { if (!(x)) { std::cout << "FAILED line " << __LINE__ << ": " #x << std::endl; exit(1); } } while (0)
typedef std::string S;
inline S slurp(const S &p) { std::ifstream f(p, std::ios::binary); return S(std::istreambuf_iterator<char>(f), {}); }
inline void spit(const S &p, const S &d) { std::ofstream f(p, std::ios::binary); f << d; }
inline bool there(const S &p) { std::ifstream f(p); return f.good(); }
inline void cp(const S &a, const S &b) { spit(b, slurp(a)); }
inline void sql(const S &db, const S &q) {
  sqlite3 *h; char *e = nullptr;
  if (sqlite3_open(db.c_str(), &h) || sqlite3_exec(h, q.c_str(), 0, 0, &e)) { std::cout << "demo: " << (e ? e : "open") << " in " << q << std::endl; exit(99); }
  sqlite3_close(h);
}
// rows of a query; quoted values separated by '|', rows by newline
inline S rows(const S &db, const S &q) {
  sqlite3 *h; sqlite3_stmt *s; S r;
  if (sqlite3_open(db.c_str(), &h) || sqlite3_prepare_v2(h, q.c_str(), -1, &s, 0)) { std::cout << "demo: " << sqlite3_errmsg(h) << std::endl; exit(99); }
  while (sqlite3_step(s) == SQLITE_ROW) {
    for (int i = 0; i < sqlite3_column_count(s); ++i) {
      if (i) r += "|";
      if (sqlite3_column_type(s, i) == SQLITE_BLOB) { S b((const char *)sqlite3_column_blob(s, i), sqlite3_column_bytes(s, i)); r += "x'"; for (unsigned char c : b) { char t[3]; sprintf(t, "%02x", c); r += t; } r += "'"; }
      else { const char *t = (const char *)sqlite3_column_text(s, i); r += t ? S(t, sqlite3_column_bytes(s, i)) : "NULL"; }
    }
    r += "\n";
  }
  sqlite3_finalize(s); sqlite3_close(h);
  return r;
}
inline int diff(const S &a, const S &b, const S &o) { return GEODIFF_createChangeset(a.c_str(), b.c_str(), o.c_str()); }
inline int apply(const S &a, const S &c) { return GEODIFF_applyChangeset(a.c_str(), c.c_str()); }
inline int invert(const S &a, const S &b) { return GEODIFF_invertChangeset(a.c_str(), b.c_str()); }
inline int reb(const S &base, const S &mod, const S &their, const S &out, const S &conf = "conflict.json") { return GEODIFF_createRebasedChangeset(base.c_str(), mod.c_str(), their.c_str(), out.c_str(), conf.c_str()); }
inline int rebase(const S &base, const S &their, const S &mod, const S &conf = "conflict.json") { return GEODIFF_rebase(base.c_str(), their.c_str(), mod.c_str(), conf.c_str()); }
inline S list(const S &cs) { CHECK(GEODIFF_listChanges(cs.c_str(), "list.json") == 0); return slurp("list.json"); }
