// Values, tables, databases, changesets and JSON: everything the oracles need, independent of the code under test.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>
#include <sqlite3.h>

struct Val {
  enum T : uint8_t { Undef = 0, Int = 1, Real = 2, Text = 3, Blob = 4, Null = 5 };
  T t = Undef;
  int64_t i = 0;
  double r = 0;
  std::string s;
  static Val null() { Val v; v.t = Null; return v; }
  static Val integer(int64_t x) { Val v; v.t = Int; v.i = x; return v; }
  static Val real(double x) { Val v; v.t = Real; v.r = x; return v; }
  static Val text(std::string x) { Val v; v.t = Text; v.s = std::move(x); return v; }
  static Val blob(std::string x) { Val v; v.t = Blob; v.s = std::move(x); return v; }
  bool num() const { return t == Int || t == Real; }
  bool undef() const { return t == Undef; }
};
bool same(const Val &a, const Val &b);     // same type and bytes
bool numEq(const Val &a, const Val &b);    // both numbers, numerically equal
inline bool equiv(const Val &a, const Val &b) { return same(a, b) || numEq(a, b); }
std::string show(const Val &v);
std::string keyEnc(const Val &v);          // equal keys have equal encodings

typedef std::vector<Val> Row;
std::string show(const Row &r);
std::string hex(const std::string &s);

struct ColInfo { std::string name, type; bool notNull = false; int pk = 0; };
struct TableData {
  std::string name;
  std::vector<ColInfo> cols;
  std::vector<int> pk;                     // indices of key columns in column order
  std::map<std::string, Row> rows;         // key encoding -> row (tables with a key)
  std::vector<Row> loose;                  // rows of tables without a key, sorted
  std::string key(const Row &r) const;
  bool keyed() const { return !pk.empty(); }
};
struct Snap {
  std::map<std::string, TableData> tables; // every ordinary table
  std::vector<std::string> schema;         // type|name|table|sql of every entry of sqlite_master, sorted
};
bool ignoredTable(const std::string &name);   // index and counter internals
bool sameTable(const TableData &a, const TableData &b, std::string *why = nullptr);
// everything equal; tables in skip are not compared
bool sameSnap(const Snap &a, const Snap &b, std::string *why = nullptr, const std::set<std::string> &skip = {});

// sqlite helpers (always on the plain unix VFS)
struct Db {
  sqlite3 *h = nullptr;
  Db() {}
  explicit Db(const std::string &path, int flags = SQLITE_OPEN_READWRITE | SQLITE_OPEN_CREATE);
  ~Db();
  Db(const Db &) = delete;
  bool exec(const std::string &sql, std::string *err = nullptr);
  void must(const std::string &sql);
  // runs with bound values; returns sqlite result of the step
  int run(const std::string &sql, const std::vector<Val> &args, std::vector<Row> *out = nullptr);
  Val scalar(const std::string &sql, const std::vector<Val> &args = {});
  std::vector<Row> query(const std::string &sql, const std::vector<Val> &args = {});
};
Val colVal(sqlite3_stmt *s, int i);
std::string q(const std::string &ident);      // "quoted identifier"
std::string ql(const std::string &lit);       // 'quoted literal'
TableData readTable(Db &db, const std::string &name);
Snap snap(const std::string &path);
bool integrityOk(const std::string &path, std::string *why = nullptr);

std::string readFile(const std::string &path, bool *ok = nullptr);
void writeFile(const std::string &path, const std::string &data);
void copyFile(const std::string &from, const std::string &to);
bool exists(const std::string &path);
std::vector<std::string> listDir(const std::string &dir);    // names, recursive, sorted

// changesets
struct Entry {
  int op = 0;                               // 18 insert, 9 delete, 23 update
  bool indirect = false;
  std::string table;
  std::vector<uint8_t> pk;                  // flag per column
  Row oldv, newv;                           // empty when absent
  size_t group = 0;                         // number of the table record it belongs to
  const Row &keyRow() const { return op == 18 ? newv : oldv; }
};
enum { INS = 18, DEL = 9, UPD = 23 };
struct Changeset {
  std::vector<Entry> entries;
  size_t groups = 0;
  std::vector<std::string> groupTables;
  std::vector<std::vector<uint8_t>> groupPk;
};
// independent decoder; returns an error text for malformed input or an empty string
std::string decode(const std::string &bytes, Changeset &out);
Changeset mustDecode(const std::string &bytes, const std::string &what);
std::string encode(const Changeset &cs);      // a table record whenever the group changes
std::string putVarint(uint64_t v);
std::string encodeVal(const Val &v);
std::string encodeTable(const std::string &name, const std::vector<uint8_t> &pk);
std::string encodeEntry(const Entry &e);
std::string show(const Entry &e);
std::string entryKey(const Entry &e);         // key encoding of the row
bool sameEntry(const Entry &a, const Entry &b);
Entry invertEntry(const Entry &e);

// exact difference of two snapshots against a decoded changeset; empty string if it is right
std::string diffMismatch(const Snap &base, const Snap &mod, const Changeset &cs);
// number of rows that really differ (beyond representation of equal numbers)
size_t realDifferences(const Snap &base, const Snap &mod);
// after must equal mod in keyed tables (equal numbers may keep base's representation) and base in the others
std::string applyMismatch(const Snap &base, const Snap &mod, const Snap &after);

// reference apply: strict sequential semantics, on a database file; returns an error text or empty on success
std::string refApply(const std::string &path, const Changeset &cs);

// JSON
struct Json {
  enum K { Nul, Bool, Num, Str, Arr, Obj } k = Nul;
  bool b = false;
  std::string s;                            // string value or the raw number
  std::vector<Json> a;
  std::vector<std::pair<std::string, Json>> o;
  const Json *get(const std::string &key) const;
};
bool parseJson(const std::string &text, Json &out, std::string &err);   // strict RFC 8259
std::string b64(const std::string &s);
