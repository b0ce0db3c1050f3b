// Generators of schemas, data, edits and files.
#pragma once
#include "model.hpp"
#include "pbt.hpp"

struct ColSpec { std::string name, type, collate, dflt; bool notNull = false; };
struct TableSpec {
  std::string name;
  std::vector<ColSpec> cols;
  std::vector<int> pk;              // in declaration order of the key
  bool inlinePk = false;            // INTEGER PRIMARY KEY on the column
  bool autoinc = false, withoutRowid = false, strict = false;
  int geomCol = -1;                 // spatial layer
  int genAt = -1;                   // a generated column before column genAt (not part of cols: hidden from table_info)
  std::string genDef;
  bool rtree = false, counter = false;
  bool newTriggers = false;         // the spatial index triggers of GeoPackage 1.4 (update5-7) in place of update1 and update3
  std::vector<std::vector<Val>> pools;
  bool keyed() const { return !pk.empty(); }
  bool isPk(int c) const { for (int p : pk) if (p == c) return true; return false; }
};
struct DbSpec {
  std::vector<TableSpec> tables;
  bool gpkg = false;
  std::string encoding = "UTF-8";
  std::vector<std::string> extra;   // further statements run after the tables were created (views, triggers...)
  const TableSpec *find(const std::string &n) const { for (auto &t : tables) if (t.name == n) return &t; return nullptr; }
};
struct Data {
  std::map<std::string, std::map<std::string, Row>> t;
  std::vector<std::string> post;    // statements run at the end (layer catalogue)
};
struct Layout {
  int pageSize = 4096;
  uint64_t shuffle = 0;             // 0: key order
  bool junk = false, vacuum = false, wal = false, autovac = false, analyze = false, objects = false;
  int staleStats = 0;   // statistics that are gone or wrong
  // analyze: SQLite keeps statistics in tables of its own
  std::string extraIndexOn;
};
struct GenOpts {
  int maxTables = 3, maxCols = 6, maxRows = 10, minRows = 0, minCols = 1;
  bool weirdNames = true, composite = true, noKey = true, blobKey = true, realKey = true, textKey = true, withoutRowid = true;
  bool rebaseKeys = false;          // single-column integer or text keys only, ids below 2^62 and sane
  int gpkgPct = 25;
  bool gpkgOnly = false;
  bool badUtf8 = false, nulInText = true, bigValues = true, utf16 = true, collate = true, wide = true;
  bool emptyTableName = true;
  bool keyOnly = true;
  bool generated = true;            // tables with a generated column
  bool specialReal = true;          // infinities
};

Val genVal(pbt::Src &s, const std::string &type, const GenOpts &o);
Val nearVal(pbt::Src &s, const Val &v);
std::string genText(pbt::Src &s, const GenOpts &o);
Val genGeom(pbt::Src &s);
Val genKeyVal(pbt::Src &s, const ColSpec &c, const GenOpts &o);
std::string genName(pbt::Src &s, const GenOpts &o, int i, bool table);
DbSpec genSpec(pbt::Src &s, const GenOpts &o);
Row genRow(pbt::Src &s, const TableSpec &t, const GenOpts &o);
Data genData(pbt::Src &s, const DbSpec &d, const GenOpts &o);
struct EditOpts { int maxEdits = 8; int insertW = 3, deleteW = 3, updateW = 5; bool reinsert = true; };
Data mutate(pbt::Src &s, const DbSpec &d, const Data &from, const GenOpts &o, const EditOpts &e = EditOpts());
Layout genLayout(pbt::Src &s);

std::string keyOf(const TableSpec &t, const Row &r);
std::vector<std::string> createSql(const DbSpec &d, const TableSpec &t);
void writeDb(const std::string &path, const DbSpec &d, const Data &data, const Layout &l = Layout());
void applyEdits(const std::string &path, const DbSpec &d, const Data &from, const Data &to, uint64_t order = 0);
void applyEdits(Db &db, const DbSpec &d, const Data &from, const Data &to, uint64_t order = 0);   // within a transaction of the caller
void describe(pbt::Ctx &c, const DbSpec &d);
std::string describe(const Snap &s, size_t maxRows = 12);

// a base and a modified database as files, with their contents
struct Pair {
  DbSpec spec;
  Data baseData, modData;
  std::string base, mod;
  Snap sb, sm;
};
// sometimes an output path exists already, with longer or shorter content
void maybeStale(pbt::Ctx &c, const std::string &path);
Pair genPair(pbt::Ctx &c, const GenOpts &o, const EditOpts &e = EditOpts());
std::string describeChanges(const Snap &a, const Snap &b, size_t max = 12);
