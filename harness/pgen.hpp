// Datasets in the PostgreSQL stand-in: generation, reading back, and the same tables as SQLite declarations.
#pragma once
#include "env.hpp"
#include "fakepg.hpp"

struct PCol { std::string name; enum K { INT, DBL, REAL, BOOL, TEXT, TS, GEOM } k = INT; bool notNull = false; std::string geom; int srid = 4326; std::vector<Val> pool; };
struct PTab {
  std::string name;
  std::vector<PCol> cols;
  std::vector<int> pk;                       // declaration order
  bool serial = false;                       // pk[0] is serial
  std::vector<std::vector<int>> idx;
  bool keyed() const { return !pk.empty(); }
  bool isPk(int c) const { for (int p : pk) if (p == c) return true; return false; }
};
struct PDb { std::vector<PTab> t; };
typedef std::map<std::string, std::map<std::string, Row>> PData;
struct PgOpts {
  int maxTables = 3, maxCols = 5, maxRows = 7;
  bool noKey = true, keyOnly = true, composite = true, mergeKeys = false, oneGeom = false, plainNames = false, allGeom = false, fractions = true, specialReal = true;
};
PDb genPg(pbt::Src &s, const PgOpts &o);
PData genPgData(pbt::Src &s, const PDb &d, const PgOpts &o);
PData mutatePg(pbt::Src &s, const PDb &d, const PData &from, const PgOpts &o, int maxEdits);
Val pgVal(pbt::Src &s, const PCol &c, const PgOpts &o, bool key);
std::string pgKey(const PTab &t, const Row &r);
std::string pgType(const PCol &c);
void createPg(const std::string &schema, const PDb &d, const PData &data);
void fillPg(const std::string &schema, const PDb &d, const PData &data);
void clonePg(const std::string &from, const std::string &to);
Snap snapPg(const std::string &schema, bool withSeq = false);
void describePg(pbt::Ctx &c, const PDb &d);
extern const char *kPgInfo;
void pgStart();                              // fresh server
void pgDone(pbt::Ctx &c);                    // connections closed; discards the case if the stand-in met unknown SQL
