// A stand-in for libpq and a PostgreSQL server with PostGIS: one in-process database that understands the part of SQL
// and of the system catalogue a client like geodiff needs, with PostgreSQL's typing, quoting and transaction rules.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace fpg {
enum Ty { UNKNOWN, BOOL, INT2, INT4, INT8, NUMERIC, FLOAT4, FLOAT8, TEXT, VARCHAR, NAME, TIMESTAMP, DATE, BYTEA, GEOM, REGCLASS, OID, INTARR };
struct PV {                         // a typed value
  Ty t = UNKNOWN;
  bool null = true;
  int64_t i = 0;                    // bool, integers, oid, timestamp (microseconds), date (days), srid of a geometry
  double d = 0;
  std::string s;                    // text, bytea, WKB of a geometry, digits of a numeric
  std::vector<int64_t> a;
};
struct Type { Ty t = UNKNOWN; int len = -1; std::string geom; int srid = 0; };   // geom: Point, PointZ, ...
struct Col { std::string name; Type type; bool notNull = false; std::string seq; bool hasDefault = false; PV dflt; };
struct Index { std::vector<int> cols; bool unique = false, primary = false; };
struct Table {
  int64_t oid = 0;
  std::vector<Col> cols;
  std::vector<Index> indexes;
  std::vector<std::vector<PV>> rows;
};
struct Schema { int64_t oid = 0; std::map<std::string, Table> tables; std::map<std::string, int64_t> seqs; };
struct State { std::map<std::string, Schema> schemas; int64_t nextOid = 16384; };
struct Seq { int64_t last = 1; bool called = false; };
struct Srs { int srid; std::string auth; int code; std::string wkt; };

struct Server {
  State st;
  std::map<int64_t, Seq> seq;       // by oid, not transactional
  std::vector<Srs> srs;
  int connections = 0;
  int64_t liveConns = 0, liveResults = 0;   // objects handed out (failed connections too)
  std::vector<std::string> log;     // statements
  // faults: statement number at fails (error) or the connection is lost with it
  int64_t count = 0, failAt = -1, loseAt = -1;
  bool failed = false;
  // another client commits when statement number interfereAt comes in (it shows only after a transaction that keeps its snapshot)
  int64_t interfereAt = -1;
  std::function<void()> interfere;
  bool interfered = false;
  std::string unsupported;          // a construct the stand-in does not know: the case says nothing
  void reset();
};
Server &server();
// runs a statement outside any client connection; throws on error
void must(const std::string &sql);
std::string text(const PV &v);      // output form
std::string typeName(const Type &t);
std::string show(const State &s);   // everything, as text
}  // namespace fpg
