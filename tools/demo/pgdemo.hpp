// helpers for demonstrations with the stand-in of libpq and PostgreSQL (fakepg.cpp)
#pragma once
#include "demo.hpp"
#include "fakepg.hpp"
#include <libpq-fe.h>
static const char *PG = "stand-in";
inline fpg::Server &pgserver() { static bool once = (fpg::server().reset(), true); (void)once; return fpg::server(); }
inline void pg(const S &q) { pgserver(); try { fpg::must(q); } catch (std::exception &e) { std::cout << "demo: " << e.what() << " in " << q << std::endl; exit(99); } }
inline S pgrows(const S &q) {
  PGconn *c = PQconnectdb(PG);
  PGresult *r = PQexec(c, q.c_str());
  if (PQresultStatus(r) != PGRES_TUPLES_OK) { S m = PQresultErrorMessage(r); PQclear(r); PQfinish(c); return m; }
  S o;
  for (int i = 0; i < PQntuples(r); ++i) { for (int k = 0; k < PQnfields(r); ++k) o += (k ? "|" : "") + (PQgetisnull(r, i, k) ? S("NULL") : S(PQgetvalue(r, i, k))); o += "\n"; }
  PQclear(r); PQfinish(c);
  return o;
}
inline int pgdiff(const S &a, const S &b, const S &o) { return GEODIFF_createChangesetEx("postgres", PG, a.c_str(), b.c_str(), o.c_str()); }
inline int pgapply(const S &a, const S &c) { return GEODIFF_applyChangesetEx("postgres", PG, a.c_str(), c.c_str()); }
