// Two edit histories on one base, and the reference three-way merge.
#pragma once
#include "env.hpp"
struct MergeOpts { int maxEditsOurs = 8, maxEditsTheirs = 8, minEdits = 0; int insertW = 3, deleteW = 2, updateW = 6; bool gpkgPost = true; };
GenOpts mergeGenOpts();
Data mutateMerge(pbt::Src &s, const DbSpec &d, const Data &base, const GenOpts &g, int maxEdits, const MergeOpts &o, const std::map<std::string, int64_t> &floors);
std::map<std::string, int64_t> idFloors(const DbSpec &d, const Data &base);
struct MergeCase {
  DbSpec spec;
  Data dBase, dOurs, dTheirs;
  std::string base, ours, theirs;      // files
  Snap sb, so, st;
};
MergeCase genMerge(pbt::Ctx &c, const GenOpts &g, const MergeOpts &o);
bool reprOnly(const Snap &a, const Snap &b, const Snap &c);    // some value differs in the representation of equal numbers only
bool gapRisk(const Snap &b, const Snap &o, const Snap &t);     // known finding rebase-gap: remapped keys could meet rows of base
bool hashRisk(const Snap &b, const Snap &o, const Snap &t);
// compares the result of a merge; empty if right
std::string mergeMismatch(const Snap &b, const Snap &o, const Snap &t, const Snap &result);
std::set<std::string> collidingTables(const Snap &b, const Snap &o, const Snap &t);
struct Conflict { std::string table; bool intKey; int64_t key; std::map<int, std::array<Val, 3>> must, may; };
std::vector<Conflict> expectedConflicts(const Snap &b, const Snap &o, const Snap &t);
std::string conflictReportMismatch(const std::vector<Conflict> &want, const std::string &file);
