#include "changesets.hpp"
using pbt::Src;
static Val anyVal(Src &s, const GenOpts &g) {
  static const std::vector<std::string> ty = {"INTEGER", "TEXT", "REAL", "BLOB", "TEXT"};
  return genVal(s, ty[s.below(ty.size())], g);
}
Changeset genChangeset(Src &s, const SynthOpts &o) {
  Changeset cs;
  GenOpts g;
  g.badUtf8 = !o.validUtf8;
  int nt = 1 + (int)s.below(3);
  struct T { std::string name; std::vector<uint8_t> pk; };
  std::vector<T> ts;
  for (int i = 0; i < nt; ++i) {
    T t;
    t.name = genName(s, g, i, true);
    if (s.below(40) == 39) t.name = "";
    int nc = 1 + (int)s.below(5);
    if (s.below(40) == 39) { static const std::vector<int> w = {126, 127, 128, 129, 300}; nc = w[s.below(w.size())]; }
    t.pk.assign(nc, 0);
    int npk = 1 + (s.below(4) == 3 ? (int)s.below(nc) : 0);
    for (int k = 0; k < npk; ++k) t.pk[s.below(3) == 2 ? s.below(nc) : (size_t)std::min(k, nc - 1)] = 1;
    bool any = false;
    for (auto f : t.pk) any |= f;
    if (!any) t.pk[0] = 1;
    if (o.compositePkFlags) { int n = 0; for (auto &f : t.pk) if (f) f = (uint8_t)++n; }
    if (o.odd && s.below(12) == 11) t.pk.assign(nc, 0);
    ts.push_back(t);
  }
  int groups = nt + (o.repeatGroups && s.below(3) == 2 ? (int)s.below(3) : 0);
  for (int gi = 0; gi < groups; ++gi) {
    const T &t = gi < nt ? ts[gi] : ts[s.below(ts.size())];
    int n = 1 + (int)s.below(o.maxEntries);
    if (o.emptyGroups && s.below(8) == 7) n = 0;
    if (t.pk.size() > 50) n = std::min(n, 2);
    cs.groups++;
    cs.groupTables.push_back(t.name);
    cs.groupPk.push_back(t.pk);
    for (int k = 0; k < n; ++k) {
      Entry e;
      e.table = t.name;
      e.pk = t.pk;
      e.group = cs.groups;
      e.indirect = o.odd && s.below(5) == 4;
      static const int ops[] = {INS, UPD, DEL};
      e.op = ops[s.below(3)];
      for (size_t c = 0; c < t.pk.size(); ++c) {
        auto key = [&]() { Val v = anyVal(s, g); if (v.t == Val::Null) v = Val::integer((int64_t)s.below(9)); return v; };
        if (e.op == INS) e.newv.push_back(t.pk[c] ? key() : anyVal(s, g));
        else if (e.op == DEL) e.oldv.push_back(t.pk[c] ? key() : anyVal(s, g));
        else if (t.pk[c]) {
          e.oldv.push_back(key());
          e.newv.push_back(o.keyChange && s.below(6) == 5 ? key() : Val());
        } else if (s.below(2)) { e.oldv.push_back(Val()); e.newv.push_back(Val()); }
        else { e.oldv.push_back(anyVal(s, g)); e.newv.push_back(anyVal(s, g)); }
      }
      cs.entries.push_back(e);
    }
  }
  return cs;
}
