// Property-based testing engine: properties are functions over a choice sequence.
// Generation, replay and shrinking all work on that one vector of integers.
#pragma once
#include <cstdint>
#include <exception>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Fail : std::exception {
  std::string msg;
  explicit Fail(std::string m) : msg(std::move(m)) {}
  const char *what() const noexcept override { return msg.c_str(); }
};
struct Discard {};

uint64_t mix(uint64_t a, uint64_t b);
uint64_t hashBytes(const std::string &s, uint64_t h = 0xcbf29ce484222325ULL);

// shared with the parent process, so that the choices of a case that crashes are not lost
struct Shared {
  static const uint32_t CAP = 1 << 17;
  volatile int64_t caseIdx;
  volatile double started;
  volatile uint32_t n;
  uint32_t msgLen;
  char msg[1 << 14];
  uint64_t choice[CAP];
};

class Src {
 public:
  // random generation
  Src(uint64_t seed, Shared *sh) : mSh(sh), mRng(seed) {}
  // replay; missing choices are 0
  Src(const std::vector<uint64_t> &data, Shared *sh) : mSh(sh), mReplay(true), mData(data) {}

  uint64_t below(uint64_t n);                      // [0,n), 0 is the simplest
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
  bool chance(int num, int den) { return (int64_t)below(den) >= den - num; }  // false is simpler
  uint64_t bits() { return below(0); }             // any 64-bit value
  size_t weighted(const std::vector<int> &w);      // index; earlier is simpler
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }

 private:
  uint64_t raw();
  Shared *mSh;
  bool mReplay = false;
  uint64_t mRng = 0;
  std::vector<uint64_t> mData;
  size_t mPos = 0;
  uint32_t mCount = 0;
};

struct Ctx {
  Src &src;
  std::string dir;          // scratch directory of this case, ends with '/'
  std::string tmp;          // TMPDIR of this case, ends with '/'
  int64_t caseIdx = -1;
  bool isNontrivial = false;
  std::vector<std::string> labels;
  std::ostringstream desc;  // human-readable account of the case
  uint64_t hash = 0;        // identifies the case among others (default: hash of desc)
  Ctx(Src &s) : src(s) {}
  void label(const std::string &l) { labels.push_back(l); }
  void nontrivial() { isNontrivial = true; }
  [[noreturn]] void fail(const std::string &m) { throw Fail(m); }
  void check(bool ok, const std::string &m) { if (!ok) fail(m); }
};

struct Prop {
  std::string name;         // e.g. "C01" or "C08.merge"
  std::function<void(Ctx &)> fn;
  std::string rule;         // how cases are made and what makes one non-trivial
  int64_t quick, thorough;  // number of cases
  int batch = 50;           // cases per worker process
  int hang = 60;            // seconds
};
std::vector<Prop> &props();
struct Reg { Reg(Prop p) { props().push_back(std::move(p)); } };

// explicit reproductions of known findings: return true if it still fails
struct Repro { std::string name; std::function<bool(const std::string &dir, std::string &what)> fn; };
std::vector<Repro> &repros();
struct RegRepro { RegRepro(Repro r) { repros().push_back(std::move(r)); } };

int mainRun(int argc, char **argv);
std::string arg(const std::string &key, const std::string &def = "");   // --key value given on the command line
}  // namespace pbt
