#include "pbt.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <set>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace fs = std::filesystem;
void harnessInit();   // provided by the harness: called in every worker before the first case

namespace pbt {

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t z = a * 0x9e3779b97f4a7c15ULL + b + 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
uint64_t hashBytes(const std::string &s, uint64_t h) {
  for (unsigned char c : s) { h ^= c; h *= 0x100000001b3ULL; }
  return h;
}

uint64_t Src::raw() {
  mRng += 0x9e3779b97f4a7c15ULL;
  uint64_t z = mRng;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
uint64_t Src::below(uint64_t n) {
  uint64_t v;
  if (mReplay) v = mPos < mData.size() ? mData[mPos] : 0;
  else v = raw();
  ++mPos;
  if (n) { if (mReplay) { if (v >= n) v = n - 1; } else v %= n; }
  if (mSh && mCount < Shared::CAP) { mSh->choice[mCount++] = v; mSh->n = mCount; }
  else v = 0;   // beyond the cap everything is the simplest choice, in replays too
  return v;
}
size_t Src::weighted(const std::vector<int> &w) {
  int64_t sum = 0;
  for (int x : w) sum += x;
  int64_t r = below(sum);
  for (size_t i = 0; i < w.size(); ++i) { if (r < w[i]) return i; r -= w[i]; }
  return w.size() - 1;
}

std::vector<Prop> &props() { static std::vector<Prop> p; return p; }
std::vector<Repro> &repros() { static std::vector<Repro> p; return p; }

static std::map<std::string, std::string> gArgs;
std::string arg(const std::string &k, const std::string &d) { auto i = gArgs.find(k); return i == gArgs.end() ? d : i->second; }

#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#define PBT_SANITIZED 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer) || __has_feature(memory_sanitizer)
#define PBT_SANITIZED 1
#endif
#endif

static std::string gScratch;
static Shared *newShared() {
  void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(3); }
  return (Shared *)p;
}

static std::string jsonStr(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

enum { ST_PASS = 0, ST_FAIL = 10, ST_DISCARD = 11, ST_CRASH = 12, ST_HANG = 13 };

// one case in this process; returns the status
static int runCase(const Prop &p, Src &src, Shared *sh, const std::string &dir, int64_t idx, Ctx *&out, std::string &msg) {
  std::error_code ec;
  fs::remove_all(dir, ec);
  fs::create_directories(dir + "/tmp", ec);
  Ctx *c = new Ctx(src);
  out = c;
  c->dir = dir + "/";
  c->tmp = dir + "/tmp/";
  c->caseIdx = idx;
  setenv("TMPDIR", c->tmp.c_str(), 1);
  sh->caseIdx = idx;
  sh->n = 0;
  sh->msgLen = 0;
  sh->started = now();
  int st = ST_PASS;
  try { p.fn(*c); }
  catch (Fail &f) { msg = f.msg; st = ST_FAIL; }
  catch (Discard &) { st = ST_DISCARD; }
  catch (std::exception &e) { msg = std::string("exception escaped: ") + e.what(); st = ST_FAIL; }
  catch (...) { msg = "unknown exception escaped"; st = ST_FAIL; }
  sh->started = 0;
  if (st == ST_FAIL) {
    std::string full = msg + "\n--- case ---\n" + c->desc.str();
    sh->msgLen = std::min(full.size(), sizeof(sh->msg) - 1);
    memcpy(sh->msg, full.data(), sh->msgLen);
  }
  return st;
}

static void childSetup(const std::string &log) {
  int fd = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  int nul = open("/dev/null", O_RDONLY);
  dup2(nul, 0); dup2(fd, 1); dup2(fd, 2);
  if (fd > 2) close(fd);
  if (nul > 2) close(nul);
  setpgid(0, 0);
  signal(SIGXFSZ, SIG_IGN);
  signal(SIGPIPE, SIG_IGN);
  rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
#ifndef PBT_SANITIZED
  rl.rlim_cur = rl.rlim_max = (rlim_t)6 << 30; setrlimit(RLIMIT_AS, &rl);
#endif
  harnessInit();
}

struct OneResult { int st; std::string msg; };

static std::string tail(const std::string &f, size_t n = 3000) {
  std::ifstream in(f, std::ios::binary);
  std::string s((std::istreambuf_iterator<char>(in)), {});
  // sanitizer reports: the head matters more
  size_t p = s.find("ERROR: ");
  if (p == std::string::npos) p = s.find("runtime error:");
  if (p != std::string::npos) return s.substr(p > 200 ? p - 200 : 0, n);
  return s.size() > n ? s.substr(s.size() - n) : s;
}

// waits for the child with the hang limit; kills its whole group
static int waitChild(pid_t pid, Shared *sh, int hang) {
  double t0 = now();
  for (;;) {
    int ws;
    pid_t r = waitpid(pid, &ws, WNOHANG);
    if (r == pid) { kill(-pid, SIGKILL); return WIFEXITED(ws) ? WEXITSTATUS(ws) : 128 + WTERMSIG(ws); }
    double st = sh->started;
    double ref = st > 0 ? st : t0;
    if (now() - std::max(ref, t0) > hang) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &ws, 0); return -1; }
    usleep(now() - t0 < 0.05 ? 300 : 2000);
  }
}

// runs cases given as choice vectors (or, for an index list, freshly generated) in one new process; the last one decides
static OneResult runForked(const Prop &p, const std::vector<uint64_t> *choices, uint64_t seed, const std::vector<int64_t> &seq,
                           Shared *sh, const std::string &tag, std::vector<uint64_t> *used = nullptr, std::string *desc = nullptr) {
  std::string dir = gScratch + "/" + tag, log = gScratch + "/" + tag + ".log", dfile = gScratch + "/" + tag + ".desc";
  sh->started = 0; sh->n = 0; sh->msgLen = 0;
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    childSetup(log);
    int st = ST_PASS;
    std::string msg;
    Ctx *c = nullptr;
    if (choices) {
      Src s(*choices, sh);
      st = runCase(p, s, sh, dir, seq.empty() ? -1 : seq.back(), c, msg);
    } else {
      for (size_t k = 0; k < seq.size(); ++k) {
        Src s(mix(mix(seed, hashBytes(p.name)), seq[k]), sh);
        st = runCase(p, s, sh, dir, seq[k], c, msg);
        if (st == ST_FAIL && k + 1 < seq.size()) { st = ST_DISCARD; break; }
      }
    }
    if (c) { std::ofstream o(dfile); o << c->desc.str(); }
    fflush(stdout); fflush(stderr);
    _exit(st);
  }
  int rc = waitChild(pid, sh, p.hang);
  OneResult r;
  if (rc == -1) { r.st = ST_HANG; r.msg = "did not finish within " + std::to_string(p.hang) + " s"; }
  else if (rc == ST_PASS || rc == ST_DISCARD) r.st = rc;
  else if (rc == ST_FAIL) { r.st = ST_FAIL; r.msg.assign(sh->msg, sh->msgLen); }
  else { r.st = ST_CRASH; r.msg = "process ended with status " + std::to_string(rc) + (rc > 128 && rc < 160 ? " (signal " + std::to_string(rc - 128) + ")" : "") + "\n" + tail(log); }
  if (used) used->assign(sh->choice, sh->choice + sh->n);
  if (desc) { std::ifstream in(dfile); desc->assign((std::istreambuf_iterator<char>(in)), {}); }
  std::error_code ec;
  fs::remove_all(dir, ec);
  fs::remove(dfile, ec);
  return r;
}
static bool bad(const OneResult &r) { return r.st == ST_FAIL || r.st == ST_CRASH || r.st == ST_HANG; }

static std::vector<uint64_t> shrink(const Prop &p, std::vector<uint64_t> best, Shared *sh, int64_t idx, double budget, int &tries) {
  double t0 = now();
  auto attempt = [&](std::vector<uint64_t> cand) -> bool {
    if (now() - t0 > budget) return false;
    ++tries;
    std::vector<uint64_t> used;
    OneResult r = runForked(p, &cand, 0, {idx}, sh, "shrink", &used);
    if (!bad(r) || r.st == ST_HANG) return false;
    while (!cand.empty() && cand.back() == 0) cand.pop_back();
    if (used.size() < cand.size()) cand.resize(used.size());
    best = cand;
    return true;
  };
  bool improved = true;
  while (improved && now() - t0 < budget) {
    improved = false;
    for (size_t k = std::min<size_t>(256, best.size()); k >= 1; k /= 2) {
      for (int64_t i = (int64_t)best.size() - (int64_t)k; i >= 0 && now() - t0 < budget; i -= (k > 8 ? (int64_t)k : 1)) {
        if (i + (int64_t)k > (int64_t)best.size()) continue;
        auto c = best;
        c.erase(c.begin() + i, c.begin() + i + k);
        if (attempt(c)) improved = true;
      }
      if (k == 1) break;
    }
    for (size_t k = std::min<size_t>(64, best.size()); k >= 1; k /= 2) {
      for (size_t i = 0; i + k <= best.size() && now() - t0 < budget; i += k) {
        bool any = false;
        for (size_t j = i; j < i + k; ++j) any |= best[j] != 0;
        if (!any) continue;
        auto c = best;
        std::fill(c.begin() + i, c.begin() + i + k, 0);
        if (attempt(c)) improved = true;
      }
      if (k == 1) break;
    }
    for (size_t i = 0; i < best.size() && now() - t0 < budget; ++i) {
      // smallest value in [lo, best[i]] that still fails, by bisection
      uint64_t lo = 0;
      for (int step = 0; step < 66 && i < best.size() && lo < best[i] && now() - t0 < budget; ++step) {
        uint64_t mid = lo + (best[i] - lo) / 2;
        auto c = best;
        c[i] = mid;
        if (attempt(c)) improved = true;
        else lo = mid + 1;
      }
    }
  }
  return best;
}

static int usage() { fprintf(stderr, "usage: harness PROP --cases N --seed S --jobs J --out FILE --scratch DIR --replays DIR | --replay FILE | --repro NAME | --list\n"); return 2; }

static const Prop *find(const std::string &n) { for (auto &p : props()) if (p.name == n) return &p; return nullptr; }

static bool readReplay(const std::string &f, std::string &prop, std::vector<uint64_t> &choices, uint64_t &seed, std::vector<int64_t> &seq) {
  std::ifstream in(f);
  if (!in) return false;
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream is(line);
    std::string k; is >> k;
    if (k == "property") is >> prop;
    else if (k == "seed") is >> seed;
    else if (k == "choices") { uint64_t v; while (is >> v) choices.push_back(v); }
    else if (k == "sequence") { int64_t v; while (is >> v) seq.push_back(v); }
    else if (k == "---") break;
  }
  return !prop.empty();
}

int mainRun(int argc, char **argv) {
  std::string name;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a.rfind("--", 0) == 0) { gArgs[a.substr(2)] = i + 1 < argc ? argv[i + 1] : ""; ++i; }
    else name = a;
  }
  if (gArgs.count("list")) { for (auto &p : props()) printf("%s %ld %ld\n", p.name.c_str(), (long)p.quick, (long)p.thorough); return 0; }
  gScratch = arg("scratch", "/dev/shm/pbt." + std::to_string(getpid()));
  fs::create_directories(gScratch);
  Shared *sh0 = newShared();

  if (gArgs.count("repro")) {
    for (auto &r : repros()) if (r.name == arg("repro")) {
      fs::create_directories(gScratch + "/repro/tmp");
      setenv("TMPDIR", (gScratch + "/repro/tmp/").c_str(), 1);
      fflush(stdout);
      int pfd[2]; if (pipe(pfd)) return 3;
      pid_t pid = fork();
      if (pid == 0) {
        childSetup(gScratch + "/repro.log");
        std::string what; int rc = 0;
        try { rc = r.fn(gScratch + "/repro/", what) ? 1 : 0; } catch (std::exception &e) { what = e.what(); rc = 1; }
        if (write(pfd[1], what.data(), what.size()) < 0) {}
        _exit(rc);
      }
      close(pfd[1]);
      std::string what; char b[4096]; ssize_t n;
      while ((n = read(pfd[0], b, sizeof b)) > 0) what.append(b, n);
      int ws; waitpid(pid, &ws, 0);
      int rc = WIFEXITED(ws) ? WEXITSTATUS(ws) : 1;
      printf("%s %s\n", rc ? "STILL-FAILS" : "PASSES", what.c_str());
      std::error_code ec; fs::remove_all(gScratch, ec);
      return rc ? 1 : 0;
    }
    fprintf(stderr, "no such repro\n"); return 3;
  }

  if (gArgs.count("replay")) {
    std::string pn; std::vector<uint64_t> ch; uint64_t seed = 0; std::vector<int64_t> seq;
    if (!readReplay(arg("replay"), pn, ch, seed, seq)) { fprintf(stderr, "cannot read replay\n"); return 3; }
    const Prop *p = find(pn);
    if (!p) { fprintf(stderr, "unknown property %s\n", pn.c_str()); return 3; }
    std::string d;
    OneResult r = runForked(*p, seq.size() > 1 ? nullptr : &ch, seed, seq, sh0, "replay", nullptr, &d);
    printf("%s\n%s\n", bad(r) ? "FAILS" : r.st == ST_DISCARD ? "DISCARDED" : "PASSES", r.msg.c_str());
    if (gArgs.count("verbose")) printf("%s\n", d.c_str());
    std::error_code ec; fs::remove_all(gScratch, ec);
    return bad(r) ? 1 : 0;
  }

  const Prop *p = find(name);
  if (!p) return usage();
  uint64_t seed = strtoull(arg("seed", "1").c_str(), nullptr, 10);
  int64_t cases = atoll(arg("cases", std::to_string(p->quick)).c_str());
  int jobs = atoi(arg("jobs", "8").c_str());
  double cap = atof(arg("cap", "600").c_str());
  double shrinkBudget = atof(arg("shrink", "60").c_str());
  double t0 = now();
  int64_t nJobs = (cases + p->batch - 1) / p->batch;

  struct Slot { pid_t pid = 0; int64_t job = -1; Shared *sh; double t; };
  std::vector<Slot> slots(jobs);
  for (auto &s : slots) s.sh = newShared();
  int64_t nextJob = 0;
  bool stop = false, capped = false;
  struct Found { int64_t idx; std::vector<uint64_t> choices; int st; std::string msg; int64_t firstOfJob; };
  std::vector<Found> found;
  auto resFile = [&](int k) { return gScratch + "/res." + std::to_string(k); };

  auto launch = [&](int k) {
    Slot &s = slots[k];
    int64_t job = nextJob++;
    s.job = job; s.t = now(); s.sh->started = 0; s.sh->n = 0; s.sh->caseIdx = -1; s.sh->msgLen = 0;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      childSetup(gScratch + "/w" + std::to_string(k) + ".log");
      FILE *res = fopen(resFile(k).c_str(), "ab");
      int st = 0;
      for (int64_t i = job * p->batch; i < std::min(cases, (job + 1) * (int64_t)p->batch); ++i) {
        Src src(mix(mix(seed, hashBytes(p->name)), i), s.sh);
        Ctx *c = nullptr; std::string msg;
        st = runCase(*p, src, s.sh, gScratch + "/w" + std::to_string(k), i, c, msg);
        if (st == ST_FAIL) break;
        std::string d = c->desc.str();
        uint64_t h = c->hash ? c->hash : hashBytes(d);
        std::string lab;
        for (auto &l : c->labels) lab += (lab.empty() ? "" : ",") + l;
        std::string sample;
        if (c->isNontrivial && (i % 97) == 0) { sample = d.substr(0, 1500); for (auto &ch : sample) if (ch == '\n') ch = '\x01'; else if (ch == '\t') ch = ' '; }
        fprintf(res, "%ld\t%d\t%016lx\t%s\t%s\n", (long)i, st == ST_DISCARD ? 2 : c->isNontrivial ? 1 : 0, (unsigned long)h, lab.c_str(), sample.c_str());
        delete c;
        st = 0;
      }
      fclose(res);
      fflush(stdout); fflush(stderr);
      _exit(st);
    }
    setpgid(pid, pid);
    s.pid = pid;
  };

  for (;;) {
    bool any = false;
    for (int k = 0; k < jobs; ++k) {
      Slot &s = slots[k];
      if (s.pid) {
        int ws;
        pid_t r = waitpid(s.pid, &ws, WNOHANG);
        int rc = -2;
        if (r == s.pid) { rc = WIFEXITED(ws) ? WEXITSTATUS(ws) : 128 + WTERMSIG(ws); kill(-s.pid, SIGKILL); }
        else {
          double st = s.sh->started;
          if (st > 0 && now() - st > p->hang) { kill(-s.pid, SIGKILL); kill(s.pid, SIGKILL); waitpid(s.pid, &ws, 0); rc = -1; }
        }
        if (rc != -2) {
          s.pid = 0;
          if (rc != 0) {
            Found f; f.idx = s.sh->caseIdx; f.choices.assign(s.sh->choice, s.sh->choice + s.sh->n);
            f.firstOfJob = s.job * p->batch;
            f.st = rc == -1 ? ST_HANG : rc == ST_FAIL ? ST_FAIL : ST_CRASH;
            f.msg = f.st == ST_FAIL ? std::string(s.sh->msg, s.sh->msgLen) : f.st == ST_HANG ? "hang" : "status " + std::to_string(rc) + "\n" + tail(gScratch + "/w" + std::to_string(k) + ".log");
            found.push_back(f);
            stop = true;
          }
        } else any = true;
      }
      if (!s.pid && !stop && nextJob < nJobs) {
        if (now() - t0 > cap) { capped = true; stop = true; }
        else { launch(k); any = true; }
      }
    }
    if (!any) break;
    usleep(1000);
  }

  // aggregate
  int64_t evals = 0, nontriv = 0, discards = 0;
  std::set<uint64_t> distinct;
  std::map<std::string, int64_t> labels;
  std::vector<std::string> samples;
  for (int k = 0; k < jobs; ++k) {
    std::ifstream in(resFile(k));
    std::string line;
    while (std::getline(in, line)) {
      std::vector<std::string> f;
      size_t a = 0;
      for (int q = 0; q < 4; ++q) { size_t b = line.find('\t', a); if (b == std::string::npos) break; f.push_back(line.substr(a, b - a)); a = b + 1; }
      if (f.size() < 4) continue;
      std::string sample = line.substr(a);
      ++evals;
      if (f[1] == "2") { ++discards; continue; }
      if (f[1] == "1") { ++nontriv; distinct.insert(strtoull(f[2].c_str(), nullptr, 16)); }
      std::istringstream ls(f[3]); std::string l;
      std::set<std::string> seen;
      while (std::getline(ls, l, ',')) if (seen.insert(l).second) ++labels[l];
      if (!sample.empty() && samples.size() < 4) { for (auto &c : sample) if (c == '\x01') c = '\n'; samples.push_back(sample); }
    }
  }

  int rcOut = 0;
  std::string violJson = "null";
  int flaky = 0;
  if (!found.empty()) {
    std::sort(found.begin(), found.end(), [](const Found &a, const Found &b) { return a.idx < b.idx; });
    for (auto &f : found) {
      int okAlone = 0;
      std::string msg = f.msg;
      for (int t = 0; t < 3; ++t) { OneResult r = runForked(*p, &f.choices, 0, {f.idx}, sh0, "confirm"); if (bad(r)) { ++okAlone; msg = r.msg; } else break; }
      std::string dirR = arg("replays", gScratch);
      fs::create_directories(dirR);
      std::ostringstream rep;
      rep << "property " << p->name << "\nseed " << seed << "\n";
      std::string d;
      if (okAlone == 3) {
        int tries = 0;
        std::vector<uint64_t> best = f.choices;
        if (f.st != ST_HANG) best = shrink(*p, f.choices, sh0, f.idx, shrinkBudget, tries);
        OneResult r = runForked(*p, &best, 0, {f.idx}, sh0, "confirm", nullptr, &d);
        if (!bad(r)) { best = f.choices; r = runForked(*p, &best, 0, {f.idx}, sh0, "confirm", nullptr, &d); }
        if (bad(r)) msg = r.msg;
        rep << "sequence " << f.idx << "\nchoices";
        for (auto v : best) rep << ' ' << v;
        rep << "\n--- shrunk from " << f.choices.size() << " to " << best.size() << " choices in " << tries << " runs\n";
      } else {
        std::vector<int64_t> seq;
        for (int64_t i = f.firstOfJob; i <= f.idx; ++i) seq.push_back(i);
        int okSeq = 0;
        for (int t = 0; t < 3; ++t) { OneResult r = runForked(*p, nullptr, seed, seq, sh0, "confirm"); if (bad(r)) { ++okSeq; msg = r.msg; } else break; }
        if (okSeq < 3) { ++flaky; printf("NOTE: failure of case %ld did not reproduce (%d of 3 alone, %d of 3 in sequence): %s\n", (long)f.idx, okAlone, okSeq, f.msg.c_str()); continue; }
        double ts = now();
        for (size_t k = (seq.size() - 1) / 2; k >= 1 && now() - ts < shrinkBudget; k /= 2)
          for (size_t i = 0; i + k < seq.size() && now() - ts < shrinkBudget;) {
            auto c = seq;
            c.erase(c.begin() + i, c.begin() + i + k);
            if (bad(runForked(*p, nullptr, seed, c, sh0, "shrink"))) seq = c; else i += k;
          }
        OneResult r = runForked(*p, nullptr, seed, seq, sh0, "confirm", nullptr, &d);
        if (bad(r)) msg = r.msg;
        rep << "sequence";
        for (auto v : seq) rep << ' ' << v;
        rep << "\n--- fails only after the earlier cases of the sequence in the same process\n";
      }
      rep << "--- message\n" << msg << "\n--- case\n" << d << "\n";
      char hx[32]; snprintf(hx, sizeof hx, "%016lx", (unsigned long)hashBytes(rep.str()));
      std::string path = dirR + "/" + p->name + "-" + std::string(hx).substr(0, 10) + ".replay";
      { std::ofstream o(path); o << rep.str(); }
      printf("FAILED %s replay=%s\n%s\n", p->name.c_str(), path.c_str(), msg.c_str());
      violJson = jsonStr(path);
      rcOut = 1;
      break;
    }
  }
  std::string out = arg("out");
  if (!out.empty()) {
    std::ofstream o(out);
    o << "{\"name\":" << jsonStr(p->name) << ",\"evaluations\":" << evals << ",\"nontrivial\":" << nontriv << ",\"distinct_nontrivial\":" << distinct.size()
      << ",\"discarded\":" << discards << ",\"requested\":" << cases << ",\"capped\":" << (capped ? "true" : "false") << ",\"flaky\":" << flaky
      << ",\"wall\":" << now() - t0 << ",\"rule\":" << jsonStr(p->rule) << ",\"labels\":{";
    bool first = true;
    for (auto &l : labels) { o << (first ? "" : ",") << jsonStr(l.first) << ":" << l.second; first = false; }
    o << "},\"samples\":[";
    first = true;
    for (auto &s : samples) { o << (first ? "" : ",") << jsonStr(s); first = false; }
    o << "],\"violation\":" << violJson << "}\n";
  }
  printf("%s: %ld cases, %ld non-trivial, %ld distinct, %ld discarded, %.1f s%s\n", p->name.c_str(), (long)evals, (long)nontriv, (long)distinct.size(), (long)discards, now() - t0, capped ? " (time cap)" : "");
  std::error_code ec;
  fs::remove_all(gScratch, ec);
  return rcOut;
}
}  // namespace pbt
