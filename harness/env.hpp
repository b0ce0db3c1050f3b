// The code under test and the world around it: log capture, a storage layer that can count, fail and kill.
#pragma once
#include "gen.hpp"
#include "geodiff.h"
#include <functional>

struct LogMsg { int level; std::string text; };
std::vector<LogMsg> takeLog();              // messages since the last call
std::string logText();                      // the same, as one text (for failure messages)
void setYield(std::function<void(const char *)> f);   // called at every storage operation and log message

namespace fvfs {
enum Kind { READ = 1, WRITE = 2, TRUNC = 4, SYNC = 8, OPEN = 16, DEL = 32, SIZE = 64, LOCK = 128, ALL_IO = READ | WRITE | TRUNC | SYNC | OPEN | DEL | SIZE };
enum Mode { COUNT, ERR_ONCE, ERR_ON, CRASH, CRASH_TORN, POWER };
void start(int kinds, Mode mode, int64_t at, uint64_t seed = 0);   // operation number at (0-based) fails
int64_t stop();                             // number of operations counted
bool fired();
const char *firedWhat();
}  // namespace fvfs

namespace fmem {                            // allocation number at (0-based) of SQLite fails, and those that follow unless once
void start(int64_t at, bool once);          // at = -1: count
int64_t stop();
bool fired();
}  // namespace fmem
int64_t heapBlocks();                       // blocks of memory in use (0 in sanitizer builds)
namespace rf {                              // reads of one ordinary file fail
void start(const std::string &path, int64_t at, bool once);
int64_t stop();
}

#define MUST_OK(ctx, call) do { int rc_ = (call); if (rc_ != 0) (ctx).fail(std::string(#call) + " returned " + std::to_string(rc_) + "\n" + logText()); } while (0)

void noLeftovers(pbt::Ctx &c, const std::set<std::string> &allowed);   // files in the case directory are only those
