// One small world of files and every kind of call on it, for properties about calls in general.
#pragma once
#include "merge.hpp"
struct Scene {
  MergeCase m;
  std::map<std::string, std::string> files;    // key -> content: base ours theirs bare layers b2o b2t garbage short bad empty other
  bool layersOnly = false;                     // every table of base is a layer
};
typedef std::map<std::string, std::string> Paths;    // key -> path; also missing out conf copy dir nodir
Scene genScene(pbt::Ctx &c, bool big = false);
void placeScene(const Scene &s, const Paths &p);      // writes the inputs, removes outputs
struct SceneArg { char role; std::string key; };      // d database read, i database written in place, c changeset, o output file, n new database, - driver or info
struct SceneCall {
  std::string name;
  std::vector<SceneArg> args;
  std::function<int(const std::vector<const char *> &)> f;
  bool counts = false;                                // returns a number, -1 on error
};
std::vector<SceneCall> sceneCalls(const Scene &s);
// replaces an argument by something unfit; what it was
std::string spoil(pbt::Src &s, SceneCall &c);
int runCall(const SceneCall &c, const Paths &p);
std::string show(const SceneCall &c);
