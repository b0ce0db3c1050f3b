#include "report.hpp"
#include <cmath>
#include <cstdlib>

bool jsonIs(const Json *j, const Val &v) {
  if (v.t == Val::Undef) return j == nullptr;
  if (!j) return false;
  switch (v.t) {
    case Val::Null: return j->k == Json::Nul;
    case Val::Int: return j->k == Json::Num && j->s == std::to_string(v.i);
    case Val::Real: {
      if (std::isnan(v.r)) return j->k == Json::Nul;
      if (j->k != Json::Num) return false;
      double x = strtod(j->s.c_str(), nullptr);
      if (std::isinf(v.r) || std::isinf(x)) return x == v.r;
      return std::fabs(x - v.r) <= 5.001e-7 + std::fabs(v.r) * 1e-15;
    }
    case Val::Text: return j->k == Json::Str && j->s == v.s;
    case Val::Blob: return j->k == Json::Str && j->s == b64(v.s);
    default: return false;
  }
}
std::string parsedFile(const std::string &path, Json &out) {
  bool ok;
  std::string t = readFile(path, &ok), err;
  if (!ok) return "cannot read " + path;
  if (!parseJson(t, out, err)) return err + "\n" + t.substr(0, 2000);
  return "";
}
std::string renderJson(const Json *j) {
  if (!j) return "-";
  switch (j->k) {
    case Json::Nul: return "null";
    case Json::Bool: return j->b ? "true" : "false";
    case Json::Num: {
      if (j->s.find_first_of(".eE") == std::string::npos) return j->s;
      char b[64]; snprintf(b, sizeof b, "r%.5g", strtod(j->s.c_str(), nullptr) + 0.0); return b;
    }
    case Json::Str: return "'" + j->s + "'";
    default: return "?";
  }
}
std::string renderVal(const Val &v) {
  switch (v.t) {
    case Val::Undef: return "-";
    case Val::Null: return "null";
    case Val::Int: return std::to_string(v.i);
    case Val::Real: { char t[512]; snprintf(t, sizeof t, "%f", v.r); char b[64]; snprintf(b, sizeof b, "r%.5g", std::isinf(v.r) ? v.r : strtod(t, nullptr) + 0.0); return b; }
    case Val::Text: return "'" + v.s + "'";
    case Val::Blob: return "'" + b64(v.s) + "'";
  }
  return "?";
}
