// Comparing reports of the library with values.
#pragma once
#include "model.hpp"
bool jsonIs(const Json *j, const Val &v);          // member present and showing exactly this value; undefined values are absent
std::string parsedFile(const std::string &path, Json &out);   // "" if the file is strictly valid JSON
std::string renderJson(const Json *j);
std::string renderVal(const Val &v);               // what renderJson of a faithful record gives (reals rounded)
