// Well-formed changesets that need no database.
#pragma once
#include "gen.hpp"
struct SynthOpts { bool keyChange = false, odd = false; bool validUtf8 = true; int maxEntries = 8; bool repeatGroups = true; bool emptyGroups = false; bool compositePkFlags = false; };
Changeset genChangeset(pbt::Src &s, const SynthOpts &o = SynthOpts());
