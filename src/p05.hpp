// The interface between the configurations (one translation unit each) and the check.
#pragma once
#include <string>
#include <vector>

namespace p05
{
// 1 accepted (out holds the reference rendering of the tree), 0 rejected; `junk` may be used to vary the surroundings
using Fn = bool (*)(const std::string& text, bool jsonc, uint64_t junk, std::string& out);
struct Entry
{
    const char* name;
    Fn fn;
    bool heavy; // not for the big enumerations
};
} // namespace p05
