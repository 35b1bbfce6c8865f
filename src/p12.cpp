// Any sequence of edits leaves the tree a simple model predicts. With -DP13: histories of copies, moves
// and aliased operands.
#define PBT_IMPLEMENT
#include "edit.hpp"

namespace pbt
{
#ifdef P13
const char* const property_id = "P13";
#else
const char* const property_id = "P12";
#endif

void property(Source& s)
{
    edit::Focus f;
#ifdef P13
    f.copies = true;
#endif
    edit::Machine m(s, f);
    m.run();
    label("operations", m.ops);
    label("operations that were refused", m.refusals);
    label("operations with an aliased operand", m.aliased);
    label("operations that moved something out", m.moved);
#ifdef P13
    if (m.ops >= 3 && m.aliased + m.moved > 0) nontrivial(m.digest);
#else
    if (m.changes >= 3) nontrivial(m.digest);
#endif
    if (m.ops >= 4 && m.ops <= 10) sample(m.trace);
}
void custom(const std::string&, const std::string&) {}
void directed() {}
}
