// One part of the generated structs (-DSTRUCTS="file")
#include "p10.hpp"

namespace p10
{
#include STRUCTS
}
