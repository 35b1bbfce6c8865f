// One part of the generated enums (-DENUMS="file")
#include "p11.hpp"

namespace p11
{
#include ENUMS
}
