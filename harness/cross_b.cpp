#define CROSS_REVERSE
#include "cross.hpp"
const CrossUnit* cross_unit_b() { return &unit; }
