#include "cross.hpp"
extern "C" __attribute__((visibility("default"))) const CrossUnit* cross_unit() { return &unit; }
