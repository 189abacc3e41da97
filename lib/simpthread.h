// Mutexes and condition variables of a case under --wrap; every call is a point of the fiber scheduler.
#pragma once
#include "pbt.h"
namespace simpth {
void reset(Src *s);
extern bool misuse; extern std::string misuse_msg;
extern uint64_t waited_at[16];   // when fiber i went to sleep on a condition (cleared by the harness)
extern bool spurious[16];        // its last wakeup was nobody's doing
}
