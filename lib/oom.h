// Allocations of the code under test that fail on request.
// malloc, calloc, realloc, strdup (--wrap), operator new, expat's parser, and points a harness adds.
#pragma once
#include "pbt.h"
#include <new>
namespace oom {
extern long seen;                              // allocations since armed
extern bool hit;                               // one of them failed
struct Arm { Arm(long nth, bool all_later); ~Arm(); };   // the nth (from 0) fails, with all later ones or alone; nth < 0: none
struct Rest { bool was; Rest(); ~Rest(); };    // the harness's own allocations
bool point();                                  // counts as an allocation; true: it fails
}
