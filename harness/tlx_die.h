// tlx's failure hooks: an internal check that fails is a violation.
#pragma once
#include "sx.h"
#include <string>
#include <cstdlib>
namespace tlx {
void die_with_message(const std::string &) { sx_fail("internal consistency check failed"); abort(); }
void die_with_message(const char *, const char *, size_t) { sx_fail("internal consistency check failed"); abort(); }
void die_with_message(const std::string &, const char *, size_t) { sx_fail("internal consistency check failed"); abort(); }
}
