// A string stream that only appends: the library's own is precompiled and cannot be encoded.
#pragma once
#include <sstream>
#include <string>
namespace std { struct sx_oss { string s; string str() const { return s; } sx_oss &operator<<(const string &x) { s += x; return *this; } sx_oss &operator<<(const char *x) { s += x; return *this; } sx_oss &operator<<(char x) { s += x; return *this; } }; }
#define ostringstream sx_oss
