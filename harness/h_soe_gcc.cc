// the variant that gcc compiles: the libraries first, then the header with __clang__ undefined
#include <functional>
#include <memory>
#include <string>
#include <utility>
#include "boost/bind.hpp"
#undef __clang__
#define PFX(x) g_##x
#define thrower thrower2
#include "soe_body.inc"
