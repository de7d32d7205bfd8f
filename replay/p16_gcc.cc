#define RP_NO_MAIN
#include <functional>
#include <memory>
#include "replay.h"
#include "boost/bind.hpp"
#undef __clang__
#define maidsafe maidsafe_gcc   // the other variant of the same inline functions
#define VARIANT "gcc variant"
#include "p16_body.inc"
void gcc_variant() { one(); }
