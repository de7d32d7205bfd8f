// Force-included when /repo's sources are compiled for verification: covers version differences
// between the libraries /repo was written for and the ones installed here.
#ifndef VP_PRELUDE_H_
#define VP_PRELUDE_H_
#include <cassert>
#include <memory>
#if __has_include("asio/io_service.hpp")
#include "asio/io_service.hpp"
#endif
#endif
