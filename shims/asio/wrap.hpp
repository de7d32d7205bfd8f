// asio/wrap.hpp (asio 1.11) does not exist in asio 1.28; strand wrapping is in asio/strand.hpp.
#ifndef VP_SHIM_ASIO_WRAP_HPP_
#define VP_SHIM_ASIO_WRAP_HPP_
#include "asio/io_service.hpp"
#include "asio/strand.hpp"
#endif
