// asio/wrap.hpp existed only in early asio 1.11 development versions; nothing of it is needed here.
#ifndef VERIF_SHIM_ASIO_WRAP_HPP_
#define VERIF_SHIM_ASIO_WRAP_HPP_
#endif
