// What test.cc uses of Boost.Filesystem has another name in the version installed here.
#ifndef VERIF_SHIM_BOOST_COPY_OPTION_H_
#define VERIF_SHIM_BOOST_COPY_OPTION_H_

#include <set>

#include "boost/filesystem.hpp"

namespace boost {
namespace filesystem {
namespace copy_option {
constexpr auto overwrite_if_exists = copy_options::overwrite_existing;
constexpr auto fail_if_exists = copy_options::none;
}  // namespace copy_option
}  // namespace filesystem
}  // namespace boost

#endif  // VERIF_SHIM_BOOST_COPY_OPTION_H_
