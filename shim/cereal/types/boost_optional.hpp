// Stand-in for the header of MaidSafe's cereal fork: a presence flag, then the value.
#ifndef VERIF_SHIM_CEREAL_BOOST_OPTIONAL_HPP_
#define VERIF_SHIM_CEREAL_BOOST_OPTIONAL_HPP_

#include "boost/optional.hpp"
#include "cereal/cereal.hpp"

namespace cereal {

template <class Archive, class T>
void save(Archive& ar, const boost::optional<T>& opt) {
  bool present(opt);
  ar(present);
  if (present)
    ar(*opt);
}

template <class Archive, class T>
void load(Archive& ar, boost::optional<T>& opt) {
  bool present(false);
  ar(present);
  if (present) {
    T value;
    ar(value);
    opt = std::move(value);
  } else {
    opt = boost::none;
  }
}

}  // namespace cereal

#endif
