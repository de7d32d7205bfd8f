// Stand-in for the header of MaidSafe's cereal fork that the sandbox lacks.
#ifndef VP_SHIM_CEREAL_BOOST_OPTIONAL_HPP_
#define VP_SHIM_CEREAL_BOOST_OPTIONAL_HPP_
#include "boost/optional.hpp"
#include "cereal/cereal.hpp"
namespace cereal {
template <class Archive, class T>
inline void CEREAL_SAVE_FUNCTION_NAME(Archive& ar, const boost::optional<T>& o) {
  bool init(o);
  ar(init);
  if (init) ar(*o);
}
template <class Archive, class T>
inline void CEREAL_LOAD_FUNCTION_NAME(Archive& ar, boost::optional<T>& o) {
  bool init;
  ar(init);
  if (init) { T v; ar(v); o = std::move(v); } else { o = boost::none; }
}
}  // namespace cereal
#endif
