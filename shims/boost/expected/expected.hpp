// Stand-in for the header the sandbox lacks (Boost.Expected, a review-stage library): only the
// subset of its interface that /repo uses.
#ifndef VP_SHIM_BOOST_EXPECTED_HPP_
#define VP_SHIM_BOOST_EXPECTED_HPP_
#include <new>
#include <stdexcept>
#include <utility>
#include <type_traits>
namespace boost {
template <typename E>
struct unexpected_type {
  explicit unexpected_type(E e) : error(std::move(e)) {}
  E error;
};
template <typename E>
unexpected_type<typename std::decay<E>::type> make_unexpected(E&& e) {
  return unexpected_type<typename std::decay<E>::type>(std::forward<E>(e));
}
template <typename T, typename E>
class expected {
 public:
  expected(const T& v) : has_(true) { new (&u_.v) T(v); }
  expected(T&& v) : has_(true) { new (&u_.v) T(std::move(v)); }
  template <typename G>
  expected(unexpected_type<G> g) : has_(false) { new (&u_.e) E(std::move(g.error)); }
  expected(const expected& o) : has_(o.has_) {
    if (has_) new (&u_.v) T(o.u_.v); else new (&u_.e) E(o.u_.e);
  }
  expected(expected&& o) : has_(o.has_) {
    if (has_) new (&u_.v) T(std::move(o.u_.v)); else new (&u_.e) E(std::move(o.u_.e));
  }
  expected& operator=(const expected& o) {
    if (this != &o) { this->~expected(); new (this) expected(o); }
    return *this;
  }
  ~expected() { if (has_) u_.v.~T(); else u_.e.~E(); }
  bool valid() const { return has_; }
  explicit operator bool() const { return has_; }
  T& value() { if (!has_) throw std::logic_error("bad_expected_access"); return u_.v; }
  const T& value() const { if (!has_) throw std::logic_error("bad_expected_access"); return u_.v; }
  T& operator*() { return u_.v; }
  const T& operator*() const { return u_.v; }
  T* operator->() { return &u_.v; }
  E& error() { return u_.e; }
  const E& error() const { return u_.e; }
 private:
  union U { T v; E e; U() {} ~U() {} } u_;
  bool has_;
};
}  // namespace boost
#endif
