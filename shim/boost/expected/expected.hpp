// Stand-in for Boost.Expected (never part of Boost 1.83), as used by the code under test: holds a
// value or an error; value() on an error rethrows it, as the MaidSafe-bundled library did.
#ifndef VERIF_SHIM_BOOST_EXPECTED_HPP_
#define VERIF_SHIM_BOOST_EXPECTED_HPP_

#include <memory>
#include <stdexcept>
#include <type_traits>
#include <utility>

namespace boost {

template <class E>
class unexpected_type {
 public:
  explicit unexpected_type(const E& e) : error_(e) {}
  explicit unexpected_type(E&& e) : error_(std::move(e)) {}
  const E& value() const { return error_; }

 private:
  E error_;
};

template <class E>
unexpected_type<typename std::decay<E>::type> make_unexpected(E&& e) {
  return unexpected_type<typename std::decay<E>::type>(std::forward<E>(e));
}

template <class E>
class bad_expected_access : public std::logic_error {
 public:
  explicit bad_expected_access(const E& e) : std::logic_error("bad expected access"), error_(e) {}
  const E& error() const { return error_; }
  ~bad_expected_access() noexcept {}

 private:
  E error_;
};

template <class T, class E = std::exception_ptr>
class expected {
 public:
  typedef T value_type;
  typedef E error_type;

  expected() : value_(new T()) {}
  expected(const T& v) : value_(new T(v)) {}
  expected(T&& v) : value_(new T(std::move(v))) {}
  template <class E2>
  expected(const unexpected_type<E2>& u) : error_(new E(u.value())) {}
  expected(const expected& o)
      : value_(o.value_ ? new T(*o.value_) : nullptr), error_(o.error_ ? new E(*o.error_) : nullptr) {}
  expected(expected&& o) : value_(std::move(o.value_)), error_(std::move(o.error_)) {}
  expected& operator=(expected o) {
    value_ = std::move(o.value_);
    error_ = std::move(o.error_);
    return *this;
  }

  bool valid() const { return static_cast<bool>(value_); }
  bool has_value() const { return valid(); }
  explicit operator bool() const { return valid(); }

  T& value() {
    check();
    return *value_;
  }
  const T& value() const {
    check();
    return *value_;
  }
  T& operator*() { return value(); }
  const T& operator*() const { return value(); }
  T* operator->() { return &value(); }
  const T* operator->() const { return &value(); }
  const E& error() const { return *error_; }
  template <class U>
  T value_or(U&& u) const {
    return valid() ? *value_ : static_cast<T>(std::forward<U>(u));
  }

 private:
  void check() const {
    if (!value_)
      throw bad_expected_access<E>(*error_);
  }
  std::unique_ptr<T> value_;
  std::unique_ptr<E> error_;
};

}  // namespace boost

#endif
