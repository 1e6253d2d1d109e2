// C03: what the hashing framework feeds to a hash algorithm.
#include "pbt.h"

#include <array>
#include <cstring>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <set>
#include <tuple>
#include <unordered_set>

#include "boost/range/iterator_range.hpp"
#include "boost/utility/string_ref.hpp"
#include "cereal/cereal.hpp"
#include "maidsafe/common/hash.h"

namespace ms = maidsafe;

// An algorithm which records what it is fed.
namespace maidsafe {
struct Recorder : ms::detail::HashAlgorithmBase<Recorder> {
  void Update(const ms::byte* in, std::uint64_t n) { fed.append(reinterpret_cast<const char*>(in), n); }
  std::string fed;
};
}  // namespace maidsafe
using maidsafe::Recorder;

template <typename... T>
std::string Fed(const T&... t) {
  Recorder recorder;
  recorder(t...);
  return recorder.fed;
}

namespace {

template <typename T>
typename std::enable_if<std::is_arithmetic<T>::value, std::string>::type Model(const T& t) {
  T copy(t == 0 ? 0 : t);
  return std::string(reinterpret_cast<const char*>(&copy), sizeof(T));
}

// User types, one for each way of opting in.
struct WithMember {
  std::uint16_t a;
  std::string b;
  template <typename Hash>
  void HashAppend(Hash& hash) const {
    hash(a, b);
  }
};
struct WithFree {
  std::uint16_t a;
  std::string b;
};
template <typename Hash>
void HashAppend(Hash& hash, const WithFree& w) {
  hash(w.a);
  hash(w.b);
}
struct WithSerialize {
  static const bool use_serialize_for_hashing = true;
  std::uint16_t a;
  std::string b;
  template <typename Archive>
  void serialize(Archive& archive) {
    archive(a, b);
  }
};
struct WithSave {
  static const bool use_serialize_for_hashing = true;
  std::uint16_t a;
  std::string b;
  template <typename Archive>
  void save(Archive& archive) const {
    archive & a & b;
  }
  template <typename Archive>
  void load(Archive& archive) {
    archive & a & b;
  }
};
template <int>
struct Free {
  static const bool use_serialize_for_hashing = true;
  std::uint16_t a;
  std::string b;
};
template <typename Archive>
void save(Archive& archive, const Free<0>& f) {
  archive(f.a, f.b);
}
template <typename Archive>
void load(Archive& archive, Free<0>& f) {
  archive(f.a, f.b);
}
template <typename Archive>
void serialize(Archive& archive, Free<1>& f) {
  archive(f.a, f.b);
}
template <typename Archive>
void save(Archive& archive, const Free<2>& f, const std::uint32_t version) {
  archive(f.a, f.b, version);
}
template <typename Archive>
void load(Archive& archive, Free<2>& f, const std::uint32_t) {
  archive(f.a, f.b);
}
template <typename Archive>
void serialize(Archive& archive, Free<3>& f, const std::uint32_t version) {
  archive(f.a, f.b, version);
}
struct SerializeVersion {
  static const bool use_serialize_for_hashing = true;
  std::uint16_t a;
  std::string b;
  template <typename Archive>
  void serialize(Archive& archive, const std::uint32_t version) {
    archive(a, b, version);
  }
};
// The same types with a version which isn't zero.
struct LaterSave : Free<-1> {
  LaterSave(std::uint16_t a_in, const std::string& b_in) {
    a = a_in;
    b = b_in;
  }
  template <typename Archive>
  void save(Archive& archive, const std::uint32_t version) const {
    archive(a, b, version);
  }
  template <typename Archive>
  void load(Archive& archive, const std::uint32_t) {
    archive(a, b);
  }
};
// Opted in from outside.
struct Outside {
  std::uint16_t a;
  std::string b;
  template <typename Archive>
  void save(Archive& archive) const {
    archive(a, b);
  }
  template <typename Archive>
  void load(Archive& archive) {
    archive(a, b);
  }
};
struct WithVersion {
  static const bool use_serialize_for_hashing = true;
  std::uint16_t a;
  std::string b;
  template <typename Archive>
  void save(Archive& archive, const std::uint32_t version) const {
    archive(a, b, version);
  }
  template <typename Archive>
  void load(Archive& archive, const std::uint32_t) {
    archive(a, b);
  }
};

}  // namespace

namespace maidsafe {
template <>
struct HashVersion<Free<2>> : std::integral_constant<std::uint32_t, 7> {};
template <>
struct HashVersion<LaterSave> : std::integral_constant<std::uint32_t, 0x01020304> {};
template <>
struct UseSerializeForHashing<Outside> : std::true_type {};
}  // namespace maidsafe

namespace {

template <typename A, typename B>
std::string Model(const std::pair<A, B>& p);
template <typename... T>
std::string Model(const std::tuple<T...>& t);
template <typename Range>
auto Model(const Range& r) -> decltype(std::begin(r), std::string());
std::string Model(const WithMember& w);

template <typename A, typename B>
std::string Model(const std::pair<A, B>& p) {
  return Model(p.first) + Model(p.second);
}
template <typename... T>
std::string Model(const std::tuple<T...>& t) {
  return std::apply([](const auto&... e) { return (std::string() + ... + Model(e)); }, t);
}
template <typename Range>
auto Model(const Range& r) -> decltype(std::begin(r), std::string()) {
  std::string out;
  std::uint64_t n(0);
  for (const auto& e : r) {
    out += Model(e);
    ++n;
  }
  return out + Model(n);
}
std::string Model(const WithMember& w) { return Model(w.a) + Model(w.b); }

// Generators.
template <typename T>
struct Gen {
  static T Make(pbt::Src& src) {
    if (std::is_floating_point<T>::value) {
      switch (src.draw(4)) {
        case 0:
          return static_cast<T>(0);
        case 1:
          return -static_cast<T>(0);
        case 2:
          return static_cast<T>(src.range(-1000, 1000)) / 7;
        default:
          return static_cast<T>(src.i64()) * static_cast<T>(1.5);
      }
    }
    return static_cast<T>(src.u64());
  }
};
template <typename A, typename B>
struct Gen<std::pair<A, B>> {
  static std::pair<A, B> Make(pbt::Src& src) {
    // The padding, if any, is filled with rubbish.
    typename std::aligned_storage<sizeof(std::pair<A, B>), alignof(std::pair<A, B>)>::type room;
    std::memset(&room, static_cast<int>(src.draw(256)), sizeof(room));
    A a(Gen<A>::Make(src));
    B b(Gen<B>::Make(src));
    return std::pair<A, B>(a, b);
  }
};
template <typename... T>
struct Gen<std::tuple<T...>> {
  static std::tuple<T...> Make(pbt::Src& src) { return std::tuple<T...>{Gen<T>::Make(src)...}; }
};
template <typename T>
struct GenSequence {
  static T Make(pbt::Src& src) {
    T t;
    std::size_t n(src.size(src.chance(1, 20) ? 200 : 6));
    for (std::size_t i(0); i < n; ++i)
      t.insert(t.end(), Gen<typename T::value_type>::Make(src));
    if (n && src.chance(1, 100)) {  // many elements
      const typename T::value_type again(*t.begin());
      for (std::size_t m(src.chance(1, 15) ? 65500 + src.draw(100) : 240 + src.draw(50)); n < m; ++n)
        t.insert(t.end(), again);
    }
    return t;
  }
};
template <typename T>
struct Gen<std::vector<T>> : GenSequence<std::vector<T>> {};
template <typename T>
struct Gen<std::list<T>> : GenSequence<std::list<T>> {};
template <typename T>
struct Gen<std::set<T>> : GenSequence<std::set<T>> {};
template <typename T>
struct Gen<std::basic_string<T>> : GenSequence<std::basic_string<T>> {};
template <typename T>
struct Gen<std::forward_list<T>> {
  static std::forward_list<T> Make(pbt::Src& src) {
    auto v(Gen<std::vector<T>>::Make(src));
    return std::forward_list<T>(v.begin(), v.end());
  }
};
template <typename K, typename V>
struct Gen<std::map<K, V>> {
  static std::map<K, V> Make(pbt::Src& src) {
    std::map<K, V> m;
    std::size_t n(src.size(6));
    for (std::size_t i(0); i < n; ++i)
      m.emplace(Gen<K>::Make(src), Gen<V>::Make(src));
    return m;
  }
};
template <typename T, std::size_t N>
struct Gen<std::array<T, N>> {
  static std::array<T, N> Make(pbt::Src& src) {
    std::array<T, N> a;
    for (auto& e : a)
      e = Gen<T>::Make(src);
    return a;
  }
};
template <>
struct Gen<WithMember> {
  static WithMember Make(pbt::Src& src) {
    return WithMember{Gen<std::uint16_t>::Make(src), Gen<std::string>::Make(src)};
  }
};

const ms::SeededHash<ms::SipHash>& Seeded() {
  static const ms::SeededHash<ms::SipHash> seeded;
  return seeded;
}

template <typename T>
void CheckOne(pbt::Src& src, pbt::Case& cs, const char* name) {
  const T value(Gen<T>::Make(src));
  std::string model(Model(value));
  cs.note() << name << " feeding " << pbt::Hex(model, 60);
  if (model.size() > 8)
    cs.nontrivial();
  REQUIRE(Fed(value) == model) << name << ": fed " << pbt::Hex(Fed(value), 200) << " expected "
                               << pbt::Hex(model, 200);
  // A modifiable lvalue and a temporary are no different.
  T copy(value);
  Recorder recorder;
  recorder(copy);
  REQUIRE(recorder.fed == model) << name << " (modifiable)";
  Recorder moved;
  moved(std::move(copy));
  REQUIRE(moved.fed == model) << name << " (temporary)";
  Recorder with_and;
  with_and & value;
  REQUIRE(with_and.fed == model) << name << " (operator&)";
  // With others.
  std::uint32_t before(static_cast<std::uint32_t>(src.u64()));
  std::string after(src.blob(5));
  REQUIRE(Fed(before, value, after) == Model(before) + model + Model(after)) << name;
  REQUIRE(Fed(value, value) == model + model) << name;
  const T same(value);
  REQUIRE(Seeded()(value) == Seeded()(same)) << name;
  REQUIRE(Seeded()(before, value) == Seeded()(std::make_tuple(before, same))) << name;
}

}  // namespace

#define ONE(...)              \
  case __LINE__ - kFirst - 1: \
    return CheckOne<__VA_ARGS__>(src, cs, #__VA_ARGS__)

PROPERTY(FedBytes, pbt::Options{3}) {
  std::uint64_t which(src.draw(34));
  const int kFirst(__LINE__ + 1);
  switch (which) {
    ONE(char);
    ONE(bool);
    ONE(std::int8_t);
    ONE(std::uint16_t);
    ONE(std::int32_t);
    ONE(std::uint64_t);
    ONE(wchar_t);
    ONE(float);
    ONE(double);
    ONE(std::string);
    ONE(std::wstring);
    ONE(std::u16string);
    ONE(std::vector<std::uint8_t>);
    ONE(std::vector<std::uint32_t>);
    ONE(std::vector<double>);
    ONE(std::vector<std::string>);
    ONE(std::vector<std::vector<std::uint16_t>>);
    ONE(std::list<std::int64_t>);
    ONE(std::list<std::list<std::uint8_t>>);
    ONE(std::forward_list<float>);
    ONE(std::set<std::string>);
    ONE(std::set<std::int32_t>);
    ONE(std::map<std::string, std::vector<std::int32_t>>);
    ONE(std::map<std::uint8_t, std::uint32_t>);
    ONE(std::pair<char, std::int32_t>);
    ONE(std::pair<std::int32_t, std::int32_t>);
    ONE(std::pair<double, std::string>);
    ONE(std::vector<std::pair<std::uint8_t, std::uint64_t>>);
    ONE(std::vector<std::pair<std::uint16_t, std::uint16_t>>);
    ONE(std::tuple<std::uint8_t, std::string, double, std::pair<std::int16_t, std::vector<char>>>);
    ONE(std::vector<std::tuple<char, std::int32_t>>);
    ONE(std::array<double, 3>);
    ONE(std::array<std::pair<std::int32_t, std::string>, 2>);
    ONE(std::vector<WithMember>);
  }
}

// The same sequence in different representations.
template <typename T>
void CheckSequences(pbt::Src& src, pbt::Case& cs) {
  const std::vector<T> v(Gen<std::vector<T>>::Make(src));
  if (v.size() > 1)
    cs.nontrivial();
  cs.note() << v.size() << " elements feeding " << pbt::Hex(Model(v), 60);
  const std::string fed(Fed(v));
  REQUIRE(fed == Model(v));
  const std::deque<T> d(v.begin(), v.end());
  REQUIRE(Fed(std::list<T>(v.begin(), v.end())) == fed) << "list";
  REQUIRE(Fed(std::forward_list<T>(v.begin(), v.end())) == fed) << "forward_list";
  REQUIRE(Fed(boost::make_iterator_range(d.begin(), d.end())) == fed) << "range over deque";
  REQUIRE(Fed(boost::make_iterator_range(v.begin(), v.end())) == fed) << "range over vector";
  REQUIRE(Fed(boost::make_iterator_range(v.data(), v.data() + v.size())) == fed) << "pointers";
  if (v.size() >= 3) {
    std::array<T, 3> a{{v[0], v[1], v[2]}};
    T raw[3] = {v[0], v[1], v[2]};
    std::initializer_list<T> il{v[0], v[1], v[2]};
    const std::vector<T> three(v.begin(), v.begin() + 3);
    REQUIRE(Fed(a) == Fed(three)) << "array";
    REQUIRE(Fed(raw) == Fed(three)) << "raw array";
    REQUIRE(Fed(il) == Fed(three)) << "initializer list";
    REQUIRE(Fed(std::make_pair(v[0], v[1])) == Fed(std::make_tuple(v[0], v[1]))) << "pair";
    REQUIRE(Fed(std::make_tuple(v[0], v[1], v[2])) == Fed(v[0], v[1], v[2])) << "tuple";
    REQUIRE(Seeded()(a) == Seeded()(three));
  }
  std::set<T> s(v.begin(), v.end());
  std::vector<T> sorted(s.begin(), s.end());
  REQUIRE(Fed(s) == Fed(sorted)) << "set";
}

PROPERTY(Representations) {
  switch (src.draw(5)) {
    case 0:
      return CheckSequences<std::uint8_t>(src, cs);
    case 1:
      return CheckSequences<std::int32_t>(src, cs);
    case 2:
      return CheckSequences<std::string>(src, cs);
    case 3:
      return CheckSequences<std::pair<char, std::int16_t>>(src, cs);
    default: {
      std::string s(src.blob(60));
      cs.note() << "string " << pbt::Hex(s);
      if (s.size() > 1)
        cs.nontrivial();
      std::string fed(Fed(s));
      REQUIRE(fed == Model(s));
      REQUIRE(Fed(boost::string_ref(s)) == fed) << "string_ref";
      REQUIRE(Fed(std::vector<char>(s.begin(), s.end())) == fed) << "vector of char";
      REQUIRE(Fed(std::list<char>(s.begin(), s.end())) == fed) << "list of char";
      REQUIRE(Seeded()(s) == Seeded()(boost::string_ref(s)));
    }
  }
}

// Other groupings of the same elements feed other bytes.
PROPERTY(Regrouping) {
  std::string all(src.blob(12));
  auto group([&] {
    std::vector<std::string> groups(1);
    for (char c : all) {
      if (src.chance(1, 3))
        groups.emplace_back();
      groups.back() += c;
    }
    if (src.chance(1, 4))
      groups.emplace_back();
    return groups;
  });
  auto a(group()), b(group());
  cs.note() << pbt::Hex(all) << " in " << a.size() << " and " << b.size() << " groups";
  if (a != b) {
    cs.nontrivial();
    REQUIRE(Fed(a) != Fed(b));
    REQUIRE(Seeded()(a) != Seeded()(b));
  } else {
    REQUIRE(Fed(a) == Fed(b));
    REQUIRE(Seeded()(a) == Seeded()(b));
  }
}

PROPERTY(UserTypes) {
  std::uint16_t a(static_cast<std::uint16_t>(src.u64()));
  std::string b(src.blob(20));
  cs.note() << a << ' ' << pbt::Hex(b);
  cs.nontrivial();
  std::string expected(Model(a) + Model(b));
  REQUIRE(Fed(WithMember{a, b}) == expected) << "member";
  REQUIRE(Fed(WithFree{a, b}) == expected) << "free";
  WithSerialize s{a, b};
  Recorder recorder;
  recorder(s);
  REQUIRE(recorder.fed == expected) << "serialize";
  REQUIRE(Fed(WithSave{a, b}) == expected) << "save";
  auto version([&](std::uint32_t number) { return expected + Model(number); });
  REQUIRE(Fed(WithVersion{a, b}) == version(0)) << "version";
  Free<0> free_save{a, b};
  Free<1> free_serialize{a, b};
  Free<2> free_save_version{a, b};
  Free<3> free_serialize_version{a, b};
  SerializeVersion serialize_version{a, b};
  LaterSave later(a, b);
  const Outside outside{a, b};
  Recorder all;
  all(free_save, free_serialize, free_save_version, free_serialize_version, serialize_version,
      later, outside);
  REQUIRE(all.fed == expected + expected + version(7) + version(0) + version(0) +
                         version(0x01020304) + expected)
      << "serialised in every other way: " << pbt::Hex(all.fed, 300);
  REQUIRE(Fed(std::vector<Free<2>>(2, free_save_version)) ==
          version(7) + version(7) + Model(static_cast<std::uint64_t>(2)));
}

// Seeds are drawn independently: two hashers disagree, except by chance.
PROPERTY(Seeds) {
  ms::SeededHash<ms::SipHash> one, other;
  std::string s(src.blob(20));
  cs.note() << pbt::Hex(s);
  cs.nontrivial();
  REQUIRE(one(s) == one(s));
  REQUIRE(one(s) != other(s));
  ms::SeededHash<ms::SipHash> copy(one);
  REQUIRE(copy(s) == one(s));
}
