// C32: tagged values, printable enumerations, make_unique.
#include "pbt.h"

#include <cmath>
#include <cstring>
#include <limits>
#include <memory>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>

#include "maidsafe/common/identity.h"
#include "maidsafe/common/make_unique.h"
#include "maidsafe/common/serialisation/serialisation.h"
#include "maidsafe/common/tagged_value.h"
#include "maidsafe/common/type_macros.h"
#include "maidsafe/common/types.h"

namespace ms = maidsafe;

namespace {

struct TagA;
struct TagB;

// Ordered by inclusion: of two values, none of <, ==, > need hold.
struct Subset {
  unsigned char bits = 0;
  template <typename Archive>
  Archive& serialize(Archive& archive) {
    return archive(bits);
  }
};
bool operator==(const Subset& a, const Subset& b) { return a.bits == b.bits; }
bool operator!=(const Subset& a, const Subset& b) { return a.bits != b.bits; }
bool operator<=(const Subset& a, const Subset& b) { return (a.bits & b.bits) == a.bits; }
bool operator>=(const Subset& a, const Subset& b) { return b <= a; }
bool operator<(const Subset& a, const Subset& b) { return a <= b && a != b; }
bool operator>(const Subset& a, const Subset& b) { return b < a; }

template <typename T>
typename std::enable_if<std::is_integral<T>::value, T>::type Gen(pbt::Src& src, T*) {
  return static_cast<T>(src.u64());
}
template <typename T>
typename std::enable_if<std::is_floating_point<T>::value, T>::type Gen(pbt::Src& src, T*) {
  switch (src.draw(7)) {
    case 0:
      return std::numeric_limits<T>::quiet_NaN();
    case 1:
      return src.boolean() ? T(0) : -T(0);
    case 2:
      return src.boolean() ? std::numeric_limits<T>::infinity()
                           : -std::numeric_limits<T>::infinity();
    default:
      return static_cast<T>(src.range(-1000, 1000)) / 8;
  }
}
std::string Gen(pbt::Src& src, std::string*) { return src.blob(40); }
ms::Identity Gen(pbt::Src& src, ms::Identity*) {
  return src.chance(1, 6) ? ms::Identity() : ms::Identity(src.vec(64));
}
Subset Gen(pbt::Src& src, Subset*) {
  Subset s;
  s.bits = static_cast<unsigned char>(src.draw(8));
  return s;
}
std::vector<int> Gen(pbt::Src& src, std::vector<int>*) {
  std::vector<int> v(src.size(6));
  for (auto& i : v)
    i = static_cast<int>(src.draw(3));
  return v;
}

template <typename T>
bool Same(const T& a, const T& b) {
  return a == b;
}
template <>
bool Same<double>(const double& a, const double& b) {
  return std::memcmp(&a, &b, sizeof a) == 0;
}
template <>
bool Same<float>(const float& a, const float& b) {
  return std::memcmp(&a, &b, sizeof a) == 0;
}

template <typename T>
bool Serialisable(const T&) {
  return true;
}
bool Serialisable(const ms::Identity& id) { return id.IsInitialised(); }

template <typename T>
void Print(const T& raw, const ms::TaggedValue<T, TagA>& tagged, std::true_type) {
  std::ostringstream a, b;
  a << raw;
  b << tagged;
  REQUIRE_EQ(a.str(), b.str());
}
template <typename T>
void Print(const T&, const ms::TaggedValue<T, TagA>&, std::false_type) {}

template <typename T>
void Run(pbt::Src& src, pbt::Case& cs, const char* name) {
  using A = ms::TaggedValue<T, TagA>;
  using B = ms::TaggedValue<T, TagB>;
  cs.note() << name;
  T t(Gen(src, static_cast<T*>(nullptr))), u(src.chance(1, 4) ? t
                                                              : Gen(src, static_cast<T*>(nullptr)));
  A x(t), y(u);
  REQUIRE_EQ(x == y, t == u);
  REQUIRE_EQ(x != y, t != u);
  REQUIRE_EQ(x < y, t < u);
  REQUIRE_EQ(x > y, t > u);
  REQUIRE_EQ(x <= y, t <= u);
  REQUIRE_EQ(x >= y, t >= u);
  if (!Same(t, u))
    cs.nontrivial();
  REQUIRE(Same(x.data, t));
  REQUIRE(Same(static_cast<T>(y), u));
  REQUIRE(Same(*x.operator->(), t));
  const A& constant(x);
  REQUIRE(Same(*constant.operator->(), t));
  A copy(x), assigned(y);
  REQUIRE(Same(copy.data, t));
  assigned = x;
  REQUIRE(Same(assigned.data, t) && Same(x.data, t));
  A moved(std::move(copy));
  REQUIRE(Same(moved.data, t));
  assigned = A(u);
  REQUIRE(Same(assigned.data, u));
  assigned = std::move(moved);
  REQUIRE(Same(assigned.data, t));
  *assigned.operator->() = u;
  REQUIRE(Same(assigned.data, u));
  if (Serialisable(t)) {
    auto form(ms::Serialise(x));
    REQUIRE(form == ms::Serialise(t)) << "serialised differently";
    REQUIRE(Same(ms::Parse<A>(form).data, t));
  }
  Print(t, x, std::is_arithmetic<T>());
  REQUIRE((!std::is_convertible<A, B>::value)) << "tags mix";
  REQUIRE((!std::is_convertible<T, A>::value)) << "untagged values mix";
  REQUIRE((!std::is_assignable<A&, B>::value)) << "tags mix";
}

PROPERTY(TaggedValueForwards, (pbt::Options{4})) {
  switch (src.draw(12)) {
    case 0:
      return Run<int>(src, cs, "int");
    case 1:
      return Run<std::int8_t>(src, cs, "int8");
    case 2:
      return Run<std::uint8_t>(src, cs, "uint8");
    case 3:
      return Run<std::uint16_t>(src, cs, "uint16");
    case 4:
      return Run<std::uint32_t>(src, cs, "uint32");
    case 5:
      return Run<std::int64_t>(src, cs, "int64");
    case 6:
      return Run<std::uint64_t>(src, cs, "uint64");
    case 7:
      return Run<double>(src, cs, "double");
    case 8:
      return Run<float>(src, cs, "float");
    case 9:
      return Run<std::string>(src, cs, "string");
    case 10:
      return Run<ms::Identity>(src, cs, "identity");
    default:
      if (src.boolean())
        return Run<Subset>(src, cs, "subset");
      return Run<std::vector<int>>(src, cs, "vector");
  }
}

DEFINE_OSTREAMABLE_ENUM_VALUES(One, int, (Only))
DEFINE_OSTREAMABLE_ENUM_VALUES(Small, unsigned char, (Alpha)(Beta)(gamma)(D4))
DEFINE_OSTREAMABLE_ENUM_VALUES(Signed, std::int32_t, (Maid)(Node)(Data_Getter)(CacheHandler)(X)(Y))
DEFINE_OSTREAMABLE_ENUM_VALUES(
    Big, std::uint64_t,
    (A0)(A1)(A2)(A3)(A4)(A5)(A6)(A7)(A8)(A9)(B0)(B1)(B2)(B3)(B4)(B5)(B6)(B7)(B8)(B9))

template <typename E>
void RunEnum(pbt::Src& src, pbt::Case& cs, const char* name,
             const std::vector<std::string>& names) {
  using U = typename std::underlying_type<E>::type;
  U raw(src.boolean() ? static_cast<U>(src.draw(names.size() + 3)) : static_cast<U>(src.u64()));
  bool declared(raw >= 0 && static_cast<std::uint64_t>(raw) < names.size());
  cs.note() << name << ' ' << static_cast<std::int64_t>(raw);
  cs.nontrivial();
  cs.label(declared ? "declared" : "not declared");
  E e(static_cast<E>(raw));
  REQUIRE_EQ(IsValid(e), declared);
  std::string expected(declared ? names[static_cast<std::size_t>(raw)]
                                : std::string("Invalid ") + name + " type");
  std::ostringstream out;
  out << '<' << e << '>';
  REQUIRE_EQ(out.str(), '<' + expected + '>');
  std::wostringstream wide;
  wide << e;
  REQUIRE(wide.str() == std::wstring(expected.begin(), expected.end()));
}

PROPERTY(EnumsPrintTheirNames, (pbt::Options{2})) {
  REQUIRE(static_cast<int>(Signed::kMaid) == 0 && static_cast<int>(Signed::kY) == 5);
  switch (src.draw(4)) {
    case 0:
      return RunEnum<One>(src, cs, "One", {"Only"});
    case 1:
      return RunEnum<Small>(src, cs, "Small", {"Alpha", "Beta", "gamma", "D4"});
    case 2:
      return RunEnum<Signed>(src, cs, "Signed",
                             {"Maid", "Node", "Data_Getter", "CacheHandler", "X", "Y"});
    default:
      return RunEnum<Big>(src, cs, "Big",
                          {"A0", "A1", "A2", "A3", "A4", "A5", "A6", "A7", "A8", "A9",
                           "B0", "B1", "B2", "B3", "B4", "B5", "B6", "B7", "B8", "B9"});
  }
}

struct Recorder {
  Recorder(std::unique_ptr<int> p, const std::string& s, int& r) : owned(std::move(p)), text(s) {
    ++r;
  }
  std::unique_ptr<int> owned;
  std::string text;
};

PROPERTY(MakeUnique) {
  std::string text(src.blob(30));
  int value(static_cast<int>(src.draw(1000))), calls(0);
  std::size_t size(src.size(200));
  cs.note() << "array of " << size;
  if (size > 1)
    cs.nontrivial();
  auto made(ms::make_unique<Recorder>(std::unique_ptr<int>(new int(value)), text, calls));
  REQUIRE_EQ(*made->owned, value);
  REQUIRE_EQ(made->text, text);
  REQUIRE_EQ(calls, 1);
  // Leave dirt behind for the array to be put in.
  {
    std::unique_ptr<unsigned char[]> dirt(new unsigned char[size * sizeof(int) + 1]);
    std::memset(dirt.get(), 0xa5, size * sizeof(int) + 1);
  }
  auto array(ms::make_unique<int[]>(size));
  for (std::size_t i(0); i < size; ++i)
    REQUIRE_EQ(array[i], 0);
  auto strings(ms::make_unique<std::string[]>(size));
  for (std::size_t i(0); i < size; ++i)
    REQUIRE(strings[i].empty());
}

}  // unnamed namespace
