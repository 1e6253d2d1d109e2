// C15: bounded strings.
#include "pbt.h"

#include <algorithm>
#include <cstring>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include "maidsafe/common/bounded_string.h"
#include "maidsafe/common/serialisation/serialisation.h"
#include "maidsafe/common/types.h"

namespace ms = maidsafe;
using Bytes = std::vector<unsigned char>;

namespace {

template <typename F>
bool Throws(ms::CommonErrors error, F f) {
  try {
    f();
  } catch (const ms::common_error& e) {
    return e.code() == ms::make_error_code(error);
  }
  return false;
}

template <typename String>
String To(const Bytes& b) {
  return String(b.begin(), b.end());
}
template <typename String>
Bytes From(const String& s) {
  return Bytes(s.begin(), s.end());
}

// What a string should be: uninitialised, or its content.
struct Model {
  bool valid = false;
  Bytes content;
};

template <std::size_t Min, std::size_t Max, typename String>
struct Kind {
  using Type = ms::detail::BoundedString<Min, Max, String>;
  static const std::size_t kMin = Min, kMax = Max;
  static bool Fits(std::size_t n) { return n >= Min && n <= Max; }
};

template <typename K>
void RequireIs(const typename K::Type& x, const Model& m, const char* what) {
  REQUIRE_EQ(x.IsInitialised(), m.valid) << what;
  if (m.valid) {
    REQUIRE(K::Fits(m.content.size())) << "model out of bounds";
    REQUIRE(From(x.string()) == m.content)
        << what << ": " << pbt::Hex(From(x.string())) << " instead of " << pbt::Hex(m.content);
    REQUIRE_EQ(x.size(), m.content.size()) << what;
    REQUIRE(m.content.empty() ||
            std::memcmp(x.data(), m.content.data(), m.content.size()) == 0) << what;
    for (std::size_t i(0); i < m.content.size(); i += 1 + i / 4)
      REQUIRE_EQ(static_cast<unsigned>(static_cast<unsigned char>(x[i])),
                 static_cast<unsigned>(m.content[i])) << what;
  } else {
    REQUIRE(Throws(ms::CommonErrors::uninitialised, [&] { x.string(); })) << what;
    REQUIRE(Throws(ms::CommonErrors::uninitialised, [&] { x.data(); })) << what;
    REQUIRE(Throws(ms::CommonErrors::uninitialised, [&] { x.size(); })) << what;
    REQUIRE(Throws(ms::CommonErrors::uninitialised, [&] { x[0]; })) << what;
    auto copy(x);
    REQUIRE(Throws(ms::CommonErrors::uninitialised, [&] { copy[0] = 1; })) << what;
    REQUIRE(Throws(ms::CommonErrors::uninitialised, [&] { ms::Serialise(x); })) << what;
    std::ostringstream out;
    out << x;
    REQUIRE_EQ(out.str(), std::string("Invalid string")) << what;
  }
}

// Sizes on and around the bounds.
template <typename K>
Bytes Content(pbt::Src& src) {
  const std::size_t far(300);
  switch (src.draw(5)) {
    case 0:
      return src.vec(K::kMin);
    case 1:
      return src.vec(K::kMin ? K::kMin - 1 : 0);
    case 2:
      return src.vec(std::min(K::kMax, far));
    case 3:
      return src.vec(K::kMax < far ? K::kMax + 1 : far);
    default:
      return src.vec(src.size(40));
  }
}

template <typename K>
Bytes FittingContent(pbt::Src& src) {
  std::size_t max(std::min<std::size_t>(K::kMax, 80));
  Bytes result(src.vec(K::kMin + src.size(max - K::kMin)));
  if (src.chance(1, 4))  // few values, so that equal ones turn up
    std::fill(result.begin(), result.end(), 'a');
  return result;
}

// Builds a value of the type in any of the ways there are, or finds it refused.
template <typename K, typename String>
void Construct(pbt::Src& src, const Bytes& content, typename K::Type& x, Model& m,
               pbt::Case& cs) {
  bool fits(K::Fits(content.size()));
  unsigned way(static_cast<unsigned>(src.draw(4)));
  cs.note() << " make" << way << '(' << content.size() << ')';
  cs.label(fits ? "fits" : "does not fit");
  try {
    switch (way) {
      case 0:
        x = typename K::Type(To<String>(content));
        break;
      case 1:
        x = typename K::Type(To<std::string>(content));
        break;
      case 2: {
        std::unique_ptr<typename K::Type> p(new typename K::Type(To<String>(content)));
        x = *p;
        break;
      }
      default: {  // from its serialised form
        try {
          ms::SerialisedData form(ms::Serialise(To<String>(content)));
          if (src.boolean())
            x = ms::Parse<typename K::Type>(form);
          else
            ms::Parse(form, x);
        } catch (const ms::common_error& e) {
          REQUIRE(!fits) << "refused to parse " << content.size() << " bytes";
          REQUIRE(e.code() == ms::make_error_code(ms::CommonErrors::parsing_error)) << e.what();
          RequireIs<K>(x, m, "after a refused parse");
          return;
        }
      }
    }
  } catch (const ms::common_error& e) {
    REQUIRE(!fits) << "refused " << content.size() << " bytes: " << e.what();
    REQUIRE(e.code() == ms::make_error_code(ms::CommonErrors::outside_of_bounds)) << e.what();
    RequireIs<K>(x, m, "after a refused construction");
    return;
  }
  REQUIRE(fits) << "accepted " << content.size() << " bytes";
  m.valid = true;
  m.content = content;
}

template <typename K, typename String>
void RequireOrder(const typename K::Type& x, const Model& a, const typename K::Type& y,
                  const Model& b) {
  String sa(To<String>(a.content)), sb(To<String>(b.content));
  bool equal(a.valid == b.valid && (!a.valid || sa == sb));
  bool less(a.valid == b.valid ? a.valid && sa < sb : b.valid);
  bool more(a.valid == b.valid ? a.valid && sa > sb : a.valid);
  REQUIRE_EQ(x == y, equal);
  REQUIRE_EQ(x != y, !equal);
  REQUIRE_EQ(x < y, less);
  REQUIRE_EQ(x > y, more);
  REQUIRE_EQ(x <= y, !more);
  REQUIRE_EQ(x >= y, !less);
}

template <std::size_t Min, std::size_t Max, typename String>
void RunHistory(pbt::Src& src, pbt::Case& cs, const char* name) {
  using K = Kind<Min, Max, String>;
  using T = typename K::Type;
  cs.note() << name << ':';
  std::vector<T> xs(3);
  std::vector<Model> ms_(3);
  for (auto& m : ms_)
    m.valid = Min == 0;
  std::size_t steps(1 + src.draw(12)), done(0);
  for (std::size_t step(0); step < steps; ++step) {
    std::size_t i(src.index(3)), j(src.index(3));
    T& x(xs[i]);
    switch (src.draw(9)) {
      case 0:
      case 1:
        Construct<K, String>(src, Content<K>(src), x, ms_[i], cs);
        break;
      case 2:
        Construct<K, String>(src, FittingContent<K>(src), x, ms_[i], cs);
        ++done;
        break;
      case 3:
        cs.note() << " copy" << j << "to" << i;
        x = xs[j];
        ms_[i] = ms_[j];
        break;
      case 4: {
        cs.note() << " copymake" << j << "to" << i;
        T copy(xs[j]);
        T moved(std::move(copy));
        x = std::move(moved);
        ms_[i] = ms_[j];
        break;
      }
      case 5:
        cs.note() << " swap" << i << j;
        using std::swap;
        if (i != j) {
          swap(xs[i], xs[j]);
          std::swap(ms_[i], ms_[j]);
        }
        break;
      case 6:
        if (ms_[i].valid && !ms_[i].content.empty()) {
          std::size_t at(src.index(ms_[i].content.size()));
          unsigned char c(static_cast<unsigned char>(src.draw(256)));
          cs.note() << " set" << i;
          x[at] = c;
          ms_[i].content[at] = c;
        }
        break;
      case 7: {
        cs.note() << " reset" << i;
        x = T();
        ms_[i] = Model();
        ms_[i].valid = Min == 0;
        break;
      }
      default:
        if (ms_[i].valid) {
          cs.note() << " roundtrip" << i;
          auto form(ms::Serialise(x));
          REQUIRE(form == ms::Serialise(To<String>(ms_[i].content))) << "serialised differently";
          REQUIRE(ms::Parse<T>(form) == x);
          std::ostringstream out;
          out << x;
          REQUIRE_EQ(out.str(), ms::hex::Substr(To<std::string>(ms_[i].content)));
          REQUIRE_EQ(ms::hex::Encode(x), ms::hex::Encode(To<std::string>(ms_[i].content)));
          REQUIRE_EQ(ms::base64::Encode(x), ms::base64::Encode(To<std::string>(ms_[i].content)));
        }
    }
    RequireIs<K>(xs[0], ms_[0], "0");
    RequireIs<K>(xs[1], ms_[1], "1");
    RequireIs<K>(xs[2], ms_[2], "2");
  }
  for (int i(0); i < 3; ++i) {
    for (int j(0); j < 3; ++j) {
      RequireOrder<K, String>(xs[i], ms_[i], xs[j], ms_[j]);
    }
  }
  if (done)
    cs.nontrivial();
}

PROPERTY(Histories, (pbt::Options{5})) {
  switch (src.draw(11)) {
    case 0:
      return RunHistory<1, static_cast<std::size_t>(-1), Bytes>(src, cs, "<1> bytes");
    case 1:
      return RunHistory<1, static_cast<std::size_t>(-1), std::string>(src, cs, "<1> string");
    case 2:
      return RunHistory<0, static_cast<std::size_t>(-1), Bytes>(src, cs, "<0> bytes");
    case 3:
      return RunHistory<0, 10, std::string>(src, cs, "<0,10> string");
    case 4:
      return RunHistory<5, 5, Bytes>(src, cs, "<5,5> bytes");
    case 5:
      return RunHistory<5, 5, std::string>(src, cs, "<5,5> string");
    case 6:
      return RunHistory<3, 9, Bytes>(src, cs, "<3,9> bytes");
    case 7:
      return RunHistory<3, 9, std::string>(src, cs, "<3,9> string");
    case 8:
      return RunHistory<64, 64, Bytes>(src, cs, "<64,64> bytes");
    case 9:
      return RunHistory<1, 1, std::string>(src, cs, "<1,1> string");
    default:
      return RunHistory<2, 255, Bytes>(src, cs, "<2,255> bytes");
  }
}

// Compared with an empty or uninitialised string and any other.
template <typename K, typename String>
void RequireOthers(pbt::Src& src, const typename K::Type& x, const Model& m) {
  Model none, other;
  none.valid = K::kMin == 0;
  other.valid = true;
  other.content = FittingContent<K>(src);
  typename K::Type empty, full(To<String>(other.content));
  RequireOrder<K, String>(x, m, empty, none);
  RequireOrder<K, String>(empty, none, x, m);
  RequireOrder<K, String>(x, m, full, other);
  RequireOrder<K, String>(full, other, x, m);
  RequireOrder<K, String>(x, m, x, m);
}

// Conversions to wider bounds and other backing types keep the state and content.
template <std::size_t Min, std::size_t Max, typename From_, std::size_t Min2, std::size_t Max2,
          typename To_>
void Convert(pbt::Src& src, pbt::Case& cs) {
  using K1 = Kind<Min, Max, From_>;
  using K2 = Kind<Min2, Max2, To_>;
  Model m;
  typename K1::Type x;
  if (src.chance(3, 4)) {
    Bytes content(FittingContent<K1>(src));
    x = typename K1::Type(To<From_>(content));
    m.valid = true;
    m.content = content;
  } else {
    m.valid = Min == 0;
  }
  cs.note() << (m.valid ? pbt::Hex(m.content, 8) : "none");
  typename K2::Type y(x);
  RequireIs<K2>(y, m, "converted");
  RequireIs<K1>(x, m, "source");
  typename K1::Type copy(x);
  typename K2::Type z(std::move(copy));
  RequireIs<K2>(z, m, "converted by move");
  RequireOthers<K2, To_>(src, y, m);
  RequireOthers<K2, To_>(src, z, m);
}

template <std::size_t Min, std::size_t Max, std::size_t Min2, std::size_t Max2, typename String>
void ConvertAssign(pbt::Src& src, pbt::Case&) {
  using K1 = Kind<Min, Max, String>;
  using K2 = Kind<Min2, Max2, String>;
  Model m;
  typename K1::Type x;
  if (src.chance(3, 4)) {
    m.content = FittingContent<K1>(src);
    m.valid = true;
    x = typename K1::Type(To<String>(m.content));
  } else {
    m.valid = Min == 0;
  }
  typename K2::Type y;
  if (src.boolean())
    y = typename K2::Type(To<String>(FittingContent<K2>(src)));
  y = x;
  RequireIs<K2>(y, m, "assigned");
  RequireOthers<K2, String>(src, y, m);
  RequireIs<K1>(x, m, "source");
}

PROPERTY(Conversions, (pbt::Options{2})) {
  cs.nontrivial();
  switch (src.draw(7)) {
    case 6:
      Convert<1, 8, Bytes, 0, 20, Bytes>(src, cs);
      return Convert<3, 9, Bytes, 0, 9, std::string>(src, cs);
    case 0:
      return Convert<3, 9, Bytes, 1, 20, std::string>(src, cs);
    case 1:
      return Convert<3, 9, std::string, 3, 9, Bytes>(src, cs);
    case 2:
      return Convert<64, 64, Bytes, 1, static_cast<std::size_t>(-1), Bytes>(src, cs);
    case 3:
      return Convert<5, 5, std::string, 5, 6, std::string>(src, cs);
    case 4:
      ConvertAssign<3, 9, 1, 20, Bytes>(src, cs);
      return ConvertAssign<64, 64, 1, static_cast<std::size_t>(-1), Bytes>(src, cs);
    default:
      ConvertAssign<5, 5, 0, 9, std::string>(src, cs);
      return ConvertAssign<1, 8, 1, 9, std::string>(src, cs);
  }
}

template <typename String, std::size_t N>
void Xor(pbt::Src& src, pbt::Case& cs) {
  using T = ms::detail::BoundedString<N, N, String>;
  Bytes a(src.vec(N)), b(src.vec(N)), expected(N);
  for (std::size_t i(0); i < N; ++i)
    expected[i] = a[i] ^ b[i];
  cs.note() << pbt::Hex(a, 8) << " ^ " << pbt::Hex(b, 8);
  T x(To<String>(a)), y(To<String>(b)), none;
  REQUIRE(From((x ^ y).string()) == expected);
  REQUIRE((x ^ y) == (y ^ x));
  REQUIRE(((x ^ y) ^ y) == x);
  REQUIRE(From((x ^ x).string()) == Bytes(N, 0));
  REQUIRE(Throws(ms::CommonErrors::uninitialised, [&] { x ^ none; }));
  REQUIRE(Throws(ms::CommonErrors::uninitialised, [&] { none ^ x; }));
  REQUIRE(Throws(ms::CommonErrors::uninitialised, [&] { none ^ none; }));
  if (a != b)
    cs.nontrivial();
}

PROPERTY(ExclusiveOr) {
  switch (src.draw(4)) {
    case 0:
      return Xor<Bytes, 64>(src, cs);
    case 1:
      return Xor<std::string, 5>(src, cs);
    case 2:
      return Xor<Bytes, 1>(src, cs);
    default:
      return Xor<std::string, 33>(src, cs);
  }
}

// Any bytes offered as a serialised string give a string within the bounds or an error.
template <typename K>
void ParseAny(pbt::Src& src, pbt::Case& cs) {
  Bytes form;
  std::uint64_t size(src.boolean() ? src.size(80) : src.u64());
  if (src.chance(4, 5)) {
    form.resize(8);
    std::memcpy(form.data(), &size, 8);
    Bytes rest(src.vec(src.boolean() ? static_cast<std::size_t>(std::min<std::uint64_t>(size, 90))
                                     : src.size(90)));
    form.insert(form.end(), rest.begin(), rest.end());
  } else {
    form = src.vec(src.size(20));
    size = 0;
    if (form.size() >= 8)
      std::memcpy(&size, form.data(), 8);
  }
  bool good(form.size() >= 8 && size <= form.size() - 8 && K::Fits(size));
  cs.note() << "size " << size << " in " << form.size() << " bytes";
  cs.label(good ? "acceptable" : "unacceptable");
  if (form.size() >= 8)
    cs.nontrivial();
  Model m;
  m.valid = K::kMin == 0;
  typename K::Type x;
  if (src.boolean()) {
    m.valid = true;
    m.content = FittingContent<K>(src);
    x = typename K::Type(m.content);
  }
  try {
    ms::Parse(form, x);
    m.valid = true;
    m.content.assign(form.begin() + 8, form.begin() + 8 + size);
    REQUIRE(good) << "accepted";
  } catch (const ms::common_error& e) {
    REQUIRE(!good) << "refused: " << e.what();
    REQUIRE(e.code() == ms::make_error_code(ms::CommonErrors::parsing_error)) << e.what();
  }
  RequireIs<K>(x, m, "afterwards");
}

PROPERTY(ArbitraryForms, (pbt::Options{2})) {
  switch (src.draw(4)) {
    case 0:
      return ParseAny<Kind<1, static_cast<std::size_t>(-1), Bytes>>(src, cs);
    case 1:
      return ParseAny<Kind<3, 9, Bytes>>(src, cs);
    case 2:
      return ParseAny<Kind<64, 64, Bytes>>(src, cs);
    default:
      return ParseAny<Kind<0, 20, Bytes>>(src, cs);
  }
}

}  // unnamed namespace
