// C31: random strings and numbers, sizes as text, version numbers, XOR.
#include "pbt.h"

#include <algorithm>
#include <limits>
#include <set>
#include <string>
#include <thread>
#include <vector>

#include "maidsafe/common/utils.h"

namespace ms = maidsafe;

namespace {

using Bytes = std::vector<ms::byte>;

bool IsAlphaNumeric(unsigned char c) {
  return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z');
}

// One random thing: what it is, and its text.
struct Request {
  unsigned kind;
  std::uint32_t min, max;
};

Request DrawRequest(pbt::Src& src) {
  Request request{static_cast<unsigned>(src.draw(10)), 0, 0};
  request.min = static_cast<std::uint32_t>(src.size(3000));
  request.max = request.min + static_cast<std::uint32_t>(src.boolean() ? src.draw(4) : src.draw(500));
  return request;
}

std::string Text(const Bytes& bytes) { return std::string(bytes.begin(), bytes.end()); }

std::string Get(const Request& request, std::string& error) {
  std::string text;
  bool alphanumeric(false), exact(request.kind % 2 == 0 && request.kind < 8);
  switch (request.kind) {
    case 0:
      text = ms::RandomString(request.min);
      break;
    case 1:
      text = ms::RandomString(request.min, request.max);
      break;
    case 2:
      text = Text(ms::RandomBytes(request.min));
      break;
    case 3:
      text = Text(ms::RandomBytes(request.min, request.max));
      break;
    case 4:
      text = ms::RandomAlphaNumericString(request.min);
      alphanumeric = true;
      break;
    case 5:
      text = ms::RandomAlphaNumericString(request.min, request.max);
      alphanumeric = true;
      break;
    case 6:
      text = Text(ms::RandomAlphaNumericBytes(request.min));
      alphanumeric = true;
      break;
    case 7:
      text = Text(ms::RandomAlphaNumericBytes(request.min, request.max));
      alphanumeric = true;
      break;
    case 8: {
      auto number(ms::RandomInt32());
      return std::string(reinterpret_cast<char*>(&number), sizeof number);
    }
    default: {
      auto number(ms::RandomUint32());
      return std::string(reinterpret_cast<char*>(&number), sizeof number);
    }
  }
  if (exact ? text.size() != request.min
            : text.size() < request.min || text.size() > request.max)
    error = "size " + std::to_string(text.size()) + " for " + std::to_string(request.min) + " to " +
            std::to_string(request.max);
  if (alphanumeric)
    for (unsigned char c : text)
      if (!IsAlphaNumeric(c))
        error = "not alphanumeric: " + std::to_string(c);
  return text;
}

}  // namespace

#ifndef THREADS_ONLY

PROPERTY(Random, (pbt::Options{3, 20, false, 0})) {
  auto seed(static_cast<std::uint32_t>(src.u64()));
  std::vector<Request> requests;
  std::size_t count(1 + src.size(10));
  for (std::size_t i(0); i < count; ++i) {
    requests.push_back(DrawRequest(src));
    cs.note() << requests.back().kind << ':' << requests.back().min << '-' << requests.back().max
              << ' ';
  }
  std::vector<std::string> first;
  std::string error;
  ms::detail::set_random_number_generator_seed(seed);
  REQUIRE_EQ(ms::detail::random_number_generator_seed(), seed);
  for (const auto& request : requests)
    first.push_back(Get(request, error));
  REQUIRE(error.empty()) << error;
  for (std::size_t i(0), n(src.draw(3)); i < n; ++i)  // whatever was drawn before
    Get(DrawRequest(src), error);
  ms::detail::set_random_number_generator_seed(seed);
  for (std::size_t i(0); i < requests.size(); ++i)
    REQUIRE(Get(requests[i], error) == first[i]) << "differs for the same seed";
  ms::detail::set_random_number_generator_seed(seed + 1 + static_cast<std::uint32_t>(src.draw(9)));
  std::size_t bytes(0);
  bool differs(false);
  for (std::size_t i(0); i < requests.size(); ++i) {
    differs = Get(requests[i], error) != first[i] || differs;
    bytes += first[i].size();
  }
  if (bytes >= 20)
    REQUIRE(differs) << "the same for another seed";
  REQUIRE(error.empty()) << error;
  if (bytes >= 8)
    cs.nontrivial();
}

// Everything allowed comes up.  (False alarms have a chance of less than 1e-9.)
PROPERTY(Coverage, (pbt::Options{1, 500, false, 0})) {
  ms::detail::set_random_number_generator_seed(static_cast<std::uint32_t>(src.u64()));
  auto kind(src.draw(7));
  cs.note() << kind;
  if (kind < 4) {
    bool alphanumeric(kind >= 2);
    Request request{static_cast<unsigned>(2 * kind), 12000, 0};
    std::string error;
    auto text(Get(request, error));
    REQUIRE(error.empty()) << error;
    std::set<char> found(text.begin(), text.end());
    REQUIRE_EQ(found.size(), alphanumeric ? 62U : 256U) << "some never come up";
  } else if (kind < 6) {
    std::uint32_t bits_set(0), bits_unset(0);
    for (int i(0); i < 100; ++i) {
      auto number(kind == 4 ? static_cast<std::uint32_t>(ms::RandomInt32()) : ms::RandomUint32());
      bits_set |= number;
      bits_unset |= ~number;
    }
    REQUIRE_EQ(bits_set & bits_unset, 0xffffffffU) << "some bits never change";
  } else {
    auto min(static_cast<std::uint32_t>(src.draw(20))), range(static_cast<std::uint32_t>(src.draw(8)));
    std::set<std::size_t> sizes;
    unsigned which(2 * static_cast<unsigned>(src.draw(4)) + 1);
    std::string error;
    for (int i(0); i < 400; ++i)
      sizes.insert(Get(Request{which, min, min + range}, error).size());
    REQUIRE(error.empty()) << error;
    REQUIRE_EQ(sizes.size(), range + 1) << "some sizes never come up";
  }
  cs.nontrivial();
}

// ------------------------------------------------------------------------------------------ sizes
namespace {

void CheckSize(std::uint64_t bytes, bool binary, const std::string& text) {
  static const char* const kDecimal[] = {" B", " kB", " MB", " GB", " TB", " PB", " EB"};
  static const char* const kBinary[] = {" B", " KiB", " MiB", " GiB", " TiB", " PiB", " EiB"};
  const char* const* units(binary ? kBinary : kDecimal);
  using Wide = unsigned __int128;
  Wide kilo(binary ? 1024 : 1000);
  if (bytes < kilo) {
    REQUIRE_EQ(text, std::to_string(bytes) + " B");
    return;
  }
  unsigned unit(1);
  Wide divisor(kilo);
  // Up to, and without, half a unit less than the next one.
  while (unit < 6 && 2 * static_cast<Wide>(bytes) >= (2 * kilo - 1) * divisor) {
    ++unit;
    divisor *= kilo;
  }
  std::string ending(units[unit]);
  REQUIRE(text.size() > ending.size() &&
          text.compare(text.size() - ending.size(), ending.size(), ending) == 0)
      << text << " isn't in" << ending;
  auto number(text.substr(0, text.size() - ending.size()));
  auto point(number.find('.'));
  REQUIRE(point != std::string::npos && point > 0 && point + 3 == number.size()) << text;
  Wide hundredths(0);
  for (char c : number) {
    if (c == '.')
      continue;
    REQUIRE(c >= '0' && c <= '9') << text;
    hundredths = hundredths * 10 + static_cast<unsigned>(c - '0');
  }
  REQUIRE(point == 1 || number[0] != '0') << text;
  // Half a hundredth either way, and as much as doubles may be wrong by.
  Wide exact(static_cast<Wide>(bytes) * 100), printed(hundredths * divisor);
  Wide off(exact > printed ? exact - printed : printed - exact);
  REQUIRE(off <= divisor / 2 + divisor / 1000000000 + 1) << text << " for " << bytes;
}

}  // namespace

PROPERTY(Sizes, (pbt::Options{3, 1, false, 0})) {
  std::uint64_t bytes(src.u64());
  if (src.boolean()) {  // near where the unit or the last digit changes
    std::uint64_t unit(1), kilo(src.boolean() ? 1000 : 1024);
    for (std::size_t i(0), n(src.draw(7)); i < n; ++i)
      unit *= kilo;
    switch (src.draw(4)) {
      case 0:
        bytes = unit;
        break;
      case 1:
        bytes = unit - unit / kilo / 2;
        break;
      case 2:
        bytes = unit * src.draw(1024) + unit / 1000 * 5 * src.draw(200);
        break;
      default:
        bytes = unit * 15;
    }
    bytes += static_cast<std::uint64_t>(src.range(-2, 2));
  }
  cs.note() << bytes;
  CheckSize(bytes, false, ms::BytesToDecimalSiUnits(bytes));
  CheckSize(bytes, true, ms::BytesToBinarySiUnits(bytes));
  if (bytes >= 1000)
    cs.nontrivial();
}

// --------------------------------------------------------------------------------------- versions
namespace {

struct Version {
  unsigned major_part, minor_part, patch;
  std::string text() const {
    auto digits(std::to_string(patch));
    return std::to_string(major_part) + '.' + std::to_string(minor_part) + '.' +
           std::string(3 - digits.size(), '0') + digits;
  }
  bool operator<(const Version& other) const {
    return std::tie(major_part, minor_part, patch) <
           std::tie(other.major_part, other.minor_part, other.patch);
  }
};

Version DrawVersion(pbt::Src& src) {
  Version version{};
  version.major_part = static_cast<unsigned>(src.boolean() ? src.draw(12) : src.draw(32768));
  version.minor_part = static_cast<unsigned>(src.draw(10));
  version.patch = static_cast<unsigned>(src.boolean() ? src.draw(12) : src.draw(1000));
  return version;
}

}  // namespace

PROPERTY(Versions, (pbt::Options{2, 1, false, 0})) {
  auto a(DrawVersion(src)), b(DrawVersion(src));
  if (src.boolean()) {
    b = a;
    switch (src.draw(4)) {
      case 0:
        ++b.major_part;
        break;
      case 1:
        b.minor_part = 9 - b.minor_part;
        break;
      case 2:
        b.patch = 999 - b.patch;
        break;
    }
    b.major_part = std::min(b.major_part, 32767U);
  }
  cs.note() << a.text() << ' ' << b.text();
  int x(ms::VersionToInt(a.text())), y(ms::VersionToInt(b.text()));
  REQUIRE(x >= 0 && y >= 0) << x << ' ' << y;
  REQUIRE((x < y) == (a < b)) << x << ' ' << y;
  REQUIRE((y < x) == (b < a)) << x << ' ' << y;
  REQUIRE_EQ(x, static_cast<int>(a.major_part * 10000 + a.minor_part * 1000 + a.patch));
  cs.nontrivial();
}

PROPERTY(MalformedVersions, (pbt::Options{2, 1, false, 0})) {
  auto version(DrawVersion(src));
  auto text(version.text());
  std::string minor_part(std::to_string(version.minor_part));
  std::string patch(text.substr(text.size() - 3)), major_part(std::to_string(version.major_part));
  switch (src.draw(9)) {
    case 0:  // another character somewhere
      text[src.index(text.size())] = src.pick(std::vector<char>{'a', ' ', '-', '+', ',', 'x', '\0'});
      break;
    case 1:
      text.insert(src.index(text.size() + 1), 1,
                  src.pick(std::vector<char>{'.', ' ', '-', '+', 'f', 'e', '\n'}));
      break;
    case 2:  // without one, other than of the major version
      text.erase(major_part.size() + src.index(text.size() - major_part.size()), 1);
      break;
    case 3:
      text = major_part + '.' + minor_part + std::to_string(src.draw(10)) + '.' + patch;
      break;
    case 4:
      text = major_part + '.' + minor_part + '.' + patch + std::to_string(src.draw(10));
      break;
    case 5: {  // other than three parts
      text.clear();
      std::size_t parts(src.draw(6));
      if (parts == 3)
        parts = 4;
      for (std::size_t i(0); i < parts; ++i)
        text += (i ? "." : "") + std::to_string(src.draw(10));
      break;
    }
    case 6:
      text = src.text(src.size(12), "0123456789.-+ ax");
      if (std::count(text.begin(), text.end(), '.') == 2)
        text += '.';
      break;
    case 7: {  // more than fits in an integer: invalid, or in order if it does
      std::uint64_t big(32768 + src.draw(src.boolean() ? 400000 : 1ULL << 62));
      text = std::to_string(big) + '.' + minor_part + '.' + patch;
      cs.note() << text;
      int found(ms::VersionToInt(text));
      std::uint64_t value(big * 10000 + version.minor_part * 1000 + version.patch);
      REQUIRE(found == ms::kInvalidVersion ||
              (big < 300000 && static_cast<std::uint64_t>(found) == value))
          << found;
      cs.nontrivial();
      return;
    }
    default:
      text = src.bytes(src.size(12));
      if (std::count(text.begin(), text.end(), '.') == 2)
        text += '.';
  }
  cs.note() << '"' << text << '"';
  REQUIRE_EQ(ms::VersionToInt(text), ms::kInvalidVersion);
  REQUIRE_EQ(ms::kInvalidVersion, -1);
  cs.nontrivial();
}

// -------------------------------------------------------------------------------------------- XOR
PROPERTY(Xor, (pbt::Options{1, 2, false, 0})) {
  using ms::operator^;
  auto a(src.blob(300));
  auto b(src.bytes(src.chance(3, 4) ? a.size() : src.size(300)));
  cs.note() << pbt::Hex(a, 20) << ' ' << pbt::Hex(b, 20);
  Bytes x(a.begin(), a.end()), y(b.begin(), b.end());
  if (a.size() != b.size()) {
    int refused(0);
    try {
      a ^ b;
    } catch (const ms::maidsafe_error& error) {
      refused += error.code() == make_error_code(ms::CommonErrors::invalid_argument);
    }
    try {
      x ^ y;
    } catch (const ms::maidsafe_error& error) {
      refused += error.code() == make_error_code(ms::CommonErrors::invalid_argument);
    }
    REQUIRE_EQ(refused, 2);
    cs.nontrivial();
    return;
  }
  auto result(a ^ b);
  auto bytes(x ^ y);
  REQUIRE_EQ(result.size(), a.size());
  REQUIRE_EQ(bytes.size(), a.size());
  for (std::size_t i(0); i < a.size(); ++i) {
    REQUIRE_EQ(static_cast<int>(result[i]), static_cast<int>(static_cast<char>(a[i] ^ b[i])));
    REQUIRE_EQ(static_cast<int>(bytes[i]), static_cast<int>(x[i] ^ y[i]));
  }
  if (a.size() >= 2)
    cs.nontrivial();
}

// A generator of pseudo-random numbers which must give the published sequence.
PROPERTY(SmallPrng, (pbt::Options{1, 2, false, 0})) {
  auto seed(static_cast<std::uint32_t>(src.u64()));
  std::size_t count(1 + src.size(100));
  cs.note() << seed << ' ' << count;
  std::uint32_t a(0xf1ea5eed), b(seed), c(seed), d(seed);
  auto next([&] {
    auto rotate([](std::uint32_t x, int k) { return (x << k) | (x >> (32 - k)); });
    std::uint32_t e(a - rotate(b, 27));
    a = b ^ rotate(c, 17);
    b = c + d;
    c = d + e;
    d = e + a;
    return d;
  });
  for (int i(0); i < 20; ++i)
    next();
  ms::small_prng::RandomContext context;
  ms::small_prng::Initialise(&context, seed);
  for (std::size_t i(0); i < count; ++i)
    REQUIRE_EQ(ms::small_prng::RandomValue(&context), next());
  REQUIRE(ms::Concurrency() >= 2);
  if (count >= 2)
    cs.nontrivial();
}

#else

PROPERTY(Threads, (pbt::Options{1, 1, true, 0})) {
  std::size_t count(2 + src.draw(3));
  std::vector<std::vector<Request>> requests(count);
  auto seed(static_cast<std::uint32_t>(src.u64()));
  bool numbers(src.boolean());
  for (auto& list : requests) {
    std::size_t n(1 + src.draw(6));
    for (std::size_t i(0); i < n; ++i) {
      auto request(DrawRequest(src));
      if (numbers)
        request.kind = 9;
      list.push_back(request);
      cs.note() << request.kind << ':' << request.min << '-' << request.max << ' ';
    }
    cs.note() << "| ";
  }
  ms::detail::set_random_number_generator_seed(seed);
  std::vector<std::vector<std::string>> found(count);
  std::vector<std::string> errors(count);
  std::vector<std::thread> threads;
  for (std::size_t t(0); t < count; ++t) {
    threads.emplace_back([&, t] {
      for (const auto& request : requests[t])
        found[t].push_back(Get(request, errors[t]));
    });
  }
  for (auto& thread : threads)
    thread.join();
  for (const auto& error : errors)
    REQUIRE(error.empty()) << error;
  if (numbers) {  // none lost and none twice
    std::multiset<std::string> together, alone;
    std::string error;
    ms::detail::set_random_number_generator_seed(seed);
    for (const auto& list : found) {
      for (const auto& number : list) {
        together.insert(number);
        alone.insert(Get(Request{9, 0, 0}, error));
      }
    }
    REQUIRE(together == alone) << "other numbers from threads";
  }
  cs.nontrivial();
}

#endif
