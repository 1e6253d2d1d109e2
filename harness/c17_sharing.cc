// C17: secret sharing and information dispersal.
#include "pbt.h"

#include <algorithm>
#include <string>
#include <vector>

#include "maidsafe/common/crypto.h"

namespace ms = maidsafe;
namespace mc = maidsafe::crypto;
using Bytes = std::vector<unsigned char>;

namespace {

template <typename F>
bool Throws(ms::CommonErrors error, F f) {
  try {
    f();
  } catch (const ms::common_error& e) {
    return e.code() == ms::make_error_code(error);
  }
  return false;
}

mc::DataParts Split(bool secret, int k, int n, const Bytes& data) {
  return secret ? mc::SecretShareData(k, n, mc::PlainText(data))
                : mc::InfoDisperse(k, n, mc::PlainText(data));
}

Bytes Join(bool secret, const mc::DataParts& parts) {
  return secret ? mc::SecretRecoverData(parts).string() : mc::InfoRetrieve(parts).string();
}

// Some of the parts in any order.
mc::DataParts Choose(pbt::Src& src, pbt::Case& cs, const mc::DataParts& parts,
                     std::size_t count) {
  std::vector<std::size_t> order(parts.size());
  for (std::size_t i(0); i < order.size(); ++i)
    order[i] = i;
  src.shuffle(order);
  mc::DataParts result;
  cs.note() << " parts";
  for (std::size_t i(0); i < count; ++i) {
    result.push_back(parts[order[i]]);
    cs.note() << ' ' << order[i];
  }
  return result;
}

struct Setup {
  bool secret;
  int n, k;
  Bytes data;
};

Setup Make(pbt::Src& src, pbt::Case& cs, std::size_t min_size) {
  Setup s;
  s.secret = src.boolean();
  s.n = static_cast<int>(3 + (src.chance(1, 10) ? src.draw(60) : src.draw(10)));
  s.k = static_cast<int>(2 + src.draw(static_cast<std::uint64_t>(s.n - 1)));
  s.data = src.vec(min_size + (src.chance(1, 30) ? src.draw(20000) : src.size(300)));
  if (src.chance(1, 4)) {  // like the padding
    s.data.push_back(1);
    s.data.insert(s.data.end(), src.draw(10), 0);
  }
  cs.note() << (s.secret ? "secret " : "dispersal ") << s.k << " of " << s.n << ", "
            << s.data.size() << " bytes ending in "
            << pbt::Hex(Bytes(s.data.end() - std::ptrdiff_t(std::min<std::size_t>(12, s.data.size())),
                              s.data.end())) << ';';
  return s;
}

}  // namespace

PROPERTY(ThresholdRecovers, (pbt::Options{5, 4})) {
  Setup s(Make(src, cs, 1));
  if (s.data.size() > 1)
    cs.nontrivial();
  mc::DataParts parts(Split(s.secret, s.k, s.n, s.data));
  REQUIRE_EQ(parts.size(), static_cast<std::size_t>(s.n));
  // Extra parts are only allowed for secret sharing.
  std::size_t count(static_cast<std::size_t>(s.k));
  if (s.secret && src.chance(1, 3))
    count += src.draw(static_cast<std::uint64_t>(s.n - s.k + 1));
  for (unsigned i(0); i < 2; ++i)
    REQUIRE(Join(s.secret, Choose(src, cs, parts, count)) == s.data) << "not recovered";
  if (!s.secret) {  // a deterministic function of the data
    REQUIRE(Split(false, s.k, s.n, s.data) == parts) << "dispersed differently next time";
    for (const auto& part : parts)
      REQUIRE(part.string().size() <= s.data.size() / static_cast<std::size_t>(s.k) + 12)
          << "a part of " << part.string().size() << " bytes";
  }
}

// Every subset of the right size, for small numbers of parts.
PROPERTY(EverySubset, (pbt::Options{1, 60})) {
  bool secret(src.boolean());
  int n(static_cast<int>(3 + src.draw(4))), k(static_cast<int>(2 + src.draw(n - 1)));
  Bytes data(src.vec(1 + src.size(40)));
  cs.note() << (secret ? "secret " : "dispersal ") << k << " of " << n << ", " << pbt::Hex(data);
  cs.nontrivial();
  mc::DataParts parts(Split(secret, k, n, data));
  for (unsigned mask(0); mask < 1u << n; ++mask) {
    if (__builtin_popcount(mask) != k)
      continue;
    mc::DataParts some;
    for (int i(0); i < n; ++i) {
      if (mask >> i & 1)
        some.push_back(parts[static_cast<std::size_t>(i)]);
    }
    if (src.boolean())
      std::reverse(some.begin(), some.end());
    REQUIRE(Join(secret, some) == data) << "subset " << mask;
  }
}

PROPERTY(FewerDoNot, (pbt::Options{2, 4})) {
  Setup s(Make(src, cs, 16));
  // Random data, or two equal pieces could do.
  pbt::FillRandom(src.draw(1 << 30), s.data.data(), s.data.size());
  cs.nontrivial();
  mc::DataParts parts(Split(s.secret, s.k, s.n, s.data));
  std::size_t count(1 + src.draw(static_cast<std::uint64_t>(s.k - 1)));
  mc::DataParts some(Choose(src, cs, parts, count));
  if (s.secret) {
    for (const auto& part : parts) {
      REQUIRE(std::search(part.string().begin(), part.string().end(), s.data.begin(),
                          s.data.end()) == part.string().end()) << "a share shows the secret";
    }
  }
  try {
    REQUIRE(Join(s.secret, some) != s.data) << "recovered from too few parts";
  } catch (const pbt::Failure&) {
    throw;
  } catch (const std::exception&) {
    cs.label("refused");
  }
}

PROPERTY(BadNumbersAreRefused) {
  bool secret(src.boolean());
  std::int32_t n(static_cast<std::int32_t>(src.chance(1, 2) ? src.range(-5, 12) : src.i64()));
  std::int32_t k(static_cast<std::int32_t>(src.chance(1, 2) ? src.range(-5, 14) : src.i64()));
  cs.note() << (secret ? "secret " : "dispersal ") << k << " of " << n;
  if (k <= n && n >= 3 && k >= 2) {
    if (n > 20)
      throw pbt::Discard();
    REQUIRE_EQ(Split(secret, k, n, Bytes(5, 'x')).size(), static_cast<std::size_t>(n));
    return;
  }
  cs.nontrivial();
  REQUIRE(Throws(ms::CommonErrors::invalid_argument,
                 [&] { Split(secret, k, n, Bytes(5, 'x')); })) << "accepted";
}

PROPERTY(MalformedParts, (pbt::Options{4, 4})) {
  Setup s(Make(src, cs, 1));
  mc::DataParts parts(Split(s.secret, s.k, s.n, s.data));
  parts = Choose(src, cs, parts, src.draw(static_cast<std::uint64_t>(s.k) + 1));
  std::size_t changes(parts.empty() ? 0 : src.size(3));
  for (std::size_t c(0); c < changes; ++c) {
    std::size_t p(src.index(parts.size()));
    Bytes b(parts[p].string());
    switch (src.draw(6)) {
      case 0:
        b.resize(1 + src.index(b.size()));
        break;
      case 1:
        b.resize(1 + src.draw(5));
        break;
      case 2: {
        Bytes more(src.vec(1 + src.size(60)));
        b.insert(b.end(), more.begin(), more.end());
        break;
      }
      case 3:
        b[src.index(b.size())] ^= static_cast<unsigned char>(1 << src.draw(8));
        break;
      case 4:  // the same part, or at least number, twice
        b = parts[src.index(parts.size())].string();
        break;
      default:
        b = src.vec(1 + src.size(40));
    }
    cs.note() << "; " << p << " becomes " << pbt::Hex(b, 12);
    parts[p] = ms::NonEmptyString(b);
  }
  cs.nontrivial();
  try {
    Join(s.secret, parts);
    cs.label("joined");
  } catch (const std::exception&) {
    cs.label("refused");
  }
}
