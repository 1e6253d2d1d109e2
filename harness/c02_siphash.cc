// C02: SipHash-2-4 against an independent implementation.
#include "pbt.h"

#include <array>
#include <cstring>

#include "maidsafe/common/hash/algorithms/siphash.h"

namespace ms = maidsafe;

namespace {

std::uint64_t Rotate(std::uint64_t x, int b) { return (x << b) | (x >> (64 - b)); }

std::uint64_t Word(const unsigned char* p, std::size_t n) {
  std::uint64_t w(0);
  for (std::size_t i(0); i < n; ++i)
    w |= static_cast<std::uint64_t>(p[i]) << (8 * i);
  return w;
}

struct State {
  std::uint64_t v[4];
  void Round() {
    v[0] += v[1];
    v[2] += v[3];
    v[1] = Rotate(v[1], 13) ^ v[0];
    v[3] = Rotate(v[3], 16) ^ v[2];
    v[0] = Rotate(v[0], 32);
    v[2] += v[1];
    v[0] += v[3];
    v[1] = Rotate(v[1], 17) ^ v[2];
    v[3] = Rotate(v[3], 21) ^ v[0];
    v[2] = Rotate(v[2], 32);
  }
};

std::uint64_t Reference(const std::array<unsigned char, 16>& key, const unsigned char* m,
                        std::size_t n) {
  std::uint64_t k0(Word(key.data(), 8)), k1(Word(key.data() + 8, 8));
  State s{{k0 ^ 0x736f6d6570736575ULL, k1 ^ 0x646f72616e646f6dULL, k0 ^ 0x6c7967656e657261ULL,
           k1 ^ 0x7465646279746573ULL}};
  for (std::size_t i(0); i <= n / 8; ++i) {
    std::size_t left(n - i * 8 < 8 ? n - i * 8 : 8);
    std::uint64_t w(Word(m + i * 8, left));
    if (i == n / 8)
      w |= static_cast<std::uint64_t>(n & 0xff) << 56;
    s.v[3] ^= w;
    s.Round();
    s.Round();
    s.v[0] ^= w;
  }
  s.v[2] ^= 0xff;
  for (int i(0); i < 4; ++i)
    s.Round();
  return s.v[0] ^ s.v[1] ^ s.v[2] ^ s.v[3];
}

std::array<unsigned char, 16> Key(pbt::Src& src) {
  std::string k(src.bytes(16));
  std::array<unsigned char, 16> key;
  std::memcpy(key.data(), k.data(), 16);
  return key;
}

}  // namespace

// The published test vector: key 00..0f, message 00..0e.
PROPERTY(Published, pbt::Options{1, 1, false, 1}) {
  std::array<unsigned char, 16> key;
  unsigned char m[15];
  for (int i(0); i < 16; ++i)
    key[i] = static_cast<unsigned char>(i);
  for (int i(0); i < 15; ++i)
    m[i] = static_cast<unsigned char>(i);
  REQUIRE_EQ(Reference(key, m, 15), 0xa129ca6149be45e5ULL);
  ms::SipHash hash(key);
  hash.Update(m, 15);
  REQUIRE_EQ(hash.Finalize(), 0xa129ca6149be45e5ULL);
}

PROPERTY(Pieces) {
  auto key(Key(src));
  std::string m(src.blob(src.chance(1, 10) ? 5000 : 400));
  if (!m.empty() && src.chance(1, 80)) {  // a long one
    std::size_t length(65500 + src.draw(100) + 65536 * src.draw(3));
    while (m.size() < length)
      m += m.substr(0, length - m.size()) + '\x5b';
    cs.label("long");
  }
  const unsigned char* p(reinterpret_cast<const unsigned char*>(m.data()));
  cs.note() << "key " << pbt::Hex(std::string(key.begin(), key.end())) << " message "
            << pbt::Hex(m) << " pieces";
  ms::SipHash hash(key), other(key);
  std::size_t at(0), pieces(0);
  unsigned style(static_cast<unsigned>(src.draw(3)));
  while (at < m.size()) {
    std::size_t n;
    if (style == 0)
      n = static_cast<std::size_t>(src.draw(18));
    else if (style == 1)
      n = src.size(m.size());
    else
      n = src.boolean() ? 8 * src.draw(8) : src.draw(9);
    n = std::min(n, m.size() - at);
    // A copy, so that the memory checker sees a read outside the piece.
    std::vector<unsigned char> piece(p + at, p + at + n);
    hash.Update(piece.data(), n);
    at += n;
    ++pieces;
    if (pieces < 30)
      cs.note() << ' ' << n;
    if (src.chance(1, 4)) {
      REQUIRE_EQ(hash.Finalize(), Reference(key, p, at)) << " after " << at << " bytes";
      cs.note() << '?';
    }
    if (src.chance(1, 12))
      other = hash;  // copies must be independent and complete
    if (src.chance(1, 12)) {
      ms::SipHash copy(hash);
      copy.Update(p, m.size());
    }
    if (pieces > 200 && at < m.size()) {
      hash.Update(p + at, m.size() - at);
      at = m.size();
    }
  }
  if (!m.empty() && pieces > 1)
    cs.nontrivial();
  if (at == m.size()) {
    std::uint64_t expected(Reference(key, p, m.size()));
    REQUIRE_EQ(hash.Finalize(), expected);
    REQUIRE_EQ(hash.Finalize(), expected);
    ms::SipHash whole(key);
    std::vector<unsigned char> copy(p, p + m.size());
    whole.Update(copy.data(), copy.size());
    REQUIRE_EQ(whole.Finalize(), expected);
  }
}

// Copies go on independently.
PROPERTY(Copies) {
  auto key(Key(src));
  std::string a(src.blob(40)), b(src.blob(40)), c(src.blob(40));
  auto data([](const std::string& s) { return reinterpret_cast<const unsigned char*>(s.data()); });
  cs.note() << pbt::Hex(a) << ' ' << pbt::Hex(b) << ' ' << pbt::Hex(c);
  if (!a.empty() && b != c)
    cs.nontrivial();
  ms::SipHash first(key);
  first.Update(data(a), a.size());
  ms::SipHash second(first);
  first.Update(data(b), b.size());
  second.Update(data(c), c.size());
  std::string ab(a + b), ac(a + c);
  REQUIRE_EQ(first.Finalize(), Reference(key, data(ab), ab.size()));
  REQUIRE_EQ(second.Finalize(), Reference(key, data(ac), ac.size()));
}

PROPERTY(EveryLength, pbt::Options{1, 1, false, 601}) {
  std::size_t n(static_cast<std::size_t>(src.draw(601)));
  std::array<unsigned char, 16> key;
  pbt::FillRandom(n * 7 + 1, key.data(), 16);
  std::vector<unsigned char> m(n);
  pbt::FillRandom(n, m.data(), n);
  cs.note() << "length " << n;
  cs.nontrivial();
  std::uint64_t expected(Reference(key, m.data(), n));
  for (std::size_t cut(0); cut <= n; cut += (n > 70 ? 1 + n / 70 : 1)) {
    ms::SipHash hash(key);
    hash.Update(m.data(), cut);
    hash.Update(m.data() + cut, n - cut);
    REQUIRE_EQ(hash.Finalize(), expected) << " length " << n << " cut at " << cut;
  }
}
