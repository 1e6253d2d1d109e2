// C22: identities.
#include "pbt.h"

#include <string>
#include <vector>

#include "maidsafe/common/error.h"
#include "maidsafe/common/identity.h"

namespace ms = maidsafe;
using Bytes = std::vector<unsigned char>;

namespace {

Bytes Near(pbt::Src& src, const Bytes& other) {
  Bytes result(other);
  switch (src.draw(5)) {
    case 0:
      return src.vec(64);
    case 1:  // shares a prefix of some number of bits
    {
      std::size_t bits(src.index(512));
      result[bits / 8] ^= static_cast<unsigned char>(0x80u >> (bits % 8));
      for (std::size_t i(bits + 1); i < 512; ++i) {
        if (src.boolean())
          result[i / 8] ^= static_cast<unsigned char>(0x80u >> (i % 8));
        if (i > bits + 24)
          break;
      }
      return result;
    }
    case 2:  // one bit
    {
      std::size_t bit(src.index(512));
      result[bit / 8] ^= static_cast<unsigned char>(0x80u >> (bit % 8));
      return result;
    }
    case 3:
      return result;
    default:  // one byte
      result[src.index(64)] = static_cast<unsigned char>(src.draw(256));
      return result;
  }
}

int ModelCommonBits(const Bytes& a, const Bytes& b) {
  for (int i(0); i < 512; ++i) {
    if (((a[i / 8] ^ b[i / 8]) >> (7 - i % 8)) & 1)
      return i;
  }
  return 512;
}

bool ModelCloser(const Bytes& a, const Bytes& b, const Bytes& target) {
  Bytes x(64), y(64);
  for (int i(0); i < 64; ++i) {
    x[i] = a[i] ^ target[i];
    y[i] = b[i] ^ target[i];
  }
  return x < y;
}

template <typename F>
bool Refused(F f) {
  try {
    f();
  } catch (const ms::common_error& e) {
    return e.code() == ms::make_error_code(ms::CommonErrors::invalid_identity);
  }
  return false;
}

template <typename F>
bool RefusedSomehow(F f) {
  try {
    f();
  } catch (const ms::maidsafe_error&) {
    return true;
  }
  return false;
}

PROPERTY(Metric, (pbt::Options{4})) {
  Bytes target(src.vec(64)), a(Near(src, target)), b(Near(src, src.boolean() ? a : target));
  ms::Identity it(target), ia(a), ib(b);
  cs.note() << pbt::Hex(target, 8) << ' ' << pbt::Hex(a, 8) << ' ' << pbt::Hex(b, 8);
  int bits(ModelCommonBits(a, b));
  cs.label(bits == 512 ? "equal" : bits == 0 ? "differ in first bit" : "share a prefix");
  if (bits > 0 && bits < 512)
    cs.nontrivial();
  REQUIRE_EQ(ms::CommonLeadingBits(ia, ib), bits);
  REQUIRE_EQ(ms::CommonLeadingBits(ib, ia), bits);
  REQUIRE_EQ(ms::CommonLeadingBits(ia, it), ModelCommonBits(a, target));
  REQUIRE_EQ(ms::CloserToTarget(ia, ib, it), ModelCloser(a, b, target));
  REQUIRE_EQ(ms::CloserToTarget(ib, ia, it), ModelCloser(b, a, target));
  REQUIRE_EQ(ms::CloserToTarget(ia, it, ib), ModelCloser(a, target, b));
  REQUIRE(!ms::CloserToTarget(ia, ia, it));
  REQUIRE_EQ(ia == ib, a == b);
  REQUIRE_EQ(ia < ib, a < b);
}

// The whole 256 x 256 table of first differing bytes.
PROPERTY(EveryBytePair, (pbt::Options{1, 1, false, 256})) {
  unsigned x(static_cast<unsigned>(src.draw(256)));
  std::size_t at(src.index(64));
  cs.nontrivial();
  cs.note() << "byte " << x << " at " << at;
  Bytes base(src.vec(64));
  base[at] = static_cast<unsigned char>(x);
  for (unsigned y(0); y < 256; ++y) {
    Bytes other(base);
    for (std::size_t i(at + 1); i < 64; ++i)
      other[i] = static_cast<unsigned char>(~other[i]);
    other[at] = static_cast<unsigned char>(y);
    REQUIRE_EQ(ms::CommonLeadingBits(ms::Identity(base), ms::Identity(other)),
               ModelCommonBits(base, other))
        << "bytes " << x << " and " << y << " at " << at;
  }
}

PROPERTY(EncodingsRoundTrip, (pbt::Options{3})) {
  Bytes raw(src.vec(64));
  ms::Identity id(raw);
  cs.note() << pbt::Hex(raw, 8);
  cs.nontrivial();
  std::string binary(ms::binary::Encode(id)), hex(ms::hex::Encode(id)),
      base64(ms::base64::Encode(id));
  std::string expected_binary, expected_hex;
  for (unsigned char c : raw) {
    for (int i(7); i >= 0; --i)
      expected_binary += (c >> i) & 1 ? '1' : '0';
    expected_hex += "0123456789abcdef"[c >> 4];
    expected_hex += "0123456789abcdef"[c & 15];
  }
  REQUIRE_EQ(binary, expected_binary);
  REQUIRE_EQ(hex, expected_hex);
  REQUIRE_EQ(base64.size(), 88u);
  REQUIRE(ms::MakeIdentity(ms::binary::String(binary)).string() == raw);
  REQUIRE(ms::MakeIdentity(ms::hex::String(hex)).string() == raw);
  REQUIRE(ms::MakeIdentity(ms::base64::String(base64)).string() == raw);
}

std::string Damage(pbt::Src& src, std::string text, const std::string& alphabet, pbt::Case& cs) {
  switch (src.draw(5)) {
    case 0:
      text.resize(src.boolean() ? text.size() - 1 - src.draw(9) : src.index(text.size()));
      break;
    case 1:
      text += src.text(1 + src.size(20), alphabet);
      break;
    case 2: {
      std::size_t at(src.index(text.size()));
      char bad(static_cast<char>(src.draw(256)));
      text[at] = bad;
      break;
    }
    case 3:
      text.erase(src.index(text.size()), 1);
      break;
    default:
      text = src.text(src.size(700), alphabet);
  }
  cs.note() << "'" << (text.size() > 40 ? text.substr(text.size() - 40) : text) << "' "
            << text.size();
  return text;
}

PROPERTY(BadTextsRefused, (pbt::Options{4})) {
  Bytes raw(src.vec(64));
  ms::Identity id(raw);
  switch (src.draw(3)) {
    case 0: {
      cs.note() << "binary ";
      std::string text(Damage(src, ms::binary::Encode(id), "01", cs));
      bool good(text.size() == 512 && text.find_first_not_of("01") == std::string::npos);
      if (!good)
        cs.nontrivial();
      bool refused(Refused([&] { ms::MakeIdentity(ms::binary::String(text)); }));
      REQUIRE_EQ(refused, !good);
      if (good)
        REQUIRE_EQ(ms::binary::Encode(ms::MakeIdentity(ms::binary::String(text))), text);
      break;
    }
    case 1: {
      cs.note() << "hex ";
      std::string text(Damage(src, ms::hex::Encode(id), "0123456789abcdef", cs));
      if (text.find_first_of("ABCDEF") != std::string::npos)
        throw pbt::Discard();  // whether upper case counts is the codec's business
      bool good(text.size() == 128 &&
                text.find_first_not_of("0123456789abcdef") == std::string::npos);
      if (!good)
        cs.nontrivial();
      bool refused(Refused([&] { ms::MakeIdentity(ms::hex::String(text)); }));
      REQUIRE_EQ(refused, !good);
      if (good)
        REQUIRE_EQ(ms::hex::Encode(ms::MakeIdentity(ms::hex::String(text))), text);
      break;
    }
    default: {
      cs.note() << "base64 ";
      const std::string alphabet(
          "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/");
      std::string text(Damage(src, ms::base64::Encode(id), alphabet, cs));
      bool good(text.size() == 88 && text.substr(86) == "==" &&
                text.find_first_not_of(alphabet) == 86);
      if (!good)
        cs.nontrivial();
      bool refused(Refused([&] { ms::MakeIdentity(ms::base64::String(text)); }));
      REQUIRE_EQ(refused, !good);
    }
  }
}

PROPERTY(UninitialisedRefused, (pbt::Options{1, 50})) {
  ms::Identity none, id(src.vec(64)), other(src.vec(64));
  cs.note() << pbt::Hex(id.string(), 4);
  cs.nontrivial();
  REQUIRE(RefusedSomehow([&] { ms::CommonLeadingBits(none, id); }));
  REQUIRE(RefusedSomehow([&] { ms::CommonLeadingBits(id, none); }));
  REQUIRE(RefusedSomehow([&] { ms::CommonLeadingBits(none, none); }));
  REQUIRE(RefusedSomehow([&] { ms::CloserToTarget(none, id, other); }));
  REQUIRE(RefusedSomehow([&] { ms::CloserToTarget(id, none, other); }));
  REQUIRE(RefusedSomehow([&] { ms::CloserToTarget(id, other, none); }));
  REQUIRE(RefusedSomehow([&] { ms::CloserToTarget(none, none, id); }));
  REQUIRE(RefusedSomehow([&] { ms::binary::Encode(none); }));
  REQUIRE(RefusedSomehow([&] { ms::hex::Encode(none); }));
  REQUIRE(RefusedSomehow([&] { ms::base64::Encode(none); }));
  REQUIRE(ms::MakeIdentity().IsInitialised());
  REQUIRE_EQ(ms::MakeIdentity().string().size(), 64u);
}

}  // unnamed namespace
