// C01: hex and base64.
#include "pbt.h"

#include <deque>
#include <set>

#include "maidsafe/common/bounded_string.h"
#include "maidsafe/common/encode.h"
#include "maidsafe/common/error.h"

namespace ms = maidsafe;

namespace {

const std::string kHex("0123456789abcdef");
const std::string k64("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/");

std::string RefHex(const std::string& s) {
  std::string out;
  for (unsigned char c : s) {
    out += kHex[c >> 4];
    out += kHex[c & 15];
  }
  return out;
}

std::string Ref64(const std::string& s) {
  std::string bits, out;
  for (unsigned char c : s)
    for (int i(7); i >= 0; --i)
      bits += ((c >> i) & 1) ? '1' : '0';
  while (bits.size() % 6)
    bits += '0';
  for (std::size_t i(0); i < bits.size(); i += 6) {
    int v(0);
    for (std::size_t j(0); j < 6; ++j)
      v = v * 2 + (bits[i + j] - '0');
    out += k64[v];
  }
  while (out.size() % 4)
    out += '=';
  return out;
}

bool RefUnhex(const std::string& s, std::string& out) {
  out.clear();
  if (s.size() % 2)
    return false;
  for (std::size_t i(0); i < s.size(); i += 2) {
    auto a(kHex.find(s[i])), b(kHex.find(s[i + 1]));
    if (a == std::string::npos || b == std::string::npos)
      return false;
    out += static_cast<char>(a * 16 + b);
  }
  return true;
}

bool RefUn64(const std::string& s, std::string& out) {
  out.clear();
  if (s.size() % 4)
    return false;
  std::size_t pads(0);
  while (pads < 2 && pads < s.size() && s[s.size() - 1 - pads] == '=')
    ++pads;
  std::uint32_t bits(0);
  int n(0);
  for (std::size_t i(0); i < s.size() - pads; ++i) {
    auto v(k64.find(s[i]));
    if (v == std::string::npos)
      return false;
    bits = (bits << 6) | static_cast<std::uint32_t>(v);
    n += 6;
    if (n >= 8) {
      n -= 8;
      out += static_cast<char>((bits >> n) & 0xff);
    }
  }
  return true;
}

std::string Abbreviated(const std::string& s) {
  return s.size() <= 14 ? s : s.substr(0, 6) + ".." + s.substr(s.size() - 6);
}

template <typename F>
bool Throws(F f, bool& right_error) {
  try {
    f();
    return false;
  } catch (const ms::maidsafe_error& e) {
    right_error = e.code() == ms::make_error_code(ms::CommonErrors::invalid_conversion);
    return true;
  }
}

template <typename Decoder, typename BytesDecoder>
void CheckDecode(const char* what, const std::string& text, bool valid, const std::string& expected,
                 Decoder decode, BytesDecoder decode_bytes) {
  std::string got;
  std::vector<unsigned char> got_bytes;
  bool right1(true), right2(true);
  bool threw1(Throws([&] { got = decode(text); }, right1));
  bool threw2(Throws([&] { got_bytes = decode_bytes(text); }, right2));
  if (valid) {
    REQUIRE(!threw1 && !threw2) << what << " refused valid text " << text;
    REQUIRE(got == expected) << what << " " << text << " gave " << pbt::Hex(got);
    REQUIRE(got_bytes == std::vector<unsigned char>(expected.begin(), expected.end())) << what;
  } else {
    REQUIRE(threw1) << what << " accepted " << text << " as " << pbt::Hex(got);
    REQUIRE(threw2) << what << " (bytes) accepted " << text;
    REQUIRE(right1 && right2) << what << " wrong error for " << text;
  }
}

std::string AnyBytes(pbt::Src& src) {
  // Mostly short: long ones are costly.
  return src.chance(1, 60) ? src.blob(70000) : src.blob(300);
}

}  // namespace

PROPERTY(RoundTrip) {
  std::string s(AnyBytes(src));
  std::vector<unsigned char> v(s.begin(), s.end());
  cs.note() << "bytes " << pbt::Hex(s);
  if (std::set<char>(s.begin(), s.end()).size() > 1)
    cs.nontrivial();
  std::string h(RefHex(s)), b(Ref64(s));
  REQUIRE(ms::hex::Encode(s) == h) << "got " << ms::hex::Encode(s);
  REQUIRE(ms::hex::Encode(v) == h);
  REQUIRE(ms::base64::Encode(s) == b) << "got " << ms::base64::Encode(s);
  REQUIRE(ms::base64::Encode(v) == b);
  REQUIRE(ms::hex::DecodeToString(h) == s);
  REQUIRE(ms::hex::DecodeToBytes(h) == v);
  REQUIRE(ms::base64::DecodeToString(b) == s);
  REQUIRE(ms::base64::DecodeToBytes(b) == v);
  REQUIRE_EQ(ms::hex::Substr(s), Abbreviated(h));
  REQUIRE_EQ(ms::hex::Substr(v), Abbreviated(h));
  REQUIRE_EQ(ms::base64::Substr(s), Abbreviated(b));
  REQUIRE_EQ(ms::base64::Substr(v), Abbreviated(b));
  typedef ms::detail::BoundedString<0, static_cast<std::size_t>(-1), std::string> Bounded;
  typedef ms::detail::BoundedString<0, static_cast<std::size_t>(-1), std::vector<unsigned char>>
      BoundedBytes;
  REQUIRE(ms::hex::Encode(Bounded(s)) == h);
  REQUIRE(ms::base64::Encode(Bounded(s)) == b);
  REQUIRE(ms::hex::Encode(BoundedBytes(v)) == h);
  REQUIRE(ms::base64::Encode(BoundedBytes(v)) == b);
  REQUIRE_EQ(ms::hex::Substr(Bounded(s)), Abbreviated(h));
  REQUIRE_EQ(ms::base64::Substr(BoundedBytes(v)), Abbreviated(b));
}

PROPERTY(AnyText) {
  // A text which may or may not be an encoding.
  std::string t;
  bool base64(src.boolean());
  switch (src.draw(4)) {
    case 0: {  // an encoding, changed somewhere
      std::string s(src.blob(60));
      t = base64 ? Ref64(s) : RefHex(s);
      std::size_t changes(1 + src.draw(3));
      for (std::size_t i(0); i < changes; ++i) {
        std::size_t at(src.draw(t.size() + 1));
        char c(src.boolean() ? static_cast<char>(src.draw(256)) : src.pick(std::vector<char>{
            '=', 'G', 'g', 'A', 'F', '/', ':', '@', '`', '[', '{', '+', ',', '.', ' ', '\n', '\0', 'x'}));
        switch (src.draw(3)) {
          case 0:
            t.insert(at, 1, c);
            break;
          case 1:
            if (at < t.size())
              t.erase(at, 1);
            break;
          default:
            // Near the end more often: that is where the padding is.
            if (!t.empty())
              t[src.boolean() && t.size() > 4 ? t.size() - 1 - src.draw(4) : at % t.size()] = c;
        }
      }
      break;
    }
    case 1: {  // right length, a wide alphabet
      t = src.bytes(src.draw(20) * (base64 ? 4 : 2));
      break;
    }
    case 2:
      t = src.text(src.draw(16) * (base64 ? 4 : 2), base64 ? k64 + "==========" : kHex + "AFG");
      break;
    default:
      t = src.blob(60);
  }
  cs.note() << (base64 ? "base64 " : "hex ") << pbt::Hex(t, 80);
  std::string expected;
  if (base64) {
    bool valid(RefUn64(t, expected));
    cs.label(valid ? "valid base64" : "malformed base64");
    if (!valid)
      cs.nontrivial();
    CheckDecode("base64", t, valid, expected, ms::base64::DecodeToString,
                ms::base64::DecodeToBytes);
  } else {
    bool valid(RefUnhex(t, expected));
    cs.label(valid ? "valid hex" : "malformed hex");
    if (!valid)
      cs.nontrivial();
    CheckDecode("hex", t, valid, expected, ms::hex::DecodeToString, ms::hex::DecodeToBytes);
  }
}

// Every pair of characters as hex, and every value of every position of a base64 quantum.
PROPERTY(AllPairs, pbt::Options{1, 1, false, 256}) {
  char first(static_cast<char>(src.draw(256)));
  cs.nontrivial();
  for (int i(0); i < 256; ++i) {
    std::string expected, t{first, static_cast<char>(i)};
    bool valid(RefUnhex(t, expected));
    CheckDecode("hex", t, valid, expected, ms::hex::DecodeToString, ms::hex::DecodeToBytes);
    for (auto quantum : {std::string{first, static_cast<char>(i), 'A', 'A'},
                         std::string{'A', first, static_cast<char>(i), 'A'},
                         std::string{'A', 'A', first, static_cast<char>(i)},
                         std::string{'A', first, 'A', static_cast<char>(i)}}) {
      for (auto around : {quantum, "AAAA" + quantum, quantum + "AAAA"}) {
        bool valid64(RefUn64(around, expected));
        CheckDecode("base64", around, valid64, expected, ms::base64::DecodeToString,
                    ms::base64::DecodeToBytes);
      }
    }
  }
  cs.note() << "all texts starting with character " << static_cast<int>(first);
}
