// C24: addresses and endpoints of both libraries, text and bytes.
#include "pbt.h"

#include <arpa/inet.h>

#include <cstring>
#include <string>
#include <vector>

#include "maidsafe/common/convert.h"
#include "maidsafe/common/serialisation/serialisation.h"
#include "maidsafe/common/serialisation/types/asio_and_boost_asio.h"

namespace ms = maidsafe;
namespace mv = maidsafe::convert;
namespace ba = boost::asio::ip;
namespace sa = asio::ip;
using Bytes = std::vector<unsigned char>;

namespace {

struct Raw {
  bool v4 = true;
  Bytes bytes;
  std::uint32_t scope = 0;
  std::uint16_t port = 0;
};

Raw Draw(pbt::Src& src, pbt::Case& cs) {
  Raw raw;
  raw.v4 = src.boolean();
  std::size_t size(raw.v4 ? 4 : 16);
  for (std::size_t i(0); i < size; ++i)
    raw.bytes.push_back(static_cast<unsigned char>(src.draw(256)));
  if (!raw.v4) {
    switch (src.draw(4)) {
      case 0:  // mapped
        std::memcpy(raw.bytes.data(), "\0\0\0\0\0\0\0\0\0\0\xff\xff", 12);
        break;
      case 1:  // compatible
        std::memset(raw.bytes.data(), 0, 12);
        break;
      case 2:  // link-local
        raw.bytes[0] = 0xfe;
        raw.bytes[1] = 0x80;
    }
    if (src.boolean())
      raw.scope = static_cast<std::uint32_t>(src.boolean() ? src.draw(10) : src.u64());
  }
  raw.port = static_cast<std::uint16_t>(src.boolean() ? src.u64() : src.draw(2) * 65535);
  cs.note() << pbt::Hex(raw.bytes) << '%' << raw.scope << ':' << raw.port << ' ';
  return raw;
}

template <typename Address, typename V4, typename V6>
Address Make(const Raw& raw) {
  if (raw.v4) {
    typename V4::bytes_type bytes;
    std::copy(raw.bytes.begin(), raw.bytes.end(), bytes.begin());
    return Address(V4(bytes));
  }
  typename V6::bytes_type bytes;
  std::copy(raw.bytes.begin(), raw.bytes.end(), bytes.begin());
  return Address(V6(bytes, raw.scope));
}

ba::address Boost(const Raw& raw) { return Make<ba::address, ba::address_v4, ba::address_v6>(raw); }
sa::address Asio(const Raw& raw) { return Make<sa::address, sa::address_v4, sa::address_v6>(raw); }

template <typename Address>
void Check(const Address& address, const Raw& raw, bool with_scope, const char* what) {
  REQUIRE_EQ(address.is_v4(), raw.v4) << what;
  REQUIRE_EQ(address.is_v6(), !raw.v4) << what;
  if (raw.v4) {
    auto bytes(address.to_v4().to_bytes());
    REQUIRE(Bytes(bytes.begin(), bytes.end()) == raw.bytes) << what << ": " << address.to_string();
  } else {
    auto bytes(address.to_v6().to_bytes());
    REQUIRE(Bytes(bytes.begin(), bytes.end()) == raw.bytes) << what << ": " << address.to_string();
    REQUIRE_EQ(address.to_v6().scope_id(), with_scope ? raw.scope : 0) << what;
  }
}

}  // namespace

PROPERTY(Conversions, (pbt::Options{3, 1})) {
  Raw raw(Draw(src, cs));
  cs.nontrivial();
  Check(mv::ToAsio(Boost(raw)), raw, true, "to Asio");
  Check(mv::ToBoost(Asio(raw)), raw, true, "to Boost");
  REQUIRE(mv::ToBoost(mv::ToAsio(Boost(raw))) == Boost(raw));
  REQUIRE(mv::ToAsio(mv::ToBoost(Asio(raw))) == Asio(raw));
  if (raw.v4) {
    Check(sa::address(mv::ToAsio(Boost(raw).to_v4())), raw, true, "IPv4 to Asio");
    Check(ba::address(mv::ToBoost(Asio(raw).to_v4())), raw, true, "IPv4 to Boost");
  } else {
    Check(sa::address(mv::ToAsio(Boost(raw).to_v6())), raw, true, "IPv6 to Asio");
    Check(ba::address(mv::ToBoost(Asio(raw).to_v6())), raw, true, "IPv6 to Boost");
  }
  ba::udp::endpoint boost_endpoint(Boost(raw), raw.port);
  sa::udp::endpoint asio_endpoint(Asio(raw), raw.port);
  auto to_asio(mv::ToAsio(boost_endpoint));
  auto to_boost(mv::ToBoost(asio_endpoint));
  Check(to_asio.address(), raw, true, "endpoint to Asio");
  Check(to_boost.address(), raw, true, "endpoint to Boost");
  REQUIRE_EQ(to_asio.port(), raw.port);
  REQUIRE_EQ(to_boost.port(), raw.port);
  REQUIRE(to_asio == asio_endpoint && to_boost == boost_endpoint) << "endpoints differ";
  // As the operating system writes it.
  char text[INET6_ADDRSTRLEN];
  inet_ntop(raw.v4 ? AF_INET : AF_INET6, raw.bytes.data(), text, sizeof(text));
  std::string converted(mv::ToAsio(Boost(raw)).to_string());
  REQUIRE(converted.compare(0, std::strlen(text), text) == 0) << converted << " is not " << text;
}

// Addresses are stored as their size and their bytes; the scope isn't stored.
PROPERTY(Stored, (pbt::Options{2, 1})) {
  std::size_t count(1 + src.size(4));
  std::vector<Raw> raws;
  std::vector<ba::address> boosts;
  std::vector<sa::address> asios;
  for (std::size_t i(0); i < count; ++i) {
    raws.push_back(Draw(src, cs));
    boosts.push_back(Boost(raws.back()));
    asios.push_back(Asio(raws.back()));
  }
  cs.nontrivial();
  Bytes from_boost(ms::Serialise(boosts)), from_asio(ms::Serialise(asios));
  REQUIRE(from_boost == from_asio) << "the libraries store differently";
  auto boosts_again(ms::Parse<std::vector<ba::address>>(from_asio));
  auto asios_again(ms::Parse<std::vector<sa::address>>(from_boost));
  REQUIRE_EQ(boosts_again.size(), count);
  REQUIRE_EQ(asios_again.size(), count);
  for (std::size_t i(0); i < count; ++i) {
    Check(boosts_again[i], raws[i], false, "stored with Asio, read with Boost");
    Check(asios_again[i], raws[i], false, "stored with Boost, read with Asio");
    // Into a variable that held another address.
    ba::address boost_address(boosts[src.index(count)]);
    sa::address asio_address(asios[src.index(count)]);
    ms::Parse(ms::Serialise(boosts[i]), boost_address);
    ms::Parse(ms::Serialise(asios[i]), asio_address);
    Check(boost_address, raws[i], false, "read over another");
    Check(asio_address, raws[i], false, "read over another");
    Bytes single(ms::Serialise(asios[i]));
    Bytes expected(1, static_cast<unsigned char>(raws[i].bytes.size()));
    expected.insert(expected.end(), raws[i].bytes.begin(), raws[i].bytes.end());
    REQUIRE(single == expected) << "stored as " << pbt::Hex(single);
  }
}

PROPERTY(MalformedStored, (pbt::Options{2, 1})) {
  Bytes bytes(1, static_cast<unsigned char>(src.boolean() ? 4 + 12 * src.draw(2) : src.draw(256)));
  Bytes rest(src.vec(src.size(20)));
  bytes.insert(bytes.end(), rest.begin(), rest.end());
  if (src.chance(1, 30))
    bytes.clear();
  cs.note() << pbt::Hex(bytes);
  bool good(!bytes.empty() && (bytes[0] == 4 || bytes[0] == 16) && bytes.size() > bytes[0]);
  if (!good)
    cs.nontrivial();
  for (bool boost : {false, true}) {
    bool parsed(false);
    try {
      if (boost)
        ms::Parse<ba::address>(bytes);
      else
        ms::Parse<sa::address>(bytes);
      parsed = true;
    } catch (const ms::common_error& e) {
      REQUIRE(e.code() == ms::make_error_code(ms::CommonErrors::parsing_error)) << e.what();
      REQUIRE(!bytes.empty() && bytes[0] != 4 && bytes[0] != 16) << "the wrong error";
    } catch (const cereal::Exception&) {
    }
    REQUIRE_EQ(parsed, good);
  }
}

PROPERTY(TextAndBytes, (pbt::Options{1, 1})) {
  Bytes bytes(src.vec(src.size(300)));
  cs.note() << pbt::Hex(bytes, 40);
  if (bytes.size() > 1)
    cs.nontrivial();
  std::string text(mv::ToString(bytes));
  REQUIRE_EQ(text.size(), bytes.size());
  REQUIRE(std::memcmp(text.data(), bytes.data(), bytes.size()) == 0);
  REQUIRE(mv::ToByteVector(text) == bytes);
  REQUIRE(mv::ToString(mv::ToByteVector(text)) == text);
}

PROPERTY(ErrorCodes, (pbt::Options{1, 1})) {
  int value(static_cast<int>(src.boolean() ? src.draw(140) : src.i64()));
  bool system(src.boolean());
  cs.note() << value << (system ? " system" : " generic");
  boost::system::error_code ec(value, system ? boost::system::system_category()
                                             : boost::system::generic_category());
  if (value != 0)
    cs.nontrivial();
  std::error_code result(mv::ToStd(ec));
  REQUIRE_EQ(result.value(), value);
  REQUIRE(result.category() == std::generic_category());
  REQUIRE_EQ(static_cast<bool>(result), value != 0);
}
