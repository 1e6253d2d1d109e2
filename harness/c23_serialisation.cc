// C23: serialisation, against an encoder of its own.
#include "pbt.h"

#include <cstring>
#include <map>
#include <sstream>
#include <string>
#include <tuple>
#include <utility>
#include <vector>

#include "boost/flyweight.hpp"
#include "boost/flyweight/no_locking.hpp"
#include "maidsafe/common/serialisation/serialisation.h"
#include "maidsafe/common/serialisation/types/asio_and_boost_asio.h"
#include "maidsafe/common/serialisation/types/boost_filesystem.h"
#include "maidsafe/common/serialisation/types/boost_flyweight.h"

namespace ms = maidsafe;
namespace fs = boost::filesystem;
using Bytes = std::vector<unsigned char>;
using Path = fs::path;

namespace {

// What BoostAsio and Asio addresses are made of.
using BoostAddress = boost::asio::ip::address;
using AsioAddress = asio::ip::address;
using Deep = std::map<std::string, std::vector<boost::optional<std::vector<std::uint16_t>>>>;

struct Record {
  std::int32_t number = 0;
  std::string text;
  Deep deep;
  BoostAddress address;
  Path path;

  template <typename Archive>
  void serialize(Archive& archive) {
    archive(number, text, deep, address, path);
  }
};

struct Split {
  std::vector<Record> records;
  AsioAddress address;

  template <typename Archive>
  void save(Archive& archive) const {
    archive(records);
    archive(address);
  }
  template <typename Archive>
  void load(Archive& archive) {
    archive(records);
    archive(address);
  }
};

// Drawing values.

template <typename T>
typename std::enable_if<std::is_arithmetic<T>::value>::type Draw(pbt::Src& src, T& t) {
  std::uint64_t raw(src.chance(1, 3) ? src.draw(3) : src.u64());
  if (std::is_floating_point<T>::value)
    t = static_cast<T>(static_cast<std::int64_t>(raw)) / 3;
  else
    t = static_cast<T>(raw);
}

void Draw(pbt::Src& src, std::string& s) {
  Bytes bytes(src.vec(src.chance(1, 40) ? src.draw(3000) : src.size(30)));
  s.assign(bytes.begin(), bytes.end());
}

template <typename T>
void Draw(pbt::Src& src, std::vector<T>& v);
template <typename T>
void Draw(pbt::Src& src, boost::optional<T>& o);
template <typename K, typename V>
void Draw(pbt::Src& src, std::map<K, V>& m);

void Draw(pbt::Src& src, Path& p) {
  std::string s;
  Draw(src, s);
  p = src.boolean() ? s : "/some/" + s;
}

template <typename V4, typename V6, typename Address>
void DrawAddress(pbt::Src& src, Address& a) {
  if (src.boolean()) {
    typename V4::bytes_type bytes;
    for (auto& b : bytes)
      b = static_cast<unsigned char>(src.draw(256));
    a = V4(bytes);
  } else {
    typename V6::bytes_type bytes;
    for (auto& b : bytes)
      b = static_cast<unsigned char>(src.draw(256));
    if (src.chance(1, 3))  // an IPv4 address mapped to IPv6 stays one
      std::memcpy(bytes.data(), "\0\0\0\0\0\0\0\0\0\0\xff\xff", 12);
    a = V6(bytes);
  }
}

void Draw(pbt::Src& src, BoostAddress& a) {
  DrawAddress<boost::asio::ip::address_v4, boost::asio::ip::address_v6>(src, a);
}
void Draw(pbt::Src& src, AsioAddress& a) {
  DrawAddress<asio::ip::address_v4, asio::ip::address_v6>(src, a);
}

void Draw(pbt::Src& src, Record& r) {
  Draw(src, r.number);
  Draw(src, r.text);
  Draw(src, r.deep);
  Draw(src, r.address);
  Draw(src, r.path);
}

void Draw(pbt::Src& src, Split& s) {
  Draw(src, s.records);
  Draw(src, s.address);
}

template <typename T>
void Draw(pbt::Src& src, std::vector<T>& v) {
  v.clear();
  std::size_t count(src.size(std::is_arithmetic<T>::value ? 40 : 6));
  for (std::size_t i(0); i < count; ++i) {
    T t{};
    Draw(src, t);
    v.push_back(t);
  }
}

template <typename T>
void Draw(pbt::Src& src, boost::optional<T>& o) {
  if (src.boolean()) {
    T t{};
    Draw(src, t);
    o = t;
  } else {
    o = boost::none;
  }
}

template <typename K, typename V>
void Draw(pbt::Src& src, std::map<K, V>& m) {
  m.clear();
  std::size_t count(src.size(6));
  for (std::size_t i(0); i < count; ++i) {
    K k{};
    Draw(src, k);
    Draw(src, m[k]);
  }
}

// The expected encoding.

template <typename T>
typename std::enable_if<std::is_arithmetic<T>::value>::type Encode(Bytes& out, const T& t) {
  unsigned char raw[sizeof(T)];
  std::memcpy(raw, &t, sizeof(T));
  out.insert(out.end(), raw, raw + sizeof(T));
}

void Encode(Bytes& out, const std::string& s) {
  Encode(out, static_cast<std::uint64_t>(s.size()));
  out.insert(out.end(), s.begin(), s.end());
}

template <typename T>
void Encode(Bytes& out, const std::vector<T>& v);
template <typename T>
void Encode(Bytes& out, const boost::optional<T>& o);
template <typename K, typename V>
void Encode(Bytes& out, const std::map<K, V>& m);

void Encode(Bytes& out, const Path& p) { Encode(out, p.native()); }

template <typename Address>
void EncodeAddress(Bytes& out, const Address& a) {
  if (a.is_v4()) {
    auto bytes(a.to_v4().to_bytes());
    out.push_back(4);
    out.insert(out.end(), bytes.begin(), bytes.end());
  } else {
    auto bytes(a.to_v6().to_bytes());
    out.push_back(16);
    out.insert(out.end(), bytes.begin(), bytes.end());
  }
}

void Encode(Bytes& out, const BoostAddress& a) { EncodeAddress(out, a); }
void Encode(Bytes& out, const AsioAddress& a) { EncodeAddress(out, a); }

void Encode(Bytes& out, const Record& r) {
  Encode(out, r.number);
  Encode(out, r.text);
  Encode(out, r.deep);
  Encode(out, r.address);
  Encode(out, r.path);
}

void Encode(Bytes& out, const Split& s) {
  Encode(out, s.records);
  Encode(out, s.address);
}

template <typename T>
void Encode(Bytes& out, const std::vector<T>& v) {
  Encode(out, static_cast<std::uint64_t>(v.size()));
  for (const auto& t : v)
    Encode(out, static_cast<const T&>(t));
}

template <typename T>
void Encode(Bytes& out, const boost::optional<T>& o) {
  Encode(out, static_cast<bool>(o));
  if (o)
    Encode(out, *o);
}

template <typename K, typename V>
void Encode(Bytes& out, const std::map<K, V>& m) {
  Encode(out, static_cast<std::uint64_t>(m.size()));
  for (const auto& pair : m) {
    Encode(out, pair.first);
    Encode(out, pair.second);
  }
}

void EncodeAll(Bytes&) {}
template <typename T, typename... Ts>
void EncodeAll(Bytes& out, const T& t, const Ts&... ts) {
  Encode(out, t);
  EncodeAll(out, ts...);
}

Bytes ToBytes(const std::string& s) { return Bytes(s.begin(), s.end()); }

template <typename... Ts>
struct Message {
  using Tuple = std::tuple<Ts...>;
  using Indices = std::index_sequence_for<Ts...>;

  template <std::size_t... I>
  static void Fill(pbt::Src& src, Tuple& t, std::index_sequence<I...>) {
    int dummy[] = {(Draw(src, std::get<I>(t)), 0)...};
    static_cast<void>(dummy);
  }
  template <std::size_t... I>
  static Bytes Expected(const Tuple& t, std::index_sequence<I...>) {
    Bytes out;
    EncodeAll(out, std::get<I>(t)...);
    return out;
  }
  static Bytes Expected(const Tuple& t) { return Expected(t, Indices()); }

  template <std::size_t... I>
  static void Check(pbt::Src& src, pbt::Case& cs, std::index_sequence<I...> all) {
    // Several messages, through every interface.
    std::size_t count(1 + src.size(3));
    std::vector<Tuple> messages(count);
    std::vector<Bytes> expected;
    Bytes together;
    for (auto& message : messages) {
      Fill(src, message, all);
      expected.push_back(Expected(message));
      together.insert(together.end(), expected.back().begin(), expected.back().end());
      cs.note() << pbt::Hex(expected.back(), 40) << ' ';
    }
    if (together.size() > 8)
      cs.nontrivial();
    ms::OutputVectorStream out;
    std::stringstream stream, own_stream;
    Bytes so_far;
    for (std::size_t m(0); m < count; ++m) {
      const Tuple& t(messages[m]);
      REQUIRE(ms::Serialise(std::get<I>(t)...) == expected[m]) << "Serialise";
      REQUIRE(ToBytes(ms::ConvertToString(std::get<I>(t)...)) == expected[m]) << "ConvertToString";
      so_far.insert(so_far.end(), expected[m].begin(), expected[m].end());
      REQUIRE(ms::Serialise(out, std::get<I>(t)...) == so_far) << "Serialise to a stream";
      ms::ConvertToStream(stream, std::get<I>(t)...);
      REQUIRE(ToBytes(ms::ConvertToString(own_stream, std::get<I>(t)...)) == so_far)
          << "ConvertToString with a stream";
    }
    REQUIRE(ToBytes(stream.str()) == together) << "ConvertToStream";

    ms::InputVectorStream in(together);
    for (std::size_t m(0); m < count; ++m) {
      Tuple parsed;
      ms::Parse(expected[m], std::get<I>(parsed)...);
      REQUIRE(Expected(parsed) == expected[m]) << "Parse";
      Tuple second;
      ms::Parse(in, std::get<I>(second)...);
      REQUIRE(Expected(second) == expected[m]) << "Parse of a stream, message " << m;
      Tuple third;
      ms::ConvertFromString(std::string(expected[m].begin(), expected[m].end()),
                            std::get<I>(third)...);
      REQUIRE(Expected(third) == expected[m]) << "ConvertFromString";
      Tuple fourth;
      ms::ConvertFromStream(stream, std::get<I>(fourth)...);
      REQUIRE(Expected(fourth) == expected[m]) << "ConvertFromStream, message " << m;
    }
    if (together.empty())
      return;
    // Nothing is left.
    Tuple none;
    bool failed(false);
    try {
      ms::Parse(in, std::get<I>(none)...);
    } catch (const std::exception&) {
      failed = true;
    }
    REQUIRE(failed) << "one message more than there are";

    // Parts.
    const Bytes& whole(expected[src.index(count)]);
    for (unsigned i(0); i < 4 && !whole.empty(); ++i) {
      Bytes prefix(whole);
      prefix.resize(src.index(whole.size()));
      failed = false;
      try {
        if (src.boolean())
          ms::Parse(prefix, std::get<I>(none)...);
        else
          ms::ConvertFromString(std::string(prefix.begin(), prefix.end()), std::get<I>(none)...);
      } catch (const std::exception&) {
        failed = true;
      }
      REQUIRE(failed) << "the first " << prefix.size() << " of " << whole.size() << " bytes parsed";
    }
    Bytes longer(whole);
    longer.resize(longer.size() + src.draw(5), 1);
    Tuple parsed;
    ms::Parse(longer, std::get<I>(parsed)...);
    REQUIRE(Expected(parsed) == whole) << "with more after it";
  }

  template <std::size_t... I>
  static void Garbage(pbt::Src& src, pbt::Case& cs, std::index_sequence<I...> all) {
    Bytes bytes;
    if (src.chance(1, 4)) {
      bytes = src.vec(src.size(80));
    } else {
      Tuple t;
      Fill(src, t, all);
      bytes = Expected(t);
      std::size_t changes(1 + src.draw(3));
      for (std::size_t c(0); c < changes && !bytes.empty(); ++c) {
        std::size_t at(src.index(bytes.size()));
        switch (src.draw(4)) {
          case 0:
            bytes[at] ^= static_cast<unsigned char>(1 << src.draw(8));
            break;
          case 1:
            bytes[at] = static_cast<unsigned char>(src.draw(4));
            break;
          case 2:
            bytes.erase(bytes.begin() + static_cast<std::ptrdiff_t>(at));
            break;
          default:
            bytes.insert(bytes.begin() + static_cast<std::ptrdiff_t>(at), 1 + src.draw(9), 0xff);
        }
      }
    }
    cs.note() << pbt::Hex(bytes, 200);
    cs.nontrivial();
    Tuple t, u;
    bool good(false), good2(false);
    try {
      ms::Parse(bytes, std::get<I>(t)...);
      good = true;
    } catch (const std::exception&) {
    }
    try {
      ms::ConvertFromString(std::string(bytes.begin(), bytes.end()), std::get<I>(u)...);
      good2 = true;
    } catch (const std::exception&) {
    }
    REQUIRE_EQ(good, good2);
    if (good) {
      cs.label("parsed");
      REQUIRE(Expected(t) == Expected(u)) << "parsed differently from bytes and a string";
      REQUIRE(ms::Serialise(std::get<I>(t)...) == Expected(t)) << "serialised again";
    }
  }

  static void Run(pbt::Src& src, pbt::Case& cs, bool garbage) {
    if (garbage)
      Garbage(src, cs, Indices());
    else
      Check(src, cs, Indices());
  }
};

template <typename T>
void Single(pbt::Src& src, pbt::Case& cs) {
  T value{}, next{};
  Draw(src, value);
  Draw(src, next);
  Bytes expected, expected_next;
  Encode(expected, value);
  Encode(expected_next, next);
  cs.note() << pbt::Hex(expected, 60);
  if (expected.size() > 1)
    cs.nontrivial();
  auto same([](const T& t, const Bytes& e) {
    Bytes encoded;
    Encode(encoded, t);
    return encoded == e;
  });
  ms::SerialisedData data(ms::Serialise(value));
  REQUIRE(data == expected) << "Serialise";
  REQUIRE(same(ms::Parse<T>(data), expected)) << "Parse<T>";
  std::string text(ms::ConvertToString(value));
  REQUIRE(same(ms::ConvertFromString<T>(text), expected)) << "ConvertFromString<T>";
  T again{};
  T& result(ms::ConvertFromString(text, again));
  REQUIRE(&result == &again && same(again, expected)) << "ConvertFromString to a value";
  std::stringstream stream;
  ms::ConvertToStream(ms::ConvertToStream(stream, value), next);
  REQUIRE(same(ms::ConvertFromStream<T>(stream), expected)) << "ConvertFromStream<T>";
  T second{};
  REQUIRE(same(ms::ConvertFromStream(stream, second), expected_next)) << "the second value";
  ms::OutputVectorStream out;
  ms::ConvertToVectorStream(ms::ConvertToVectorStream(out, value), next);
  ms::InputVectorStream in(out.vector());
  REQUIRE(same(ms::Parse<T>(in), expected)) << "Parse<T> of a stream";
  REQUIRE(same(ms::Parse<T>(in), expected_next)) << "the second value of a stream";
}

void Messages(pbt::Src& src, pbt::Case& cs, bool garbage) {
  switch (src.draw(7)) {
    case 0:
      return Message<bool, char, std::int8_t, std::uint8_t, std::int16_t, std::uint16_t,
                     std::int32_t, std::uint32_t, std::int64_t, std::uint64_t, float,
                     double>::Run(src, cs, garbage);
    case 1:
      return Message<std::string, std::vector<unsigned char>, std::vector<std::string>>::Run(
          src, cs, garbage);
    case 2:
      return Message<Deep, std::uint8_t>::Run(src, cs, garbage);
    case 3:
      return Message<BoostAddress, AsioAddress, Path>::Run(src, cs, garbage);
    case 4:
      return Message<std::vector<AsioAddress>, boost::optional<BoostAddress>,
                     std::map<std::int32_t, Path>>::Run(src, cs, garbage);
    case 5:
      return Message<Record, std::vector<std::vector<std::int32_t>>>::Run(src, cs, garbage);
    default:
      return Message<std::vector<double>, Split, std::vector<bool>>::Run(src, cs, garbage);
  }
}

}  // namespace

PROPERTY(RoundTrips, (pbt::Options{4, 2})) { Messages(src, cs, false); }

PROPERTY(MalformedInput, (pbt::Options{3, 1})) { Messages(src, cs, true); }

PROPERTY(SingleValues, (pbt::Options{2, 1})) {
  switch (src.draw(9)) {
    case 0:
      return Single<std::int32_t>(src, cs);
    case 1:
      return Single<std::string>(src, cs);
    case 2:
      return Single<std::vector<unsigned char>>(src, cs);
    case 3:
      return Single<Deep>(src, cs);
    case 4:
      return Single<BoostAddress>(src, cs);
    case 5:
      return Single<AsioAddress>(src, cs);
    case 6:
      return Single<Path>(src, cs);
    case 7:
      return Single<Record>(src, cs);
    default:
      return Single<Split>(src, cs);
  }
}

// Flyweights need archives which register plain pointers, as those of the cereal they were written
// for did.
class FlyOutput : public cereal::OutputArchive<FlyOutput> {
 public:
  explicit FlyOutput(Bytes& out) : cereal::OutputArchive<FlyOutput>(this), out_(out) {}
  void saveBinary(const void* data, std::size_t size) {
    const unsigned char* bytes(static_cast<const unsigned char*>(data));
    out_.insert(out_.end(), bytes, bytes + size);
  }
  std::uint32_t registerSharedPointer(const void* address) {
    if (!address)
      return 0;
    auto it(ids_.find(address));
    if (it != ids_.end())
      return it->second;
    std::uint32_t id(static_cast<std::uint32_t>(ids_.size() + 1));
    ids_[address] = id;
    return id | cereal::detail::msb_32bit;
  }

 private:
  Bytes& out_;
  std::map<const void*, std::uint32_t> ids_;
};

class FlyInput : public cereal::InputArchive<FlyInput> {
 public:
  explicit FlyInput(const Bytes& in) : cereal::InputArchive<FlyInput>(this), in_(in), at_(0) {}
  void loadBinary(void* data, std::size_t size) {
    if (size > in_.size() - at_)
      throw cereal::Exception("too short");
    std::memcpy(data, in_.data() + at_, size);
    at_ += size;
  }

 private:
  const Bytes& in_;
  std::size_t at_;
};

template <typename T>
typename std::enable_if<std::is_arithmetic<T>::value>::type CEREAL_SAVE_FUNCTION_NAME(
    FlyOutput& archive, const T& t) {
  archive.saveBinary(std::addressof(t), sizeof(t));
}
template <typename T>
typename std::enable_if<std::is_arithmetic<T>::value>::type CEREAL_LOAD_FUNCTION_NAME(
    FlyInput& archive, T& t) {
  archive.loadBinary(std::addressof(t), sizeof(t));
}
template <typename Archive, typename T>
CEREAL_ARCHIVE_RESTRICT(FlyInput, FlyOutput)
CEREAL_SERIALIZE_FUNCTION_NAME(Archive& archive, cereal::NameValuePair<T>& t) {
  archive(t.value);
}
template <typename Archive, typename T>
CEREAL_ARCHIVE_RESTRICT(FlyInput, FlyOutput)
CEREAL_SERIALIZE_FUNCTION_NAME(Archive& archive, cereal::SizeTag<T>& t) {
  archive(t.size);
}
template <typename T>
void CEREAL_SAVE_FUNCTION_NAME(FlyOutput& archive, const cereal::BinaryData<T>& data) {
  archive.saveBinary(data.data, static_cast<std::size_t>(data.size));
}
template <typename T>
void CEREAL_LOAD_FUNCTION_NAME(FlyInput& archive, cereal::BinaryData<T>& data) {
  archive.loadBinary(data.data, static_cast<std::size_t>(data.size));
}

CEREAL_SETUP_ARCHIVE_TRAITS(FlyInput, FlyOutput)

namespace {

using Fly = boost::flyweight<std::string>;
using FlyNumber = boost::flyweight<std::int32_t, boost::flyweights::no_locking>;

Bytes ExpectedFlies(const std::vector<std::string>& values) {
  Bytes out;
  std::map<std::string, std::uint32_t> ids;
  Encode(out, static_cast<std::uint64_t>(values.size()));
  for (const auto& value : values) {
    auto it(ids.find(value));
    if (it != ids.end()) {
      Encode(out, it->second);
    } else {
      std::uint32_t id(static_cast<std::uint32_t>(ids.size() + 1));
      ids[value] = id;
      Encode(out, id | 0x80000000u);
      Encode(out, value);
    }
  }
  return out;
}

}  // namespace

PROPERTY(Flyweights, (pbt::Options{2, 1})) {
  std::vector<std::string> pool(1 + src.draw(4)), values(src.size(12));
  for (auto& s : pool)
    Draw(src, s);
  for (auto& s : values)
    s = pool[src.index(pool.size())];
  if (values.size() > 2)
    cs.nontrivial();
  Bytes bytes, expected(ExpectedFlies(values));
  {
    std::vector<Fly> flies(values.begin(), values.end());
    FlyOutput output(bytes);
    output(flies);
  }
  cs.note() << pbt::Hex(expected, 60);
  REQUIRE(bytes == expected) << "saved " << pbt::Hex(bytes, 60);
  std::vector<Fly> loaded;
  FlyInput input(bytes);
  input(loaded);
  REQUIRE_EQ(loaded.size(), values.size());
  for (std::size_t i(0); i < values.size(); ++i)
    REQUIRE(loaded[i].get() == values[i]) << "value " << i;
  // Of two kinds together.
  std::vector<FlyNumber> numbers;
  std::vector<std::int32_t> plain;
  for (std::size_t i(0); i < values.size(); ++i) {
    plain.push_back(static_cast<std::int32_t>(src.draw(4)));
    numbers.emplace_back(plain.back());
  }
  Bytes both;
  {
    std::vector<Fly> flies(values.begin(), values.end());
    FlyOutput output(both);
    for (std::size_t i(0); i < flies.size(); ++i)
      output(numbers[i], flies[i]);
  }
  FlyInput both_input(both);
  for (std::size_t i(0); i < values.size(); ++i) {
    Fly fly;
    FlyNumber number;
    both_input(number, fly);
    REQUIRE(fly.get() == values[i]) << "value " << i << " of both";
    REQUIRE_EQ(number.get(), plain[i]);
  }
  bytes.resize(src.index(bytes.size()));
  bool failed(false);
  try {
    std::vector<Fly> none;
    FlyInput cut(bytes);
    cut(none);
  } catch (const std::exception&) {
    failed = true;
  }
  REQUIRE(failed) << "a prefix was loaded";
}

// What the bytes say, if anything.
bool DecodeFlies(const Bytes& bytes, std::vector<std::string>& values) {
  std::size_t at(0);
  auto number([&](std::size_t size, std::uint64_t& value) {
    value = 0;
    if (bytes.size() - at < size)
      return false;
    for (std::size_t i(0); i < size; ++i)
      value |= static_cast<std::uint64_t>(bytes[at + i]) << (8 * i);
    at += size;
    return true;
  });
  std::uint64_t count, id, size;
  if (!number(8, count) || count > bytes.size())
    return false;
  std::map<std::uint64_t, std::string> known;
  for (; count != 0; --count) {
    if (!number(4, id))
      return false;
    if (id & 0x80000000u) {
      if (!number(8, size) || size > bytes.size() - at)
        return false;
      values.emplace_back(bytes.begin() + static_cast<std::ptrdiff_t>(at),
                          bytes.begin() + static_cast<std::ptrdiff_t>(at + size));
      at += size;
      if (id & 0x7fffffffu)  // 0 can't be referred to
        known[id & 0x7fffffffu] = values.back();
    } else {
      auto it(known.find(id));
      if (it == known.end())
        return false;
      values.push_back(it->second);
    }
  }
  return true;
}

PROPERTY(MalformedFlyweights, (pbt::Options{2, 1})) {
  std::vector<std::string> values(1 + src.size(6));
  for (auto& s : values)
    s = src.text(src.draw(3), "ab");
  Bytes bytes(ExpectedFlies(values));
  std::size_t changes(1 + src.draw(2));
  for (std::size_t c(0); c < changes; ++c) {
    std::size_t at(src.index(bytes.size()));
    bytes[at] = static_cast<unsigned char>(src.boolean() ? src.draw(4) : bytes[at] ^ 0x80);
  }
  if (src.chance(1, 6))
    bytes.resize(src.index(bytes.size()));
  cs.note() << pbt::Hex(bytes, 200);
  cs.nontrivial();
  std::vector<std::string> expected;
  const bool good(DecodeFlies(bytes, expected));
  try {
    std::vector<Fly> flies;
    FlyInput input(bytes);
    input(flies);
    REQUIRE(good) << "accepted as " << flies.size() << " values";
    REQUIRE_EQ(flies.size(), expected.size());
    for (std::size_t i(0); i < flies.size(); ++i)
      REQUIRE_EQ(flies[i].get(), expected[i]) << "value " << i;
    cs.label("accepted");
    return;
  } catch (const cereal::Exception&) {
    cs.label("refused");
  } catch (const std::length_error&) {
  } catch (const std::bad_alloc&) {
  }
  REQUIRE(!good) << "refused " << expected.size() << " values";
}
