// C10: stored data types.
#include "pbt.h"

#include <cstring>
#include <memory>
#include <set>
#include <string>
#include <tuple>
#include <vector>

#include "cryptopp/sha.h"

#include "maidsafe/common/crypto.h"
#include "maidsafe/common/data_types/data.h"
#include "maidsafe/common/data_types/immutable_data.h"
#include "maidsafe/common/data_types/mutable_data.h"
#include "maidsafe/common/serialisation/serialisation.h"

namespace ms = maidsafe;
using Bytes = std::vector<unsigned char>;

namespace {

Bytes Sha512(const Bytes& in) {
  Bytes out(64);
  CryptoPP::SHA512().CalculateDigest(out.data(), in.data(), in.size());
  return out;
}

Bytes Value(pbt::Src& src) { return src.vec(1 + src.size(1500)); }

template <typename F>
bool Throws(ms::CommonErrors error, F f) {
  try {
    f();
  } catch (const ms::common_error& e) {
    return e.code() == ms::make_error_code(error);
  }
  return false;
}

template <typename T>
void RequireData(const T& data, const Bytes& name, const Bytes& value, std::uint32_t type) {
  REQUIRE(data.IsInitialised());
  REQUIRE(data.Name().string() == name) << "wrong name";
  REQUIRE(data.Value().string() == value) << "wrong value";
  REQUIRE_EQ(data.TypeId().data, type);
  REQUIRE(data.NameAndType().name.string() == name) << "wrong name in key";
  REQUIRE_EQ(data.NameAndType().type_id.data, type);
}

template <typename T>
void RequireUninitialised(const T& data) {
  REQUIRE(!data.IsInitialised());
  REQUIRE(Throws(ms::CommonErrors::uninitialised, [&] { data.Name(); }));
  REQUIRE(Throws(ms::CommonErrors::uninitialised, [&] { data.Value(); }));
  REQUIRE(Throws(ms::CommonErrors::uninitialised, [&] { data.TypeId(); }));
  REQUIRE(Throws(ms::CommonErrors::uninitialised, [&] { data.NameAndType(); }));
  REQUIRE(Throws(ms::CommonErrors::uninitialised, [&] { ms::Serialise(data); }));
}

// The serialised form: length-prefixed name, length-prefixed value.
struct Parsed {
  bool complete = false;
  Bytes name, value;
};

bool Take(const Bytes& in, std::size_t& at, Bytes& out) {
  if (in.size() - at < 8)
    return false;
  std::uint64_t size;
  std::memcpy(&size, &in[at], 8);
  at += 8;
  if (size > in.size() - at)
    return false;
  out.assign(in.begin() + at, in.begin() + at + size);
  at += size;
  return true;
}

Parsed Model(const Bytes& in) {
  Parsed parsed;
  std::size_t at(0);
  parsed.complete = Take(in, at, parsed.name) && Take(in, at, parsed.value) &&
                    parsed.name.size() == 64 && !parsed.value.empty();
  return parsed;
}

Bytes Corrupt(pbt::Src& src, Bytes in, pbt::Case& cs) {
  std::size_t times(1 + src.draw(2));
  for (std::size_t i(0); i < times; ++i) {
    switch (src.draw(6)) {
      case 0:
        if (!in.empty()) {
          std::size_t at(src.index(in.size()));
          in[at] ^= 1u << src.draw(8);
          cs.note() << " flip " << at;
        }
        break;
      case 1:
        in.resize(src.index(in.size() + 1));
        cs.note() << " cut to " << in.size();
        break;
      case 2: {
        Bytes extra(src.vec(1 + src.draw(20)));
        in.insert(in.end(), extra.begin(), extra.end());
        cs.note() << " extend";
        break;
      }
      case 3:
        if (in.size() >= 80) {  // another value (of the same or another size) under the same name
          Bytes value(Value(src));
          std::uint64_t size(value.size());
          in.resize(72);
          in.insert(in.end(), reinterpret_cast<unsigned char*>(&size),
                    reinterpret_cast<unsigned char*>(&size) + 8);
          in.insert(in.end(), value.begin(), value.end());
          cs.note() << " new value";
        }
        break;
      case 4:
        if (in.size() >= 72) {  // another name
          Bytes name(src.vec(64));
          std::copy(name.begin(), name.end(), in.begin() + 8);
          cs.note() << " new name";
        }
        break;
      default:
        if (in.size() >= 8) {  // another length
          std::size_t at(src.boolean() && in.size() >= 80 ? 72 : 0);
          std::uint64_t size(src.u64());
          std::memcpy(&in[at], &size, 8);
          cs.note() << " size at " << at << " = " << size;
        }
    }
  }
  return in;
}

PROPERTY(ImmutableNameIsHash, (pbt::Options{3})) {
  Bytes value(Value(src));
  cs.note() << value.size() << " bytes " << pbt::Hex(value, 8);
  if (value.size() > 1)
    cs.nontrivial();
  ms::ImmutableData data{ms::NonEmptyString(value)};
  Bytes name(Sha512(value));
  RequireData(data, name, value, 0);
  ms::SerialisedData serialised(ms::Serialise(data));
  RequireData(ms::Parse<ms::ImmutableData>(serialised), name, value, 0);
  ms::ImmutableData copy(data), assigned, into;
  RequireUninitialised(assigned);
  assigned = copy;
  RequireData(assigned, name, value, 0);
  ms::ImmutableData moved(std::move(copy)), move_assigned;
  RequireData(moved, name, value, 0);
  move_assigned = std::move(moved);
  RequireData(move_assigned, name, value, 0);
  ms::Parse(serialised, into);
  RequireData(into, name, value, 0);
  REQUIRE(ms::Serialise(assigned) == serialised);
  REQUIRE(Throws(ms::CommonErrors::uninitialised, [] { ms::ImmutableData x{ms::NonEmptyString()}; }));
  // Through a pointer to the base class.
  std::unique_ptr<ms::Data> base(new ms::ImmutableData(data));
  ms::SerialisedData as_base(ms::Serialise(base));
  auto parsed(ms::Parse<std::unique_ptr<ms::Data>>(as_base));
  auto derived(dynamic_cast<ms::ImmutableData*>(parsed.get()));
  REQUIRE(derived != nullptr) << "parsed as another type";
  RequireData(*derived, name, value, 0);
}

PROPERTY(MutableKeepsNameAndValue, (pbt::Options{3})) {
  Bytes value(Value(src)), name(src.vec(64));
  cs.note() << pbt::Hex(name, 4) << " -> " << value.size() << " bytes";
  if (value.size() > 1)
    cs.nontrivial();
  ms::MutableData data{ms::Identity(name), ms::NonEmptyString(value)};
  RequireData(data, name, value, 1);
  ms::SerialisedData serialised(ms::Serialise(data));
  RequireData(ms::Parse<ms::MutableData>(serialised), name, value, 1);
  ms::MutableData copy(data), assigned, into;
  RequireUninitialised(assigned);
  assigned = copy;
  RequireData(assigned, name, value, 1);
  ms::MutableData moved(std::move(copy)), move_assigned;
  RequireData(moved, name, value, 1);
  move_assigned = std::move(moved);
  RequireData(move_assigned, name, value, 1);
  ms::Parse(serialised, into);
  RequireData(into, name, value, 1);
  REQUIRE(ms::Serialise(assigned) == serialised);
  REQUIRE(Throws(ms::CommonErrors::uninitialised,
                 [&] { ms::MutableData x{ms::Identity{name}, ms::NonEmptyString()}; }));
  REQUIRE(Throws(ms::CommonErrors::uninitialised,
                 [&] { ms::MutableData x{ms::Identity(), ms::NonEmptyString(value)}; }));
  std::unique_ptr<ms::Data> base(new ms::MutableData(data));
  auto parsed(ms::Parse<std::unique_ptr<ms::Data>>(ms::Serialise(base)));
  auto derived(dynamic_cast<ms::MutableData*>(parsed.get()));
  REQUIRE(derived != nullptr) << "parsed as another type";
  RequireData(*derived, name, value, 1);
  // The two types share the layout: content decides.
  bool matches(name == Sha512(value));
  bool parsed_as_immutable(!Throws(ms::CommonErrors::parsing_error, [&] {
    ms::Parse<ms::ImmutableData>(serialised);
  }));
  REQUIRE_EQ(parsed_as_immutable, matches);
}

// Corrupted chunks are taken only if they are right, and then as what they say.
PROPERTY(CorruptedForms, (pbt::Options{5})) {
  Bytes value(Value(src));
  bool immutable(src.chance(2, 3));
  Bytes original;
  if (immutable)
    original = ms::Serialise(ms::ImmutableData(ms::NonEmptyString(value)));
  else
    original = ms::Serialise(ms::MutableData(ms::Identity(src.vec(64)), ms::NonEmptyString(value)));
  cs.note() << (immutable ? "immutable " : "mutable ") << value.size() << " bytes:";
  Bytes changed(Corrupt(src, original, cs));
  if (changed != original)
    cs.nontrivial();
  Parsed model(Model(changed));
  bool as_immutable(src.boolean());
  cs.note() << (as_immutable ? ", as immutable" : ", as mutable");
  bool good(model.complete && (!as_immutable || Sha512(model.value) == model.name));
  cs.label(good ? "acceptable" : "unacceptable");
  try {
    if (as_immutable)
      RequireData(ms::Parse<ms::ImmutableData>(changed), model.name, model.value, 0);
    else
      RequireData(ms::Parse<ms::MutableData>(changed), model.name, model.value, 1);
    REQUIRE(good) << "accepted";
  } catch (const ms::common_error& e) {
    REQUIRE(!good) << "rejected: " << e.what();
    REQUIRE(e.code() == ms::make_error_code(ms::CommonErrors::parsing_error)) << e.what();
  }
}

// Nothing offered as a polymorphic item gives an item that breaks the rules.
PROPERTY(CorruptedPolymorphicForms, (pbt::Options{3})) {
  Bytes value(Value(src));
  std::unique_ptr<ms::Data> base;
  if (src.chance(2, 3))
    base.reset(new ms::ImmutableData(ms::NonEmptyString(value)));
  else
    base.reset(new ms::MutableData(ms::Identity(src.vec(64)), ms::NonEmptyString(value)));
  Bytes bytes(ms::Serialise(base));
  std::size_t header(bytes.size() - 80 - value.size());
  cs.note() << bytes.size() << " bytes:";
  if (src.chance(1, 5)) {
    bytes = src.vec(src.size(200));
    cs.note() << " random";
  } else if (src.boolean() && header < bytes.size()) {
    Bytes tail(Corrupt(src, Bytes(bytes.begin() + header, bytes.end()), cs));
    bytes.resize(header);
    bytes.insert(bytes.end(), tail.begin(), tail.end());
  } else {
    std::size_t at(src.index(bytes.size()));
    bytes[at] ^= 1u << src.draw(8);
    cs.note() << " flip " << at;
  }
  cs.nontrivial();
  try {
    auto parsed(ms::Parse<std::unique_ptr<ms::Data>>(bytes));
    if (auto data = dynamic_cast<ms::ImmutableData*>(parsed.get())) {
      cs.label("immutable");
      REQUIRE(data->IsInitialised());
      REQUIRE(data->Name().string() == Sha512(data->Value().string())) << "name isn't the hash";
    } else if (auto data = dynamic_cast<ms::MutableData*>(parsed.get())) {
      cs.label("mutable");
      REQUIRE(data->IsInitialised());
      REQUIRE_EQ(data->Name().string().size(), 64u);
      REQUIRE(!data->Value().string().empty());
    } else {
      cs.label("null");
    }
  } catch (const pbt::Failure&) {
    throw;
  } catch (const std::exception&) {
    cs.label("rejected");
  }
}

// (name, type) keys are ordered by name, then type.
PROPERTY(KeyOrder, (pbt::Options{4})) {
  using Key = ms::Data::NameAndTypeId;
  struct Model {
    bool initialised;
    Bytes name;
    std::uint32_t type;
    std::tuple<bool, Bytes, std::uint32_t> Rank() const {
      return std::make_tuple(initialised, name, type);
    }
  };
  std::vector<Bytes> names;
  for (int i(0); i < 3; ++i) {
    Bytes name(64, src.boolean() ? 0 : 0xff);
    if (i && src.boolean())
      name = names.back();
    name[src.boolean() ? 63 : src.index(64)] ^= static_cast<unsigned char>(src.draw(256));
    names.push_back(name);
  }
  std::vector<std::uint32_t> types = {0, 1, static_cast<std::uint32_t>(src.u64()), 0x7fffffff,
                                      0x80000000u, 0xffffffffu};
  std::vector<Key> keys;
  std::vector<Model> models;
  for (int i(0); i < 4; ++i) {
    Model m{!src.chance(1, 6), Bytes(), src.pick(types)};
    if (m.initialised)
      m.name = src.pick(names);
    keys.emplace_back(m.initialised ? ms::Identity(m.name) : ms::Identity(),
                      ms::DataTypeId(m.type));
    models.push_back(m);
    cs.note() << (m.initialised ? pbt::Hex(m.name, 4) : "none") << '/' << m.type << ' ';
  }
  cs.nontrivial();
  for (int i(0); i < 4; ++i) {
    for (int j(0); j < 4; ++j) {
      auto a(models[i].Rank()), b(models[j].Rank());
      const Key &x(keys[i]), &y(keys[j]);
      REQUIRE_EQ(x == y, a == b);
      REQUIRE_EQ(x != y, a != b);
      REQUIRE_EQ(x < y, a < b);
      REQUIRE_EQ(x > y, a > b);
      REQUIRE_EQ(x <= y, a <= b);
      REQUIRE_EQ(x >= y, a >= b);
    }
    if (models[i].initialised) {
      auto parsed(ms::Parse<Key>(ms::Serialise(keys[i])));
      REQUIRE(parsed.name.string() == models[i].name);
      REQUIRE_EQ(parsed.type_id.data, models[i].type);
    } else {
      REQUIRE(Throws(ms::CommonErrors::uninitialised, [&] { ms::Serialise(keys[i]); }));
    }
    Key copy(keys[i]), moved(std::move(copy)), assigned;
    REQUIRE(!assigned.name.IsInitialised());
    assigned = moved;
    Key move_assigned;
    move_assigned = std::move(moved);
    REQUIRE(assigned == keys[i]);
    REQUIRE(move_assigned == keys[i]);
  }
}

}  // unnamed namespace
