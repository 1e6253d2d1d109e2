// C19: digests and secrets derived from credentials, against OpenSSL.
#include "pbt.h"

#include <algorithm>
#include <array>
#include <memory>
#include <string>
#include <vector>

#include <openssl/evp.h>

#include "maidsafe/common/crypto.h"
#include "maidsafe/common/authentication/user_credential_utils.h"

namespace ms = maidsafe;
namespace mc = maidsafe::crypto;
namespace ma = maidsafe::authentication;
using Bytes = std::vector<unsigned char>;
using ma::detail::SafeString;
using Keyword = ma::UserCredentials::Keyword;
using Pin = ma::UserCredentials::Pin;
using Password = ma::UserCredentials::Password;

namespace {

template <typename F>
bool Throws(ms::CommonErrors error, F f) {
  try {
    f();
  } catch (const ms::common_error& e) {
    return e.code() == ms::make_error_code(error);
  }
  return false;
}

Bytes Digest(const EVP_MD* type, const Bytes& data) {
  Bytes result(EVP_MAX_MD_SIZE);
  unsigned size(0);
  EVP_Digest(data.data(), data.size(), result.data(), &size, type, nullptr);
  result.resize(size);
  return result;
}

Bytes Pbkdf2(const Bytes& password, const Bytes& salt, unsigned iterations) {
  Bytes result(48);
  PKCS5_PBKDF2_HMAC(reinterpret_cast<const char*>(password.data()),
                    static_cast<int>(password.size()), salt.data(), static_cast<int>(salt.size()),
                    static_cast<int>(iterations), EVP_sha512(), 48, result.data());
  return result;
}

const std::string kLabel("MaidSafe Version 1 Key Derivation");

Bytes operator+(Bytes a, const Bytes& b) {
  a.insert(a.end(), b.begin(), b.end());
  return a;
}
Bytes ToBytes(const std::string& s) { return Bytes(s.begin(), s.end()); }

template <typename String>
Bytes Raw(const String& s) {
  return Bytes(s.begin(), s.end());
}

// The digest of 'data' held in each kind of container.
template <typename Hash>
void CheckContainers(const Bytes& data, const Bytes& expected, const char* name) {
  REQUIRE(Raw(mc::Hash<Hash>(data).string()) == expected) << name << " of bytes";
  REQUIRE(Raw(mc::Hash<Hash>(std::string(data.begin(), data.end())).string()) == expected)
      << name << " of a string";
  REQUIRE(Raw(mc::Hash<Hash>(SafeString(data.begin(), data.end())).string()) == expected)
      << name << " of a safe string";
  REQUIRE_EQ(mc::Hash<Hash>(data).size(), expected.size());
  if (!data.empty()) {
    REQUIRE(Raw(mc::Hash<Hash>(ms::NonEmptyString(data)).string()) == expected)
        << name << " of a bounded string";
  }
  using Text = ms::detail::BoundedString<0, static_cast<std::size_t>(-1), std::string>;
  REQUIRE(Raw(mc::Hash<Hash>(Text(std::string(data.begin(), data.end()))).string()) == expected)
      << name << " of a bounded string of text";
}

struct Words {
  Bytes keyword, password;
  std::string pin;
};

Bytes Text(pbt::Src& src) {
  if (src.boolean()) {
    std::string text(src.text(1 + src.size(29), "abc12 "));
    return ToBytes(text);
  }
  return src.vec(1 + (src.chance(1, 6) ? src.draw(400) : src.size(60)));
}

Words Draw(pbt::Src& src, pbt::Case& cs) {
  Words words;
  words.keyword = Text(src);
  words.password = Text(src);
  words.pin = src.text(1 + src.draw(src.chance(1, 3) ? 19 : 5), "0123456789");
  cs.note() << "keyword " << pbt::Hex(words.keyword) << " password " << pbt::Hex(words.password)
            << " pin " << words.pin;
  return words;
}

ma::UserCredentials Credentials(const Words& words) {
  ma::UserCredentials result;
  result.keyword.reset(new Keyword(std::string(words.keyword.begin(), words.keyword.end())));
  result.pin.reset(new Pin(words.pin));
  result.password.reset(new Password(std::string(words.password.begin(), words.password.end())));
  return result;
}

Bytes ReferencePassword(const Words& words) {
  Bytes salt(Digest(EVP_sha512(), Digest(EVP_sha512(), ToBytes(words.pin)) + words.password));
  return Pbkdf2(words.password, salt + ToBytes(kLabel),
                static_cast<std::uint32_t>(std::stoul(words.pin)) % 10000 + 10000);
}

Bytes ReferenceObfuscation(const Words& words) {
  Bytes salt(Digest(EVP_sha512(), words.password + Digest(EVP_sha512(), ToBytes(words.pin))));
  return Pbkdf2(words.keyword, salt + ToBytes(kLabel),
                static_cast<std::uint32_t>(std::stoul(words.pin) * 2) % 10000 + 10000);
}

}  // namespace

PROPERTY(Digests, (pbt::Options{6, 1})) {
  Bytes data(src.vec(src.chance(1, 40) ? src.draw(100000) : src.size(700)));
  if (src.chance(1, 4))  // around the block sizes
    data.resize(64 * src.draw(6) + static_cast<std::size_t>(src.draw(2) ? 0 : src.draw(64)));
  cs.note() << data.size() << " bytes " << pbt::Hex(data, 20);
  if (data.size() > 1)
    cs.nontrivial();
  CheckContainers<mc::SHA1>(data, Digest(EVP_sha1(), data), "SHA-1");
  CheckContainers<mc::SHA256>(data, Digest(EVP_sha256(), data), "SHA-256");
  CheckContainers<mc::SHA384>(data, Digest(EVP_sha384(), data), "SHA-384");
  CheckContainers<mc::SHA512>(data, Digest(EVP_sha512(), data), "SHA-512");
}

PROPERTY(UninitialisedIsNotHashed) {
  cs.nontrivial();
  bool text(src.boolean());
  cs.note() << text;
  if (text) {
    ms::detail::BoundedString<1, 100, std::string> none;
    REQUIRE(Throws(ms::CommonErrors::uninitialised, [&] { mc::Hash<mc::SHA1>(none); }));
  } else {
    ms::NonEmptyString none;
    REQUIRE(Throws(ms::CommonErrors::uninitialised, [&] { mc::Hash<mc::SHA512>(none); }));
  }
}

PROPERTY(SecurePasswords, (pbt::Options{3, 60})) {
  Bytes password(Text(src)), salt(src.vec(1 + src.size(80)));
  std::uint32_t pin(static_cast<std::uint32_t>(src.chance(1, 2) ? src.draw(20001) : src.u64()));
  std::string label(src.boolean() ? kLabel : src.text(src.size(40), "abc "));
  cs.note() << "password " << pbt::Hex(password) << " salt " << pbt::Hex(salt) << " pin " << pin
            << " label '" << label << "'";
  cs.nontrivial();
  Bytes expected(Pbkdf2(password, salt + ToBytes(label), pin % 10000 + 10000));
  mc::SecurePassword result(
      src.boolean()
          ? mc::CreateSecurePassword(ms::NonEmptyString(password), mc::Salt(salt), pin, label)
          : mc::CreateSecurePassword(Password(std::string(password.begin(), password.end())),
                                     mc::Salt(salt), pin, label));
  REQUIRE(Raw(result->string()) == expected) << "not as derived by OpenSSL";
  if (label == kLabel) {
    REQUIRE(mc::CreateSecurePassword(ms::NonEmptyString(password), mc::Salt(salt), pin) == result)
        << "another with the default label";
  }
  REQUIRE(Throws(ms::CommonErrors::uninitialised, [&] {
    mc::CreateSecurePassword(ms::NonEmptyString(), mc::Salt(salt), pin, label);
  })) << "no password";
  REQUIRE(Throws(ms::CommonErrors::uninitialised, [&] {
    mc::CreateSecurePassword(ms::NonEmptyString(password), mc::Salt(), pin, label);
  })) << "no salt";
}

PROPERTY(PasswordFromCredentials, (pbt::Options{2, 80})) {
  Words words(Draw(src, cs));
  cs.nontrivial();
  ma::UserCredentials credentials(Credentials(words));
  mc::SecurePassword result(ma::CreateSecurePassword(credentials));
  REQUIRE(Raw(result->string()) == ReferencePassword(words)) << "not as specified";
  REQUIRE(ma::CreateSecurePassword(credentials) == result) << "another one next time";
  ma::UserCredentials moved(std::move(credentials));
  moved.keyword.reset();  // isn't used
  REQUIRE(ma::CreateSecurePassword(moved) == result) << "another one without the keyword";
}

PROPERTY(Obfuscation, (pbt::Options{2, 80})) {
  Words words(Draw(src, cs));
  Bytes data(src.vec(1 + (src.chance(1, 10) ? src.draw(5000) : src.size(200))));
  if (src.chance(1, 4))
    data.resize(48 * (1 + src.draw(5)) + src.draw(3) - 1);
  cs.note() << "; " << data.size() << " bytes " << pbt::Hex(data, 20);
  cs.nontrivial();
  ma::UserCredentials credentials(Credentials(words));
  ms::NonEmptyString result(ma::Obfuscate(credentials, ms::NonEmptyString(data)));
  Bytes mask(ReferenceObfuscation(words)), expected(data);
  for (std::size_t i(0); i < data.size(); ++i)
    expected[i] ^= mask[i % mask.size()];
  REQUIRE(result.string() == expected) << "not as specified";
  REQUIRE(ma::Obfuscate(credentials, result).string() == data) << "not its own inverse";
}

PROPERTY(CredentialsMatter, (pbt::Options{1, 120})) {
  Words words(Draw(src, cs)), other(words);
  unsigned which(static_cast<unsigned>(src.draw(3)));
  cs.note() << "; changed " << which;
  switch (which) {
    case 0:
      other.keyword.push_back('x');
      break;
    case 1:
      other.password[src.index(other.password.size())] ^= 1;
      break;
    default:
      other.pin.insert(0, 1, '0');  // even if the value is the same
  }
  cs.nontrivial();
  Bytes data(src.vec(48));
  ma::UserCredentials credentials(Credentials(words)), others(Credentials(other));
  REQUIRE(ma::Obfuscate(credentials, ms::NonEmptyString(data)) !=
          ma::Obfuscate(others, ms::NonEmptyString(data))) << "the same obfuscation";
  if (which != 0) {
    REQUIRE(ma::CreateSecurePassword(credentials) != ma::CreateSecurePassword(others))
        << "the same password";
  }
}

PROPERTY(MissingCredentials, (pbt::Options{1, 40})) {
  Words words(Draw(src, cs));
  unsigned missing(1 + static_cast<unsigned>(src.draw(7)));
  cs.note() << "; without " << missing;
  cs.nontrivial();
  ma::UserCredentials credentials(Credentials(words));
  if (missing & 1)
    credentials.keyword.reset();
  if (missing & 2)
    credentials.pin.reset();
  if (missing & 4)
    credentials.password.reset();
  REQUIRE(Throws(ms::CommonErrors::uninitialised, [&] {
    ma::Obfuscate(credentials, ms::NonEmptyString(Bytes(3, 'x')));
  })) << "obfuscated";
  if (missing != 1) {
    REQUIRE(Throws(ms::CommonErrors::uninitialised,
                   [&] { ma::CreateSecurePassword(credentials); })) << "password made";
  }
}

PROPERTY(UnfinishedCredentials, (pbt::Options{1, 40})) {
  Words words(Draw(src, cs));
  unsigned which(static_cast<unsigned>(src.draw(3)));
  cs.note() << "; unfinished " << which;
  cs.nontrivial();
  ma::UserCredentials credentials(Credentials(words));
  if (which == 0)
    credentials.keyword->Insert(words.keyword.size(), '1');
  else if (which == 1)
    credentials.pin->Insert(words.pin.size(), '1');
  else
    credentials.password->Insert(words.password.size(), '1');
  try {
    ma::Obfuscate(credentials, ms::NonEmptyString(Bytes(3, 'x')));
  } catch (const ms::common_error&) {
    return;
  }
  REQUIRE(false) << "obfuscated with something not finalised";
}
