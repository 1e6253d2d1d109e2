// C18: RSA keys, encryption and signatures, against OpenSSL.
#include "pbt.h"

#include <algorithm>
#include <cstring>
#include <fstream>
#include <memory>
#include <string>
#include <thread>
#include <vector>

#define OPENSSL_API_COMPAT 0x10100000L
#include <openssl/evp.h>
#include <openssl/rsa.h>

#include "boost/filesystem/operations.hpp"

#include "maidsafe/common/rsa.h"
#include "maidsafe/common/serialisation/serialisation.h"
#include "rsa_keys.h"

namespace ms = maidsafe;
namespace mr = maidsafe::rsa;
namespace fs = boost::filesystem;
using Bytes = std::vector<unsigned char>;

namespace {

Bytes FromHex(const char* text) {
  Bytes result;
  for (; *text; text += 2)
    result.push_back(static_cast<unsigned char>(std::stoi(std::string(text, 2), nullptr, 16)));
  return result;
}

struct Pair {
  Pair(const char* private_hex, const char* public_hex)
      : private_der(FromHex(private_hex)),
        public_der(FromHex(public_hex)),
        keys(),
        openssl(nullptr) {
    keys.private_key = mr::DecodeKey(mr::EncodedPrivateKey(private_der));
    keys.public_key = mr::DecodeKey(mr::EncodedPublicKey(public_der));
    const unsigned char* at(private_der.data());
    openssl = d2i_PrivateKey(EVP_PKEY_RSA, nullptr, &at, static_cast<long>(private_der.size()));
  }
  Bytes private_der, public_der;
  mr::Keys keys;
  EVP_PKEY* openssl;
};

const Pair& KeyPair(std::size_t i) {
  static const Pair a(kAPrivate, kAPublic), b(kBPrivate, kBPublic), small(kSmallPrivate, kSmallPublic),
      large(kLargePrivate, kLargePublic), medium(kMediumPrivate, kMediumPublic);
  const Pair* const pairs[] = {&a, &b, &small, &large, &medium};
  return *pairs[i];
}

template <typename Error>
bool Throws(Error error, const std::function<void()>& f) {
  try {
    f();
  } catch (const ms::maidsafe_error& e) {
    return e.code() == ms::make_error_code(error);
  }
  return false;
}

void Pss(EVP_PKEY_CTX* context) {
  EVP_PKEY_CTX_set_rsa_padding(context, RSA_PKCS1_PSS_PADDING);
  EVP_PKEY_CTX_set_rsa_pss_saltlen(context, 64);
}

bool OpensslVerify(const Bytes& data, const Bytes& signature, EVP_PKEY* key) {
  std::unique_ptr<EVP_MD_CTX, void (*)(EVP_MD_CTX*)> context(EVP_MD_CTX_new(), EVP_MD_CTX_free);
  EVP_PKEY_CTX* key_context(nullptr);
  EVP_DigestVerifyInit(context.get(), &key_context, EVP_sha512(), nullptr, key);
  Pss(key_context);
  return EVP_DigestVerify(context.get(), signature.data(), signature.size(), data.data(),
                          data.size()) == 1;
}

Bytes OpensslSign(const Bytes& data, EVP_PKEY* key) {
  std::unique_ptr<EVP_MD_CTX, void (*)(EVP_MD_CTX*)> context(EVP_MD_CTX_new(), EVP_MD_CTX_free);
  EVP_PKEY_CTX* key_context(nullptr);
  EVP_DigestSignInit(context.get(), &key_context, EVP_sha512(), nullptr, key);
  Pss(key_context);
  Bytes signature(512);
  std::size_t size(signature.size());
  if (EVP_DigestSign(context.get(), signature.data(), &size, data.data(), data.size()) != 1)
    size = 0;
  signature.resize(size);
  return signature;
}

// OAEP with SHA-1.
Bytes OpensslOaep(bool encrypt, const Bytes& data, EVP_PKEY* key) {
  std::unique_ptr<EVP_PKEY_CTX, void (*)(EVP_PKEY_CTX*)> context(EVP_PKEY_CTX_new(key, nullptr),
                                                                 EVP_PKEY_CTX_free);
  if (encrypt)
    EVP_PKEY_encrypt_init(context.get());
  else
    EVP_PKEY_decrypt_init(context.get());
  EVP_PKEY_CTX_set_rsa_padding(context.get(), RSA_PKCS1_OAEP_PADDING);
  Bytes out(1024);
  std::size_t size(out.size());
  int result(encrypt ? EVP_PKEY_encrypt(context.get(), out.data(), &size, data.data(), data.size())
                     : EVP_PKEY_decrypt(context.get(), out.data(), &size, data.data(),
                                        data.size()));
  out.resize(result == 1 ? size : 0);
  return out;
}

Bytes Data(pbt::Src& src, pbt::Case& cs) {
  Bytes data(src.vec(1 + (src.chance(1, 30) ? src.draw(200000) : src.size(600))));
  cs.note() << data.size() << " bytes " << pbt::Hex(data, 16);
  return data;
}

// Changes 'b' in at least one bit or byte; says how.
Bytes Change(pbt::Src& src, pbt::Case& cs, Bytes b, bool keep_size) {
  const Bytes before(b);
  do {
    switch (src.weighted({6, 2, 2, keep_size ? 0u : 2u, keep_size ? 0u : 2u})) {
      case 0: {
        std::size_t i(src.chance(1, 3) ? src.draw(std::min<std::size_t>(b.size(), 16))
                                       : src.index(b.size())),
            bit(src.draw(8));
        cs.note() << " flip bit " << bit << " of byte " << i;
        b[i] ^= static_cast<unsigned char>(1 << bit);
        break;
      }
      case 1: {
        std::size_t i(src.index(b.size())), j(src.index(b.size()));
        cs.note() << " swap bytes " << i << ',' << j;
        std::swap(b[i], b[j]);
        break;
      }
      case 2: {
        std::size_t i(src.index(b.size()));
        std::size_t count(std::min<std::size_t>(1 + src.draw(32), b.size() - i));
        unsigned char value(static_cast<unsigned char>(src.boolean() ? 0 : src.draw(256)));
        cs.note() << " set " << count << " at " << i << " to " << int(value);
        std::fill_n(b.begin() + static_cast<std::ptrdiff_t>(i), count, value);
        break;
      }
      case 3: {
        std::size_t size(1 + src.index(b.size()));
        cs.note() << " cut to " << size;
        b.resize(size);
        break;
      }
      default: {
        Bytes more(src.vec(1 + src.size(20)));
        cs.note() << " append " << more.size();
        b.insert(b.end(), more.begin(), more.end());
      }
    }
  } while (b == before);
  return b;
}

fs::path File(const Bytes& data) {
  fs::path path(pbt::FreshPath("signed"));
  std::ofstream out(path.c_str(), std::ios::binary);
  out.write(reinterpret_cast<const char*>(data.data()), static_cast<std::streamsize>(data.size()));
  return path;
}

struct Remover {
  explicit Remover(fs::path p) : path(std::move(p)) {}
  ~Remover() {
    boost::system::error_code ec;
    fs::remove(path, ec);
  }
  fs::path path;
};

}  // namespace

PROPERTY(EncryptDecrypt, (pbt::Options{3, 20})) {
  Bytes data(Data(src, cs));
  const Pair& pair(KeyPair(src.draw(5)));
  const Pair& other(KeyPair(src.draw(5)));
  cs.nontrivial();
  mr::CipherText cipher(mr::Encrypt(mr::PlainText(data), pair.keys.public_key));
  REQUIRE(mr::Decrypt(cipher, pair.keys.private_key).string() == data) << "not recovered";
  REQUIRE(mr::Encrypt(mr::PlainText(data), pair.keys.public_key) != cipher)
      << "the same cipher text twice";
  if (data.size() >= 16) {
    REQUIRE(std::search(cipher.string().begin(), cipher.string().end(), data.begin(), data.end()) ==
            cipher.string().end()) << "the data is in the clear";
  }
  // The symmetric key can be read with OpenSSL, and is that of the data.
  ms::crypto::CipherText symmetric;
  std::string wrapped;
  ms::Parse(cipher.string(), symmetric, wrapped);
  Bytes key(OpensslOaep(false, Bytes(wrapped.begin(), wrapped.end()), pair.openssl));
  REQUIRE_EQ(key.size(), 48u);
  REQUIRE(ms::crypto::SymmDecrypt(symmetric, ms::crypto::AES256KeyAndIV(key)).string() == data)
      << "the wrapped key doesn't decrypt the data";
  if (&other != &pair) {
    try {
      mr::Decrypt(cipher, other.keys.private_key);
    } catch (const ms::maidsafe_error&) {
      return;
    }
    REQUIRE(false) << "decrypted by another key";
  }
}

PROPERTY(OpensslEncrypts, (pbt::Options{1, 10})) {
  Bytes data(Data(src, cs)), key(src.vec(48));
  const Pair& pair(KeyPair(src.draw(5)));
  cs.nontrivial();
  ms::crypto::CipherText symmetric(
      ms::crypto::SymmEncrypt(mr::PlainText(data), ms::crypto::AES256KeyAndIV(key)));
  bool wrong_size(src.chance(1, 4));
  if (wrong_size) {
    key.resize(1 + src.draw(80));
    wrong_size = key.size() != 48;
  }
  Bytes wrapped(OpensslOaep(true, key, pair.openssl));
  REQUIRE(!wrapped.empty());
  mr::CipherText cipher(
      ms::Serialise(symmetric, std::string(wrapped.begin(), wrapped.end())));
  if (!wrong_size) {
    REQUIRE(mr::Decrypt(cipher, pair.keys.private_key).string() == data) << "not recovered";
    return;
  }
  cs.note() << "; a key of " << key.size() << " bytes";
  try {
    mr::Decrypt(cipher, pair.keys.private_key);
  } catch (const std::exception&) {
    return;
  }
  REQUIRE(false) << "decrypted with a key of the wrong size";
}

PROPERTY(CorruptedCipherText, (pbt::Options{4, 6})) {
  Bytes data(Data(src, cs));
  const Pair& pair(KeyPair(src.draw(3)));
  cs.nontrivial();
  mr::CipherText cipher(mr::Encrypt(mr::PlainText(data), pair.keys.public_key));
  cs.note() << "; " << cipher.size() << " encrypted:";
  Bytes changed(src.chance(1, 12) ? src.vec(1 + src.size(400))
                                  : Change(src, cs, cipher.string(), false));
  bool extended(changed.size() > cipher.size() &&
                std::equal(cipher.string().begin(), cipher.string().end(), changed.begin()));
  Bytes result;
  try {
    result = mr::Decrypt(mr::CipherText(changed), pair.keys.private_key).string();
  } catch (const ms::maidsafe_error&) {
    return;
  }
  // What follows the end of the cipher text isn't looked at.
  REQUIRE(extended) << "a changed cipher text was decrypted";
  REQUIRE(result == data) << "other data was decrypted";
}

PROPERTY(SignCheck, (pbt::Options{4, 8})) {
  Bytes data(Data(src, cs));
  const Pair& pair(KeyPair(src.draw(2)));
  Remover file(File(data));
  cs.nontrivial();
  bool use_file(src.boolean());
  mr::Signature signature(use_file ? mr::SignFile(file.path, pair.keys.private_key)
                                   : mr::Sign(mr::PlainText(data), pair.keys.private_key));
  REQUIRE(mr::CheckSignature(mr::PlainText(data), signature, pair.keys.public_key)) << "rejected";
  REQUIRE(mr::CheckFileSignature(file.path, signature, pair.keys.public_key))
      << "rejected for the file";
  REQUIRE(OpensslVerify(data, signature.string(), pair.openssl)) << "rejected by OpenSSL";
  const Pair& other(KeyPair(&pair == &KeyPair(0) ? 1 : 0));
  REQUIRE(!mr::CheckSignature(mr::PlainText(data), signature, other.keys.public_key))
      << "accepted with another key";
  REQUIRE(!mr::CheckFileSignature(file.path, signature, other.keys.public_key))
      << "accepted for the file with another key";

  for (unsigned i(0); i < 6; ++i) {
    cs.note() << "; the data:";
    Bytes changed(Change(src, cs, data, false));
    REQUIRE(!mr::CheckSignature(mr::PlainText(changed), signature, pair.keys.public_key))
        << "accepted for other data";
    Remover changed_file(File(changed));
    REQUIRE(!mr::CheckFileSignature(changed_file.path, signature, pair.keys.public_key))
        << "accepted for another file";
    cs.note() << "; the signature:";
    mr::Signature bad(src.chance(1, 8) ? Bytes(src.vec(256))
                                       : Change(src, cs, signature.string(), true));
    REQUIRE(!mr::CheckSignature(mr::PlainText(data), bad, pair.keys.public_key))
        << "a changed signature was accepted";
    REQUIRE(!mr::CheckFileSignature(file.path, bad, pair.keys.public_key))
        << "a changed signature was accepted for the file";
  }
}

PROPERTY(OpensslSigns, (pbt::Options{2, 3})) {
  Bytes data(Data(src, cs));
  if (src.chance(1, 20))
    data.clear();  // an empty file
  const Pair& pair(KeyPair(src.draw(2)));
  cs.nontrivial();
  mr::Signature signature(OpensslSign(data, pair.openssl));
  Remover file(File(data));
  REQUIRE(mr::CheckFileSignature(file.path, signature, pair.keys.public_key)) << "file rejected";
  if (!data.empty()) {
    REQUIRE(mr::CheckSignature(mr::PlainText(data), signature, pair.keys.public_key))
        << "rejected";
  } else {
    REQUIRE(OpensslVerify(data, mr::SignFile(file.path, pair.keys.private_key).string(),
                          pair.openssl)) << "the signature of an empty file is wrong";
  }
}

// Signatures have room for keys of 2048 bits; others are never accepted and read nothing outside.
PROPERTY(KeysOfOtherSizes, (pbt::Options{1, 6})) {
  Bytes data(Data(src, cs));
  const Pair& pair(KeyPair(2 + src.draw(3)));
  cs.nontrivial();
  Remover file(File(data));
  Bytes bytes(OpensslSign(data, pair.openssl));
  if (bytes.empty())
    bytes.resize(256);
  auto padding(static_cast<unsigned char>(src.boolean() ? 0 : src.draw(256)));
  if (bytes.size() < 256 && src.boolean())
    bytes.insert(bytes.begin(), 256 - bytes.size(), padding);
  bytes.resize(256, padding);
  mr::Signature signature(bytes);
  bool file_result(false), result(false);
  try {
    file_result = mr::CheckFileSignature(file.path, signature, pair.keys.public_key);
  } catch (const ms::maidsafe_error&) {
  }
  try {
    result = mr::CheckSignature(mr::PlainText(data), signature, pair.keys.public_key);
  } catch (const ms::maidsafe_error&) {
  }
  REQUIRE(!file_result && !result) << "accepted in memory: " << result
                                   << ", for a file: " << file_result;
  bool signed_it(true);
  try {
    mr::Sign(mr::PlainText(data), pair.keys.private_key);
  } catch (const ms::maidsafe_error&) {
    signed_it = false;
  }
  REQUIRE(!signed_it) << "signed";
}

PROPERTY(EncodedKeys, (pbt::Options{1, 3})) {
  const Pair& pair(KeyPair(src.draw(5)));
  std::size_t i(src.draw(5));
  const Pair& other(KeyPair(i));
  cs.nontrivial();
  REQUIRE(mr::EncodeKey(pair.keys.private_key).string() == pair.private_der) << "private key";
  REQUIRE(mr::EncodeKey(pair.keys.public_key).string() == pair.public_der) << "public key";
  mr::Keys keys(ms::Parse<mr::Keys>(ms::Serialise(pair.keys)));
  bool same(&pair == &other);
  REQUIRE_EQ(mr::MatchingKeys(keys.private_key, other.keys.private_key), same);
  REQUIRE_EQ(mr::MatchingKeys(keys.public_key, other.keys.public_key), same);
  REQUIRE(mr::ValidateKey(keys.public_key)) << "valid key refused";
  mr::Keys moved(std::move(keys)), assigned;
  assigned = std::move(moved);
  REQUIRE(mr::EncodeKey(assigned.private_key).string() == pair.private_der) << "moved";
  REQUIRE(mr::EncodeKey(assigned.public_key).string() == pair.public_der) << "moved";
}

// Keys match exactly if all they consist of is the same, which is when their encodings are.
PROPERTY(SimilarKeys, (pbt::Options{1, 3})) {
  const Pair& pair(KeyPair(src.draw(5)));
  mr::PublicKey public_key(pair.keys.public_key);
  mr::PrivateKey private_key(pair.keys.private_key);
  auto change([&](const CryptoPP::Integer& number) {
    CryptoPP::Integer delta(1 + static_cast<long>(src.draw(4)));
    if (src.boolean())
      delta <<= static_cast<std::size_t>(src.draw(number.BitCount() + 1));
    return src.boolean() || number <= delta ? number + delta : number - delta;
  });
  std::size_t part(src.draw(7));
  bool really(src.chance(4, 5));  // otherwise merely a copy
  cs.note() << "part " << part << (really ? " changed" : " kept");
  cs.nontrivial();
  if (really) {
    switch (part) {
      case 0: {
        CryptoPP::Integer modulus(change(public_key.GetModulus()));
        public_key.SetModulus(modulus);
        private_key.SetModulus(modulus);
        break;
      }
      case 1: {
        CryptoPP::Integer exponent(change(public_key.GetPublicExponent()));
        public_key.SetPublicExponent(exponent);
        private_key.SetPublicExponent(exponent);
        break;
      }
      case 2:
        private_key.SetPrivateExponent(change(private_key.GetPrivateExponent()));
        break;
      case 3:
        private_key.SetPrime1(change(private_key.GetPrime1()));
        break;
      case 4:
        private_key.SetPrime2(change(private_key.GetPrime2()));
        break;
      case 5:
        private_key.SetModPrime1PrivateExponent(
            change(private_key.GetModPrime1PrivateExponent()));
        break;
      default:
        private_key.SetMultiplicativeInverseOfPrime2ModPrime1(
            change(private_key.GetMultiplicativeInverseOfPrime2ModPrime1()));
    }
  }
  bool swapped(src.boolean());
  REQUIRE_EQ(swapped ? mr::MatchingKeys(private_key, pair.keys.private_key)
                     : mr::MatchingKeys(pair.keys.private_key, private_key),
             !really)
      << "private keys";
  REQUIRE_EQ(swapped ? mr::MatchingKeys(public_key, pair.keys.public_key)
                     : mr::MatchingKeys(pair.keys.public_key, public_key),
             !really || part > 1)
      << "public keys";
}

PROPERTY(MalformedKeys, (pbt::Options{4, 1})) {
  const Pair& pair(KeyPair(src.draw(3)));
  bool is_public(src.boolean());
  const Bytes& good(is_public ? pair.public_der : pair.private_der);
  cs.nontrivial();
  cs.note() << (is_public ? "public key of " : "private key of ") << good.size() << " bytes:";
  Bytes bad;
  bool prefix(false);
  switch (src.weighted({3, 2, 1, 1})) {
    case 0:
      bad = Change(src, cs, good, false);
      break;
    case 1:
      bad = good;
      bad.resize(3 + src.index(good.size() - 3));
      cs.note() << " cut to " << bad.size();
      break;
    case 2:
      bad = is_public ? pair.private_der : pair.public_der;
      cs.note() << " the other kind";
      break;
    default:
      bad = src.vec(3 + src.size(300));
      cs.note() << pbt::Hex(bad);
  }
  prefix = bad.size() < good.size() && std::equal(bad.begin(), bad.end(), good.begin());
  if (bad.size() < 3)
    throw pbt::Discard();
  mr::Keys keys;
  try {
    if (is_public)
      keys.public_key = mr::DecodeKey(mr::EncodedPublicKey(bad));
    else
      keys.private_key = mr::DecodeKey(mr::EncodedPrivateKey(bad));
  } catch (const ms::asymm_error& e) {
    REQUIRE(e.code() == ms::make_error_code(is_public ? ms::AsymmErrors::invalid_public_key
                                                      : ms::AsymmErrors::invalid_private_key))
        << e.what();
    return;
  }
  cs.label("decoded");
  REQUIRE(!prefix) << "a truncated key was decoded";
  // Whatever it is, using it does no harm.
  try {
    if (is_public) {
      mr::EncodeKey(keys.public_key);
      mr::ValidateKey(keys.public_key);
      mr::CheckSignature(mr::PlainText(Bytes(5, 'x')), mr::Signature(Bytes(256, 1)),
                         keys.public_key);
      mr::Encrypt(mr::PlainText(Bytes(5, 'x')), keys.public_key);
    } else {
      mr::EncodeKey(keys.private_key);
    }
  } catch (const std::exception&) {
    cs.label("not usable");
  }
}

PROPERTY(BadArguments, (pbt::Options{1, 10})) {
  const Pair& pair(KeyPair(src.draw(2)));
  using ms::AsymmErrors;
  using ms::CommonErrors;
  Bytes bytes(src.vec(1 + src.size(20)));
  mr::PlainText data(bytes), none;
  mr::Keys empty;
  mr::Signature signature(mr::Sign(data, pair.keys.private_key)), no_signature;
  Remover file(File(bytes));
  fs::path missing(pbt::FreshPath("missing")), directory(pbt::ScratchDir());
  cs.nontrivial();
  const auto& priv(pair.keys.private_key);
  const auto& pub(pair.keys.public_key);
  REQUIRE(Throws(AsymmErrors::invalid_public_key, [&] { mr::Encrypt(data, empty.public_key); }));
  REQUIRE(Throws(CommonErrors::uninitialised, [&] { mr::Encrypt(none, pub); }));
  REQUIRE(Throws(AsymmErrors::invalid_private_key, [&] { mr::Decrypt(data, empty.private_key); }));
  REQUIRE(Throws(AsymmErrors::decryption_error, [&] { mr::Decrypt(none, priv); }));
  REQUIRE(Throws(AsymmErrors::invalid_private_key, [&] { mr::Sign(data, empty.private_key); }));
  REQUIRE(Throws(CommonErrors::uninitialised, [&] { mr::Sign(none, priv); }));
  REQUIRE(Throws(AsymmErrors::invalid_public_key,
                 [&] { mr::CheckSignature(data, signature, empty.public_key); }));
  REQUIRE(Throws(CommonErrors::uninitialised, [&] { mr::CheckSignature(none, signature, pub); }));
  REQUIRE(Throws(CommonErrors::uninitialised, [&] { mr::CheckSignature(data, no_signature, pub); }));
  REQUIRE(Throws(AsymmErrors::signing_error, [&] { mr::SignFile(file.path, empty.private_key); }));
  REQUIRE(Throws(AsymmErrors::invalid_public_key,
                 [&] { mr::CheckFileSignature(file.path, signature, empty.public_key); }));
  REQUIRE(Throws(CommonErrors::uninitialised,
                 [&] { mr::CheckFileSignature(file.path, no_signature, pub); }));
  for (const auto& path : {missing, directory}) {
    REQUIRE(Throws(AsymmErrors::invalid_file, [&] { mr::SignFile(path, priv); })) << path;
    REQUIRE(Throws(AsymmErrors::invalid_file,
                   [&] { mr::CheckFileSignature(path, signature, pub); })) << path;
  }
  REQUIRE(Throws(AsymmErrors::invalid_private_key, [&] { mr::EncodeKey(empty.private_key); }));
  REQUIRE(Throws(AsymmErrors::invalid_public_key, [&] { mr::EncodeKey(empty.public_key); }));
  REQUIRE(Throws(CommonErrors::uninitialised, [] { mr::DecodeKey(mr::EncodedPrivateKey()); }));
  REQUIRE(Throws(CommonErrors::uninitialised, [] { mr::DecodeKey(mr::EncodedPublicKey()); }));
  REQUIRE(!mr::ValidateKey(empty.public_key)) << "an empty key is valid";
}

PROPERTY(GeneratedKeys, (pbt::Options{1, 400})) {
  Bytes data(src.vec(1 + src.size(100)));
  mr::Keys keys(mr::GenerateKeyPair()), other(mr::GenerateKeyPair());
  cs.nontrivial();
  REQUIRE_EQ(keys.public_key.GetModulus().BitCount(), 2048u);
  REQUIRE(!mr::MatchingKeys(keys.public_key, other.public_key)) << "the same key twice";
  REQUIRE(!mr::MatchingKeys(keys.private_key, other.private_key)) << "the same key twice";
  mr::CipherText cipher(mr::Encrypt(mr::PlainText(data), keys.public_key));
  REQUIRE(mr::Decrypt(cipher, keys.private_key).string() == data) << "not recovered";
  mr::Signature signature(mr::Sign(mr::PlainText(data), keys.private_key));
  mr::Keys decoded;
  decoded.private_key = mr::DecodeKey(mr::EncodeKey(keys.private_key));
  decoded.public_key = mr::DecodeKey(mr::EncodeKey(keys.public_key));
  REQUIRE(mr::CheckSignature(mr::PlainText(data), signature, decoded.public_key)) << "rejected";
  REQUIRE(!mr::CheckSignature(mr::PlainText(data), signature, other.public_key)) << "accepted";
  REQUIRE(mr::Decrypt(cipher, decoded.private_key).string() == data) << "not recovered";
  try {
    mr::Decrypt(cipher, other.private_key);
  } catch (const ms::maidsafe_error&) {
    return;
  }
  REQUIRE(false) << "decrypted by another key";
}

PROPERTY(Threads, (pbt::Options{1, 40})) {
  const Pair& pair(KeyPair(src.draw(2)));
  std::vector<Bytes> data;
  for (unsigned i(0); i < 4; ++i)
    data.push_back(src.vec(1 + src.size(200)));
  cs.nontrivial();
  std::vector<std::string> problems(data.size());
  std::vector<std::thread> threads;
  for (std::size_t i(0); i < data.size(); ++i) {
    threads.emplace_back([&, i] {
      try {
        mr::PlainText plain(data[i]);
        if (mr::Decrypt(mr::Encrypt(plain, pair.keys.public_key), pair.keys.private_key) != plain)
          problems[i] = "not recovered";
        if (!mr::CheckSignature(plain, mr::Sign(plain, pair.keys.private_key),
                                pair.keys.public_key))
          problems[i] = "rejected";
      } catch (const std::exception& e) {
        problems[i] = e.what();
      }
    });
  }
  for (auto& thread : threads)
    thread.join();
  for (const auto& problem : problems)
    REQUIRE(problem.empty()) << problem;
}
