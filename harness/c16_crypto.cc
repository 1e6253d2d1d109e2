// C16: authenticated encryption and compression, against OpenSSL and zlib.
#include "pbt.h"

#include <algorithm>
#include <numeric>
#include <memory>
#include <string>
#include <vector>

#include <openssl/evp.h>
#include <zlib.h>

#include "maidsafe/common/crypto.h"

namespace ms = maidsafe;
namespace mc = maidsafe::crypto;
using Bytes = std::vector<unsigned char>;

namespace {

template <typename F>
bool Throws(ms::CommonErrors error, F f) {
  try {
    f();
  } catch (const ms::common_error& e) {
    return e.code() == ms::make_error_code(error);
  }
  return false;
}

// AES-256-GCM with a 16-byte IV; the tag (16 bytes) follows the cipher text.
Bytes ReferenceEncrypt(const Bytes& plain, const Bytes& key_and_iv) {
  std::unique_ptr<EVP_CIPHER_CTX, void (*)(EVP_CIPHER_CTX*)> context(EVP_CIPHER_CTX_new(),
                                                                     EVP_CIPHER_CTX_free);
  Bytes out(plain.size() + 16);
  int size(0), last(0);
  EVP_EncryptInit_ex(context.get(), EVP_aes_256_gcm(), nullptr, nullptr, nullptr);
  EVP_CIPHER_CTX_ctrl(context.get(), EVP_CTRL_GCM_SET_IVLEN, 16, nullptr);
  EVP_EncryptInit_ex(context.get(), nullptr, nullptr, key_and_iv.data(), key_and_iv.data() + 32);
  EVP_EncryptUpdate(context.get(), out.data(), &size, plain.data(),
                    static_cast<int>(plain.size()));
  EVP_EncryptFinal_ex(context.get(), out.data() + size, &last);
  EVP_CIPHER_CTX_ctrl(context.get(), EVP_CTRL_GCM_GET_TAG, 16, out.data() + plain.size());
  return out;
}

// All of a gzip member, by zlib; false if it's not valid or something follows.
bool ReferenceGunzip(const Bytes& in, Bytes& out) {
  z_stream stream = z_stream();
  if (inflateInit2(&stream, 16 + MAX_WBITS) != Z_OK)
    return false;
  stream.next_in = const_cast<Bytef*>(in.data());
  stream.avail_in = static_cast<uInt>(in.size());
  out.clear();
  int result(Z_OK);
  while (result == Z_OK) {
    unsigned char buffer[16384];
    stream.next_out = buffer;
    stream.avail_out = sizeof(buffer);
    result = inflate(&stream, Z_NO_FLUSH);
    out.insert(out.end(), buffer, buffer + (sizeof(buffer) - stream.avail_out));
    if (result == Z_OK && stream.avail_in == 0 && stream.avail_out != 0)
      break;
  }
  bool good(result == Z_STREAM_END && stream.avail_in == 0);
  inflateEnd(&stream);
  return good;
}

Bytes ReferenceGzip(const Bytes& in, int level, int strategy) {
  z_stream stream = z_stream();
  deflateInit2(&stream, level, Z_DEFLATED, 16 + MAX_WBITS, 8, strategy);
  Bytes out(in.size() + in.size() / 100 + 1000);
  stream.next_in = const_cast<Bytef*>(in.data());
  stream.avail_in = static_cast<uInt>(in.size());
  stream.next_out = out.data();
  stream.avail_out = static_cast<uInt>(out.size());
  deflate(&stream, Z_FINISH);
  out.resize(out.size() - stream.avail_out);
  deflateEnd(&stream);
  return out;
}

// Something with a structure worth compressing.
Bytes Text(pbt::Src& src, std::size_t max) {
  Bytes result;
  std::size_t size(1 + src.size(max));
  while (result.size() < size) {
    if (!result.empty() && src.chance(1, 2)) {
      std::size_t from(src.index(result.size())), count(1 + src.size(300));
      for (std::size_t i(0); i < count; ++i)
        result.push_back(result[from + i]);
    } else if (src.chance(1, 4)) {
      result.insert(result.end(), 1 + src.size(400), static_cast<unsigned char>(src.draw(256)));
    } else {
      Bytes more(src.vec(1 + src.size(200)));
      result.insert(result.end(), more.begin(), more.end());
    }
  }
  result.resize(size);
  return result;
}

Bytes Plain(pbt::Src& src) {
  return src.vec(1 + (src.chance(1, 40) ? src.draw(100000) : src.size(1000)));
}

// Changes 'b' in at least one bit or byte; says how.
Bytes Change(pbt::Src& src, pbt::Case& cs, Bytes b) {
  const Bytes before(b);
  do {
    switch (src.weighted({6, 3, 3, 2, 2, 1})) {
      case 0: {
        std::size_t i(src.index(b.size())), bit(src.draw(8));
        cs.note() << "flip bit " << bit << " of byte " << i << ' ';
        b[i] ^= static_cast<unsigned char>(1 << bit);
        break;
      }
      case 1: {
        std::size_t size(1 + src.index(b.size()));
        cs.note() << "cut to " << size << ' ';
        b.resize(size);
        break;
      }
      case 2: {
        Bytes more(src.vec(1 + src.size(40)));
        cs.note() << "append " << more.size() << ' ';
        b.insert(b.end(), more.begin(), more.end());
        break;
      }
      case 3: {
        std::size_t i(src.index(b.size()));
        cs.note() << "drop from the front " << i << ' ';
        b.erase(b.begin(), b.begin() + static_cast<std::ptrdiff_t>(i));
        break;
      }
      case 4: {
        std::size_t i(src.index(b.size())), j(src.index(b.size()));
        cs.note() << "swap bytes " << i << ',' << j << ' ';
        std::swap(b[i], b[j]);
        break;
      }
      default: {
        std::size_t i(src.index(b.size())), count(1 + src.size(30));
        cs.note() << "overwrite " << count << " at " << i << ' ';
        for (std::size_t k(i); k < b.size() && k < i + count; ++k)
          b[k] = static_cast<unsigned char>(src.draw(256));
      }
    }
  } while (b == before && !src.replaying());
  if (b == before)
    throw pbt::Discard();
  return b;
}

}  // namespace

PROPERTY(EncryptionRoundTrips, (pbt::Options{3, 2})) {
  Bytes plain(Plain(src)), key(src.vec(48));
  cs.note() << plain.size() << " bytes, key " << pbt::Hex(key);
  if (plain.size() > 1)
    cs.nontrivial();
  mc::AES256KeyAndIV real_key(key);
  mc::PlainText text(plain);
  mc::CipherText cipher(mc::SymmEncrypt(text, real_key));
  REQUIRE(text.string() == plain && real_key.string() == key) << "arguments changed";
  REQUIRE(cipher->string() == ReferenceEncrypt(plain, key)) << "not AES-256-GCM";
  REQUIRE(mc::SymmEncrypt(text, real_key)->string() == cipher->string()) << "differs next time";
  REQUIRE(mc::SymmDecrypt(cipher, real_key).string() == plain) << "round trip";
  REQUIRE(mc::SymmDecrypt(mc::CipherText(ms::NonEmptyString(ReferenceEncrypt(plain, key))),
                          real_key).string() == plain);
}

PROPERTY(TamperingIsDetected, (pbt::Options{4, 2})) {
  Bytes plain(Plain(src)), key(src.vec(48));
  cs.note() << plain.size() << " bytes: ";
  Bytes cipher(mc::SymmEncrypt(mc::PlainText(plain), mc::AES256KeyAndIV(key))->string());
  Bytes other_key(key), other_cipher(cipher);
  cs.nontrivial();
  switch (src.draw(4)) {
    case 0: {
      std::size_t i(src.draw(48)), bit(src.draw(8));
      other_key[i] ^= static_cast<unsigned char>(1 << bit);
      cs.note() << "key bit " << i * 8 + bit;
      break;
    }
    case 1: {  // parts of two cipher texts
      Bytes second(mc::SymmEncrypt(mc::PlainText(Plain(src)), mc::AES256KeyAndIV(key))->string());
      std::size_t cut(src.index(std::min(cipher.size(), second.size()) + 1));
      std::copy(second.begin(), second.begin() + static_cast<std::ptrdiff_t>(cut),
                other_cipher.begin());
      cs.note() << "spliced at " << cut;
      if (other_cipher == cipher || other_cipher == second)
        throw pbt::Discard();
      break;
    }
    default:
      other_cipher = Change(src, cs, cipher);
  }
  mc::CipherText text{ms::NonEmptyString(other_cipher)};
  REQUIRE(Throws(ms::CommonErrors::symmetric_decryption_error,
                 [&] { mc::SymmDecrypt(text, mc::AES256KeyAndIV(other_key)); }))
      << "a changed cipher text or key was accepted or failed otherwise";
}

PROPERTY(CompressionRoundTrips, (pbt::Options{3, 3})) {
  Bytes plain(Text(src, src.chance(1, 40) ? 200000 : 4000));
  std::uint16_t level(static_cast<std::uint16_t>(src.draw(10)));
  cs.note() << plain.size() << " bytes at level " << level;
  if (plain.size() > 1)
    cs.nontrivial();
  mc::CompressedText compressed(mc::Compress(mc::UncompressedText(plain), level));
  REQUIRE(mc::Uncompress(compressed).string() == plain) << "round trip";
  Bytes back;
  REQUIRE(ReferenceGunzip(compressed->string(), back)) << "not gzip";
  REQUIRE(back == plain) << "zlib reads it differently";
  Bytes other(ReferenceGzip(plain, static_cast<int>(level),
                            src.boolean() ? Z_DEFAULT_STRATEGY : Z_FIXED));
  REQUIRE(mc::Uncompress(mc::CompressedText(ms::NonEmptyString(other))).string() == plain)
      << "zlib's gzip";
}

PROPERTY(LevelsAreLimited) {
  std::uint16_t level(src.chance(1, 3) ? static_cast<std::uint16_t>(src.draw(14))
                                       : static_cast<std::uint16_t>(src.u64()));
  Bytes plain(src.vec(1 + src.size(50)));
  cs.note() << "level " << level;
  if (level > 9) {
    cs.nontrivial();
    REQUIRE(Throws(ms::CommonErrors::invalid_argument,
                   [&] { mc::Compress(mc::UncompressedText(plain), level); }));
  } else {
    mc::Compress(mc::UncompressedText(plain), level);
  }
}

PROPERTY(DamagedCompressedData, (pbt::Options{4, 1})) {
  Bytes data;
  bool single(false), wild(src.chance(1, 4));
  Bytes plain(Text(src, 600));
  if (wild) {
    data = src.vec(1 + src.size(300));
    if (src.boolean()) {
      static const unsigned char kHeader[] = {0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 3};
      data.insert(data.begin(), kHeader, kHeader + 10);
      if (src.boolean())
        data[3] = static_cast<unsigned char>(src.draw(256));
    }
    cs.note() << "gunzip " << pbt::Hex(data);
  } else {
    data = mc::Compress(mc::UncompressedText(plain),
                        static_cast<std::uint16_t>(src.draw(10)))->string();
    Bytes whole(data);
    data = Change(src, cs, data);
    // A change of one byte can't be hidden from the checksum (elsewhere it may not matter).
    if (data.size() == whole.size())
      single = std::inner_product(data.begin(), data.end(), whole.begin(), 0,
                                  [](int a, int b) { return a + b; },
                                  [](int a, int b) { return a != b; }) == 1;
    if (data.size() < whole.size() && std::equal(data.begin(), data.end(), whole.begin()))
      single = true;
  }
  cs.nontrivial();
  try {
    Bytes result(mc::Uncompress(mc::CompressedText(ms::NonEmptyString(data))).string());
    cs.label("accepted");
    Bytes reference;
    if (ReferenceGunzip(data, reference))
      REQUIRE(result == reference) << "zlib reads it differently";
    if (single)
      REQUIRE(result == plain) << "damaged data was accepted";
  } catch (const ms::common_error& e) {
    Bytes reference;
    bool empty(e.code() == ms::make_error_code(ms::CommonErrors::outside_of_bounds));
    REQUIRE(empty || e.code() == ms::make_error_code(ms::CommonErrors::uncompression_error))
        << e.what();
    if (ReferenceGunzip(data, reference) && !empty)
      cs.label("refused though zlib accepts it");
  }
}

PROPERTY(UninitialisedIsRefused) {
  Bytes plain(src.vec(1 + src.size(30))), key(src.vec(48));
  const auto uninitialised(ms::CommonErrors::uninitialised);
  REQUIRE(Throws(uninitialised, [&] {
    mc::SymmEncrypt(mc::PlainText(), mc::AES256KeyAndIV(key));
  }));
  REQUIRE(Throws(uninitialised, [&] {
    mc::SymmEncrypt(mc::PlainText(plain), mc::AES256KeyAndIV());
  }));
  REQUIRE(Throws(uninitialised, [&] {
    mc::SymmDecrypt(mc::CipherText(), mc::AES256KeyAndIV(key));
  }));
  REQUIRE(Throws(uninitialised, [&] {
    mc::SymmDecrypt(mc::CipherText(ms::NonEmptyString(plain)), mc::AES256KeyAndIV());
  }));
  REQUIRE(Throws(uninitialised, [&] { mc::Compress(mc::UncompressedText(), 3); }));
  REQUIRE(Throws(uninitialised, [&] { mc::Uncompress(mc::CompressedText()); }));
}
