// What the checks of the data buffer share.
#ifndef VERIF_HARNESS_BUFFER_COMMON_H_
#define VERIF_HARNESS_BUFFER_COMMON_H_

#include <dirent.h>
#include <sys/stat.h>

#include <atomic>
#include <chrono>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <vector>

#include "pbt.h"

#include "maidsafe/common/data_buffer.h"
#include "maidsafe/common/utils.h"

namespace buffer {

namespace ms = maidsafe;
using ms::DataBuffer;
using Key = DataBuffer::KeyType;

// Key 'k': neighbours share the name or the type.
inline Key MakeKey(std::size_t k) {
  return Key(ms::Identity(std::vector<unsigned char>(64, static_cast<unsigned char>('A' + k / 2))),
             ms::DataTypeId(static_cast<std::uint32_t>(k % 2 ? 7 : 0)));
}

inline std::string Text(const ms::NonEmptyString& s) {
  return std::string(s.string().begin(), s.string().end());
}
inline ms::NonEmptyString Bounded(const std::string& s) {
  return ms::NonEmptyString(std::vector<unsigned char>(s.begin(), s.end()));
}

inline std::string Value(std::size_t key, std::size_t version, std::size_t size) {
  std::string value(size, 0);
  for (std::size_t i(0); i < size; ++i)
    value[i] = static_cast<char>(key * 37 + version * 11 + i * 7 + 1);
  return value;
}

// The files in the directory with their sizes.
inline std::map<std::string, std::size_t> List(const std::string& path) {
  std::map<std::string, std::size_t> result;
  DIR* dir(::opendir(path.c_str()));
  if (!dir)
    return result;
  while (const dirent* entry = ::readdir(dir)) {
    std::string name(entry->d_name);
    struct stat info;
    if (name == "." || name == ".." || ::stat((path + '/' + name).c_str(), &info))
      continue;
    result[name] = static_cast<std::size_t>(info.st_size);
  }
  ::closedir(dir);
  return result;
}

inline bool Exists(const std::string& path) {
  struct stat info;
  return ::stat(path.c_str(), &info) == 0;
}

// 5483_0 style: the file of a key, as documented (hex name, underscore, type).
inline std::string FileName(std::size_t k) {
  static const char kDigits[] = "0123456789abcdef";
  Key key(MakeKey(k));
  std::string result;
  for (unsigned char c : key.name.string()) {
    result += kDigits[c >> 4];
    result += kDigits[c & 15];
  }
  return result + '_' + std::to_string(key.type_id.data);
}

template <typename F>
bool Eventually(F f) {
  auto start(std::chrono::steady_clock::now());
  for (unsigned i(0);; ++i) {
    if (f())
      return true;
    if (std::chrono::steady_clock::now() - start > std::chrono::seconds(8))
      return false;
    std::this_thread::sleep_for(std::chrono::microseconds(i < 50 ? 20 : 500));
  }
}

struct Pop {
  std::size_t key;  // or -1
  std::string value;
};

struct Pops {
  DataBuffer::PopFunctor Functor() {
    return [this](const Key& key, const ms::NonEmptyString& value) {
      Pop pop{static_cast<std::size_t>(-1), Text(value)};
      for (std::size_t k(0); k < 16; ++k) {
        if (MakeKey(k) == key)
          pop.key = k;
      }
      std::lock_guard<std::mutex> lock(mutex);
      list.push_back(pop);
    };
  }
  std::vector<Pop> Get() {
    std::lock_guard<std::mutex> lock(mutex);
    return list;
  }
  std::mutex mutex;
  std::vector<Pop> list;
};

enum class Read { kValue, kMissing, kOther };

inline Read TryGet(DataBuffer& real, std::size_t key, std::string& value) {
  try {
    value = Text(real.Get(MakeKey(key)));
    return Read::kValue;
  } catch (const ms::common_error& e) {
    if (e.code() == ms::make_error_code(ms::CommonErrors::no_such_element))
      return Read::kMissing;
    value = e.what();
    return Read::kOther;
  }
}

template <typename F>
bool Throws(ms::CommonErrors error, F f) {
  try {
    f();
  } catch (const ms::common_error& e) {
    return e.code() == ms::make_error_code(error);
  }
  return false;
}

}  // namespace buffer

#endif  // VERIF_HARNESS_BUFFER_COMMON_H_
