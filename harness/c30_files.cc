// C30: reading and writing files, names of data files, and paths given as options.
#include "pbt.h"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <fstream>
#include <map>
#include <string>
#include <vector>

#include "boost/filesystem.hpp"
#include "boost/program_options.hpp"

#include "maidsafe/common/utils.h"

namespace ms = maidsafe;
namespace fs = boost::filesystem;
namespace po = boost::program_options;

// ------------------------------------------------------------------------------- failing devices
namespace {

struct Faults {
  bool armed = false;
  int calls = 0;          // reads and writes of files so far
  int fail_at = -1;       // this and later calls fail
  int error = 0;          // with this error; 0: end of file (reading only)
  int short_one_in = 0;   // calls which do only a part
  int eintr_one_in = 0;   // calls which are interrupted
  std::uint64_t state = 0;
  int failed = 0;
  bool One(int in) {
    if (!in)
      return false;
    state = state * 6364136223846793005ULL + 1442695040888963407ULL;
    return (state >> 33) % static_cast<unsigned>(in) == 0;
  }
} g_faults;

// Whether the call is to fail: sets errno.
bool Fails(ssize_t& result) {
  int call(g_faults.calls++);
  if (g_faults.fail_at >= 0 && call >= g_faults.fail_at) {
    ++g_faults.failed;
    errno = g_faults.error;
    result = g_faults.error ? -1 : 0;
    return true;
  }
  if (g_faults.One(g_faults.eintr_one_in)) {
    errno = EINTR;
    result = -1;
    return true;
  }
  return false;
}

}  // namespace

extern "C" ssize_t read(int fd, void* buffer, size_t size) {
  if (!g_faults.armed || fd < 3)
    return syscall(SYS_read, fd, buffer, size);
  ssize_t result(0);
  if (Fails(result))
    return result;
  if (size > 1 && g_faults.One(g_faults.short_one_in))
    size = 1 + size / 3;
  return syscall(SYS_read, fd, buffer, size);
}

extern "C" ssize_t write(int fd, const void* buffer, size_t size) {
  if (!g_faults.armed || fd < 3)
    return syscall(SYS_write, fd, buffer, size);
  ssize_t result(0);
  if (Fails(result))
    return result;
  if (size > 1 && g_faults.One(g_faults.short_one_in))
    size = 1 + size / 3;
  return syscall(SYS_write, fd, buffer, size);
}

extern "C" ssize_t writev(int fd, const struct iovec* parts, int count) {
  if (!g_faults.armed || fd < 3)
    return syscall(SYS_writev, fd, parts, count);
  ssize_t result(0);
  if (Fails(result))
    return result;
  if (count > 0 && g_faults.One(g_faults.short_one_in)) {
    for (int i(0); i < count; ++i) {
      if (parts[i].iov_len)
        return syscall(SYS_write, fd, parts[i].iov_base, 1 + parts[i].iov_len / 3);
    }
  }
  return syscall(SYS_writev, fd, parts, count);
}

namespace {

using Bytes = std::vector<ms::byte>;

Bytes Content(pbt::Src& src) {
  std::size_t size(src.weighted({8, 2, 1}));
  size = size == 0 ? src.size(3000) : size == 1 ? 8100 + src.draw(200) : src.draw(300000);
  auto text(src.bytes(size));
  return Bytes(text.begin(), text.end());
}

// Not by way of the code under test.
bool RawRead(const fs::path& path, Bytes& content) {
  int fd(open(path.c_str(), O_RDONLY));
  if (fd < 0)
    return false;
  content.clear();
  char buffer[65536];
  ssize_t n;
  while ((n = syscall(SYS_read, fd, buffer, sizeof buffer)) > 0)
    content.insert(content.end(), buffer, buffer + n);
  close(fd);
  return n == 0;
}

void RawWrite(const fs::path& path, const Bytes& content) {
  int fd(open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600));
  REQUIRE(fd >= 0);
  std::size_t done(0);
  while (done < content.size()) {
    ssize_t n(syscall(SYS_write, fd, content.data() + done, content.size() - done));
    REQUIRE(n > 0);
    done += static_cast<std::size_t>(n);
  }
  close(fd);
}

std::string FileName(pbt::Src& src) {
  std::string name(src.boolean() ? src.text(1 + src.draw(8), "abcXYZ0189_.- ~") : src.bytes(1 + src.draw(20)));
  for (auto& c : name)
    if (c == '/' || c == 0)
      c = '_';
  if (name == "." || name == "..")
    name += "x";
  return name;
}

std::string Show(const Bytes& bytes) {
  return std::to_string(bytes.size()) + " bytes " +
         pbt::Hex(std::string(bytes.begin(), bytes.end()), 4);
}

// Everything in a directory.
std::map<std::string, Bytes> Snapshot(const fs::path& root) {
  std::map<std::string, Bytes> found;
  for (fs::recursive_directory_iterator itr(root), end; itr != end; ++itr) {
    Bytes content;
    if (fs::is_regular_file(itr->path()))
      RawRead(itr->path(), content);
    else if (fs::is_directory(itr->path()))
      content = Bytes{'d', 'i', 'r'};
    found[itr->path().string()] = content;
  }
  return found;
}

}  // namespace

PROPERTY(RoundTrips, (pbt::Options{3, 4, false, 0})) {
  fs::path root(pbt::FreshPath("files"));
  fs::create_directories(root / "sub");
  pbt::Finally remove([&] {
    boost::system::error_code ec;
    fs::remove_all(root, ec);
  });
  std::vector<fs::path> paths;
  for (std::size_t i(0), n(1 + src.draw(3)); i < n; ++i) {
    auto name(FileName(src));
    while (std::count(paths.begin(), paths.end(), root / name) || name == "sub" || name == "link")
      name += "x";
    paths.push_back(root / name);
  }
  paths.push_back(root / "sub" / "file");
  std::map<fs::path, Bytes> model;
  auto check([&](const fs::path& path) {
    auto found(ms::ReadFile(path));
    if (!model.count(path)) {
      REQUIRE(!found) << "read a file which doesn't exist";
    } else {
      REQUIRE(found.valid()) << "not read: " << path;
      REQUIRE(*found == model[path]) << Show(*found) << " instead of " << Show(model[path]);
    }
  });
  std::size_t steps(1 + src.size(8)), written(0);
  for (std::size_t step(0); step < steps; ++step) {
    const auto& path(src.pick(paths));
    switch (src.weighted({6, 3, 1, 2})) {
      case 0: {
        auto content(Content(src));
        cs.note() << path.filename() << " = " << Show(content) << "; ";
        REQUIRE(ms::WriteFile(path, content)) << "not written";
        model[path] = content;
        Bytes raw;
        REQUIRE(RawRead(path, raw));
        REQUIRE(raw == content) << "wrote " << Show(raw) << " instead of " << Show(content);
        ++written;
        break;
      }
      case 1:
        check(path);
        break;
      case 2:
        boost::filesystem::remove(path);
        model.erase(path);
        break;
      default: {  // what can't be a file
        static const std::vector<std::string> kBad{"missing/file", "sub", "sub/", ".", ""};
        auto bad(src.pick(kBad));
        fs::path refused(bad.empty() ? fs::path() : root / bad);
        if (model.size() && src.boolean())
          refused = model.begin()->first / "below";
        cs.note() << "refused " << refused.filename() << "; ";
        REQUIRE(!ms::WriteFile(refused, Content(src))) << "wrote to " << refused;
        REQUIRE(!ms::ReadFile(refused)) << "read from " << refused;
        cs.label("refused");
      }
    }
  }
  for (const auto& path : paths)
    check(path);
  // Nothing else was touched.
  std::map<std::string, Bytes> expected;
  expected[(root / "sub").string()] = Bytes{'d', 'i', 'r'};
  for (const auto& file : model)
    expected[file.first.string()] = file.second;
  REQUIRE(Snapshot(root) == expected) << "other files were changed";
  if (written >= 1)
    cs.nontrivial();
}

PROPERTY(FailingDevices, (pbt::Options{3, 3, false, 0})) {
  fs::path path(pbt::FreshPath("device"));
  pbt::Finally remove([&] {
    g_faults = Faults();
    boost::system::error_code ec;
    fs::remove(path, ec);
  });
  auto content(Content(src));
  auto plan([&] {
    g_faults = Faults();
    g_faults.fail_at = src.chance(2, 3) ? static_cast<int>(src.draw(4)) : -1;
    g_faults.short_one_in = src.boolean() ? 1 + static_cast<int>(src.draw(4)) : 0;
    g_faults.eintr_one_in = src.chance(1, 3) ? 2 + static_cast<int>(src.draw(4)) : 0;
    g_faults.state = src.draw(1 << 30);
  });
  cs.note() << Show(content) << "; ";
  bool old(src.boolean());
  if (old)
    RawWrite(path, Content(src));
  plan();
  g_faults.error = src.pick(std::vector<int>{ENOSPC, EIO, EDQUOT, EFBIG});
  cs.note() << "writing: fail at " << g_faults.fail_at << ", short 1/" << g_faults.short_one_in
            << ", interrupted 1/" << g_faults.eintr_one_in << "; ";
  g_faults.armed = true;
  bool written(ms::WriteFile(path, content));
  g_faults.armed = false;
  Bytes raw;
  bool exists(RawRead(path, raw));
  if (g_faults.failed) {
    REQUIRE(!written) << "failing writes passed over";
    cs.label("write failed");
    cs.nontrivial();
  } else {
    REQUIRE(written) << "not written though every write succeeded";
    REQUIRE(exists && raw == content);
  }

  content = Content(src);
  RawWrite(path, content);
  plan();
  g_faults.error = src.boolean() ? EIO : 0;
  cs.note() << Show(content) << "; reading: fail at " << g_faults.fail_at << " with "
            << g_faults.error << ", short 1/" << g_faults.short_one_in << ", interrupted 1/"
            << g_faults.eintr_one_in;
  g_faults.armed = true;
  auto found(ms::ReadFile(path));
  g_faults.armed = false;
  if (found.valid()) {
    REQUIRE(*found == content) << "failing reads passed over: " << Show(*found);
    cs.label("read");
  } else {
    REQUIRE(g_faults.failed) << "not read though every read succeeded";
    REQUIRE(found.error().code() == make_error_code(ms::CommonErrors::filesystem_io_error));
    cs.label("read failed");
    cs.nontrivial();
  }
}

// Devices and limits of the system itself.
PROPERTY(FullDevices, (pbt::Options{1, 6, false, 0})) {
  fs::path path(pbt::FreshPath("full"));
  pbt::Finally remove([&] {
    boost::system::error_code ec;
    fs::remove(path, ec);
  });
  auto content(Content(src));
  cs.note() << Show(content);
  switch (src.draw(4)) {
    case 0:
      if (!fs::exists("/dev/full"))
        throw pbt::Discard();
      cs.note() << " to a full device";
      if (content.empty())
        content.push_back(1);
      REQUIRE(!ms::WriteFile("/dev/full", content)) << "written to a full device";
      break;
    case 1: {
      cs.note() << " without descriptors left";
      RawWrite(path, content);
      rlimit old{}, none{};
      REQUIRE_EQ(getrlimit(RLIMIT_NOFILE, &old), 0);
      none = old;
      none.rlim_cur = 0;
      REQUIRE_EQ(setrlimit(RLIMIT_NOFILE, &none), 0);
      auto found(ms::ReadFile(path));
      bool written(ms::WriteFile(path, content));
      setrlimit(RLIMIT_NOFILE, &old);
      REQUIRE(!written) << "written without being able to open the file";
      REQUIRE(!found || content.empty()) << "read without being able to open the file";
      break;
    }
    case 2: {
      cs.note() << " too large for memory";
      RawWrite(path, content);
      REQUIRE_EQ(truncate(path.c_str(), static_cast<off_t>(1) << (33 + src.draw(8))), 0);
      REQUIRE(!ms::ReadFile(path)) << "read more than there is memory";
      break;
    }
    default:
      cs.note() << " by way of a link";
      RawWrite(path, content);
      fs::path link(pbt::FreshPath("link"));
      fs::create_symlink(path, link);
      auto found(ms::ReadFile(link));
      REQUIRE(found.valid() && *found == content);
      content.push_back('x');
      REQUIRE(ms::WriteFile(link, content));
      Bytes raw;
      REQUIRE(RawRead(path, raw) && raw == content);
      fs::remove(link);
  }
  cs.nontrivial();
}

// -------------------------------------------------------------------------- names of data's files
namespace {

ms::Identity DrawName(pbt::Src& src) {
  auto bytes(src.bytes(64));
  return ms::Identity(std::vector<ms::byte>(bytes.begin(), bytes.end()));
}

std::uint32_t DrawType(pbt::Src& src) {
  return src.boolean() ? static_cast<std::uint32_t>(src.draw(12))
                       : static_cast<std::uint32_t>(src.u64());
}

std::string LowerHex(const ms::Identity& name) {
  static const char kDigits[] = "0123456789abcdef";
  std::string text;
  for (auto byte : name.string()) {
    text += kDigits[byte / 16];
    text += kDigits[byte % 16];
  }
  return text;
}

}  // namespace

PROPERTY(DataFileNames, (pbt::Options{3, 1, false, 0})) {
  auto name(DrawName(src));
  auto type(DrawType(src));
  ms::Data::NameAndTypeId first(name, ms::DataTypeId(type));
  auto other_name(name);
  auto other_type(type);
  switch (src.draw(3)) {
    case 0: {
      auto bytes(name.string());
      bytes[src.index(64)] ^= static_cast<ms::byte>(1 << src.draw(8));
      other_name = ms::Identity(bytes);
      break;
    }
    case 1:
      other_type ^= 1u << src.draw(32);
      break;
    default:
      other_name = DrawName(src);
      other_type = DrawType(src);
  }
  ms::Data::NameAndTypeId second(other_name, ms::DataTypeId(other_type));
  cs.note() << LowerHex(name) << ' ' << type << ' ' << other_type;
  auto file(ms::detail::GetFileName(first)), other_file(ms::detail::GetFileName(second));
  REQUIRE(!file.empty() && file.filename() == file) << "not a plain file name: " << file;
  bool same(name == other_name && type == other_type);
  REQUIRE((file == other_file) == same) << file << ' ' << other_file;
  auto back(ms::detail::GetDataNameAndTypeId(file));
  REQUIRE(back.name == name);
  REQUIRE_EQ(back.type_id.data, type);
  REQUIRE(back == first);
  auto other_back(ms::detail::GetDataNameAndTypeId(other_file));
  REQUIRE(other_back == second);
  cs.nontrivial();
}

PROPERTY(MalformedFileNames, (pbt::Options{2, 1, false, 0})) {
  auto name(DrawName(src));
  auto hex(LowerHex(name)), number(std::to_string(DrawType(src)));
  std::string file;
  switch (src.draw(12)) {
    case 0:  // too short or too long a name
      file = hex.substr(0, src.draw(128)) + '_' + number;
      break;
    case 1:
      file = hex + src.text(1 + src.draw(4), "0123456789abcdef") + '_' + number;
      break;
    case 2: {  // not hexadecimal
      auto wrong(hex);
      wrong[src.index(128)] = src.pick(std::vector<char>{'g', ' ', '_', '-', '\x80', '/'});
      file = wrong + '_' + number;
      break;
    }
    case 3:  // no type
      file = src.boolean() ? hex : hex + '_';
      break;
    case 4:  // no number
      file = hex + '_' + src.text(1 + src.draw(6), "abcdefxXyz.,;:");
      break;
    case 5:
      file = hex + '_' + number + src.text(1 + src.draw(3), "abcxyz., -+");
      break;
    case 6:
      file = hex + '_' + src.pick(std::vector<std::string>{" ", "-", "\t", "--", "0x"}) + number;
      break;
    case 7:  // numbers beyond all types
      file = hex + '_' + std::to_string((1ULL << 32) + src.draw(src.boolean() ? 1ULL << 62 : 20));
      break;
    case 8:
      file = hex + '_' + std::to_string(1 + src.draw(9)) + std::string(20 + src.draw(20), '0');
      break;
    case 9:
      file = src.boolean() ? "" : src.text(src.draw(20), "_0123456789abcdef");
      break;
    case 10:
      file = src.text(128 + src.draw(10), "0123456789");
      break;
    default:
      file = hex + "__" + number;
  }
  cs.note() << '"' << file << '"';
  bool refused(false);
  try {
    ms::detail::GetDataNameAndTypeId(file);
  } catch (const std::exception&) {
    refused = true;
  }
  REQUIRE(refused);
  cs.nontrivial();
}

// --------------------------------------------------------------------------------------- options
PROPERTY(PathOptions, (pbt::Options{2, 6, false, 0})) {
  fs::path root(pbt::FreshPath("options"));
  fs::create_directories(root / "dir");
  pbt::Finally remove([&] {
    boost::system::error_code ec;
    fs::remove_all(root, ec);
  });
  RawWrite(root / "file", Bytes{'a', 'b', 'c'});
  fs::create_symlink(root / "dir", root / "to-dir");
  fs::create_symlink(root / "file", root / "to-file");
  static const std::vector<std::string> kPaths{"dir",     "file",       "to-dir",      "to-file",
                                               "new",     "dir/new",    "missing/new", "a/b/c",
                                               "file/x", "to-dir/new", "to-file/x"};
  std::vector<std::string> names{"one", "two"};
  std::size_t steps(1 + src.draw(5));
  for (std::size_t step(0); step < steps; ++step) {
    auto which(src.pick(kPaths));
    bool is_dir(src.boolean()), create(src.boolean()), given(src.chance(5, 6));
    bool empty(src.chance(1, 10));
    fs::path path(empty ? fs::path() : root / which);
    po::variables_map map;
    if (given)
      map.insert(std::make_pair("one", po::variable_value(boost::any(path.string()), false)));
    if (src.boolean())
      map.insert(std::make_pair(
          "two", po::variable_value(boost::any((root / src.pick(kPaths)).string()), false)));
    cs.note() << (given ? which : "none") << (empty ? " empty" : "") << (is_dir ? " dir" : " file")
              << (create ? " create; " : "; ");
    auto before(Snapshot(root));
    boost::system::error_code ec;
    auto status(fs::status(path, ec).type());
    bool exists(given && !empty && (status == fs::regular_file || status == fs::directory_file));
    // Which of the path's ancestors exists decides whether it can be created.
    fs::path ancestor(path.parent_path());
    bool direct(true);
    while (!ancestor.empty() && !fs::exists(ancestor, ec)) {
      ancestor = ancestor.parent_path();
      direct = false;
    }
    bool possible(!ancestor.empty() && fs::is_directory(ancestor) && (is_dir || direct));
    auto found(ms::GetPathFromProgramOptions("one", map, is_dir, create));
    if (!given || empty) {
      REQUIRE(found.empty()) << found;
      REQUIRE(Snapshot(root) == before);
      continue;
    }
    if (exists) {
      REQUIRE_EQ(found, ((status == fs::directory_file) == is_dir ? path : fs::path()));
      REQUIRE(Snapshot(root) == before) << "changed what exists";
      cs.label("exists");
      continue;
    }
    if (!create) {
      REQUIRE(found.empty()) << found << " doesn't exist";
      REQUIRE(Snapshot(root) == before);
      continue;
    }
    if (!possible) {
      REQUIRE(found.empty()) << found << " can't be created";
      REQUIRE(Snapshot(root) == before);
      cs.label("can't be created");
      continue;
    }
    REQUIRE_EQ(found, path);
    REQUIRE(is_dir ? fs::is_directory(path) : fs::is_regular_file(path)) << "not created";
    if (!is_dir)
      REQUIRE_EQ(fs::file_size(path), 0U);
    auto after(Snapshot(root));
    for (const auto& entry : before)
      REQUIRE(after.count(entry.first) && after[entry.first] == entry.second)
          << "changed " << entry.first;
    cs.label("created");
    cs.nontrivial();
  }
}
