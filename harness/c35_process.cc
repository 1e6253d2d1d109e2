// C35: facts about the running program, command lines and processes.
#include "pbt.h"

#include <dirent.h>
#include <netinet/in.h>
#include <pwd.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include "boost/filesystem.hpp"

#include "maidsafe/common/application_support_directories.h"
#include "maidsafe/common/config.h"
#include "maidsafe/common/error.h"
#include "maidsafe/common/process.h"
#include "maidsafe/common/utils.h"

namespace ms = maidsafe;
namespace fs = boost::filesystem;

namespace {

std::string Path(const std::function<fs::path()>& get) {
  try {
    return "path " + get().string();
  } catch (const ms::common_error& error) {
    return error.code() == make_error_code(ms::CommonErrors::uninitialised) ? "uninitialised"
                                                                           : "another error";
  }
}

// Runs "work" in a process of its own; returns what it wrote.
std::string Elsewhere(const std::function<void(int)>& work) {
  int pipes[2];
  REQUIRE_EQ(pipe(pipes), 0);
  pid_t child(fork());
  if (child == 0) {
    close(pipes[0]);
    work(pipes[1]);
    _exit(0);
  }
  close(pipes[1]);
  std::string text;
  char buffer[4096];
  ssize_t n;
  while ((n = read(pipes[0], buffer, sizeof buffer)) > 0)
    text.append(buffer, static_cast<std::size_t>(n));
  close(pipes[0]);
  int status(0);
  waitpid(child, &status, 0);
  REQUIRE(status == 0) << "the process ended with status " << status << " after " << text;
  return text;
}

}  // namespace

extern "C" ssize_t __real_readlink(const char* path, char* buffer, size_t size);
extern "C" ssize_t __wrap_readlink(const char* path, char* buffer, size_t size) {
  if (getenv("PBT_NO_PROC")) {
    errno = ENOENT;
    return -1;
  }
  return __real_readlink(path, buffer, size);
}

// argv: whatever, the kind of characters, the wide argv[0], another argv[0], another name
int pbt::ProbeMain(int argc, char** argv) {
  if (argc != 5)
    return 9;
  std::string kind(argv[1]), wide(argv[2]), other(argv[3]), name(argv[4]);
  auto show([&] {
    std::cout << Path([] { return ms::ThisExecutablePath(); }) << '\0'
              << Path([] { return ms::ThisExecutableDir(); }) << '\0'
              << Path([&] { return ms::process::GetOtherExecutablePath(name); }) << '\0';
  });
  auto set([&](const std::string& path) {
    if (kind == "char") {
      const char* args[] = {path.c_str(), nullptr};
      ms::SetThisExecutablePath(args);
    } else {
      std::wstring wide_path(path.begin(), path.end());
      const wchar_t* args[] = {wide_path.c_str(), nullptr};
      ms::SetThisExecutablePath(args);
    }
  });
  show();
  set(kind == "char" ? argv[0] : wide);
  show();
  set(other);
  show();
  std::cout << ms::process::GetProcessId() << '\0' << std::flush;
  return 0;
}

namespace {

std::string Name(pbt::Src& src, const std::string& letters) {
  auto name(src.text(1 + src.draw(10), letters));
  return name == "." || name == ".." || name.find_first_not_of(' ') == std::string::npos ? name + "x"
                                                                                        : name;
}

// A copy of this program to be linked to.
const fs::path& Program() {
  static const fs::path program([] {
    fs::path path(pbt::FreshPath("program"));
    fs::copy_file("/proc/self/exe", path);
    return path;
  }());
  return program;
}

}  // namespace

PROPERTY(ExecutablePath, (pbt::Options{1, 400, false, 0})) {
  static const std::string kLetters("abcXYZ019_.- +(");
  fs::path root(fs::canonical(pbt::ScratchDir()) / fs::path(pbt::FreshPath("exe")).filename());
  fs::path dir(root);
  for (std::size_t i(0), n(src.draw(4)); i < n; ++i)
    dir /= Name(src, kLetters);
  if (src.chance(1, 8)) {  // deep
    for (int i(0); i < 12; ++i)
      dir /= std::string(120, 'd');
  }
  fs::create_directories(dir);
  pbt::Finally remove([&] {
    boost::system::error_code ec;
    fs::remove_all(root, ec);
  });
  fs::path program(dir / Name(src, kLetters));
  fs::create_hard_link(Program(), program);
  fs::path start(program);
  bool linked(src.chance(1, 4));
  if (linked) {
    start = root / "a link";
    fs::create_symlink(program, start);
  }
  bool wide(src.chance(1, 4)), relative(src.boolean());
  std::string argv0(src.boolean() ? start.string() : Name(src, kLetters + "/"));
  // Started as "name" in its directory, or by its full path.
  std::string wide_path(relative ? (src.boolean() ? "./" : "") + start.filename().string()
                                 : start.string());
  std::string other(src.boolean() ? "New Path" : "/somewhere/else");
  std::string name(Name(src, "abcXYZ_-"));
  bool no_proc(src.chance(1, 4));  // the system doesn't say
  if (no_proc)
    argv0 = wide_path;
  cs.note() << (no_proc ? "no /proc " : "") << start << " as " << argv0 << (wide ? " wide " + wide_path : "");
  auto text(Elsewhere([&](int fd) {
    dup2(fd, 1);
    if (chdir(relative ? start.parent_path().c_str() : "/"))
      _exit(4);
    setenv("PBT_PROBE", "1", 1);
    if (no_proc)
      setenv("PBT_NO_PROC", "1", 1);
    std::string kind(wide ? "wide" : "char");
    const char* args[] = {argv0.c_str(), kind.c_str(), wide_path.c_str(), other.c_str(),
                          name.c_str(), nullptr};
    execv(start.c_str(), const_cast<char* const*>(args));
    _exit(5);
  }));
  std::vector<std::string> found;
  for (std::size_t at(0); at < text.size();) {
    auto end(text.find('\0', at));
    REQUIRE(end != std::string::npos) << text;
    found.push_back(text.substr(at, end - at));
    at = end + 1;
  }
  REQUIRE_EQ(found.size(), 10U) << text;
  for (int i(0); i < 3; ++i)
    REQUIRE_EQ(found[i], "uninitialised") << "before it was set";
  for (int i(3); i < 6; ++i) {
    REQUIRE(found[i].compare(0, 5, "path ") == 0) << found[i];
    REQUIRE_EQ(found[i + 3], found[i]) << "changed by setting it again";
  }
  fs::path path(found[3].substr(5)), parent(found[4].substr(5)), neighbour(found[5].substr(5));
  boost::system::error_code ec;
  REQUIRE(path.is_absolute()) << path;
  REQUIRE(fs::equivalent(path, program, ec)) << path << " isn't " << program;
  if (!linked)
    REQUIRE_EQ(path.filename(), program.filename());
  REQUIRE(parent.is_absolute()) << parent;
  REQUIRE(fs::equivalent(parent, path.parent_path(), ec)) << parent << " isn't where " << path << " is";
  REQUIRE(fs::equivalent(neighbour.parent_path(), parent, ec)) << neighbour;
  REQUIRE_EQ(neighbour.filename(), fs::path(name).replace_extension(path.extension()));
  REQUIRE_EQ(neighbour.extension(), path.extension());
  cs.nontrivial();
}

PROPERTY(Configured, (pbt::Options{1, 4000, false, 0})) {
  REQUIRE_EQ(ms::kApplicationVersion(), "12.7.345");
  REQUIRE_EQ(ms::kTargetPlatform(), "Minix3");
  REQUIRE_EQ(ms::kTargetArchitecture(), "m68k");
  REQUIRE_EQ(ms::kCompanyName(), "Acme");
  REQUIRE_EQ(ms::kApplicationName(), "Anvil");
  if (src.boolean())
    cs.nontrivial();
}

PROPERTY(CommandLine, (pbt::Options{3, 1, false, 0})) {
  static const std::string kLetters("abcXYZ019_.-/\\=\"' \t:");
  std::vector<std::string> args;
  std::string expected;
  for (std::size_t i(0), n(src.size(8)); i < n; ++i) {
    auto arg(src.text(1 + src.size(15), kLetters));
    if (i == 0) {
      arg.erase(std::remove(arg.begin(), arg.end(), '"'), arg.end());
      arg += 'x';
      if (src.chance(1, 4)) {  // quoted already
        arg = '"' + arg + '"';
        expected = arg;
        cs.label("quoted already");
      } else {
        expected = '"' + arg + '"';
      }
    } else {
      while (arg.back() == ' ')
        arg.back() = 'y';
      expected += ' ' + arg;
    }
    args.push_back(arg);
  }
  for (const auto& arg : args)
    cs.note() << '<' << arg << '>';
  auto copy(args);
  auto found(ms::process::ConstructCommandLine(args));
  REQUIRE(args == copy);
  while (!found.empty() && found.back() == ' ')
    found.pop_back();
  REQUIRE_EQ(found, expected);
  if (args.size() >= 2)
    cs.nontrivial();
}

PROPERTY(Processes, (pbt::Options{1, 60, false, 0})) {
  std::vector<pid_t> alive, dead;
  pbt::Finally end([&] {
    for (auto pid : alive) {
      kill(pid, SIGKILL);
      waitpid(pid, nullptr, 0);
    }
  });
  std::size_t steps(1 + src.size(10));
  for (std::size_t step(0); step < steps; ++step) {
    if (alive.empty() || src.boolean()) {
      auto text(src.chance(1, 3));
      pid_t child(0);
      int pipes[2];
      REQUIRE_EQ(pipe(pipes), 0);
      child = fork();
      if (child == 0) {
        auto id(ms::process::GetProcessId());
        bool right(id == static_cast<ms::process::ProcessId>(getpid()) &&
                   ms::process::IsRunning(getpid()) && ms::process::IsRunning(getppid()));
        if (write(pipes[1], right ? "y" : "n", 1) != 1)
          _exit(2);
        for (;;)
          pause();
      }
      alive.push_back(child);
      close(pipes[1]);
      char answer(0);
      auto n(read(pipes[0], &answer, 1));
      close(pipes[0]);
      REQUIRE(n == 1 && answer == 'y') << "a process is wrong about itself or its parent";
      if (text)
        kill(child, SIGSTOP);  // still there
      cs.note() << "start ";
    } else {
      auto which(src.index(alive.size()));
      auto pid(alive[which]);
      alive.erase(alive.begin() + static_cast<std::ptrdiff_t>(which));
      kill(pid, SIGKILL);
      waitpid(pid, nullptr, 0);
      dead.push_back(pid);
      cs.note() << "end ";
    }
    for (auto pid : alive)
      REQUIRE(ms::process::IsRunning(pid)) << "of a running process";
    for (auto pid : dead) {
      if (kill(pid, 0) == 0)
        continue;  // a new process
      REQUIRE(!ms::process::IsRunning(pid)) << "of an ended process";
    }
  }
  REQUIRE(!ms::process::IsRunning((1 << 22) + 1 + static_cast<pid_t>(src.draw(1 << 20))));
  REQUIRE_EQ(ms::process::GetProcessId(), static_cast<ms::process::ProcessId>(getpid()));
  if (!dead.empty())
    cs.nontrivial();
}

// --------------------------------------------------------------------------------- directories
namespace {

bool g_answer(false), g_known(true);
std::string g_home;

}  // namespace

extern "C" {

struct passwd* __real_getpwuid(uid_t id);
struct passwd* __wrap_getpwuid(uid_t id) {
  static struct passwd entry;
  if (!g_answer)
    return __real_getpwuid(id);
  if (!g_known)
    return nullptr;
  entry.pw_dir = const_cast<char*>(g_home.c_str());
  return &entry;
}

}  // extern "C"

PROPERTY(Directories, (pbt::Options{1, 4, false, 0})) {
  auto draw([&] { return src.chance(1, 3) ? std::string() : "/" + Name(src, "abc/XY z."); });
  g_known = src.chance(3, 4);
  g_home = draw();
  auto variable(draw());
  bool is_set(src.chance(3, 4));
  cs.note() << (g_known ? '"' + g_home + '"' : "unknown user") << ' '
            << (is_set ? '"' + variable + '"' : "no HOME");
  const char* old(getenv("HOME"));
  std::string old_home(old ? old : "");
  pbt::Finally restore([&] {
    g_answer = false;
    if (old)
      setenv("HOME", old_home.c_str(), 1);
  });
  if (is_set)
    setenv("HOME", variable.c_str(), 1);
  else
    unsetenv("HOME");
  g_answer = true;
  std::string home(g_known && !g_home.empty() ? g_home : is_set ? variable : "");
  REQUIRE_EQ(ms::GetHomeDir(), fs::path(home));
  REQUIRE_EQ(ms::GetUserAppDir(),
             home.empty() ? fs::path() : fs::path(home) / ".config" / "Acme" / "Anvil");
  REQUIRE_EQ(ms::GetSystemAppSupportDir(), fs::path("/opt") / "Acme" / "sbin");
  REQUIRE_EQ(ms::GetAppInstallDir(), fs::path("/usr/bin/"));
  cs.nontrivial();
}

// What lies between this computer and its peers.
namespace {

struct Network {
  bool fake = false;
  int connect_error = 0, name_error = 0;
  sockaddr_storage local{}, peer{};
  int connected = -1;  // the socket
  bool towards_another = false;
};
Network g_network;

bool Same(const sockaddr* a, const sockaddr_storage& b) {
  if (a->sa_family != b.ss_family)
    return false;
  if (a->sa_family == AF_INET) {
    auto* x(reinterpret_cast<const sockaddr_in*>(a));
    auto* y(reinterpret_cast<const sockaddr_in*>(&b));
    return x->sin_port == y->sin_port && x->sin_addr.s_addr == y->sin_addr.s_addr;
  }
  auto* x(reinterpret_cast<const sockaddr_in6*>(a));
  auto* y(reinterpret_cast<const sockaddr_in6*>(&b));
  return x->sin6_port == y->sin6_port && x->sin6_scope_id == y->sin6_scope_id &&
         std::memcmp(&x->sin6_addr, &y->sin6_addr, 16) == 0;
}

std::size_t OpenFiles() {
  std::size_t n(0);
  DIR* folder(opendir("/proc/self/fd"));
  while (readdir(folder))
    ++n;
  closedir(folder);
  return n;
}

}  // namespace

extern "C" int __real_connect(int fd, const sockaddr* address, socklen_t size);
extern "C" int __wrap_connect(int fd, const sockaddr* address, socklen_t size) {
  if (!g_network.fake)
    return __real_connect(fd, address, size);
  if (!Same(address, g_network.peer))
    g_network.towards_another = true;
  if (g_network.connect_error) {
    errno = g_network.connect_error;
    return -1;
  }
  g_network.connected = fd;
  return 0;
}
extern "C" int __real_getsockname(int fd, sockaddr* address, socklen_t* size);
extern "C" int __wrap_getsockname(int fd, sockaddr* address, socklen_t* size) {
  if (!g_network.fake || fd != g_network.connected)
    return __real_getsockname(fd, address, size);
  if (g_network.name_error) {
    errno = g_network.name_error;
    return -1;
  }
  socklen_t full(g_network.local.ss_family == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6));
  std::memcpy(address, &g_network.local, std::min(full, *size));
  *size = full;
  return 0;
}

PROPERTY(LocalAddress, (pbt::Options{1, 4, false, 0})) {
  static const std::vector<int> kErrors{ENETUNREACH, EHOSTUNREACH, EACCES, EADDRNOTAVAIL, ENOBUFS};
  bool six(src.boolean());
  auto address([&]() -> asio::ip::address {
    if (!six) {
      static const std::vector<std::uint32_t> kOdd{0, 0x7f000001, 0x7fffffff, 0x7e000001, 0x80000000,
                                                   1, 0xffffffff, 0xa9fe0101, 0x0a000001, 0xe0000001};
      return asio::ip::address_v4(src.boolean() ? src.pick(kOdd)
                                                : static_cast<std::uint32_t>(src.u64()));
    }
    asio::ip::address_v6::bytes_type bytes{};
    unsigned long scope(0);
    switch (src.draw(6)) {
      case 0:  // the unspecified one and its neighbours, among them the loopback's
        bytes[15] = static_cast<unsigned char>(src.draw(3));
        break;
      case 1:
        bytes[src.index(16)] = 1;
        break;
      case 2:  // mapped from version 4
        bytes[10] = bytes[11] = 0xff;
        bytes[12] = src.boolean() ? 127 : 10;
        bytes[15] = 1;
        break;
      case 3:  // link-local
        bytes[0] = 0xfe;
        bytes[1] = 0x80;
        bytes[15] = static_cast<unsigned char>(src.draw(256));
        scope = src.draw(5);
        break;
      default: {
        auto random(src.bytes(16));
        std::copy(random.begin(), random.end(), bytes.begin());
      }
    }
    return asio::ip::address_v6(bytes, scope);
  });
  auto peer(asio::ip::udp::endpoint(address(), static_cast<unsigned short>(src.draw(65536))));
  auto local(asio::ip::udp::endpoint(address(), static_cast<unsigned short>(src.draw(65536))));
  g_network = Network();
  std::memcpy(&g_network.peer, peer.data(), peer.size());
  std::memcpy(&g_network.local, local.data(), local.size());
  g_network.connect_error = src.chance(1, 6) ? src.pick(kErrors) : 0;
  g_network.name_error = src.chance(1, 12) ? src.pick(kErrors) : 0;
  bool none(g_network.connect_error || g_network.name_error || local.address().is_unspecified());
  if (!six)
    none = none || local.address().to_v4().to_ulong() >> 24 == 127;
  else
    none = none || local.address().to_v6() == asio::ip::address_v6::loopback();
  int probe(socket(six ? AF_INET6 : AF_INET, SOCK_DGRAM, 0));
  if (probe < 0)
    none = true;
  else
    close(probe);
  cs.note() << "towards " << peer << " from " << local << (none ? ", none" : "")
            << (g_network.connect_error ? ", unreachable" : "");
  std::size_t open(OpenFiles());
  g_network.fake = true;
  pbt::Finally restore([] { g_network.fake = false; });
  auto got(ms::GetLocalIp(peer));
  g_network.fake = false;
  REQUIRE(!g_network.towards_another) << "another peer was tried";
  REQUIRE_EQ(got, none ? asio::ip::address() : local.address());
  REQUIRE_EQ(OpenFiles(), open) << "files open";
  cs.label(none ? "none" : "an address");
  if (!none)
    cs.nontrivial();
}

// As many threads as processors, but two at least.
namespace {
int g_processors = 0;
}
// Also what the C++ library asks.
extern "C" int get_nprocs() {
  return g_processors ? g_processors : static_cast<int>(sysconf(_SC_NPROCESSORS_ONLN));
}
extern "C" long __real_sysconf(int name);
extern "C" long __wrap_sysconf(int name) {
  return g_processors && name == _SC_NPROCESSORS_ONLN ? g_processors : __real_sysconf(name);
}

PROPERTY(Threads, (pbt::Options{1, 400, false, 0})) {
  g_processors = 1 + static_cast<int>(src.boolean() ? src.draw(4) : src.draw(300));
  pbt::Finally restore([] { g_processors = 0; });
  cs.note() << g_processors << " processors";
  REQUIRE_EQ(std::thread::hardware_concurrency(), static_cast<unsigned>(g_processors));
  REQUIRE_EQ(ms::Concurrency(), static_cast<unsigned>(std::max(2, g_processors)));
  cs.nontrivial();
}
