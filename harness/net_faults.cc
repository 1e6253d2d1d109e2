#include "net_faults.h"

#include <arpa/inet.h>
#include <errno.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>

#include <atomic>
#include <cstddef>
#include <cstring>
#include <string>

extern "C" {
ssize_t __real_sendmsg(int, const msghdr*, int);
ssize_t __real_recvmsg(int, msghdr*, int);
ssize_t __real_send(int, const void*, size_t, int);
ssize_t __real_recv(int, void*, size_t, int);
int __real_socket(int, int, int);
int __real_accept(int, sockaddr*, socklen_t*);
}

namespace net {

namespace {

Plan g_plan;
std::atomic<std::uint64_t> g_calls(0);
std::atomic<long> g_sends(0), g_receives(0), g_accepts(0);

std::uint64_t Roll() {
  std::uint64_t x(g_calls.fetch_add(1, std::memory_order_relaxed) * 0x9e3779b97f4a7c15ULL +
                  g_plan.seed);
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}

bool Interrupted() { return g_plan.eintr_one_in && Roll() % g_plan.eintr_one_in == 0; }

bool Fails(std::atomic<long>& counter, long at) {
  long mine(counter.fetch_add(1, std::memory_order_relaxed));
  return at >= 0 && mine == at;
}

sockaddr_storage Address(int family, std::uint16_t port, socklen_t& size) {
  sockaddr_storage storage;
  std::memset(&storage, 0, sizeof storage);
  if (family == AF_INET6) {
    auto v6(reinterpret_cast<sockaddr_in6*>(&storage));
    v6->sin6_family = AF_INET6;
    v6->sin6_addr = in6addr_loopback;
    v6->sin6_port = htons(port);
    size = sizeof *v6;
  } else {
    auto v4(reinterpret_cast<sockaddr_in*>(&storage));
    v4->sin_family = AF_INET;
    v4->sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    v4->sin_port = htons(port);
    size = sizeof *v4;
  }
  return storage;
}

}  // namespace

void Set(const Plan& plan) {
  g_plan = plan;
  if (!HostHasIpv6())
    g_plan.no_ipv6 = true;
  g_calls = 0;
  g_sends = 0;
  g_receives = 0;
  g_accepts = 0;
}

bool HostHasIpv6() {
  static bool has([] {
    int fd(Listen(AF_INET6, 0, true));
    if (fd >= 0)
      close(fd);
    return fd >= 0 || (errno != EADDRNOTAVAIL && errno != EAFNOSUPPORT);
  }());
  return has;
}

int BindOnly(int family, std::uint16_t port) {
  int fd(__real_socket(family, SOCK_STREAM | SOCK_CLOEXEC, 0));
  socklen_t size;
  auto address(Address(family, port, size));
  if (fd >= 0 && bind(fd, reinterpret_cast<sockaddr*>(&address), size)) {
    close(fd);
    fd = -1;
  }
  return fd;
}

int Listen(int family, std::uint16_t port, bool reuse) {
  int fd(__real_socket(family, SOCK_STREAM | SOCK_CLOEXEC, 0));
  if (fd < 0)
    return fd;
  int on(1);
  if (reuse)
    setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &on, sizeof on);
  socklen_t size;
  auto address(Address(family, port, size));
  if (bind(fd, reinterpret_cast<sockaddr*>(&address), size) || listen(fd, 50)) {
    int error(errno);
    close(fd);
    errno = error;
    return -1;
  }
  return fd;
}

int Connect(int family, std::uint16_t port) {
  int fd(__real_socket(family, SOCK_STREAM | SOCK_CLOEXEC, 0));
  socklen_t size;
  auto address(Address(family, port, size));
  if (fd >= 0 && connect(fd, reinterpret_cast<sockaddr*>(&address), size)) {
    close(fd);
    return -1;
  }
  int on(1);
  setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &on, sizeof on);
  return fd;
}

std::uint16_t LocalPort(int fd) {
  sockaddr_storage storage;
  socklen_t size(sizeof storage);
  if (getsockname(fd, reinterpret_cast<sockaddr*>(&storage), &size))
    return 0;
  return ntohs(storage.ss_family == AF_INET6 ?
                   reinterpret_cast<sockaddr_in6*>(&storage)->sin6_port :
                   reinterpret_cast<sockaddr_in*>(&storage)->sin_port);
}

bool SendAll(int fd, const void* data, std::size_t size) {
  auto from(static_cast<const char*>(data));
  while (size) {
    ssize_t sent(__real_send(fd, from, size, MSG_NOSIGNAL));
    if (sent < 0 && errno == EINTR)
      continue;
    if (sent <= 0)
      return false;
    from += sent;
    size -= static_cast<std::size_t>(sent);
  }
  return true;
}

long Receive(int fd, void* data, std::size_t size, int ms) {
  pollfd poll_fd{fd, POLLIN, 0};
  int ready(poll(&poll_fd, 1, ms));
  if (ready <= 0)
    return -1;
  return __real_recv(fd, data, size, 0);
}

int LockName(const char* name) {
  int fd(__real_socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0));
  sockaddr_un address;
  std::memset(&address, 0, sizeof address);
  address.sun_family = AF_UNIX;
  std::strncpy(address.sun_path + 1, name, sizeof address.sun_path - 2);
  if (fd >= 0 && bind(fd, reinterpret_cast<sockaddr*>(&address),
                      static_cast<socklen_t>(offsetof(sockaddr_un, sun_path) + 1 +
                                             std::strlen(name)))) {
    close(fd);
    fd = -1;
  }
  return fd;
}

std::uint16_t OwnPorts(unsigned size) {
  static std::uint16_t base(0);
  if (!base) {
    for (unsigned slot(0); slot < 10000 / size; ++slot) {
      if (LockName(("verif-ports-" + std::to_string(slot)).c_str()) >= 0) {
        base = static_cast<std::uint16_t>(12000 + slot * size);
        break;
      }
    }
  }
  return base;
}

}  // namespace net

extern "C" {

int __wrap_socket(int family, int type, int protocol) {
  if (family == AF_INET6 && net::g_plan.no_ipv6) {
    errno = EAFNOSUPPORT;
    return -1;
  }
  return __real_socket(family, type, protocol);
}

int __wrap_accept(int fd, sockaddr* address, socklen_t* size) {
  pollfd waiting{fd, POLLIN, 0};
  if (net::g_plan.fail_accept_at >= 0 && poll(&waiting, 1, 0) == 1 &&
      net::Fails(net::g_accepts, net::g_plan.fail_accept_at)) {
    errno = EMFILE;
    return -1;
  }
  return __real_accept(fd, address, size);
}

ssize_t __wrap_sendmsg(int fd, const msghdr* message, int flags) {
  if (net::Fails(net::g_sends, net::g_plan.fail_send_at)) {
    errno = ECONNRESET;
    return -1;
  }
  if (net::Interrupted()) {
    errno = EINTR;
    return -1;
  }
  return __real_sendmsg(fd, message, flags);
}

ssize_t __wrap_recvmsg(int fd, msghdr* message, int flags) {
  if (net::Fails(net::g_receives, net::g_plan.fail_receive_at)) {
    errno = ECONNRESET;
    return -1;
  }
  if (net::Interrupted()) {
    errno = EINTR;
    return -1;
  }
  return __real_recvmsg(fd, message, flags);
}

ssize_t __wrap_send(int fd, const void* data, size_t size, int flags) {
  if (net::Fails(net::g_sends, net::g_plan.fail_send_at)) {
    errno = ECONNRESET;
    return -1;
  }
  if (net::Interrupted()) {
    errno = EINTR;
    return -1;
  }
  return __real_send(fd, data, size, flags);
}

ssize_t __wrap_recv(int fd, void* data, size_t size, int flags) {
  if (net::Fails(net::g_receives, net::g_plan.fail_receive_at)) {
    errno = ECONNRESET;
    return -1;
  }
  if (net::Interrupted()) {
    errno = EINTR;
    return -1;
  }
  return __real_recv(fd, data, size, flags);
}
}
