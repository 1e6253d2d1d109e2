// Replaces the socket calls asio makes (link with NET_WRAP): EINTR, errors, and hosts without IPv6.
// (Short reads and writes can't be made up: asio waits for the next edge after one.)
#ifndef VERIF_HARNESS_NET_FAULTS_H_
#define VERIF_HARNESS_NET_FAULTS_H_

#include <cstdint>

namespace net {

struct Plan {
  unsigned eintr_one_in = 0;  // 0: never.  n: about one call in n is interrupted.
  long fail_send_at = -1;     // The number of the send which fails with a connection reset.
  long fail_receive_at = -1;
  long fail_accept_at = -1;  // Fails for want of files; the connection remains to be accepted.
  bool no_ipv6 = false;
  std::uint64_t seed = 0;
};

// Not while other threads use the network.
void Set(const Plan& plan);
bool HostHasIpv6();  // ::1 can be bound.
// Own sockets, without faults.
int Listen(int family, std::uint16_t port, bool reuse);  // -1: not possible
int BindOnly(int family, std::uint16_t port);
int Connect(int family, std::uint16_t port);
std::uint16_t LocalPort(int fd);
bool SendAll(int fd, const void* data, std::size_t size);
// Bytes received, 0 at the end, -1 for an error or after 'ms'.
long Receive(int fd, void* data, std::size_t size, int ms);
// A range of 'size' ports nobody else (of these checks) uses, below the ephemeral ports.
std::uint16_t OwnPorts(unsigned size);
// Keeps other processes of these checks out of the last ports; -1: busy
int LockName(const char* name);

}  // namespace net

#endif  // VERIF_HARNESS_NET_FAULTS_H_
