// C27: listeners and the ports they bind.
#include "pbt.h"

#include <netinet/in.h>
#include <sys/socket.h>
#include <unistd.h>

#include <atomic>
#include <chrono>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <set>
#include <thread>
#include <vector>

#include "maidsafe/common/asio_service.h"
#include "maidsafe/common/error.h"
#include "maidsafe/common/tcp/connection.h"
#include "maidsafe/common/tcp/listener.h"

#include "net_faults.h"
#include "perturb.h"

namespace ms = maidsafe;
namespace tcp = maidsafe::tcp;
using Strand = asio::io_service::strand;

namespace {

const unsigned kRange(10);  // "kMaxRangeAboveDefaultPort"
const std::chrono::seconds kPatience(20);

template <typename Fn>
std::string Outcome(const Fn& fn) {
  try {
    fn();
  } catch (const ms::maidsafe_error& error) {
    if (error.code() == ms::make_error_code(ms::VaultManagerErrors::failed_to_listen))
      return "failed_to_listen";
    if (error.code() == ms::make_error_code(ms::VaultManagerErrors::failed_to_connect))
      return "failed_to_connect";
    return "other: " + error.code().message();
  }
  return "";
}

struct World {
  ms::AsioService service;
  Strand first, second;
  explicit World(std::size_t workers)
      : service(workers), first(service.service()), second(service.service()) {}
  ~World() {
    service.service().stop();
    service.Stop();
  }
};

struct Sockets {
  std::vector<int> fds;
  ~Sockets() {
    for (int fd : fds)
      close(fd);
  }
};

struct Announced {
  std::mutex mutex;
  std::condition_variable changed;
  std::vector<tcp::ConnectionPtr> connections;
  std::size_t Count() {
    std::lock_guard<std::mutex> lock(mutex);
    return connections.size();
  }
  bool Wait(std::size_t count) {
    std::unique_lock<std::mutex> lock(mutex);
    return changed.wait_for(lock, kPatience, [&] { return connections.size() >= count; });
  }
  tcp::ListenerPtr Listen(Strand& strand, tcp::Port port) {
    return tcp::Listener::MakeShared(strand,
                                     [this](tcp::ConnectionPtr connection) {
                                       std::lock_guard<std::mutex> lock(mutex);
                                       connections.push_back(std::move(connection));
                                       changed.notify_all();
                                     },
                                     port);
  }
};

// Both ends deliver what the other sends.
void Echo(const tcp::ConnectionPtr& one, const tcp::ConnectionPtr& two) {
  struct Got {
    std::mutex mutex;
    std::condition_variable changed;
    std::vector<tcp::Message> messages[2];
  };
  auto got(std::make_shared<Got>());
  int n(0);
  for (auto& end : {one, two}) {
    end->Start(
        [got, n](tcp::Message message) {
          std::lock_guard<std::mutex> lock(got->mutex);
          got->messages[n].push_back(std::move(message));
          got->changed.notify_all();
        },
        [] {});
    ++n;
  }
  one->Send({1, 2, 3});
  two->Send({4, 5});
  std::unique_lock<std::mutex> lock(got->mutex);
  REQUIRE(got->changed.wait_for(lock, kPatience, [&] {
    return !got->messages[0].empty() && !got->messages[1].empty();
  })) << "messages missing";
  REQUIRE(got->messages[0].front() == (tcp::Message{4, 5}));
  REQUIRE(got->messages[1].front() == (tcp::Message{1, 2, 3}));
}

}  // namespace

PROPERTY(Ports, (pbt::Options{1, 40, true, 0})) {
  static std::uint16_t own(net::OwnPorts(60));
  net::Plan plan;
  plan.no_ipv6 = src.chance(1, 6);
  if (src.chance(1, 4))
    plan.eintr_one_in = 3;
  if (src.chance(1, 4))
    plan.fail_accept_at = static_cast<long>(src.draw(3));
  net::Set(plan);
  perturb::Set(src.boolean() ? static_cast<unsigned>(2 + src.draw(20)) : 0, src.draw(1 << 20));
  bool v6(!plan.no_ipv6 && net::HostHasIpv6());
  int family(v6 ? AF_INET6 : AF_INET);
  Sockets locks;
  unsigned desired(own);
  if (src.chance(1, 8)) {  // near the last port
    int lock(net::LockName("verif-last-ports"));
    if (lock < 0 || !own)
      throw pbt::Discard();
    locks.fds.push_back(lock);
    desired = 65535 - static_cast<unsigned>(src.draw(kRange + 1));
    cs.label("last ports");
  } else if (!own) {
    throw pbt::Discard();
  } else {
    desired += static_cast<unsigned>(src.draw(40));
  }
  // Nobody else may use the ports now.
  const unsigned last(std::min(desired + kRange, 65535u));
  const unsigned beyond(std::min(last + 2, 65535u));
  for (unsigned port(desired); port <= beyond; ++port) {
    Sockets probe;
    probe.fds.push_back(net::Listen(family, static_cast<std::uint16_t>(port), true));
    if (probe.fds.back() < 0)
      throw pbt::Discard();
  }
  Sockets taken;
  std::set<unsigned> busy;
  unsigned kind(static_cast<unsigned>(src.draw(4)));
  std::string pattern;
  for (unsigned port(desired); port <= last; ++port) {
    bool take(kind == 0 ? false : kind == 1 ? src.boolean() : kind == 2 ? true :
                  port != desired + (kRange ? kRange : 0) && !src.chance(1, 12));
    pattern += take ? 'x' : '.';
    if (!take)
      continue;
    int fd(net::Listen(family, static_cast<std::uint16_t>(port), true));
    if (fd < 0)
      throw pbt::Discard();
    taken.fds.push_back(fd);
    busy.insert(port);
  }
  cs.note() << (v6 ? "" : "IPv4 ") << desired << ' ' << pattern << ' ';
  unsigned expected(desired);
  while (expected <= last && busy.count(expected))
    ++expected;
  std::size_t workers(1 + src.draw(4));
  std::vector<std::unique_ptr<Announced>> announced;
  std::vector<tcp::ConnectionPtr> clients;
  World world(workers);
  // Connections go before the service and the listeners.
  pbt::Finally drop([&] {
    clients.clear();
    for (auto& one : announced) {
      std::lock_guard<std::mutex> lock(one->mutex);
      one->connections.clear();
    }
  });
  announced.emplace_back(new Announced);
  tcp::ListenerPtr listener;
  std::string outcome(Outcome([&] {
    listener = announced.back()->Listen(world.first, static_cast<tcp::Port>(desired));
  }));
  if (expected > last) {
    REQUIRE_EQ(outcome, "failed_to_listen");
    for (unsigned port(last + 1); port <= beyond; ++port) {
      int fd(net::Connect(family, static_cast<std::uint16_t>(port)));
      if (fd >= 0)
        close(fd);
      REQUIRE(fd < 0) << "listens on " << port;
    }
    cs.label("all ports busy");
    cs.nontrivial();
    return;
  }
  REQUIRE_EQ(outcome, "");
  REQUIRE_EQ(listener->ListeningPort(), expected);
  if (expected != desired) {
    cs.label("another port than desired");
    cs.nontrivial();
  }
  // A second one for the same port gets the next.
  tcp::ListenerPtr next;
  if (src.chance(1, 3)) {
    unsigned expected_next(expected + 1);
    while (expected_next <= last && busy.count(expected_next))
      ++expected_next;
    announced.emplace_back(new Announced);
    outcome = Outcome([&] {
      next = announced.back()->Listen(world.second, static_cast<tcp::Port>(desired));
    });
    cs.note() << "second ";
    if (expected_next > last) {
      REQUIRE_EQ(outcome, "failed_to_listen");
    } else {
      REQUIRE_EQ(outcome, "");
      REQUIRE_EQ(next->ListeningPort(), expected_next);
    }
  }
  REQUIRE_EQ(listener->ListeningPort(), expected);
  // Connections.
  std::size_t count(src.draw(4));
  cs.note() << count << " connections ";
  if (plan.fail_accept_at >= 0)
    cs.note() << "accept " << plan.fail_accept_at << " fails ";
  for (std::size_t i(0); i < count; ++i)
    clients.push_back(
        tcp::Connection::MakeShared(world.second, static_cast<tcp::Port>(expected)));
  REQUIRE(announced[0]->Wait(count)) << "not told about a connection";
  std::vector<tcp::ConnectionPtr> servers(count);
  {
    std::lock_guard<std::mutex> lock(announced[0]->mutex);
    REQUIRE_EQ(announced[0]->connections.size(), count);
    for (std::size_t i(0); i < count; ++i) {
      for (const auto& server : announced[0]->connections)
        if (server->Socket().remote_endpoint() == clients[i]->Socket().local_endpoint())
          servers[i] = server;
      REQUIRE(servers[i]) << "a connection was not announced";
      REQUIRE_EQ(servers[i]->Socket().local_endpoint().port(), expected);
    }
  }
  pbt::Finally drop_servers([&] { servers.clear(); });
  if (count)
    cs.nontrivial();
  if (announced.size() > 1)
    REQUIRE_EQ(announced[1]->Count(), 0u);
  // Stopped, perhaps repeatedly and without being kept.
  std::size_t stops(1 + src.draw(3));
  bool threads(src.boolean()), release(src.boolean());
  if (threads) {
    std::vector<std::thread> stoppers;
    for (std::size_t i(0); i < stops; ++i)
      stoppers.emplace_back([&] { listener->StopListening(); });
    for (auto& stopper : stoppers)
      stopper.join();
  } else {
    for (std::size_t i(0); i < stops; ++i)
      listener->StopListening();
  }
  if (release)
    listener.reset();
  // From some time on, nobody listens.
  auto until(std::chrono::steady_clock::now() + kPatience);
  for (;;) {
    int fd(net::Connect(family, static_cast<std::uint16_t>(expected)));
    if (fd < 0)
      break;
    close(fd);
    REQUIRE(std::chrono::steady_clock::now() < until) << "still listening";
    perturb::SleepMicros(200);
  }
  std::size_t told(announced[0]->Count());
  REQUIRE_EQ(Outcome([&] {
               clients.push_back(
                   tcp::Connection::MakeShared(world.second, static_cast<tcp::Port>(expected)));
             }),
             "failed_to_connect");
  if (listener && src.boolean())
    listener->StopListening();
  // Earlier connections are not affected.
  for (std::size_t i(0); i < count; ++i)
    Echo(clients[i], servers[i]);
  // And the port can be had again.
  announced.emplace_back(new Announced);
  tcp::ListenerPtr again;
  REQUIRE_EQ(Outcome([&] {
               again = announced.back()->Listen(world.second, static_cast<tcp::Port>(expected));
             }),
             "");
  REQUIRE_EQ(again->ListeningPort(), expected);
  clients.push_back(tcp::Connection::MakeShared(world.first, static_cast<tcp::Port>(expected)));
  REQUIRE(announced.back()->Wait(1)) << "not told about a connection after listening again";
  REQUIRE_EQ(announced.back()->Count(), 1u);
  REQUIRE_EQ(announced[0]->Count(), told);
  for (auto& one : {again, next})
    if (one)
      one->StopListening();
  for (auto& client : clients)
    client->Close();
  for (auto& server : servers)
    server->Close();
}

PROPERTY(AnyPort, (pbt::Options{1, 80, true, 0})) {
  net::Plan plan;
  plan.no_ipv6 = src.chance(1, 6);
  if (src.chance(1, 4))
    plan.fail_accept_at = static_cast<long>(src.draw(5));
  net::Set(plan);
  perturb::Set(src.boolean() ? static_cast<unsigned>(2 + src.draw(20)) : 0, src.draw(1 << 20));
  std::size_t workers(1 + src.draw(4)), count(1 + src.draw(5)), listeners(1 + src.draw(2));
  std::vector<std::unique_ptr<Announced>> announced;
  World world(workers);
  pbt::Finally drop([&] {
    for (auto& one : announced) {
      std::lock_guard<std::mutex> lock(one->mutex);
      one->connections.clear();
    }
  });
  std::set<unsigned> ports;
  std::vector<tcp::ListenerPtr> all;
  for (std::size_t i(0); i < listeners; ++i) {
    announced.emplace_back(new Announced);
    all.push_back(announced.back()->Listen(world.first, 0));
    REQUIRE(all.back()->ListeningPort() != 0);
    REQUIRE(ports.insert(all.back()->ListeningPort()).second) << "the same port twice";
  }
  cs.note() << workers << " workers, " << listeners << " listeners, " << count << " threads";
  // Connecting from several threads while the listeners stop at some time.
  bool stop(src.boolean());
  unsigned after(static_cast<unsigned>(src.draw(400)));
  std::atomic<int> connected(0), refused(0), wrong(0);
  std::mutex mutex;
  std::vector<tcp::ConnectionPtr> clients;
  pbt::Finally drop_clients([&] { clients.clear(); });
  std::vector<unsigned> port_of;
  for (std::size_t i(0); i < count; ++i)
    port_of.push_back(all[i % listeners]->ListeningPort());
  std::vector<std::thread> threads;
  for (std::size_t i(0); i < count; ++i) {
    threads.emplace_back([&, i] {
      auto outcome(Outcome([&] {
        auto client(
            tcp::Connection::MakeShared(world.second, static_cast<tcp::Port>(port_of[i])));
        std::lock_guard<std::mutex> lock(mutex);
        clients.push_back(client);
      }));
      ++(outcome.empty() ? connected : outcome == "failed_to_connect" ? refused : wrong);
    });
  }
  if (stop) {
    perturb::SleepMicros(after);
    for (auto& listener : all)
      listener->StopListening();
    all.clear();
  }
  for (auto& thread : threads)
    thread.join();
  REQUIRE_EQ(wrong.load(), 0);
  if (!stop) {
    REQUIRE_EQ(refused.load(), 0);
    for (std::size_t i(0); i < listeners; ++i)
      REQUIRE(announced[i]->Wait(count / listeners + (i < count % listeners ? 1 : 0)))
          << "not told about a connection";
    for (auto& listener : all)
      listener->StopListening();
    all.clear();
  } else if (refused) {
    cs.label("stopped while connecting");
  }
  for (auto& client : clients)
    client->Close();
  clients.clear();
  world.service.Stop();  // nothing is left to do
  std::size_t total(0);
  for (auto& one : announced)
    total += one->Count();
  if (stop)
    REQUIRE(total <= static_cast<std::size_t>(connected.load()));
  else
    REQUIRE_EQ(total, count);
  cs.nontrivial();
}
