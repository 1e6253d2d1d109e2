// C26: framed messages over TCP connections.
#include "pbt.h"

#include <netinet/in.h>
#include <sys/socket.h>
#include <unistd.h>

#include <atomic>
#include <chrono>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>

#include "maidsafe/common/asio_service.h"
#include "maidsafe/common/error.h"
#include "maidsafe/common/tcp/connection.h"
#include "maidsafe/common/tcp/listener.h"

#include "net_faults.h"
#include "perturb.h"

namespace ms = maidsafe;
namespace tcp = maidsafe::tcp;
using tcp::Message;
using Strand = asio::io_service::strand;

namespace {

const std::chrono::seconds kPatience(20);

// What one connection told its user.
struct Record {
  std::mutex mutex;
  std::condition_variable changed;
  std::vector<Message> messages;
  int closed = 0;

  void Started(const tcp::ConnectionPtr& connection) {
    connection->Start(
        [this](Message message) {
          std::lock_guard<std::mutex> lock(mutex);
          messages.push_back(std::move(message));
          changed.notify_all();
        },
        [this] {
          std::lock_guard<std::mutex> lock(mutex);
          ++closed;
          changed.notify_all();
        });
  }
  template <typename Condition>
  bool Wait(const Condition& condition) {
    std::unique_lock<std::mutex> lock(mutex);
    return changed.wait_for(lock, kPatience, condition);
  }
  bool WaitForClosed() {
    return Wait([this] { return closed > 0; });
  }
  bool WaitForMessages(std::size_t count) {
    return Wait([this, count] { return messages.size() >= count || closed > 0; });
  }
};

// Each message carries its sender, number and size, and bytes that follow from them.
Message Make(unsigned sender, unsigned number, std::size_t size) {
  Message message(size);
  pbt::FillRandom(sender * 1000003ULL + number * 7919ULL + size, message.data(), size);
  if (size >= 4) {
    message[0] = static_cast<unsigned char>(sender);
    message[1] = static_cast<unsigned char>(number);
  }
  return message;
}

Message Frame(const Message& message) {
  std::uint32_t size(htonl(static_cast<std::uint32_t>(message.size())));
  auto bytes(reinterpret_cast<const unsigned char*>(&size));
  Message frame(bytes, bytes + 4);
  frame.insert(frame.end(), message.begin(), message.end());
  return frame;
}

std::size_t DrawSize(pbt::Src& src, bool large) {
  const std::size_t max(tcp::Connection::MaxMessageSize());
  switch (src.weighted({6, 3, large ? 2u : 0u, large ? 1u : 0u})) {
    case 0:
      return 1 + src.draw(40);
    case 1:
      return 1 + src.size(5000);
    case 2:
      return 1 + src.draw(200000);
    default:
      return max - src.draw(3);
  }
}

bool Same(const std::vector<Message>& got, const std::vector<Message>& sent, bool all) {
  return got.size() <= sent.size() && (!all || got.size() == sent.size()) &&
         std::equal(got.begin(), got.end(), sent.begin());
}

std::string Sizes(const std::vector<Message>& messages) {
  std::string text;
  for (const auto& message : messages)
    text += std::to_string(message.size()) + ":" + pbt::Hex(message, 4) + " ";
  return text;
}

net::Plan DrawPlan(pbt::Src& src, pbt::Case& cs, bool faults) {
  net::Plan plan;
  plan.seed = src.draw(1 << 20);
  if (src.chance(1, 3))
    plan.eintr_one_in = static_cast<unsigned>(2 + src.draw(6));
  if (faults)
    (src.boolean() ? plan.fail_send_at : plan.fail_receive_at) =
        static_cast<long>(src.draw(src.boolean() ? 6 : 40));
  plan.no_ipv6 = src.chance(1, 6);
  if (plan.no_ipv6)
    cs.note() << "IPv4 only, ";
  if (plan.fail_send_at >= 0)
    cs.note() << "send " << plan.fail_send_at << " fails, ";
  if (plan.fail_receive_at >= 0)
    cs.note() << "receive " << plan.fail_receive_at << " fails, ";
  perturb::Set(src.boolean() ? static_cast<unsigned>(2 + src.draw(20)) : 0, src.draw(1 << 20));
  return plan;
}

// The service and what runs on it.  Destroyed after the connections and before what their
// notifications use.
struct World {
  ms::AsioService service;
  Strand first, second;
  explicit World(std::size_t workers)
      : service(workers), first(service.service()), second(service.service()) {}
  ~World() {
    service.service().stop();
    service.Stop();
  }
};

struct Peer {
  int fd = -1;
  ~Peer() {
    if (fd >= 0)
      close(fd);
  }
};

int Family(const net::Plan& plan) {
  return plan.no_ipv6 || !net::HostHasIpv6() ? AF_INET : AF_INET6;
}

}  // namespace

// One end is a plain socket.  The stream it sends is cut anywhere, and may end, break or lie.
PROPERTY(Receiving, (pbt::Options{4, 40, true, 0})) {
  auto plan(DrawPlan(src, cs, src.chance(1, 6)));
  std::size_t workers(1 + src.draw(4));
  net::Set(plan);
  Peer listening, peer;
  listening.fd = net::Listen(Family(plan), 0, true);
  if (listening.fd < 0)
    throw pbt::Discard();  // no ports left
  Record record;
  std::vector<Message> expected;
  bool exact(plan.fail_receive_at < 0 && plan.fail_send_at < 0);
  std::unique_ptr<World> world(new World(workers));
  auto connection(tcp::Connection::MakeShared(world->first, net::LocalPort(listening.fd)));
  peer.fd = accept(listening.fd, nullptr, nullptr);
  REQUIRE(peer.fd >= 0);
  if (src.boolean())
    record.Started(connection);
  else
    perturb::SleepMicros(static_cast<unsigned>(src.draw(200)));
  record.Started(connection);  // the second one does nothing

  // The stream.
  Message stream;
  std::size_t count(src.size(12));
  bool large(src.chance(1, 5));
  for (std::size_t i(0); i < count; ++i) {
    expected.push_back(Make(1, static_cast<unsigned>(i), DrawSize(src, large)));
    auto frame(Frame(expected.back()));
    stream.insert(stream.end(), frame.begin(), frame.end());
  }
  cs.note() << workers << " workers, " << Sizes(expected);
  bool lies(false);
  switch (src.weighted({4, 3, 3, 1})) {
    case 1: {  // ends within a frame
      auto frame(Frame(Make(1, 200, DrawSize(src, large))));
      std::size_t keep(1 + src.draw(src.boolean() ? frame.size() - 1 : 4));
      frame.resize(keep);
      stream.insert(stream.end(), frame.begin(), frame.end());
      cs.note() << "then " << keep << " bytes of a message";
      cs.label("ends within a message");
      break;
    }
    case 2: {  // a frame that is too large, with or without its content
      std::uint32_t over(static_cast<std::uint32_t>(tcp::Connection::MaxMessageSize()));
      switch (src.draw(4)) {
        case 0:
          over += 1;
          break;
        case 1:
          over += 1 + static_cast<std::uint32_t>(src.draw(1000));
          break;
        case 2:
          over = 0x80000000u + static_cast<std::uint32_t>(src.draw(5));
          break;
        default:
          over = 0xffffffffu - static_cast<std::uint32_t>(src.draw(5));
      }
      std::uint32_t size(htonl(over));
      auto bytes(reinterpret_cast<const unsigned char*>(&size));
      stream.insert(stream.end(), bytes, bytes + 4);
      auto more(src.vec(src.size(3000)));
      stream.insert(stream.end(), more.begin(), more.end());
      cs.note() << "then a message of " << over << " and " << more.size() << " bytes of it";
      cs.label("announces too much");
      lies = true;
      break;
    }
    case 3: {  // an empty message: may be passed on as such or taken for an error
      stream.insert(stream.end(), 4, 0);
      cs.note() << "then an empty one";
      break;
    }
  }
  bool reset(src.chance(1, 6));
  // Sent in pieces.
  std::size_t sent(0), pieces(src.boolean() ? 1 + src.draw(12) : 1);
  for (std::size_t i(0); i < pieces && sent < stream.size(); ++i) {
    std::size_t piece(stream.size() - sent);
    if (i + 1 < pieces)
      piece = std::min<std::size_t>(piece, src.boolean() ? 1 + src.draw(6) : 1 + src.draw(piece));
    if (!net::SendAll(peer.fd, stream.data() + sent, piece))
      break;
    sent += piece;
    if (src.boolean())
      perturb::SleepMicros(static_cast<unsigned>(src.draw(300)));
  }
  if (lies && src.boolean()) {
    // It is closed without any more to come.
    cs.note() << " and waits";
  } else if (reset) {
    linger off{1, 0};
    setsockopt(peer.fd, SOL_SOCKET, SO_LINGER, &off, sizeof off);
    close(peer.fd);
    peer.fd = -1;
    exact = false;
    cs.note() << " and resets";
  } else {
    shutdown(peer.fd, SHUT_WR);
  }
  REQUIRE(record.WaitForClosed()) << "not told that the connection was closed";
  if (exact)
    record.Wait([&] { return record.messages.size() >= expected.size(); });
  if (!reset && peer.fd >= 0) {
    // Closed at the other end, too.
    char buffer[16];
    long end(net::Receive(peer.fd, buffer, sizeof buffer, 10000));
    REQUIRE(end <= 0);
    REQUIRE(end == 0 || errno == ECONNRESET) << "not closed";
  }
  std::size_t closers(src.draw(3));
  for (std::size_t i(0); i < closers; ++i)
    connection->Close();
  if (src.chance(1, 4))
    connection->Send(Make(3, 3, 10));
  connection.reset();
  world->service.Stop();  // everything closed: nothing is left to do
  world.reset();
  std::vector<Message> got;
  for (auto& message : record.messages)
    if (!message.empty())
      got.push_back(message);
  REQUIRE(Same(got, expected, exact)) << "received " << Sizes(got);
  REQUIRE_EQ(record.closed, 1);
  if (count >= 2)
    cs.nontrivial();
}

// One end is a plain socket: the bytes on the wire are exactly the messages' frames.
PROPERTY(Sending, (pbt::Options{2, 40, true, 0})) {
  auto plan(DrawPlan(src, cs, src.chance(1, 8)));
  std::size_t workers(1 + src.draw(4));
  net::Set(plan);
  Peer listening, peer;
  listening.fd = net::Listen(Family(plan), 0, true);
  if (listening.fd < 0)
    throw pbt::Discard();  // no ports left
  int small(1 + static_cast<int>(src.draw(4000)));
  bool tight(src.boolean());
  if (tight)
    setsockopt(listening.fd, SOL_SOCKET, SO_RCVBUF, &small, sizeof small);
  Record record;
  bool exact(plan.fail_send_at < 0 && plan.fail_receive_at < 0);
  std::unique_ptr<World> world(new World(workers));
  auto connection(tcp::Connection::MakeShared(world->first, net::LocalPort(listening.fd)));
  peer.fd = accept(listening.fd, nullptr, nullptr);
  REQUIRE(peer.fd >= 0);
  if (tight)
    connection->Socket().set_option(asio::socket_base::send_buffer_size(small));
  bool started(!src.chance(1, 8));
  if (started)
    record.Started(connection);
  std::size_t count(1 + src.size(14));
  bool large(src.chance(1, 4));
  Message expected;
  std::vector<Message> accepted;
  for (std::size_t i(0); i < count; ++i) {
    if (src.chance(1, 10)) {
      try {
        connection->Send(Message());
        REQUIRE(false) << "an empty message was accepted";
      } catch (const ms::maidsafe_error& error) {
        REQUIRE(error.code() == ms::make_error_code(ms::CommonErrors::outside_of_bounds));
      }
    } else if (src.chance(1, 10)) {
      try {
        connection->Send(Message(tcp::Connection::MaxMessageSize() + 1 + src.draw(3) * 4000));
        REQUIRE(false) << "a message which is too large was accepted";
      } catch (const ms::maidsafe_error& error) {
        REQUIRE(error.code() ==
                ms::make_error_code(ms::VaultManagerErrors::ipc_message_too_large));
      }
    } else {
      auto message(Make(2, static_cast<unsigned>(i), DrawSize(src, large)));
      auto frame(Frame(message));
      expected.insert(expected.end(), frame.begin(), frame.end());
      connection->Send(message);
      accepted.push_back(message);
    }
  }
  cs.note() << workers << " workers, " << Sizes(accepted) << (tight ? ", small buffers" : "");
  Message got;
  std::vector<unsigned char> buffer(65536);
  while (got.size() < expected.size()) {
    long n(net::Receive(peer.fd, buffer.data(), src.boolean() ? buffer.size() : 1 + small,
                        exact ? 15000 : 500));
    if (n <= 0)
      break;
    got.insert(got.end(), buffer.begin(), buffer.begin() + n);
  }
  // Its notification comes once, whoever asks for it, and however often.
  std::size_t closers(1 + src.draw(3));
  std::vector<std::thread> threads;
  for (std::size_t i(0); i < closers; ++i)
    threads.emplace_back([&] { connection->Close(); });
  for (auto& thread : threads)
    thread.join();
  if (started)
    REQUIRE(record.WaitForClosed()) << "not told that the connection was closed";
  for (;;) {
    long n(net::Receive(peer.fd, buffer.data(), buffer.size(), 10000));
    if (n <= 0)
      break;
    got.insert(got.end(), buffer.begin(), buffer.begin() + n);
  }
  connection.reset();
  world->service.Stop();  // everything closed: nothing is left to do
  world.reset();
  REQUIRE(got.size() <= expected.size() && std::equal(got.begin(), got.end(), expected.begin()))
      << "the bytes sent differ";
  if (exact)
    REQUIRE_EQ(got.size(), expected.size());
  REQUIRE_EQ(record.closed, started ? 1 : 0);
  REQUIRE(record.messages.empty());
  if (accepted.size() >= 2)
    cs.nontrivial();
}

// Several connections to one listener, both ends of the library's making.
PROPERTY(Pairs, (pbt::Options{4, 80, true, 0})) {
  auto plan(DrawPlan(src, cs, src.chance(1, 5)));
  std::size_t workers(1 + src.draw(5));
  std::size_t pairs(1 + src.draw(3));
  bool faulty(plan.fail_send_at >= 0 || plan.fail_receive_at >= 0);
  net::Set(plan);
  struct Sender {  // a thread sending over one connection
    std::vector<Message> messages;
    unsigned pause;
  };
  struct End {
    tcp::ConnectionPtr connection;
    Record record;
    std::vector<Sender> senders;
    std::size_t expected = 0;  // messages to come
  };
  struct Pair {
    End client, server;
  };
  std::vector<std::unique_ptr<Pair>> all;
  std::vector<tcp::ConnectionPtr> accepted;
  unsigned tag(0);
  bool large(src.chance(1, 4));
  std::size_t total(0);
  for (std::size_t i(0); i < pairs; ++i) {
    all.emplace_back(new Pair);
    for (End* end : {&all.back()->client, &all.back()->server}) {
      std::size_t threads(src.draw(3));
      for (std::size_t t(0); t < threads; ++t) {
        Sender sender;
        sender.pause = src.boolean() ? static_cast<unsigned>(src.draw(100)) : 0;
        std::size_t count(1 + src.size(8));
        for (std::size_t n(0); n < count; ++n)
          sender.messages.push_back(
              Make(tag, static_cast<unsigned>(n), 3 + DrawSize(src, large && t == 0 && n < 3)));
        for (auto& message : sender.messages)
          if (message.size() > tcp::Connection::MaxMessageSize())
            message.resize(tcp::Connection::MaxMessageSize());
        ++tag;
        total += count;
        (end == &all.back()->client ? all.back()->server : all.back()->client).expected += count;
        end->senders.push_back(std::move(sender));
      }
    }
  }
  bool early(src.chance(1, 3));  // closed while messages are under way
  unsigned early_after(static_cast<unsigned>(src.draw(800)));
  std::vector<std::size_t> closer;  // 0: client, 1: server, 2: both
  for (std::size_t i(0); i < pairs; ++i)
    closer.push_back(src.draw(3));
  bool abrupt(src.chance(1, 6));  // the service is stopped instead
  cs.note() << workers << " workers, " << pairs << " pairs, " << total << " messages"
            << (early ? ", closed early" : "") << (abrupt ? ", stopped" : "");
  std::mutex mutex;
  std::condition_variable accepted_changed;
  std::unique_ptr<World> world(new World(workers));
  std::vector<std::thread> threads;
  pbt::Finally join([&] {
    for (auto& thread : threads)
      if (thread.joinable())
        thread.join();
    for (auto& pair : all) {
      pair->client.connection.reset();
      pair->server.connection.reset();
    }
    accepted.clear();
  });
  auto listener(tcp::Listener::MakeShared(world->first,
                                          [&](tcp::ConnectionPtr connection) {
                                            std::lock_guard<std::mutex> lock(mutex);
                                            accepted.push_back(std::move(connection));
                                            accepted_changed.notify_all();
                                          },
                                          0));
  for (std::size_t i(0); i < pairs; ++i) {
    all[i]->client.connection =
        tcp::Connection::MakeShared(world->second, listener->ListeningPort());
    std::unique_lock<std::mutex> lock(mutex);
    REQUIRE(accepted_changed.wait_for(lock, kPatience, [&] { return accepted.size() > i; }))
        << "not told about a connection";
    all[i]->server.connection = accepted[i];
    REQUIRE(accepted[i]->Socket().remote_endpoint() ==
            all[i]->client.connection->Socket().local_endpoint());
  }
  accepted.clear();
  for (auto& pair : all) {
    pair->client.record.Started(pair->client.connection);
    pair->server.record.Started(pair->server.connection);
  }
  for (auto& pair : all) {
    for (End* end : {&pair->client, &pair->server}) {
      for (auto& sender : end->senders) {
        threads.emplace_back([end, &sender] {
          for (const auto& message : sender.messages) {
            end->connection->Send(message);
            if (sender.pause)
              perturb::SleepMicros(sender.pause);
          }
        });
      }
    }
  }
  if (early)
    perturb::SleepMicros(early_after);
  else
    for (auto& pair : all)
      for (End* end : {&pair->client, &pair->server})
        REQUIRE(end->record.WaitForMessages(end->expected)) << "messages missing";
  if (!abrupt) {
    for (std::size_t i(0); i < pairs; ++i) {
      if (closer[i] != 1)
        all[i]->client.connection->Close();
      if (closer[i] != 0)
        all[i]->server.connection->Close();
    }
    for (auto& pair : all)
      for (End* end : {&pair->client, &pair->server})
        REQUIRE(end->record.WaitForClosed()) << "not told that the connection was closed";
  }
  if (!abrupt)
    listener->StopListening();
  for (auto& thread : threads)
    thread.join();
  listener.reset();
  for (auto& pair : all) {
    pair->client.connection.reset();
    pair->server.connection.reset();
  }
  if (!abrupt)
    world->service.Stop();  // everything closed: nothing is left to do
  world.reset();
  for (auto& pair : all) {
    for (End* end : {&pair->client, &pair->server}) {
      End& other(end == &pair->client ? pair->server : pair->client);
      if (abrupt)
        REQUIRE(end->record.closed <= 1);
      else
        REQUIRE_EQ(end->record.closed, 1);
      // In the order of each sending thread, nothing twice, nothing made up.
      std::vector<std::size_t> next(other.senders.size(), 0);
      for (const auto& message : end->record.messages) {
        bool found(false);
        for (std::size_t s(0); s < other.senders.size() && !found; ++s) {
          if (next[s] < other.senders[s].messages.size() &&
              other.senders[s].messages[next[s]] == message) {
            ++next[s];
            found = true;
          }
        }
        REQUIRE(found) << "unexpected message " << message.size() << ":"
                       << pbt::Hex(message, 8);
      }
      if (!early && !faulty)
        REQUIRE_EQ(end->record.messages.size(), end->expected);
    }
  }
  if (total >= 2)
    cs.nontrivial();
}
