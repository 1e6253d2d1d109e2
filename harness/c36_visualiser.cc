// C36: the visualiser log.  Every case runs in a process of its own, since it is initialised once
// per process; the server it reports to is in this one.
#include "pbt.h"

#include <arpa/inet.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <cstring>
#include <fstream>
#include <future>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include "boost/filesystem.hpp"
#include "boost/property_tree/json_parser.hpp"
#include "boost/property_tree/ptree.hpp"

#include "maidsafe/common/encode.h"
#include "maidsafe/common/error.h"
#include "maidsafe/common/type_macros.h"
#include "maidsafe/common/visualiser_log.h"
#ifdef PERTURBED
#include "perturb.h"
#endif

namespace ms = maidsafe;
namespace ml = maidsafe::log;
namespace fs = boost::filesystem;

namespace world {
DEFINE_OSTREAMABLE_ENUM_VALUES(Persona, int32_t, (MaidNode)(DataGetter)(CacheHandler))
DEFINE_OSTREAMABLE_ENUM_VALUES(Action, uint64_t, (Put)(Get)(AccountTransfer)(Increment))
}  // namespace world

namespace {

const std::vector<std::string> kPersonas{"MaidNode", "DataGetter", "CacheHandler"};
const std::vector<std::string> kActions{"Put", "Get", "AccountTransfer", "Increment"};

std::string Hex(const std::string& bytes) {
  static const char kDigits[] = "0123456789abcdef";
  std::string hex;
  for (unsigned char c : bytes) {
    hex += kDigits[c >> 4];
    hex += kDigits[c & 15];
  }
  return hex;
}

struct Message {
  enum Form {
    kPersonaId, kPersonaIds, kPersonaNumber, kId, kIds, kIdText, kNumber, kText, kStopped
  } form = kId;
  int persona = 0, action = 0;  // also those which do not exist
  std::string id1, id2, text;
  long long number = 0;
  bool unsigned_number = false;
  unsigned gap = 0;

  bool HasPersona() const { return form <= kPersonaNumber; }
  bool HasId() const { return form != kPersonaNumber && form != kNumber && form != kText &&
                              form != kStopped; }
  bool Valid() const {
    if (form == kStopped)
      return true;
    return (!HasPersona() || (persona >= 0 && persona < 3)) && action >= 0 && action < 4 &&
           (!HasId() || !id1.empty());
  }
  std::string Number() const {
    return unsigned_number ? std::to_string(static_cast<std::uint64_t>(number))
                           : std::to_string(number);
  }
  std::string First() const { return HasId() ? id1 : form == kText ? text : Number(); }
  std::string Second() const {
    return form == kPersonaIds || form == kIds ? id2 : form == kIdText ? text : "";
  }
};

ms::Identity Id(const std::string& bytes) {
  return bytes.empty() ? ms::Identity() : ms::Identity(bytes);
}

void Send(const Message& m) {
  auto persona(static_cast<world::Persona>(m.persona));
  auto action(static_cast<world::Action>(m.action));
  switch (m.form) {
    case Message::kPersonaId:
      ml::VisualiserLogMessage(persona, action, Id(m.id1));
      break;
    case Message::kPersonaIds:
      ml::VisualiserLogMessage(persona, action, Id(m.id1), Id(m.id2));
      break;
    case Message::kPersonaNumber:
      if (m.unsigned_number)
        ml::VisualiserLogMessage(persona, action, static_cast<std::uint64_t>(m.number));
      else
        ml::VisualiserLogMessage(persona, action, m.number);
      break;
    case Message::kId:
      ml::VisualiserLogMessage(action, Id(m.id1));
      break;
    case Message::kIds:
      ml::VisualiserLogMessage(action, Id(m.id1), Id(m.id2));
      break;
    case Message::kIdText:
      ml::VisualiserLogMessage(action, Id(m.id1), m.text);
      break;
    case Message::kNumber:
      if (m.unsigned_number)
        ml::VisualiserLogMessage(action, static_cast<std::uint64_t>(m.number));
      else
        ml::VisualiserLogMessage(action, m.number);
      break;
    case Message::kText:
      ml::VisualiserLogMessage(action, m.text);
      break;
    case Message::kStopped:
      ml::VisualiserLogMessage::SendVaultStoppedMessage(m.id1, m.id2,
                                                        static_cast<int>(m.number));
  }
}

void Put(std::string& out, const std::string& text) {
  out += std::to_string(text.size()) + ':' + text;
}

struct Reader {
  std::string text;
  std::size_t at = 0;
  std::string Text() {
    auto colon(text.find(':', at));
    if (colon == std::string::npos)
      return "nothing";
    std::size_t size(std::stoul(text.substr(at, colon - at)));
    at = colon + 1 + size;
    return text.substr(colon + 1, size);
  }
};

std::string Now() {
  timespec now;
  clock_gettime(CLOCK_REALTIME, &now);
  tm parts;
  gmtime_r(&now.tv_sec, &parts);
  char date[32], all[64];
  std::strftime(date, sizeof date, "%Y-%m-%d %H:%M:%S", &parts);
  std::snprintf(all, sizeof all, "%s.%09ld", date, now.tv_nsec);
  return all;
}

template <typename Fn>
std::string Outcome(const Fn& fn) {
  try {
    fn();
  } catch (const ms::maidsafe_error& error) {
    if (error.code() == ms::make_error_code(ms::CommonErrors::unable_to_handle_request))
      return "unable_to_handle_request";
    if (error.code() == ms::make_error_code(ms::CommonErrors::already_initialised))
      return "already_initialised";
    if (error.code() == ms::make_error_code(ms::CommonErrors::invalid_argument))
      return "invalid_argument";
    return "error " + error.code().message();
  } catch (const std::exception& error) {
    return error.what();
  }
  return "";
}

// A server which answers in its own way.
class Server {
 public:
  struct Manner {
    std::vector<std::string> answers;  // taken in turn
    std::size_t pieces = 1;            // of each answer
    unsigned delay = 0;
    std::size_t close_after = 0;       // answers per connection, if not 0
  };
  explicit Server(Manner manner) : manner_(std::move(manner)) {
    listener_ = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    int yes(1);
    setsockopt(listener_, SOL_SOCKET, SO_REUSEADDR, &yes, sizeof yes);
    sockaddr_in address{};
    address.sin_family = AF_INET;
    address.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    socklen_t size(sizeof address);
    if (listener_ < 0 || bind(listener_, reinterpret_cast<sockaddr*>(&address), size) != 0)
      throw pbt::Discard();
    getsockname(listener_, reinterpret_cast<sockaddr*>(&address), &size);
    port_ = ntohs(address.sin_port);
    pipe(stop_);
  }
  ~Server() {
    Stop();
    for (int fd : {listener_, stop_[0], stop_[1]})
      close(fd);
  }
  void Listen() {
    listen(listener_, 8);
    thread_ = std::thread([this] { Serve(); });
  }
  void Stop() {
    if (thread_.joinable()) {
      char c(0);
      if (write(stop_[1], &c, 1) == 1)
        thread_.join();
    }
  }
  int port() const { return port_; }
  int listener() const { return listener_; }

  std::vector<std::string> heads, bodies, complaints;
  std::size_t connections = 0, closed = 0;

 private:
  bool Wait(int fd) {
    pollfd fds[] = {{fd, POLLIN, 0}, {stop_[0], POLLIN, 0}};
    while (poll(fds, 2, -1) < 0) {
    }
    return fds[0].revents != 0;  // what has arrived is served before stopping
  }
  void Serve() {
    while (Wait(listener_)) {
      int fd(accept(listener_, nullptr, nullptr));
      if (fd < 0)
        continue;
      ++connections;
      std::string in;
      std::size_t answered(0);
      bool leave(false);
      for (;;) {
        if (!Wait(fd))
          break;
        int quick(1);  // or each request waits for a delayed acknowledgement of its first part
        setsockopt(fd, IPPROTO_TCP, TCP_QUICKACK, &quick, sizeof quick);
        char buffer[4096];
        ssize_t n(recv(fd, buffer, sizeof buffer, 0));
        if (n <= 0)
          break;
        in.append(buffer, static_cast<std::size_t>(n));
        while (TakeRequest(in)) {
          Answer(fd);
          if (manner_.close_after && ++answered == manner_.close_after) {
            ++closed;
            leave = true;
            break;
          }
        }
        if (leave)
          break;
      }
      if (!leave && !in.empty() && in != "\r\n" && in != "\r")
        complaints.push_back("rest: " + in);
      close(fd);
    }
  }
  bool TakeRequest(std::string& in) {
    if (in.compare(0, 2, "\r\n") == 0)  // after the previous one
      in.erase(0, 2);
    auto end(in.find("\r\n\r\n"));
    if (end == std::string::npos)
      return false;
    std::string head(in.substr(0, end + 2));
    auto field(head.find("\r\nContent-Length: "));
    if (field == std::string::npos) {
      complaints.push_back("no length: " + head);
      in.clear();
      return false;
    }
    std::size_t size(std::strtoul(head.c_str() + field + 18, nullptr, 10));
    if (in.size() < end + 4 + size)
      return false;
    heads.push_back(head);
    bodies.push_back(in.substr(end + 4, size));
    in.erase(0, end + 4 + size);
    return true;
  }
  void Answer(int fd) {
    const std::string& answer(manner_.answers[bodies.size() % manner_.answers.size()]);
    std::size_t step(std::max<std::size_t>(1, answer.size() / manner_.pieces));
    for (std::size_t at(0); at < answer.size(); at += step) {
      if (manner_.delay)
        std::this_thread::sleep_for(std::chrono::microseconds(manner_.delay));
      send(fd, answer.data() + at, std::min(step, answer.size() - at), MSG_NOSIGNAL);
    }
  }

  Manner manner_;
  int listener_, port_, stop_[2];
  std::thread thread_;
};

struct Expected {
  const Message* message;
  std::string before, after;
};

}  // namespace

PROPERTY(Messages, (pbt::Options{1, 60, true, 0})) {
  fs::path root(fs::canonical(pbt::ScratchDir()) / fs::path(pbt::FreshPath("vlog")).filename());
  fs::create_directories(root);
  pbt::Finally remove([&] {
    boost::system::error_code ec;
    fs::remove_all(root, ec);
  });
  bool set_up(src.chance(5, 6));  // logging itself
  bool async(src.boolean()), folder(src.boolean());
  std::string prefix(src.text(src.size(12), "abc0123..")), session(src.chance(1, 8) ? "" : "54ca73ce-" + src.text(4, "0123")),
      directory("/" + src.text(src.size(8), "abc/"));
  std::size_t threads(1 + src.weighted({4, 2, 2}));
  std::size_t phases(1 + src.draw(2));  // what there is to log in between
  bool absent(src.chance(1, 4));        // the server, in the first phase
  Server::Manner manner;
  static const std::vector<std::string> kAnswers{
      "HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n",
      "HTTP/1.1 200 OK\r\nContent-Type: text/plain\r\nContent-Length: 5\r\n\r\nfine\n",
      "HTTP/1.1 400 Bad Request\r\nContent-Length: 0\r\n\r\n",
      "HTTP/1.0 200 OK\r\n\r\n",
      "HTTP/1.1 503 Service Unavailable\r\nContent-Length: 12\r\n\r\nnot just now"};
  for (std::size_t i(0), n(1 + src.draw(3)); i < n; ++i)
    manner.answers.push_back(src.pick(kAnswers));
  manner.pieces = src.chance(1, 4) ? 1 + src.draw(4) : 1;
  manner.delay = src.chance(1, 4) ? static_cast<unsigned>(src.draw(300)) : 0;
  manner.close_after = src.chance(1, 5) ? 1 + src.draw(6) : 0;
  std::vector<std::vector<std::vector<Message>>> plan(phases);
  std::size_t total(0);
  for (auto& phase : plan) {
    phase.resize(threads);
    for (auto& thread : phase) {
      for (std::size_t i(0), n(src.size(8)); i < n; ++i) {
        Message m;
        m.form = static_cast<Message::Form>(src.draw(9));
        m.persona = src.chance(1, 12) ? src.pick(std::vector<int>{-1, 3, 100})
                                      : static_cast<int>(src.draw(3));
        m.action = src.chance(1, 12) ? src.pick(std::vector<int>{-1, 4, 18})
                                     : static_cast<int>(src.draw(4));
        if (m.form == Message::kStopped) {
          m.id1 = src.text(src.chance(1, 5) ? src.draw(300) : src.size(10), "abc.0123");
          m.id2 = "54ca73ce-" + src.text(3, "0123");
          m.number = static_cast<int>(src.i64());
        } else {
          m.id1 = src.chance(1, 12) ? "" : src.bytes(64);
          m.id2 = src.chance(1, 4) ? "" : src.bytes(64);
          m.number = src.i64();
          m.unsigned_number = src.boolean();
          m.text = src.text(src.chance(1, 20) ? src.draw(20000) : src.size(80), "ab \"\\{}:%/\t.");
          if (m.text.size() == 64)
            m.text += '.';
        }
        m.gap = src.chance(1, 8) ? static_cast<unsigned>(src.draw(200)) : 0;
        total += m.Valid();
        thread.push_back(m);
      }
    }
  }
#ifdef PERTURBED
  unsigned delays(src.boolean() ? static_cast<unsigned>(2 + src.draw(10)) : 0);
  std::uint64_t seed(src.draw(1 << 20));
#endif
  cs.note() << (set_up ? async ? "async" : "sync" : "logging not set up")
            << (folder ? ", folder" : "") << (session.empty() ? ", no session" : "") << ", "
            << threads << " threads, " << phases << " phases, " << total << " messages"
            << (absent ? ", server absent at first" : "") << ", answers in " << manner.pieces
            << " pieces, closing after " << manner.close_after;
  Server server(manner);
  int report[2], go[2];
  REQUIRE_EQ(pipe(report), 0);
  REQUIRE_EQ(pipe(go), 0);
  std::fflush(nullptr);
  pid_t child(fork());
  if (child == 0) {
    close(report[0]);
    close(go[1]);
    close(server.listener());
    int null(open("/dev/null", O_WRONLY));
    dup2(null, 1);
    if (chdir(root.c_str()) != 0)
      _exit(43);
    setenv("TMPDIR", root.c_str(), 1);
    std::string out;
    Put(out, Outcome([] { ml::VisualiserLogMessage(world::Action::kPut, 1); }));
    Put(out, Outcome([] { ml::Logging::Instance().VlogPrefix(); }));
    Put(out, Outcome([] { ml::Logging::Instance().VlogSessionId(); }));
    if (set_up) {
      std::vector<std::string> arguments{"program"};
      if (!async)
        arguments.push_back("--log_no_async");
      arguments.push_back("--log_folder=" + (root / "logs").string());
      if (!folder)
        arguments.back() = "--log_no_console";
      std::vector<char*> pointers;
      for (auto& argument : arguments)
        pointers.push_back(&argument[0]);
      pointers.push_back(nullptr);
      ml::Logging::Instance().Initialise(static_cast<int>(arguments.size()), &pointers[0]);
    }
    char c;
    if (read(go[0], &c, 1) != 1)
      _exit(46);
    auto initialise([&](const std::string& p, const std::string& s) {
      ml::Logging::Instance().InitialiseVlog(p, s, "127.0.0.1",
                                             static_cast<std::uint16_t>(server.port()), directory);
    });
    Put(out, Outcome([&] { initialise(prefix, session); }));
    Put(out, Outcome([&] { initialise("another", "another session"); }));
    Put(out, ml::Logging::Instance().VlogPrefix());
    Put(out, ml::Logging::Instance().VlogSessionId());
#ifdef PERTURBED
    perturb::Set(delays, seed);
#endif
    for (std::size_t phase(0); phase < phases; ++phase) {
      if (phase) {
        // Everything so far has been dealt with.
        std::promise<void> dealt;
        ml::Logging::Instance().Send([&] { dealt.set_value(); });
        dealt.get_future().wait();
        if (write(report[1], "!", 1) != 1 || read(go[0], &c, 1) != 1)
          _exit(46);
      }
      std::vector<std::string> outs(threads);
      auto run([&](std::size_t t) {
        for (const auto& message : plan[phase][t]) {
          if (message.gap)
            std::this_thread::sleep_for(std::chrono::microseconds(message.gap));
          Put(outs[t], Now());
          Put(outs[t], Outcome([&] { Send(message); }));
          Put(outs[t], Now());
        }
      });
      std::vector<std::thread> running;
      for (std::size_t t(1); t < threads; ++t)
        running.emplace_back(run, t);
      run(0);
      for (auto& thread : running)
        thread.join();
      for (const auto& text : outs)
        out += text;
    }
#ifdef PERTURBED
    perturb::Set(0, 0);
#endif
    ml::Logging::Instance().~Logging();
    for (std::size_t done(0); done < out.size();) {
      ssize_t n(write(report[1], out.data() + done, out.size() - done));
      if (n <= 0)
        _exit(41);
      done += static_cast<std::size_t>(n);
    }
    _exit(0);
  }
  close(report[1]);
  close(go[0]);
  if (!absent)
    server.Listen();
  // Writing to a process which has died is reported below.
  std::signal(SIGPIPE, SIG_IGN);
  auto proceed([&] {
    if (write(go[1], "g", 1) != 1)
      cs.label("died early");
  });
  proceed();
  std::string text;
  std::size_t before_listening(0);
  for (std::size_t phase(1);;) {
    char buffer[4096];
    ssize_t n(read(report[0], buffer, sizeof buffer));
    if (n <= 0)
      break;
    if (phase < phases && buffer[0] == '!') {
      if (absent && phase == 1) {
        server.Listen();
        before_listening = 1;
      }
      ++phase;
      proceed();
      continue;
    }
    text.append(buffer, static_cast<std::size_t>(n));
  }
  close(report[0]);
  close(go[1]);
  int status(0);
  waitpid(child, &status, 0);
  server.Stop();
  REQUIRE(status == 0) << "the process ended with status " << status;
  Reader in{text};
  REQUIRE_EQ(in.Text(), "unable_to_handle_request") << "a message before initialisation";
  REQUIRE_EQ(in.Text(), "unable_to_handle_request");
  REQUIRE_EQ(in.Text(), "unable_to_handle_request");
  REQUIRE_EQ(in.Text(), "");
  REQUIRE_EQ(in.Text(), "already_initialised");
  REQUIRE_EQ(in.Text(), prefix);
  REQUIRE_EQ(in.Text(), session);
  std::vector<std::vector<Expected>> sent(threads), filed(threads);
  for (std::size_t phase(0); phase < phases; ++phase)
    for (std::size_t t(0); t < threads; ++t)
      for (const auto& message : plan[phase][t]) {
        Expected item;
        item.message = &message;
        item.before = in.Text();
        auto outcome(in.Text());
        item.after = in.Text();
        if (message.Valid()) {
          REQUIRE_EQ(outcome, "") << "a valid message";
          bool silent(session.empty() && message.form != Message::kStopped);
          if (!silent && !(absent && phase == 0))
            sent[t].push_back(item);
          if (!session.empty() && message.form != Message::kStopped)
            filed[t].push_back(item);
        } else {
          REQUIRE(outcome != "") << "a message about nothing or with an enumerator which there is not";
          cs.label("refused");
        }
      }

  // What the server was told.
  REQUIRE(server.complaints.empty()) << server.complaints[0];
  std::size_t wanted(0), lost(0);
  std::vector<std::size_t> next(threads, 0);
  for (const auto& thread : sent)
    wanted += thread.size();
  std::string host("Host: 127.0.0.1:" + std::to_string(server.port()) + "\r\n");
  for (std::size_t i(0); i < server.bodies.size(); ++i) {
    const auto& head(server.heads[i]);
    const auto& body(server.bodies[i]);
    REQUIRE(head.compare(0, 5 + directory.size() + 11, "POST " + directory + " HTTP/1.1\r\n") == 0)
        << head;
    REQUIRE(head.find(host) != std::string::npos) << head;
    // Which message is it?
    std::map<std::string, std::string> fields;
    if (body.compare(0, 3, "ts=") == 0) {
      std::istringstream parts(body);
      for (std::string part; std::getline(parts, part, '&');) {
        auto equal(part.find('='));
        std::string value(part.substr(equal + 1)), decoded;
        for (std::size_t k(0); k < value.size(); ++k) {
          if (value[k] == '%') {
            decoded += static_cast<char>(std::stoi(value.substr(k + 1, 2), nullptr, 16));
            k += 2;
          } else {
            decoded += value[k] == '+' ? ' ' : value[k];
          }
        }
        fields[part.substr(0, equal)] = decoded;
      }
      fields["stopped"] = "";
    } else {
      boost::property_tree::ptree tree;
      std::istringstream stream(body);
      try {
        boost::property_tree::read_json(stream, tree);
      } catch (const std::exception& error) {
        REQUIRE(false) << error.what() << ": " << body;
      }
      for (const auto& child_node : tree)
        REQUIRE(fields.emplace(child_node.first, child_node.second.data()).second)
            << "twice " << child_node.first;
    }
    bool found(false);
    for (std::size_t t(0); t < threads && !found; ++t) {
      // Those which were lost with a connection are passed over.
      std::size_t most(manner.close_after ? sent[t].size() - next[t]
                                          : std::min<std::size_t>(1, sent[t].size() - next[t]));
      for (std::size_t skip(0); skip < most && !found; ++skip) {
        const auto& item(sent[t][next[t] + skip]);
        const Message& m(*item.message);
        std::map<std::string, std::string> must;
        must["ts"] = fields["ts"];
        if (fields["ts"].size() != item.before.size() || fields["ts"] < item.before ||
            fields["ts"] > item.after)
          continue;
        if (m.form == Message::kStopped) {
          must["vaultId"] = m.id1;
          must["sessionId"] = m.id2;
          must["actionId"] = "18";
          must["valueOne"] = std::to_string(m.number);
          must["stopped"] = "";
        } else {
          auto shown([](const std::string& value) { return value.size() == 64 ? Hex(value) : value; });
          must["vaultId"] = prefix;
          must["sessionId"] = session;
          must["actionId"] = std::to_string(m.action);
          must["valueOne"] = shown(m.First());
          if (!m.Second().empty())
            must["valueTwo"] = shown(m.Second());
          if (m.HasPersona())
            must["personaId"] = std::to_string(m.persona);
        }
        if (must == fields) {
          next[t] += skip + 1;
          lost += skip;
          found = true;
        }
      }
    }
    REQUIRE(found) << "not a message which was to be sent next: " << body;
  }
  for (std::size_t t(0); t < threads; ++t)
    lost += sent[t].size() - next[t];
  // A message may be lost with each connection which the server closes, but no more: unless an
  // answer came in pieces, since the rest of it may then be taken for the next one's.
  REQUIRE(lost <= server.closed || (server.closed && manner.pieces > 1)) << lost << " of " << wanted << " messages lost";
  // The file.
  std::string content;
  std::size_t files(0);
  for (fs::recursive_directory_iterator it(root), end; it != end; ++it) {
    if (it->path().filename().string().find("_visualiser.log") != std::string::npos) {
      ++files;
      std::ifstream file(it->path().c_str(), std::ios::binary);
      content.assign(std::istreambuf_iterator<char>(file), std::istreambuf_iterator<char>());
    }
  }
  REQUIRE_EQ(files, 1U) << "files";
  std::size_t at(0);
  std::fill(next.begin(), next.end(), 0);
  while (at < content.size()) {
    bool found(false);
    for (std::size_t t(0); t < threads && !found; ++t) {
      if (next[t] == filed[t].size())
        continue;
      const auto& item(filed[t][next[t]]);
      const Message& m(*item.message);
      std::string time(content.substr(at, item.before.size()));
      if (time < item.before || time > item.after)
        continue;
      auto shown([](const std::string& value) {
        return value.size() == 64 ? Hex(value.substr(0, 3)) + ".." + Hex(value.substr(61)) : value;
      });
      std::string line(time + ',' + prefix + ',' + session + ',');
      if (m.HasPersona())
        line += kPersonas[static_cast<std::size_t>(m.persona)] + ',';
      line += kActions[static_cast<std::size_t>(m.action)] + ',' + shown(m.First());
      if (!m.Second().empty())
        line += ',' + shown(m.Second());
      line += '\n';
      if (content.compare(at, line.size(), line) == 0) {
        at += line.size();
        ++next[t];
        found = true;
      }
    }
    REQUIRE(found) << "in the file there is \"" << content.substr(at, 200)
                   << "\" and not what was to be written next";
  }
  for (std::size_t t(0); t < threads; ++t)
    REQUIRE_EQ(next[t], filed[t].size()) << "messages of thread " << t << " are not in the file";
  cs.label("messages sent", wanted);
  cs.label("messages lost with a connection", lost);
  static_cast<void>(before_listening);
  if (total >= 2)
    cs.nontrivial();
}
