// C33: logging.  Every case runs in a process of its own, since logging is initialised once per
// process; its console is a pipe or a terminal read from outside.
#include "pbt.h"

#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <pty.h>
#include <sys/wait.h>
#include <termios.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <cctype>
#include <chrono>
#include <condition_variable>
#include <cstring>
#include <fstream>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include "boost/filesystem.hpp"

#include "maidsafe/common/log.h"
#ifdef PERTURBED
#include "perturb.h"
#endif

namespace ml = maidsafe::log;
namespace fs = boost::filesystem;

namespace {

const std::vector<std::string> kProjects{"api",    "common", "crux",     "drive",   "encrypt", "launcher",
                                         "nfs",    "passport", "routing", "vault", "vault_manager"};

struct Message {
  enum Kind { kPlain, kMacro, kTest } kind = kPlain;
  std::string path, text;  // the path it claims to come from
  int level = 0, line = 0, colour = 0;
  unsigned gap = 0;
};

struct Plan {
  std::vector<std::string> args;
  std::vector<std::vector<Message>> threads;
  bool first = false;  // something is logged before logging is set up
  bool again = false;  // set up a second time
  bool flush = false;
  bool killed = false;  // it ends as if it had crashed once everything has been logged
  unsigned delays = 0;
  std::uint64_t seed = 0;
};

// ---- passing a plan to another process

void Put(std::string& out, const std::string& text) {
  out += std::to_string(text.size()) + ':' + text;
}
void Put(std::string& out, long number) { Put(out, std::to_string(number)); }

struct Reader {
  std::string text;
  std::size_t at = 0;
  std::string Text() {
    auto colon(text.find(':', at));
    std::size_t size(std::stoul(text.substr(at, colon - at)));
    at = colon + 1 + size;
    return text.substr(colon + 1, size);
  }
  long Number() { return std::stol(Text()); }
};

std::string Packed(const Plan& plan) {
  std::string out;
  Put(out, static_cast<long>(plan.args.size()));
  for (const auto& arg : plan.args)
    Put(out, arg);
  Put(out, static_cast<long>(plan.threads.size()));
  for (const auto& thread : plan.threads) {
    Put(out, static_cast<long>(thread.size()));
    for (const auto& m : thread) {
      Put(out, m.kind);
      Put(out, m.path);
      Put(out, m.text);
      Put(out, m.level);
      Put(out, m.line);
      Put(out, m.colour);
      Put(out, static_cast<long>(m.gap));
    }
  }
  Put(out, plan.first);
  Put(out, plan.again);
  Put(out, plan.flush);
  Put(out, plan.killed);
  Put(out, static_cast<long>(plan.delays));
  Put(out, static_cast<long>(plan.seed));
  return out;
}

Plan Unpacked(const std::string& text) {
  Reader in{text};
  Plan plan;
  for (long n(in.Number()); n > 0; --n)
    plan.args.push_back(in.Text());
  for (long n(in.Number()); n > 0; --n) {
    plan.threads.emplace_back();
    for (long k(in.Number()); k > 0; --k) {
      Message m;
      m.kind = static_cast<Message::Kind>(in.Number());
      m.path = in.Text();
      m.text = in.Text();
      m.level = static_cast<int>(in.Number());
      m.line = static_cast<int>(in.Number());
      m.colour = static_cast<int>(in.Number());
      m.gap = static_cast<unsigned>(in.Number());
      plan.threads.back().push_back(m);
    }
  }
  plan.first = in.Number() != 0;
  plan.again = in.Number() != 0;
  plan.flush = in.Number() != 0;
  plan.killed = in.Number() != 0;
  plan.delays = static_cast<unsigned>(in.Number());
  plan.seed = static_cast<std::uint64_t>(in.Number());
  return plan;
}

std::string Now() {
  timespec now;
  clock_gettime(CLOCK_REALTIME, &now);
  tm parts;
  gmtime_r(&now.tv_sec, &parts);
  char date[32], all[64];
  std::strftime(date, sizeof date, "%Y-%m-%d %H:%M:%S", &parts);
  std::snprintf(all, sizeof all, "%s.%09ld", date, now.tv_nsec);
  return all;
}

// What a process reports of each message: the thread's name and the times before and after.
struct Sent {
  std::string thread, before, after;
};

const int kMacroLine = __LINE__ + 22;

void Send(const Message& m) {
  if (m.kind == Message::kTest) {
    switch (m.colour) {
      case 0:
        TLOG(kDefaultColour) << m.text;
        break;
      case 1:
        TLOG(kRed) << m.text;
        break;
      case 2:
        TLOG(kGreen) << m.text;
        break;
      case 3:
        TLOG(kYellow) << m.text;
        break;
      default:
        TLOG(kCyan) << m.text;
    }
  } else if (m.kind == Message::kMacro) {
    std::size_t half(m.text.size() / 2);
    LOG(kWarning) << m.text.substr(0, half) << m.text.substr(half);
  } else {
    ml::detail::LogMessage(m.path.c_str(), m.level) = ml::detail::OstreamBinder<void, void>()
                                                      << ":" << m.line << "] " << m.text;
  }
}

// Sets logging up and carries the plan out; the report goes to 'report'.
void CarryOut(const Plan& plan, int report) {
  std::string out;
  auto initialise([&] {
    std::vector<std::string> args(plan.args);
    std::vector<char*> pointers;
    for (auto& arg : args)
      pointers.push_back(&arg[0]);
    pointers.push_back(nullptr);
    auto unused(ml::Logging::Instance().Initialise(static_cast<int>(args.size()), &pointers[0]));
    Put(out, static_cast<long>(unused.size()));
    for (const auto& text : unused)
      Put(out, std::string(text.begin(), text.end()));
  });
  Put(out, Now());
  if (plan.first) {
    LOG(kAlways) << "before all";
    ml::detail::LogMessage("vault/src/maidsafe/vault/vault.cc", ml::kAlways) =
        ml::detail::OstreamBinder<void, void>() << ":1] before all";
    TLOG(kRed) << "at first\n";
  }
  initialise();
  if (plan.again)
    initialise();
  Put(out, Now());
#ifdef PERTURBED
  perturb::Set(plan.delays, plan.seed);
#endif
  std::vector<std::vector<Sent>> sent(plan.threads.size());
  std::vector<std::thread> threads;
  auto run([&](std::size_t t) {
    std::ostringstream id;
    id << std::this_thread::get_id();
    for (const auto& message : plan.threads[t]) {
      if (message.gap)
        std::this_thread::sleep_for(std::chrono::microseconds(message.gap));
      Sent item{id.str(), Now(), ""};
      Send(message);
      item.after = Now();
      sent[t].push_back(item);
    }
  });
  for (std::size_t t(1); t < plan.threads.size(); ++t)
    threads.emplace_back(run, t);
  if (!plan.threads.empty())
    run(0);
  for (auto& thread : threads)
    thread.join();
#ifdef PERTURBED
  perturb::Set(0, 0);
#endif
  if (plan.flush)
    ml::Logging::Instance().Flush();
  for (const auto& thread : sent)
    for (const auto& item : thread) {
      Put(out, item.thread);
      Put(out, item.before);
      Put(out, item.after);
    }
  for (std::size_t done(0); done < out.size();) {
    ssize_t n(write(report, out.data() + done, out.size() - done));
    if (n <= 0)
      _exit(41);
    done += static_cast<std::size_t>(n);
  }
  close(report);
  if (plan.killed)
    kill(getpid(), SIGKILL);
}

}  // namespace

// Started anew: what is to be done is read from descriptor 3.
int pbt::ProbeMain(int, char**) {
  std::string text;
  char buffer[4096];
  ssize_t n;
  while ((n = read(3, buffer, sizeof buffer)) > 0)
    text.append(buffer, static_cast<std::size_t>(n));
  CarryOut(Unpacked(text), 4);
  return 0;
}

namespace {

struct Result {
  std::string console, report;
  int status = 0;
};

Result Elsewhere(const Plan& plan, bool anew, bool terminal, const std::string& temporary) {
  int console[2], report[2], order[2];
  if (terminal) {
    termios raw;
    REQUIRE_EQ(openpty(&console[0], &console[1], nullptr, nullptr, nullptr), 0);
    tcgetattr(console[1], &raw);
    cfmakeraw(&raw);
    tcsetattr(console[1], TCSANOW, &raw);
  } else {
    REQUIRE_EQ(pipe(console), 0);
  }
  REQUIRE_EQ(pipe(report), 0);
  REQUIRE_EQ(pipe(order), 0);
  std::fflush(nullptr);
  pid_t child(fork());
  if (child == 0) {
    dup2(console[1], 1);
    setenv("TMPDIR", temporary.c_str(), 1);
    setenv("TERM", "xterm", 1);
    if (anew) {
      setenv("PBT_PROBE", "1", 1);
      setenv("PBT_PROBE_EXIT", "1", 1);
      // Above whatever is open, then in place.
      int from(fcntl(order[0], F_DUPFD, 20)), to(fcntl(report[1], F_DUPFD, 20));
      dup2(from, 3);
      dup2(to, 4);
      for (int fd(5); fd < 64; ++fd)
        close(fd);
      execl("/proc/self/exe", "probe", nullptr);
      _exit(42);
    }
    close(console[0]);
    close(report[0]);
    close(order[0]);
    close(order[1]);
    CarryOut(plan, report[1]);
    ml::Logging::Instance().~Logging();
    std::fflush(nullptr);
    _exit(0);
  }
  close(console[1]);
  close(report[1]);
  close(order[0]);
  std::thread writer([&] {
    if (anew) {
      std::string text(Packed(plan));
      for (std::size_t done(0); done < text.size();) {
        ssize_t n(write(order[1], text.data() + done, text.size() - done));
        if (n <= 0)
          break;
        done += static_cast<std::size_t>(n);
      }
    }
    close(order[1]);
  });
  Result result;
  std::string* texts[] = {&result.console, &result.report};
  pollfd fds[] = {{console[0], POLLIN, 0}, {report[0], POLLIN, 0}};
  while (fds[0].fd >= 0 || fds[1].fd >= 0) {
    if (poll(fds, 2, -1) < 0)
      continue;
    for (int i(0); i < 2; ++i) {
      if (fds[i].fd < 0 || !fds[i].revents)
        continue;
      char buffer[4096];
      ssize_t n(read(fds[i].fd, buffer, sizeof buffer));
      if (n > 0) {
        texts[i]->append(buffer, static_cast<std::size_t>(n));
      } else {
        close(fds[i].fd);
        fds[i].fd = -1;
      }
    }
  }
  writer.join();
  waitpid(child, &result.status, 0);
  return result;
}

// ---- the model

int Level(std::string text) {
  for (auto& c : text)
    c = static_cast<char>(std::tolower(c));
  static const std::vector<std::vector<std::string>> kNames{
      {"v", "verbose", "kverbose", "-1"}, {"i", "info", "kinfo", "0"},
      {"s", "success", "ksuccess", "1"},  {"w", "warning", "kwarning", "2"},
      {"e", "error", "kerror", "3"},      {"a", "always", "kalways", "4"}};
  for (std::size_t i(0); i < kNames.size(); ++i)
    if (std::count(kNames[i].begin(), kNames[i].end(), text))
      return static_cast<int>(i) - 1;
  return 1000;
}

std::string LevelText(pbt::Src& src) {
  static const std::vector<std::vector<std::string>> kNames{
      {"v", "V", "verbose", "Verbose", "kVerbose", "-1"}, {"i", "I", "info", "INFO", "kInfo", "0"},
      {"s", "S", "success", "Success", "kSuccess", "1"},
      {"w", "W", "warning", "Warning", "kWarning", "2"},
      {"e", "E", "error", "Error", "kError", "3"},
      {"a", "A", "always", "Always", "kAlways", "4"}};
  return src.pick(src.pick(kNames));
}

// <...>/<project>/<directory>/maidsafe/<rest>
void Place(const std::string& path, std::string& project, std::string& shown) {
  project = "common";
  shown = path;
  std::replace(shown.begin(), shown.end(), '\\', '/');
  auto at(path.rfind("maidsafe"));
  if (at == std::string::npos || at + 8 == path.size())
    return;
  shown = shown.substr(at + 9);
  std::vector<std::string> parts(1);
  for (char c : path.substr(0, at)) {
    if (c == '/' || c == '\\')
      parts.emplace_back();
    else
      parts.back() += c;
  }
  if (parts.size() >= 3 && !parts[parts.size() - 3].empty())
    project = parts[parts.size() - 3];
}

struct Settings {
  std::map<std::string, int> filter;
  bool async = true, console = true, help = false, bad_mode = false;
  int mode = 1;
  fs::path folder;  // empty: no files
  std::vector<std::string> unused;
};

std::string Escape(int colour) { return "\033[0;3" + std::to_string(colour) + "m"; }

const char kLetters[] = {'V', 'I', 'S', 'W', 'E', 'A'};
const int kColours[] = {6, 0, 2, 3, 1, 0};
const int kTestColours[] = {0, 1, 2, 3, 6};

// Takes 'message' off the front of 'text' at 'at' if it is there in full.
bool Take(const std::string& text, std::size_t& at, const Message& message, const Sent& sent,
          bool coloured, int mode) {
  std::size_t p(at);
  auto expect([&](const std::string& what) {
    if (text.compare(p, what.size(), what) != 0)
      return false;
    p += what.size();
    return true;
  });
  if (message.kind == Message::kTest) {
    int colour(coloured ? kTestColours[message.colour] : 0);
    if (colour && !expect(Escape(colour)))
      return false;
    if (!expect(message.text) || (colour && !expect("\033[m")))
      return false;
    at = p;
    return true;
  }
  std::string project, shown;
  int level(message.kind == Message::kMacro ? static_cast<int>(ml::kWarning) : message.level);
  Place(message.kind == Message::kMacro ? __FILE__ : message.path, project, shown);
  int line(message.kind == Message::kMacro ? kMacroLine : message.line);
  int colour(coloured && mode ? kColours[level + 1] : 0);
  if (colour && !expect(Escape(colour)))
    return false;
  if (!expect(std::string(1, kLetters[level + 1]) + ' ' + sent.thread + ' '))
    return false;
  std::string time(text.substr(p, sent.before.size()));
  if (time < sent.before || time > sent.after)
    return false;
  p += time.size();
  if (colour && mode == 1 && !expect("\033[m"))
    return false;
  if (!expect(' ' + shown + ':' + std::to_string(line) + "] " + message.text + '\n'))
    return false;
  if (colour && mode == 2 && !expect("\033[m"))
    return false;
  at = p;
  return true;
}

using Items = std::vector<std::vector<std::pair<const Message*, const Sent*>>>;

// Requires 'text' to consist of exactly these messages, each thread's in order.
void RequireAll(const std::string& what, const std::string& text, const Items& items, bool coloured,
                int mode) {
  std::vector<std::size_t> next(items.size(), 0);
  std::size_t at(0);
  while (at < text.size()) {
    bool found(false);
    for (std::size_t t(0); t < items.size() && !found; ++t) {
      if (next[t] < items[t].size() &&
          Take(text, at, *items[t][next[t]].first, *items[t][next[t]].second, coloured, mode)) {
        ++next[t];
        found = true;
      }
    }
    if (!found) {
      std::ostringstream expected;
      for (std::size_t t(0); t < items.size(); ++t)
        if (next[t] < items[t].size())
          expected << "\n  thread " << items[t][next[t]].second->thread << " between "
                   << items[t][next[t]].second->before << " and " << items[t][next[t]].second->after
                   << ": " << pbt::Hex(items[t][next[t]].first->text, 30);
      REQUIRE(false) << what << ": at " << at << " there is \"" << text.substr(at, 150)
                     << "\", not any of" << expected.str();
    }
  }
  for (std::size_t t(0); t < items.size(); ++t)
    REQUIRE_EQ(next[t], items[t].size()) << what << ": messages of thread " << t << " are missing";
}

std::string Content(const fs::path& path) {
  std::ifstream in(path.c_str(), std::ios::binary);
  REQUIRE(in.good()) << "no file " << path.string();
  return std::string(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>());
}

}  // namespace

PROPERTY(Messages, (pbt::Options{1, 60, true, 0})) {
  fs::path root(fs::canonical(pbt::ScratchDir()) / fs::path(pbt::FreshPath("log")).filename());
  fs::path temporary(root / "tmp");
  fs::create_directories(temporary);
  pbt::Finally remove([&] {
    boost::system::error_code ec;
    fs::remove_all(root, ec);
  });
  static const std::vector<std::string> kWords{"--unknown", "word", "--other=3", "-x", "7", "ab cd",
                                               "--threads", "logs"};
  Plan plan;
  Settings settings;
  settings.folder = temporary / "maidsafe_logs";

  // Options, on the command line or in a file.
  std::vector<std::vector<std::string>> groups;  // of arguments, in any order
  std::vector<std::pair<std::string, std::string>> options;
  std::set<std::string> chosen;
  bool all(src.chance(1, 4));
  if (all) {
    options.emplace_back("log_*", LevelText(src));
  } else {
    std::size_t n(src.weighted({1, 4, 3, 2}));
    for (std::size_t i(0); i < n; ++i) {
      auto project(src.chance(1, 2) ? "common" : src.pick(kProjects));
      if (chosen.insert(project).second)
        options.emplace_back("log_" + project, LevelText(src));
    }
  }
  if (src.boolean())
    options.emplace_back("log_no_async", "");
  switch (src.weighted({2, 1, 2, 2, 0})) {
    case 1:
      settings.mode = 0;
      options.emplace_back("log_colour_mode", "0");
      break;
    case 2:
      options.emplace_back("log_colour_mode", "1");
      break;
    case 3:
      settings.mode = 2;
      options.emplace_back("log_colour_mode", "2");
      break;
  }
  if (src.chance(1, 20)) {
    settings.bad_mode = true;
    static const std::vector<std::string> kModes{"3", "-2", "17"};
    if (!options.empty() && options.back().first == "log_colour_mode")
      options.pop_back();
    options.emplace_back("log_colour_mode", src.pick(kModes));
  }
  bool kept_file(false);
  switch (src.weighted({3, 4, 1, 1, 1})) {
    case 0:
      break;
    case 1:
      settings.folder = root / "some" / "nested folder";
      if (src.boolean()) {
        fs::create_directories(settings.folder);
        std::ofstream((settings.folder / "kept").c_str()) << "kept";
        kept_file = true;
      }
      options.emplace_back("log_folder", settings.folder.string());
      break;
    case 2:
      settings.folder.clear();
      options.emplace_back("log_folder", "");
      break;
    case 3: {  // not a folder
      fs::path file(root / "file");
      std::ofstream(file.c_str()) << "not a folder";
      options.emplace_back("log_folder", file.string());
      settings.folder.clear();
      break;
    }
    default:
      settings.folder = root / "plain";
      options.emplace_back("log_folder", settings.folder.string());
  }
  if (src.chance(1, 6))
    options.emplace_back("log_no_console", "");
  bool in_file(src.chance(1, 3)), default_file(src.boolean());
  std::string file_text;
  std::map<std::string, std::string> effective;
  for (const auto& option : options) {
    // The command line has precedence; an empty value can be given on neither side of "=" there.
    bool to_file(in_file && src.boolean() && !(option.first == "log_folder" && option.second.empty()));
    effective[option.first] = option.second;
    if (to_file) {
      bool flag(option.first == "log_no_async" || option.first == "log_no_console");
      file_text += option.first + (src.boolean() ? "=" : " = ") + (flag ? "true" : option.second) +
                   "\n";
      if (src.chance(1, 4))
        file_text += "# log_vault = v\n\n";
      continue;
    }
    if (in_file && option.first.compare(0, 4, "log_") == 0 && option.first != "log_folder" &&
        option.first != "log_no_async" && option.first != "log_no_console" && src.chance(1, 3) &&
        option.first != "log_colour_mode")
      file_text += option.first + " = " + LevelText(src) + "\n";  // overridden
    if (option.first == "log_no_async" || option.first == "log_no_console")
      groups.push_back({"--" + option.first});
    else if (option.second.empty() || src.boolean() || option.second[0] == '-')
      groups.push_back(option.second.empty()
                           ? std::vector<std::string>{"--" + option.first, option.second}
                           : std::vector<std::string>{"--" + option.first + "=" + option.second});
    else
      groups.push_back({"--" + option.first, option.second});
  }
  if (in_file) {
    fs::path file(default_file ? temporary / "maidsafe_log.ini" : root / "my settings");
    std::ofstream(file.c_str()) << file_text;
    if (!default_file)
      groups.push_back({"--log_config", file.string()});
    cs.label("options in a file");
  } else if (src.chance(1, 8)) {
    groups.push_back({"--log_config=" + (root / "missing").string()});
  }
  settings.help = src.chance(1, 25);
  if (settings.help)
    groups.push_back({src.boolean() ? "--help" : "-h"});
  std::size_t strays(src.draw(4));
  for (std::size_t i(0); i < strays; ++i)
    groups.push_back({src.pick(kWords)});
  src.shuffle(groups);
  plan.args.push_back(src.pick(std::vector<std::string>{"program", "./program", "a/b"}));
  for (const auto& group : groups) {
    for (const auto& arg : group)
      plan.args.push_back(arg);
    if (group.size() == 1 && std::count(kWords.begin(), kWords.end(), group[0]))
      settings.unused.push_back(group[0]);
  }
  if (settings.help)
    settings.unused.push_back("--help");
  if (effective.count("log_*"))
    for (const auto& project : kProjects)
      settings.filter[project] = Level(effective["log_*"]);
  for (const auto& project : kProjects)
    if (effective.count("log_" + project))
      settings.filter[project] = Level(effective["log_" + project]);
  settings.async = !effective.count("log_no_async");
  settings.console = !effective.count("log_no_console");
  bool off(settings.help || settings.bad_mode);
  if (off) {
    settings.filter.clear();
    settings.folder.clear();
  }

  // What is logged.
  std::size_t threads(src.weighted({4, 2, 2, 1}) + 1);
  static const std::vector<std::string> kRoots{"/home/me/", "", "C:\\code\\", "../../",
                                               "/a/maidsafe/super/"};
  static const std::vector<std::string> kRests{"log.cc", "x/y/z.h", "tests\\log_test.cc",
                                               "detail/a b.cc", ""};
  std::size_t total(0);
  bool zeros(src.chance(1, 10));  // null characters
  for (std::size_t t(0); t < threads; ++t) {
    plan.threads.emplace_back();
    std::size_t n(src.chance(1, 12) ? src.draw(150) : src.size(12));
    for (std::size_t i(0); i < n; ++i) {
      Message m;
      m.kind = static_cast<Message::Kind>(src.weighted({8, 1, 2}));
      m.level = static_cast<int>(src.draw(6)) - 1;
      m.line = static_cast<int>(src.draw(3000));
      m.colour = static_cast<int>(src.draw(5));
      m.gap = src.chance(1, 12) ? static_cast<unsigned>(src.draw(300)) : 0;
      std::string project(src.chance(1, 2) || settings.filter.empty()
                              ? src.pick(kProjects)
                              : std::next(settings.filter.begin(),
                                          src.index(settings.filter.size()))->first);
      if (src.chance(1, 15))
        project = "other";
      switch (src.weighted({8, 1, 1, 1})) {
        case 0: {
          bool back(src.chance(1, 6));
          m.path = src.pick(kRoots) + project + (back ? "\\" : "/") +
                   (src.boolean() ? "src" : "include") + (back ? "\\" : "/") + "maidsafe" +
                   (back ? "\\" : "/") + src.pick(kRests);
          break;
        }
        case 1:
          m.path = src.pick(std::vector<std::string>{"main.cc", "/usr/src/main.cc", "a\\b.cc"});
          break;
        case 2:
          m.path = src.pick(std::vector<std::string>{"src/maidsafe/a.cc", "maidsafe/a.cc",
                                                     "/maidsafe/a.cc"});
          break;
        default:
          m.path = project + "/src/maidsafe";
      }
      m.text = '<' + std::to_string(t) + '.' + std::to_string(i) + '>' +
               src.text(src.chance(1, 10) ? src.draw(3000) : src.size(30), "ab%s%d \n\\[]:\t~\x80\xff") +
               (m.kind == Message::kTest ? "$" : "");
      if (zeros && src.boolean())
        m.text.insert(src.draw(m.text.size() + 1), 1, '\0');
      total += m.kind != Message::kTest;
      plan.threads.back().push_back(m);
    }
  }
  plan.first = src.chance(1, 8);
  plan.again = src.chance(1, 8);
  plan.flush = src.chance(1, 4);
  plan.killed = !settings.async && !off && src.chance(1, 2) &&
                !(effective.count("log_folder") && effective["log_folder"] == (root / "file").string());
#ifdef PERTURBED
  plan.delays = src.boolean() ? static_cast<unsigned>(2 + src.draw(10)) : 0;
  plan.seed = src.draw(1 << 20);
#endif
  bool anew(src.chance(1, 10)), terminal(src.chance(1, 4));
  for (std::size_t i(0); i < plan.args.size(); ++i)
    cs.note() << plan.args[i] << ' ';
  if (in_file)
    cs.note() << "file: " << file_text;
  cs.note() << threads << " threads, " << total << " messages" << (anew ? ", anew" : "")
            << (terminal ? ", terminal" : "") << (plan.first ? ", early" : "")
            << (plan.killed ? ", killed" : "") << (zeros ? ", zeros" : "");

  Result result(Elsewhere(plan, anew, terminal, temporary.string()));
  REQUIRE(result.status == (plan.killed ? SIGKILL : 0)) << "the process ended with status " << result.status << " after "
                              << result.console.substr(0, 2000);
  Reader in{result.report};
  std::string began(in.Text());
  std::vector<std::string> unused;
  for (long n(in.Number()); n > 0; --n)
    unused.push_back(in.Text());
  if (plan.again)
    REQUIRE_EQ(in.Number(), 0L) << "options of the second time";
  std::string ready(in.Text());
  std::vector<std::vector<Sent>> sent;
  for (const auto& thread : plan.threads) {
    sent.emplace_back();
    for (std::size_t i(0); i < thread.size(); ++i) {
      Sent item;
      item.thread = in.Text();
      item.before = in.Text();
      item.after = in.Text();
      sent.back().push_back(item);
    }
  }

  // The options which are not about logging come back in order, after the program's path.
  REQUIRE_EQ(unused.size(), settings.unused.size() + 1);
  REQUIRE_EQ(unused[0], fs::canonical("/proc/self/exe").string() + '\0');
  for (std::size_t i(0); i < settings.unused.size(); ++i)
    REQUIRE_EQ(unused[i + 1], settings.unused[i] + '\0');

  // Which messages are to be found where.
  Items console(threads), combined(threads);
  std::map<std::string, Items> by_project;
  for (const auto& project : settings.filter)
    by_project[project.first].resize(threads);
  std::size_t logged(0), skipped(0);
  for (std::size_t t(0); t < threads; ++t) {
    for (std::size_t i(0); i < plan.threads[t].size(); ++i) {
      const Message& m(plan.threads[t][i]);
      auto item(std::make_pair(&m, static_cast<const Sent*>(&sent[t][i])));
      if (m.kind == Message::kTest) {
        console[t].push_back(item);
        if (settings.filter.size() == 1)
          by_project.begin()->second[t].push_back(item);
        else
          combined[t].push_back(item);
        continue;
      }
      std::string project, shown;
      Place(m.kind == Message::kMacro ? __FILE__ : m.path, project, shown);
      auto found(settings.filter.find(project));
      int level(m.kind == Message::kMacro ? static_cast<int>(ml::kWarning) : m.level);
      if (found == settings.filter.end() || found->second > level) {
        ++skipped;
        continue;
      }
      ++logged;
      if (settings.console)
        console[t].push_back(item);
      combined[t].push_back(item);
      by_project[project][t].push_back(item);
    }
  }

  // The console.
  std::string text(result.console);
  if (plan.first) {
    std::string start(terminal ? Escape(1) + "at first\n\033[m" : "at first\n");
    REQUIRE(text.compare(0, start.size(), start) == 0) << "at first: " << text.substr(0, 200);
    text.erase(0, start.size());
  }
  if (settings.help) {
    auto at(text.find("Error(E), Always(A)\n\n\n"));
    REQUIRE(at != std::string::npos) << "no help: " << text.substr(0, 300);
    for (const char* option : {"--log_folder", "--log_*", "--log_vault_manager", "--log_no_async"})
      REQUIRE(text.find(option) < at) << "no help for " << option;
    text.erase(0, at + std::strlen("Error(E), Always(A)\n\n\n"));
    cs.label("help");
  } else if (settings.bad_mode) {
    REQUIRE(text.find("must be 0, 1, or 2") != std::string::npos) << "no complaint";
    auto at(text.find("\n\n", text.find("Exception")));
    REQUIRE(at != std::string::npos) << "no complaint";
    while (at < text.size() && text[at] == '\n')
      ++at;
    text.erase(0, at);
    cs.label("wrong option");
  } else if (effective.count("log_folder") && effective["log_folder"] == (root / "file").string()) {
    auto at(text.find("is not a directory.\n"));
    REQUIRE(at != std::string::npos) << "no complaint";
    text.erase(0, at + std::strlen("is not a directory.\n"));
    cs.label("folder is a file");
  }
  if (plan.killed)
    cs.label("killed");
  // Unless it is written in one piece or by one thread, what several write may be interlaced.
  // The console is for text.
  if (!zeros && (threads == 1 || settings.mode == 2 || (settings.async && !off)))
    RequireAll("console", text, console, terminal, settings.mode);
  // The files.
  std::set<std::string> files;
  if (!settings.folder.empty()) {
    REQUIRE(fs::is_directory(settings.folder)) << "no folder";
    for (fs::directory_iterator it(settings.folder), end; it != end; ++it)
      files.insert(it->path().filename().string());
    if (kept_file) {
      REQUIRE_EQ(Content(settings.folder / "kept"), "kept");
      files.erase("kept");
    }
    std::set<std::string> wanted;
    for (const auto& project : settings.filter)
      wanted.insert(project.first);
    if (settings.filter.size() != 1)
      wanted.insert("combined");
    REQUIRE_EQ(files.size(), wanted.size()) << "number of files";
    for (const auto& file : files) {
      REQUIRE(file.size() > 24) << file;
      std::string stamp(file.substr(0, 19)), earliest(began.substr(0, 19)),
          latest(ready.substr(0, 19));
      for (auto* time : {&earliest, &latest}) {
        (*time)[10] = '_';
        (*time)[13] = (*time)[16] = '-';
      }
      REQUIRE(stamp >= earliest && stamp <= latest) << file << " from " << earliest << " to " << latest;
      REQUIRE_EQ(file.substr(file.size() - 4), ".log");
      std::string name(file.substr(20, file.size() - 24));
      REQUIRE(wanted.erase(name)) << file << " is not wanted";
      RequireAll(file, Content(settings.folder / file),
                 name == "combined" ? combined : by_project[name], false, settings.mode);
    }
  } else {
    for (fs::recursive_directory_iterator it(root), end; it != end; ++it)
      REQUIRE(it->path().extension() != ".log") << it->path().string() << " was written";
  }
  cs.label("messages logged", logged);
  cs.label("messages filtered out", skipped);
  if (logged >= 2 && skipped)
    cs.nontrivial();
}

// The time of day as logged, anywhere in the world.
PROPERTY(Times, (pbt::Options{1, 60, false, 0})) {
  static const std::vector<std::string> kZones{"UTC0", "ABC-5:30", "XYZ8", "QQQ-13:45:30",
                                               "EST5EDT,M3.2.0,M11.1.0"};
  auto zone(src.pick(kZones));
  cs.note() << zone;
  cs.nontrivial();
  setenv("TZ", zone.c_str(), 1);
  tzset();
  auto local([] {
    timespec now;
    clock_gettime(CLOCK_REALTIME, &now);
    tm parts;
    localtime_r(&now.tv_sec, &parts);
    char all[64], time[32];
    std::strftime(time, sizeof time, "%H:%M:%S", &parts);
    std::snprintf(all, sizeof all, "%s.%09ld", time, now.tv_nsec);
    return std::string(all);
  });
  for (int i(0); i < 20; ++i) {
    auto before(Now()), utc(ml::detail::GetUTCTime()), after(Now());
    REQUIRE(before <= utc && utc <= after && utc.size() == after.size())
        << utc << " is not between " << before << " and " << after;
    auto first(local()), time(ml::detail::GetLocalTime()), last(local());
    if (first <= last)  // not across midnight
      REQUIRE(first <= time && time <= last && time.size() == last.size())
          << time << " is not between " << first << " and " << last;
  }
}
