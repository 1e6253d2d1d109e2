// C40: what the repository offers to those who write tests with it.
#include "pbt.h"

#include <sys/resource.h>
#include <unistd.h>

#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <iterator>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include "boost/filesystem.hpp"
#include "gtest/gtest.h"

#include "maidsafe/common/config.h"
#include "maidsafe/common/error.h"
#include "maidsafe/common/test.h"
#include "maidsafe/common/utils.h"

#include "tool.h"

namespace ms = maidsafe;
namespace mt = maidsafe::test;
namespace fs = boost::filesystem;

namespace {
std::string g_program;
}  // namespace

extern "C" ssize_t __real_readlink(const char*, char*, size_t);
extern "C" ssize_t __wrap_readlink(const char* path, char* buffer, size_t size) {
  if (g_program.empty())
    return __real_readlink(path, buffer, size);
  size = std::min(size, g_program.size());
  std::memcpy(buffer, g_program.data(), size);
  return static_cast<ssize_t>(size);
}

namespace {

std::string Contents(const fs::path& path) {
  std::ifstream file(path.string(), std::ios::binary);
  return std::string(std::istreambuf_iterator<char>(file), std::istreambuf_iterator<char>());
}

void Store(const fs::path& path, const std::string& text) {
  std::ofstream(path.string(), std::ios::binary) << text;
}

struct Directory {
  fs::path path;
  explicit Directory(const char* stem) : path(pbt::FreshPath(stem)) {
    fs::create_directories(path);
  }
  ~Directory() {
    boost::system::error_code ec;
    fs::remove_all(path, ec);
  }
};

std::set<std::string> Names(const fs::path& directory) {
  std::set<std::string> names;
  for (fs::directory_iterator it(directory), end; it != end; ++it)
    names.insert(it->path().filename().string());
  return names;
}

struct Variable {  // of the environment
  std::string name, old;
  bool had;
  Variable(const char* name_in, const std::string& value) : name(name_in), had(false) {
    if (const char* found = getenv(name_in)) {
      had = true;
      old = found;
    }
    setenv(name_in, value.c_str(), 1);
  }
  ~Variable() {
    if (had)
      setenv(name.c_str(), old.c_str(), 1);
    else
      unsetenv(name.c_str());
  }
};

}  // namespace

// ------------------------------------------------------------------------------------- folders
PROPERTY(Folders, (pbt::Options{2, 4, true, 0})) {
  Directory directory("folders");
  fs::path temp(directory.path / "temp");
  fs::create_directories(temp);
  Store(temp / "other", "kept");
  struct Held {
    std::vector<mt::TestPath> owners;
    fs::path path;
  };
  std::vector<Held> held;
  Variable variable("TMPDIR", temp.string());
  auto check([&] {
    std::set<std::string> expected{"other"};
    for (const auto& one : held)
      expected.insert(one.path.filename().string());
    REQUIRE_EQ(expected.size(), held.size() + 1) << "the same folder twice";
    auto names(Names(temp));
    REQUIRE(names == expected) << names.size() << " folders, expected " << expected.size();
    REQUIRE_EQ(Contents(temp / "other"), "kept");
  });
  for (std::size_t step(0), steps(1 + src.size(14)); step < steps; ++step) {
    switch (src.weighted({4, 3, 2, 2, 1, 1})) {
      case 0: {
        auto kind(src.draw(3));
        std::string prefix(kind == 0 ? "" : kind == 1 ? "MaidSafe_Test" : "Other");
        if (kind)
          prefix += src.text(src.chance(1, 6) ? src.draw(225) : src.draw(8), "abc_ .-");
        cs.note() << "create '" << prefix << "'; ";
        auto created(mt::CreateTestPath(prefix));
        REQUIRE(created) << "null";
        REQUIRE(!created->empty()) << "not created";
        REQUIRE_EQ(created->parent_path(), temp);
        REQUIRE(fs::is_directory(*created) && fs::is_empty(*created)) << *created;
        auto start(prefix.empty() ? "MaidSafe_Test" : prefix);
        REQUIRE(created->filename().string().compare(0, start.size(), start) == 0) << *created;
        auto path(*created);
        held.push_back(Held{{std::move(created)}, path});
        break;
      }
      case 1:
        if (!held.empty()) {
          auto i(src.index(held.size()));
          cs.note() << "drop " << i << "; ";
          held[i].owners.pop_back();
          if (held[i].owners.empty()) {
            held.erase(held.begin() + static_cast<long>(i));
            cs.nontrivial();
          }
        }
        break;
      case 2:
        if (!held.empty()) {
          auto i(src.index(held.size()));
          cs.note() << "fill " << i << "; ";
          fs::create_directories(held[i].path / "a" / "b");
          Store(held[i].path / "a" / "b" / "file", "content");
          Store(held[i].path / "file", "content");
          boost::system::error_code ec;
          fs::create_symlink(temp / "other", held[i].path / "link", ec);
          fs::create_symlink(temp, held[i].path / "a" / "up", ec);
        }
        break;
      case 3:
        if (!held.empty()) {
          auto i(src.index(held.size()));
          cs.note() << "share " << i << "; ";
          held[i].owners.push_back(held[i].owners[0]);
        }
        break;
      case 4: {  // can't be created
        bool no_temp(src.boolean());
        cs.note() << (no_temp ? "no folder for it; " : "too long; ");
        Variable other("TMPDIR", no_temp ? (directory.path / (src.boolean() ? "none" : "temp/other")).string()
                                         : temp.string());
        auto before(Names(fs::current_path()));
        auto created(mt::CreateTestPath(no_temp ? "" : "MaidSafe_Test" + std::string(280, 'x')));
        REQUIRE(created && created->empty()) << "created though it can't be";
        created.reset();
        cs.label("not created");
        break;
      }
      default: {
        int count(static_cast<int>(1 + src.draw(5)));
        cs.note() << "create " << count << " at once; ";
        std::mutex mutex;
        mt::RunInParallel(count, [&] {
          auto created(mt::CreateTestPath("MaidSafe_TestParallel"));
          std::lock_guard<std::mutex> lock(mutex);
          auto path(*created);
          held.push_back(Held{{std::move(created)}, path});
        });
        for (const auto& one : held)
          REQUIRE(!one.path.empty()) << "not created";
        break;
      }
    }
    check();
  }
  held.clear();
  check();
}

// ------------------------------------------------------------------------------------ parallel
PROPERTY(InParallel, (pbt::Options{2, 3, true, 0})) {
  int count(static_cast<int>(src.chance(1, 12) ? 60 + src.draw(140) : src.draw(10)));
  bool rendezvous(src.boolean());
  std::size_t failing(src.chance(1, 3) ? 1 + src.draw(static_cast<std::uint64_t>(count) + 1) : 0);
  std::vector<unsigned> delays(static_cast<std::size_t>(count) + 8, 0);
  for (auto& delay : delays)
    delay = src.chance(1, 4) ? static_cast<unsigned>(src.draw(2000)) : 0;
  cs.note() << count << " threads" << (rendezvous ? ", all at once" : "") << ", failing " << failing;
  if (count > 1)
    cs.nontrivial();
  std::mutex mutex;
  std::condition_variable changed;
  int others(0);
  std::size_t begun(0), ended(0);
  bool missed(false), returned(false), late(false);
  const auto self(std::this_thread::get_id());
  std::string thrown;
  auto run([&] {
    std::unique_lock<std::mutex> lock(mutex);
    std::size_t mine(begun++);
    late = late || returned;
    if (std::this_thread::get_id() != self) {
      ++others;
      changed.notify_all();
      if (rendezvous && !changed.wait_for(lock, std::chrono::seconds(20),
                                          [&] { return others >= count || failing; }))
        missed = true;
    }
    lock.unlock();
    if (mine < delays.size() && delays[mine])
      usleep(delays[mine]);
    lock.lock();
    ++ended;
    if (failing && mine + 1 == failing)
      throw std::runtime_error("run " + std::to_string(mine));
  });
  try {
    mt::RunInParallel(count, run);
  } catch (const std::runtime_error& error) {
    thrown = error.what();
  }
  std::lock_guard<std::mutex> lock(mutex);
  returned = true;
  REQUIRE_EQ(ended, begun) << "returned before all had ended";
  REQUIRE(!missed) << "not run at the same time";
  if (failing && failing <= begun) {
    REQUIRE_EQ(thrown, "run " + std::to_string(failing - 1));
  } else {
    REQUIRE_EQ(thrown, "");
    REQUIRE_EQ(others, count) << "runs in other threads";
  }
  REQUIRE(!late);
}

// --------------------------------------------------------------------------- ports and addresses
PROPERTY(PortsAreDistinct, (pbt::Options{1, 200, false, 0})) {
  auto seed(static_cast<std::uint32_t>(src.u64()));
  cs.note() << "seed " << seed;
  cs.nontrivial();
  Directory directory("ports");
  auto result(tool::Run("", directory.path, [&] {
    ms::detail::set_random_number_generator_seed(seed);
    std::set<unsigned> ports;
    for (int i(0); i < 10000; ++i) {
      unsigned port(mt::GetRandomPort());
      if (port < 1025)
        std::cout << "port " << port << '\n';
      if (!ports.insert(port).second)
        std::cout << "again " << port << " after " << i << '\n';
    }
    for (int i(0); i < 12000; ++i) {  // and it goes on
      unsigned port(mt::GetRandomPort());
      if (port < 1025)
        std::cout << "port " << port << '\n';
    }
    if (*ports.begin() > 2000 || *ports.rbegin() < 64500)
      std::cout << "only from " << *ports.begin() << " to " << *ports.rbegin() << '\n';
    return 0;
  }));
  REQUIRE(result.ended && result.status == 0) << result.status;
  REQUIRE_EQ(result.output, "");
}

PROPERTY(Addresses, (pbt::Options{1, 20, false, 0})) {
  auto seed(static_cast<std::uint32_t>(src.u64()));
  ms::detail::set_random_number_generator_seed(seed);
  cs.note() << "seed " << seed;
  cs.nontrivial();
  std::set<unsigned> bytes[4];
  for (int i(0); i < 300; ++i) {
    auto text(mt::GetRandomIPv4AddressAsString());
    std::error_code ec;
    auto address(asio::ip::make_address_v4(text, ec));
    REQUIRE(!ec) << text;
    auto parts(address.to_bytes());
    for (std::size_t k(0); k < 4; ++k)
      bytes[k].insert(parts[k]);
  }
  for (const auto& seen : bytes) {
    // 300 of 256: about 177 different.
    REQUIRE(seen.size() > 110) << seen.size();
    REQUIRE(*seen.rbegin() > 200 && *seen.begin() < 56) << *seen.begin() << " to " << *seen.rbegin();
  }
  std::set<unsigned> groups[8];
  for (int i(0); i < 100; ++i) {
    auto text(mt::GetRandomIPv6AddressAsString());
    std::error_code ec;
    auto address(asio::ip::make_address_v6(text, ec));
    REQUIRE(!ec) << text;
    auto parts(address.to_bytes());
    for (std::size_t k(0); k < 8; ++k)
      groups[k].insert(parts[2 * k] * 256U + parts[2 * k + 1]);
  }
  for (const auto& seen : groups) {
    REQUIRE(seen.size() > 90) << seen.size();
    REQUIRE(*seen.rbegin() > 50000 && *seen.begin() < 15000) << *seen.begin() << " to " << *seen.rbegin();
  }
}

// -------------------------------------------------------------------------------------- programs
namespace {

struct Plan {
  std::string suite, name;
  bool disabled;
  int fails;  // 0: passes
  std::vector<int> draws;
  int override_after;  // what it does to the bootstrap file: 0 nothing, 1 removes it, 2 changes it
  std::string Full() const { return suite + '.' + (disabled ? "DISABLED_" : "") + name; }
};

class Generated : public testing::Test {
 public:
  explicit Generated(const Plan& plan) : plan_(plan) {}

 private:
  void TestBody() override {
    std::ostringstream out;
    out << "\n@" << plan_.Full();
    for (int kind : plan_.draws) {
      switch (kind) {
        case 0:
          out << ' ' << ms::RandomUint32();
          break;
        case 1:
          out << ' ' << ms::RandomInt32();
          break;
        case 2:
          out << ' ' << ms::RandomAlphaNumericString(12);
          break;
        default: {
          auto text(ms::RandomString(9));
          out << ' ' << pbt::Hex(std::vector<unsigned char>(text.begin(), text.end()));
          break;
        }
      }
    }
    auto file(ms::ThisExecutableDir() / "bootstrap_override.dat");
    rlimit limit;
    getrlimit(RLIMIT_NOFILE, &limit);
    rlimit size;
    getrlimit(RLIMIT_FSIZE, &size);
    out << "@" << (fs::exists(file) ? "'" + Contents(file) + "'" : "none") << '@' << limit.rlim_cur
        << '@' << (size.rlim_cur == RLIM_INFINITY ? ~0ULL : size.rlim_cur) << "@\n";
    std::cout << out.str() << std::flush;
    if (plan_.override_after == 1)
      fs::remove(file);
    else if (plan_.override_after == 2)
      Store(file, "changed by a test, " + plan_.Full());
    if (plan_.fails == 1)
      ADD_FAILURE() << "planned";
    else if (plan_.fails == 2)
      FAIL() << "planned";
  }
  Plan plan_;
};

struct Seen {
  std::string values, file;
  unsigned long files;
  unsigned long long size;  // of the largest file which can be written
};

struct Outcome {
  int status;
  bool ended;
  std::string output;
  std::vector<std::pair<std::string, Seen>> tests;  // in the order they were run in
  std::map<std::string, std::uint32_t> seeds;       // which are reported to replicate failures
};

Outcome RunProgram(const std::vector<Plan>& plans, const fs::path& directory,
                   std::vector<std::string> args, unsigned long files,
                   unsigned long long size) {
  auto result(tool::Run("", directory, [&] {
    g_program = (directory / "bin" / "program").string();
    if (files) {
      rlimit limit;
      getrlimit(RLIMIT_NOFILE, &limit);
      limit.rlim_cur = files;
      setrlimit(RLIMIT_NOFILE, &limit);
    }
    if (size) {
      rlimit limit;
      getrlimit(RLIMIT_FSIZE, &limit);
      limit.rlim_cur = size;
      setrlimit(RLIMIT_FSIZE, &limit);
    }
    for (const auto& plan : plans)
      testing::RegisterTest(plan.suite.c_str(),
                            ((plan.disabled ? "DISABLED_" : "") + plan.name).c_str(), nullptr,
                            nullptr, __FILE__, __LINE__,
                            [plan]() -> testing::Test* { return new Generated(plan); });
    args.insert(args.begin(), g_program);
    std::vector<char*> argv;
    for (auto& arg : args)
      argv.push_back(&arg[0]);
    argv.push_back(nullptr);
    return mt::ExecuteMain(static_cast<int>(args.size()), argv.data());
  }));
  Outcome outcome{result.status, result.ended, result.output, {}, {}};
  std::istringstream lines(result.output);
  for (std::string line; std::getline(lines, line);) {
    if (line.size() > 1 && line[0] == '@') {
      std::vector<std::string> parts;
      std::istringstream stream(line.substr(1));
      for (std::string part; std::getline(stream, part, '@');)
        parts.push_back(part);
      REQUIRE_EQ(parts.size(), 4U) << line;
      auto blank(parts[0].find(' '));
      outcome.tests.push_back(std::make_pair(
          parts[0].substr(0, blank),
          Seen{blank == std::string::npos ? "" : parts[0].substr(blank), parts[1],
               std::stoul(parts[2]), std::stoull(parts[3])}));
    }
    auto at(line.find("--gtest_filter="));
    auto seed(line.find(" --seed "));
    if (at != std::string::npos && seed != std::string::npos && at < seed)
      outcome.seeds[line.substr(at + 15, seed - at - 15)] =
          static_cast<std::uint32_t>(std::stoul(line.substr(seed + 8)));
  }
  return outcome;
}

}  // namespace

PROPERTY(Programs, (pbt::Options{4, 25, false, 0})) {
  Directory directory("program");
  fs::create_directories(directory.path / "bin");
  auto override_file(directory.path / "bin" / "bootstrap_override.dat");
  std::vector<Plan> plans;
  for (std::size_t i(0), n(src.draw(6)); i < n; ++i) {
    Plan plan{"Suite" + std::to_string(src.draw(3)), "Test" + std::to_string(i), src.chance(1, 5),
              src.chance(1, 3) ? static_cast<int>(1 + src.draw(2)) : 0, {},
              static_cast<int>(src.draw(3))};
    for (std::size_t k(0), m(src.draw(5)); k < m; ++k)
      plan.draws.push_back(static_cast<int>(src.draw(4)));
    plans.push_back(plan);
    cs.note() << plan.Full() << " (" << plan.draws.size() << " numbers"
              << (plan.fails ? ", fails" : "") << ") ";
  }
  std::vector<std::string> args;
  // The tests chosen.
  std::set<std::string> selected;
  for (const auto& plan : plans)
    selected.insert(plan.Full());
  if (src.boolean()) {
    std::set<std::string> some;
    std::string filter("--gtest_filter=");
    for (const auto& name : selected) {
      if (src.boolean())
        continue;
      filter += (some.empty() ? "" : ":") + name;
      some.insert(name);
    }
    if (some.empty())
      filter += "Nothing";
    selected = some;
    args.push_back(filter);
  }
  bool with_disabled(src.chance(1, 6));
  if (with_disabled)
    args.push_back("--gtest_also_run_disabled_tests");
  // Other options.
  bool seeded(src.boolean()), malformed(false);
  auto seed(static_cast<std::uint32_t>(src.chance(1, 4) ? 0xffffffffU - src.draw(3) : src.u64()));
  bool equals(src.boolean());
  if (seeded) {
    if (equals) {
      args.push_back("--seed=" + std::to_string(seed));
    } else {
      args.push_back("--seed");
      args.push_back(std::to_string(seed));
    }
  } else if (src.chance(1, 8)) {
    args.push_back("--seed=many");
    malformed = true;
    cs.label("malformed option");
  }
  if (src.chance(1, 4))
    args.insert(src.boolean() ? args.begin() : args.end(), "--unrelated=1");
  bool repeated(src.chance(1, 8));
  // The bootstrap file.
  std::string before, expected_file;
  bool missing(false);
  if (src.boolean()) {
    before = src.text(1 + src.draw(9), "xyz");
    Store(override_file, before);
  }
  int kind(malformed ? 0 : static_cast<int>(src.draw(6)));
  if (kind == 1 || kind == 2) {
    auto text(src.text(src.draw(20), "ab12 "));
    Store(directory.path / "contacts", text);
    args.push_back("--bootstrap_file=" + (kind == 1 ? (directory.path / "contacts").string() : "contacts"));
    expected_file = "'" + text + "'";
  } else if (kind == 3) {
    args.push_back("--bootstrap_file=none");
    expected_file = "none";
  } else if (kind == 4) {
    args.push_back("--bootstrap_file=missing");
    missing = true;
  }
  rlimit limit;
  getrlimit(RLIMIT_NOFILE, &limit);
  unsigned long files(src.boolean() && limit.rlim_max >= 4096 ? 128 + src.draw(2000) : 0);
  unsigned long long initial_size(~0ULL), size(0);
  getrlimit(RLIMIT_FSIZE, &limit);
  if (limit.rlim_cur != RLIM_INFINITY)
    initial_size = limit.rlim_cur;
  if (limit.rlim_max == RLIM_INFINITY && src.chance(1, 3))
    size = initial_size = (256 << 10) << src.draw(6);
  for (const auto& arg : args)
    cs.note() << arg << ' ';
  cs.note() << files << " files, of up to " << initial_size << " bytes ";
  std::map<std::string, const Plan*> run;
  bool fails(false);
  std::size_t selected_disabled(0);
  for (const auto& plan : plans) {
    if (!selected.count(plan.Full()))
      continue;
    selected_disabled += plan.disabled ? 1 : 0;
    if (plan.disabled && !with_disabled)
      continue;
    run[plan.Full()] = &plan;
    fails = fails || plan.fails;
  }
  auto outcome(RunProgram(plans, directory.path, args, files, size));
  REQUIRE(outcome.ended) << outcome.output;
  REQUIRE(WIFEXITED(outcome.status)) << outcome.status << '\n' << outcome.output;
  int code(WEXITSTATUS(outcome.status));
  if (missing && !run.empty()) {
    REQUIRE_EQ(code, 45) << outcome.output;  // ended by an exception
    REQUIRE(outcome.tests.empty());
    REQUIRE_EQ(Contents(override_file), before);
    cs.label("bootstrap file missing");
    return;
  }
  int expected(!run.empty() ? (fails ? 1 : 0) : selected.size() == 1 && selected_disabled == 1 ? 77 : 255);
  REQUIRE_EQ(code, expected) << outcome.output;
  REQUIRE_EQ(outcome.tests.size(), run.size()) << outcome.output;
  std::set<std::string> all_values;
  std::string file(before.empty() ? "none" : "'" + before + "'");
  for (const auto& test : outcome.tests) {
    REQUIRE(run.count(test.first)) << test.first << " was run";
    const auto& plan(*run[test.first]);
    REQUIRE_EQ(test.second.file, (expected_file.empty() ? file : expected_file)) << test.first;
    file = plan.override_after == 0 ? test.second.file :
           plan.override_after == 1 ? "none" : "'changed by a test, " + plan.Full() + "'";
    if (files)
      REQUIRE_EQ(test.second.files, std::max(files, 1024UL)) << "open files";
    REQUIRE(test.second.size >= initial_size) << "can write files of " << test.second.size << " bytes";
    REQUIRE(test.second.size >= (1 << 20)) << "can write files of " << test.second.size << " bytes";
    // Independent numbers for every test.
    if (plan.draws.size() >= 3)
      for (std::istringstream in(test.second.values); in;) {
        std::string value;
        if (in >> value)
          REQUIRE(all_values.insert(value).second || value.size() < 8) << value << " again";
      }
    REQUIRE_EQ(outcome.seeds.count(test.first), plan.fails ? 1U : 0U)
        << "reported for " << test.first << '\n' << outcome.output;
  }
  REQUIRE(outcome.seeds.size() <= run.size());
  if (run.size() > 1)
    cs.nontrivial();
  // Failures can be replicated as reported.
  for (const auto& entry : outcome.seeds) {
    std::vector<std::string> again{"--gtest_filter=" + entry.first, "--seed",
                                   std::to_string(entry.second)};
    if (with_disabled)
      again.push_back("--gtest_also_run_disabled_tests");
    auto replicated(RunProgram(plans, directory.path, again, 0, 0));
    REQUIRE(replicated.ended && WIFEXITED(replicated.status));
    REQUIRE_EQ(WEXITSTATUS(replicated.status), 1);
    REQUIRE_EQ(replicated.tests.size(), 1U) << replicated.output;
    REQUIRE_EQ(replicated.tests[0].first, entry.first);
    for (const auto& test : outcome.tests)
      if (test.first == entry.first)
        REQUIRE_EQ(replicated.tests[0].second.values, test.second.values)
            << "other numbers for " << test.first << " with seed " << entry.second;
    cs.label("replicated");
  }
  if (seeded && repeated) {
    auto same(RunProgram(plans, directory.path, args, files, size));
    REQUIRE_EQ(same.tests.size(), outcome.tests.size());
    for (std::size_t i(0); i < same.tests.size(); ++i) {
      REQUIRE_EQ(same.tests[i].first, outcome.tests[i].first);
      REQUIRE_EQ(same.tests[i].second.values, outcome.tests[i].second.values) << "same seed";
    }
    cs.label("run again with the same seed");
  }
}
