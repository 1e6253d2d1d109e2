// C39: the simulation of an address space under attack.
#include "pbt.h"
#include "tool.h"

#include <algorithm>
#include <cctype>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

#include "boost/filesystem.hpp"
#include "cereal/archives/json.hpp"
#include "cereal/cereal.hpp"
#include "openssl/sha.h"

#include "maidsafe/common/crypto.h"
#include "maidsafe/common/identity.h"
#include "maidsafe/common/log.h"
#include "maidsafe/common/utils.h"

// The tool itself, whose main function is called in other processes.
#define main ToolMain
#define private public
#include "maidsafe/common/tools/address_space_tool.cc"
#undef private
#undef main

// Where the tool believes to have been started from.
namespace {
std::string g_program;
}  // namespace
extern "C" ssize_t __wrap_readlink(const char*, char* buffer, size_t size) {
  size = std::min(size, g_program.size());
  std::memcpy(buffer, g_program.data(), size);
  return static_cast<ssize_t>(size);
}

// Candidates which may still be drawn: some states of a network admit (almost) none.
namespace {
std::size_t g_candidates(0);
std::vector<std::vector<unsigned char>>* g_drawn(nullptr);
}  // namespace
extern "C" std::vector<unsigned char> __real__ZN8maidsafe11RandomBytesEm(std::size_t size);
extern "C" std::vector<unsigned char> __wrap__ZN8maidsafe11RandomBytesEm(std::size_t size) {
  if (g_candidates && --g_candidates == 0)
    throw pbt::Discard();
  auto bytes(__real__ZN8maidsafe11RandomBytesEm(size));
  if (g_drawn && size == 64)
    g_drawn->push_back(bytes);
  return bytes;
}

namespace {

namespace mt = maidsafe::tools;
using Algorithm = mt::CommonLeadingBitsAlgorithm;

std::string Raw(const maidsafe::Identity& id) {
  auto bytes(id.string());
  return std::string(bytes.begin(), bytes.end());
}

bool Bit(const std::string& id, int i) {
  return (static_cast<unsigned char>(id[static_cast<std::size_t>(i / 8)]) >> (7 - i % 8)) & 1;
}

int Common(const std::string& a, const std::string& b) {
  int i(0);
  while (i < 512 && Bit(a, i) == Bit(b, i))
    ++i;
  return i;
}

bool Closer(const std::string& a, const std::string& b, const std::string& target) {
  for (std::size_t i(0); i < 64; ++i) {
    int x(static_cast<unsigned char>(a[i] ^ target[i])),
        y(static_cast<unsigned char>(b[i] ^ target[i]));
    if (x != y)
      return x < y;
  }
  return false;
}

struct Plain {
  std::string id;
  bool good;
  int rank;
};

std::vector<Plain> Nodes(const std::vector<mt::Node>& nodes) {
  std::vector<Plain> plain;
  for (const auto& node : nodes)
    plain.push_back({Raw(node.id), node.good, node.rank});
  return plain;
}

void SortTo(std::vector<Plain>& nodes, const std::string& target) {
  std::sort(nodes.begin(), nodes.end(),
            [&](const Plain& a, const Plain& b) { return Closer(a.id, b.id, target); });
}

// As documented for the algorithms; 'group' is sorted by closeness to the candidate.
std::pair<int, int> Bits(const std::vector<Plain>& group, const std::string& candidate,
                         Algorithm algorithm, std::size_t network) {
  std::vector<int> within, to;
  for (std::size_t i(0); i < group.size(); ++i) {
    to.push_back(Common(group[i].id, candidate));
    for (std::size_t j(i + 1); j < group.size(); ++j)
      within.push_back(Common(group[i].id, group[j].id));
  }
  auto mean([](const std::vector<int>& values) {
    return std::accumulate(values.begin(), values.end(), 0) / static_cast<int>(values.size());
  });
  int group_bits(0), candidate_bits(0);
  switch (algorithm) {
    case Algorithm::kClosest:
      candidate_bits = to[0];
      group_bits = network == 1 ? 0 : Common(group[0].id, group[1].id);
      break;
    case Algorithm::kHighest:
      candidate_bits = *std::max_element(to.begin(), to.end());
      group_bits = network == 1 ? 0 : *std::max_element(within.begin(), within.end());
      break;
    case Algorithm::kLowest:
      candidate_bits = *std::min_element(to.begin(), to.end());
      group_bits = network == 1 ? 0 : *std::min_element(within.begin(), within.end());
      break;
    case Algorithm::kMean:
      candidate_bits = mean(to);
      group_bits = network == 1 ? 0 : mean(within);
      break;
    default:
      break;
  }
  return {group_bits, candidate_bits};
}

const std::vector<Algorithm> kAlgorithms{Algorithm::kClosest, Algorithm::kHighest,
                                         Algorithm::kLowest, Algorithm::kMean, Algorithm::kNone};

mt::Config DrawConfig(pbt::Src& src) {
  mt::Config config;
  config.iterations = 1;
  config.group_size = 2 + src.draw(7);
  config.good_added_per_bad = src.weighted({3, 1, 1});
  // There have to be enough bad ones some time.
  config.majority_size = 1 + src.draw(config.good_added_per_bad
                                          ? std::max<std::size_t>(1, config.group_size / 3)
                                          : config.group_size * 2 / 3 + 1);
  config.bad_group_count = 1 + src.draw(4);
  config.total_random_attempts = 0;
  config.initial_good_count = 1 + src.size(40);
  config.leeway = 2 + src.draw(3);
  config.algorithm = src.pick(kAlgorithms);
  return config;
}

std::string Show(const mt::Config& config) {
  std::ostringstream out;
  out << config;
  return out.str();
}

// An identity, often close to others.
std::string DrawId(pbt::Src& src, const std::vector<Plain>& others) {
  std::string id(src.bytes(64));
  if (!others.empty() && src.chance(2, 3)) {
    const auto& other(src.pick(others).id);
    int bits(static_cast<int>(src.draw(src.boolean() ? 12 : 512)));
    for (int i(0); i < bits; ++i) {
      auto mask(static_cast<unsigned char>(0x80 >> (i % 8)));
      auto& byte(id[static_cast<std::size_t>(i / 8)]);
      byte = static_cast<char>((static_cast<unsigned char>(byte) & ~mask) |
                               (static_cast<unsigned char>(other[static_cast<std::size_t>(i / 8)]) & mask));
    }
  }
  return id;
}

std::vector<Plain> DrawNetwork(pbt::Src& src, std::size_t size) {
  std::vector<Plain> nodes;
  std::set<std::string> ids;
  for (std::size_t i(0); i < size; ++i) {
    Plain node{DrawId(src, nodes), src.boolean(), static_cast<int>(src.draw(101))};
    if (ids.insert(node.id).second)
      nodes.push_back(node);
  }
  return nodes;
}

void Fill(mt::Test& test, const std::vector<Plain>& nodes) {
  for (const auto& node : nodes) {
    test.all_nodes_.emplace_back(maidsafe::Identity(node.id), node.good);
    test.all_nodes_.back().rank = node.rank;
  }
}

}  // namespace

// The numbers a node is judged by, for any network.
PROPERTY(CommonBits, (pbt::Options{4, 3, false, 0})) {
  auto config(DrawConfig(src));
  if (config.algorithm == Algorithm::kNone)
    config.algorithm = Algorithm::kMean;
  auto nodes(DrawNetwork(src, 1 + src.size(30)));
  auto candidate(DrawId(src, nodes));
  auto group_size(std::min(config.group_size, nodes.size()));
  SortTo(nodes, candidate);
  mt::Test test(config);
  Fill(test, nodes);
  auto wanted(Bits({nodes.begin(), nodes.begin() + static_cast<std::ptrdiff_t>(group_size)},
                   candidate, config.algorithm, nodes.size()));
  REQUIRE_EQ(test.GroupCommonLeadingBits(group_size), wanted.first)
      << nodes.size() << " nodes\n" << Show(config);
  REQUIRE_EQ(test.CandidateCommonLeadingBits(maidsafe::Identity(candidate), group_size),
             wanted.second)
      << nodes.size() << " nodes\n" << Show(config);
  if (nodes.size() >= 4 * group_size) {
    auto rank([&](std::size_t count) {
      int sum(0);
      for (std::size_t i(0); i < count; ++i)
        sum += nodes[i].rank;
      return sum / static_cast<int>(count);
    });
    REQUIRE_EQ(test.RankAllowed(group_size), rank(group_size) > rank(4 * group_size));
  }
  if (nodes.size() > 2)
    cs.nontrivial();
}

// The group around a target, which is bad if enough of it are.
PROPERTY(BadGroups, (pbt::Options{4, 3, false, 0})) {
  auto config(DrawConfig(src));
  config.majority_size = 1 + src.draw(config.group_size);
  auto nodes(DrawNetwork(src, config.group_size + src.size(30)));
  if (nodes.size() < config.group_size)
    throw pbt::Discard();
  auto target(DrawId(src, nodes));
  mt::Test test(config);
  Fill(test, nodes);
  auto found(test.GetBadGroup(maidsafe::Identity(target)));
  REQUIRE(Raw(found.first) == target);
  SortTo(nodes, target);
  nodes.resize(config.group_size);
  std::size_t bad(0);
  for (const auto& node : nodes)
    bad += !node.good;
  if (bad < config.majority_size) {
    REQUIRE(found.second.empty()) << "only " << bad << " bad ones\n" << Show(config);
    return;
  }
  std::sort(nodes.begin(), nodes.end(), [](const Plain& a, const Plain& b) { return a.id < b.id; });
  auto group(Nodes(found.second));
  REQUIRE_EQ(group.size(), nodes.size()) << bad << " bad ones\n" << Show(config);
  for (std::size_t i(0); i < group.size(); ++i)
    REQUIRE(group[i].id == nodes[i].id && group[i].good == nodes[i].good) << "node " << i;
  cs.nontrivial();
}

// Adding nodes one by one, and until there are bad groups.
PROPERTY(Simulations, (pbt::Options{1, 150, false, 0})) {
  auto config(DrawConfig(src));
  mt::Test test(config);
  cs.note() << Show(config);
  std::size_t good(1), bad(0);
  maidsafe::detail::random_number_generator().seed(static_cast<std::uint32_t>(src.draw(1U << 31)));
  g_candidates = 1500;
  pbt::Finally unlimited([] { g_candidates = 0; });
  // As the tool starts.
  test.InitialiseNetwork();
  REQUIRE_EQ(test.all_nodes_.size(), config.initial_good_count);
  for (const auto& node : test.all_nodes_)
    REQUIRE(node.good);
  REQUIRE_EQ(test.good_count_, config.initial_good_count);
  good = config.initial_good_count;
  for (std::size_t i(0), n(src.size(20)); i < n; ++i) {
    bool is_good(src.boolean());
    auto before(Nodes(test.all_nodes_));
    auto attempts(test.total_attempts_);
    test.AddNode(is_good);
    is_good ? ++good : ++bad;
    auto after(Nodes(test.all_nodes_));
    REQUIRE_EQ(after.size(), before.size() + 1);
    auto added(after.back());
    after.pop_back();
    REQUIRE_EQ(added.good, is_good);
    auto by_id([](const Plain& a, const Plain& b) { return a.id < b.id; });
    auto group_size(std::min(config.group_size, before.size()));
    SortTo(after, added.id);
    auto group(after);
    group.resize(group_size);
    std::set<std::string> in_group;
    for (const auto& node : group)
      in_group.insert(node.id);
    attempts = test.total_attempts_ - attempts;
    REQUIRE(attempts >= 1U);
    std::sort(after.begin(), after.end(), by_id);
    std::sort(before.begin(), before.end(), by_id);
    for (std::size_t k(0); k < before.size(); ++k) {
      REQUIRE(before[k].id == after[k].id && before[k].good == after[k].good)
          << "other nodes have changed";
      // Only the group of a candidate has anything to do with it.
      REQUIRE(after[k].rank <= 100 && (after[k].rank == before[k].rank || attempts > 1 ||
                                       in_group.count(after[k].id)))
          << "rank " << before[k].rank << " became " << after[k].rank;
    }
    if (config.algorithm == Algorithm::kNone) {
      if (before.size() <= 4 * config.group_size)
        REQUIRE_EQ(attempts, 1U) << "attempts";
    } else {
      auto bits(Bits(group, added.id, config.algorithm, before.size()));
      REQUIRE(bits.second < bits.first + static_cast<int>(config.leeway))
          << "a node with " << bits.second << " common bits joined a group with " << bits.first
          << " of " << before.size();
    }
    REQUIRE_EQ(test.good_count_, good);
    REQUIRE_EQ(test.bad_count_, bad);
  }
  auto steps(test.GetUniformlyDistributedTargetPoints());
  REQUIRE_EQ(steps.size(), 1024U);
  for (std::size_t i(0); i < steps.size(); i += 1 + src.draw(40)) {
    // The first 10 bits count up, but for what is rounded off.
    auto id(Raw(steps[i]));
    long place((static_cast<unsigned char>(id[0]) << 8 | static_cast<unsigned char>(id[1])));
    long wanted(static_cast<long>(i) * 64);
    REQUIRE(place == wanted || place == wanted - 1) << "target " << i << " is at " << place;
  }
  auto groups(test.InjectBadGroups(steps));
  REQUIRE(groups.size() >= config.bad_group_count);
  std::set<std::string> ids;
  auto nodes(Nodes(test.all_nodes_));
  std::size_t counted_good(0);
  for (const auto& node : nodes)
    counted_good += node.good;
  REQUIRE_EQ(counted_good, test.good_count_);
  REQUIRE_EQ(nodes.size() - counted_good, test.bad_count_);
  std::size_t injected(test.bad_count_ - bad);
  REQUIRE(injected >= 1U);
  REQUIRE_EQ(test.good_count_ - good, injected * config.good_added_per_bad);
  for (const auto& group : groups) {
    auto target(Raw(group.first));
    auto close(nodes);
    SortTo(close, target);
    REQUIRE_EQ(group.second.size(), config.group_size);
    std::set<std::string> wanted;
    std::size_t count(0);
    for (std::size_t k(0); k < std::min(close.size(), config.group_size); ++k) {
      wanted.insert(close[k].id);
      count += !close[k].good;
    }
    for (const auto& node : group.second) {
      if (!node.id.IsInitialised())
        continue;  // the network is smaller than a group
      REQUIRE(wanted.count(Raw(node.id))) << "a node which is not in the group";
      REQUIRE(ids.insert(Raw(node.id)).second) << "a node in two bad groups";
    }
    REQUIRE(count >= config.majority_size) << "a group with " << count << " bad ones";
  }
  cs.label("bad nodes", test.bad_count_);
  cs.label("bad groups", groups.size());
  cs.nontrivial();
}

// How many random addresses, each followed by the hash of the one before, are in bad hands.
PROPERTY(LinkedAddresses, (pbt::Options{1, 150, false, 0})) {
  auto config(DrawConfig(src));
  config.bad_group_count = 1 + src.draw(3);
  config.majority_size = 1 + src.draw(config.group_size);
  config.total_random_attempts = src.chance(1, 6) ? 0 : 1 + src.draw(src.boolean() ? 5 : 400);
  auto nodes(DrawNetwork(src, config.group_size + src.size(30)));
  if (nodes.size() < config.group_size)
    throw pbt::Discard();
  std::size_t one_in(src.draw(5));
  for (auto& node : nodes)
    node.good = one_in != 4 && (one_in == 0 || src.chance(one_in, 4));
  cs.note() << Show(config) << nodes.size() << " nodes ";
  auto compromised([&](std::string target) {
    for (std::size_t i(0); i < config.bad_group_count; ++i) {
      if (i) {
        unsigned char digest[64];
        ::SHA512(reinterpret_cast<const unsigned char*>(target.data()), target.size(), digest);
        target.assign(reinterpret_cast<char*>(digest), sizeof(digest));
      }
      auto group(nodes);
      SortTo(group, target);
      std::size_t bad(0);
      for (std::size_t k(0); k < config.group_size; ++k)
        bad += !group[k].good;
      if (bad < config.majority_size)
        return false;
    }
    return true;
  });
  auto seed(static_cast<std::uint32_t>(src.u64()));
  std::vector<std::string> targets;
  auto directory(fs::path(pbt::FreshPath("linked")));
  fs::create_directories(directory);
  pbt::Finally remove([&] {
    boost::system::error_code ec;
    fs::remove_all(directory, ec);
  });
  auto result(tool::Run("", directory, [&] {
    mt::Test test(config);
    Fill(test, nodes);
    maidsafe::detail::set_random_number_generator_seed(seed);
    std::vector<std::vector<unsigned char>> drawn;
    g_drawn = &drawn;
    test.CheckLinkedAddresses();
    g_drawn = nullptr;
    maidsafe::log::Logging::Instance().~Logging();
    for (const auto& target : drawn)
      std::cout << "\n@" << pbt::Hex(target, 1000);
    std::cout << std::endl;
    return 0;
  }));
  REQUIRE(result.ended && WIFEXITED(result.status) && WEXITSTATUS(result.status) == 0) << result.output;
  const auto& out(result.output);
  std::string tail(" out of " + std::to_string(config.total_random_attempts) +
                   " linked random addresses were fully managed");
  auto at(out.find(tail));
  REQUIRE_EQ(at != std::string::npos, config.total_random_attempts != 0) << out;
  if (at == std::string::npos)
    return;
  auto start(at);
  while (start && std::isdigit(static_cast<unsigned char>(out[start - 1])))
    --start;
  REQUIRE(start < at) << out;
  std::size_t count(std::stoul(out.substr(start, at - start)));
  std::istringstream lines(out);
  for (std::string line; std::getline(lines, line);)
    if (line.size() == 133 && line[0] == '@') {  // and "(64)"
      std::string target;
      for (std::size_t i(1); i < 129; i += 2)
        target += static_cast<char>(std::stoul(line.substr(i, 2), nullptr, 16));
      targets.push_back(target);
    }
  if (targets.size() == config.total_random_attempts) {
    std::size_t expected(0);
    for (const auto& target : targets)
      expected += compromised(target);
    REQUIRE_EQ(count, expected) << "compromised of " << targets.size() << '\n' << Show(config);
    cs.label("compromised", expected);
    if (expected && expected < targets.size())
      cs.nontrivial();
  } else {  // Drawn in another way; only what is certain can be said.
    auto bad(std::count_if(nodes.begin(), nodes.end(), [](const Plain& n) { return !n.good; }));
    auto good(static_cast<long>(nodes.size()) - bad);
    if (bad < static_cast<long>(config.majority_size))
      REQUIRE_EQ(count, 0U);
    if (good + static_cast<long>(config.majority_size) <= static_cast<long>(config.group_size))
      REQUIRE_EQ(count, config.total_random_attempts);
    REQUIRE(count <= config.total_random_attempts);
    cs.label("other draws");
  }
}

// The command line and the configuration file.
PROPERTY(Configurations, (pbt::Options{1, 30, false, 0})) {
  fs::path root(fs::canonical(pbt::ScratchDir()) / fs::path(pbt::FreshPath("tool")).filename());
  fs::create_directories(root);
  pbt::Finally remove([&] {
    boost::system::error_code ec;
    fs::remove_all(root, ec);
  });
  mt::Config config;
  std::vector<std::pair<std::string, std::string>> fields;
  auto field([&](const std::string& name, std::size_t& member, std::size_t value) {
    if (src.boolean()) {
      member = value;
      fields.emplace_back(name, std::to_string(value));
    }
  });
  bool runs(src.chance(1, 3));  // only what is cheap is
  field("initial_good_count", config.initial_good_count, 1 + src.draw(30));
  field("group_size", config.group_size, 2 + src.draw(9));
  field("majority_size", config.majority_size, 1 + src.draw(config.group_size));
  field("bad_group_count", config.bad_group_count, 1 + src.draw(3));
  field("total_random_attempts", config.total_random_attempts, src.draw(50));
  field("leeway", config.leeway, 1 + src.draw(5));
  field("good_added_per_bad", config.good_added_per_bad, src.draw(3));
  if (src.boolean()) {
    auto value(src.draw(1000));
    config.initial_factor = static_cast<double>(value) / 4;
    std::ostringstream text;
    text << config.initial_factor;
    fields.emplace_back("initial_factor", text.str() + (value % 4 ? "" : ".0"));
  }
  if (src.boolean()) {
    auto value(src.draw(src.chance(1, 5) ? 8 : 5));
    config.algorithm = static_cast<Algorithm>(value);
    fields.emplace_back("algorithm", std::to_string(value));
  }
  if (runs) {
    auto set([&](const std::string& name, std::size_t& member, std::size_t value) {
      member = value;
      for (auto& item : fields)
        if (item.first == name) {
          item.second = std::to_string(value);
          return;
        }
      fields.emplace_back(name, std::to_string(value));
    });
    set("initial_good_count", config.initial_good_count, 1 + src.draw(30));
    set("majority_size", config.majority_size, 1 + src.draw(2));
    set("bad_group_count", config.bad_group_count, 1);
    set("total_random_attempts", config.total_random_attempts, src.draw(50));
    set("leeway", config.leeway, 2 + src.draw(3));
    if (config.good_added_per_bad > 1)
      set("good_added_per_bad", config.good_added_per_bad, 1);
    if (static_cast<int>(config.algorithm) > 4)
      runs = false;
  }
  config.iterations = runs ? 1 + src.draw(2) : 0;
  if (config.initial_factor > 3)
    config.iterations = std::min<std::size_t>(config.iterations, 1);
  fields.emplace_back("iterations", std::to_string(config.iterations));
  for (std::size_t i(0), n(src.chance(1, 4) ? 1 : 0); i < n; ++i)
    fields.emplace_back("unknown", "3");
  src.shuffle(fields);
  std::string json("{\"config\": {");
  for (std::size_t i(0); i < fields.size(); ++i)
    json += (i ? ", \"" : "\"") + fields[i].first + "\": " + fields[i].second;
  json += "}}";
  enum Way { kNamed, kBeside, kNone, kMissing, kDamaged, kTwo, kHelp } way(
      static_cast<Way>(src.weighted({6, 3, 2, 1, 2, 1, 1})));
  std::vector<std::string> arguments{"address_space_tool"};
  auto beside(root / "bin" / "address_space_tool.conf"), named(root / "named.conf");
  fs::create_directories(root / "bin");
  auto write([](const fs::path& path, const std::string& text) {
    std::ofstream(path.c_str(), std::ios::binary) << text;
  });
  switch (way) {
    case kNamed:
      write(named, json);
      arguments.push_back(named.string());
      break;
    case kBeside:
      write(beside, json);
      break;
    case kNone:
      break;
    case kMissing:
      arguments.push_back((root / "missing.conf").string());
      break;
    case kDamaged:
      json.resize(src.index(json.size()));
      write(named, json);
      arguments.push_back(named.string());
      break;
    case kTwo:
      write(named, json);
      arguments.push_back(named.string());
      arguments.push_back(named.string());
      break;
    case kHelp:
      arguments.push_back(src.boolean() ? "--help" : "-h");
      break;
  }
  cs.note() << "way " << way << ' ' << json;
  // Running with the defaults takes too long; but they must be written, and read the next time.
  bool defaults(way == kNone || way == kMissing);
  for (int round(0); round < (defaults ? 2 : 1); ++round) {
    auto result(tool::Run("", root, [&] {
      g_program = (root / "bin" / "tool").string();
      if (defaults) {
        maidsafe::SetThisExecutablePath(std::vector<char*>{&g_program[0]}.data());
        std::vector<std::string> options(arguments.begin() + 1, arguments.end());
        std::cout << mt::GetConfig(round ? std::vector<std::string>() : options) << std::flush;
        return 0;
      }
      std::vector<char*> pointers;
      for (auto& argument : arguments)
        pointers.push_back(&argument[0]);
      pointers.push_back(nullptr);
      int code(ToolMain(static_cast<int>(arguments.size()), pointers.data()));
      maidsafe::log::Logging::Instance().~Logging();
      return code;
    }));
    REQUIRE(result.ended) << "does not end";
    REQUIRE(WIFEXITED(result.status)) << "ended by signal " << WTERMSIG(result.status);
    int code(WEXITSTATUS(result.status));
    const auto& out(result.output);
    switch (way) {
      case kNamed:
      case kBeside: {
        auto shown(out.find("Config values:\n" + Show(config)));
        REQUIRE(shown != std::string::npos) << "values other than\n" << Show(config) << "are used\n"
                                            << out;
        REQUIRE_EQ(code, 0) << out;
        std::size_t runs_shown(0), size(config.initial_good_count);
        for (std::size_t i(0); i < config.iterations; ++i) {
          REQUIRE(out.find("For a network of " + std::to_string(size) + " got " +
                           std::to_string(config.bad_group_count) + " bad group(s) after adding ") !=
                  std::string::npos)
              << "no run with " << size << " nodes\n" << out;
          size = static_cast<std::size_t>(static_cast<double>(size) * config.initial_factor);
          if (size == 0)
            break;
        }
        for (auto at(out.find("For a network")); at != std::string::npos;
             at = out.find("For a network", at + 1))
          ++runs_shown;
        REQUIRE_EQ(runs_shown, config.iterations) << out;
        std::size_t attempts(0);
        std::string tail(" out of " + std::to_string(config.total_random_attempts) +
                         " linked random addresses");
        for (auto at(out.find(tail)); at != std::string::npos; at = out.find(tail, at + 1))
          ++attempts;
        REQUIRE_EQ(attempts, config.total_random_attempts ? config.iterations : 0) << out;
        if (config.iterations)
          cs.label("runs");
        REQUIRE(way == kBeside || !fs::exists(beside)) << "wrote a file of defaults";
        break;
      }
      case kNone:
      case kMissing:
        REQUIRE_EQ(out, Show(mt::Config())) << "round " << round;
        REQUIRE(fs::exists(beside)) << "no file was written";
        break;
      case kDamaged:
        REQUIRE_EQ(code, 254) << out;
        REQUIRE(out.find("Failed: ") != std::string::npos) << out;
        break;
      case kTwo:
      case kHelp:
        REQUIRE_EQ(code, 255) << out;
        REQUIRE(out.find("Config values") == std::string::npos);
        break;
    }
  }
  if (fields.size() > 2)
    cs.nontrivial();
}
