// C28: strings in named shared memory.
#include "pbt.h"

#include <sys/wait.h>
#include <unistd.h>

#include <atomic>
#include <map>
#include <string>
#include <thread>
#include <vector>

#include "maidsafe/common/ipc.h"

namespace ipc = maidsafe::ipc;
using Items = std::vector<std::string>;

namespace {

const std::size_t kTotal(65536);

// Surely fits, whatever is needed for each item.
bool Fits(const Items& items) {
  std::size_t used(4000), longest(0);
  for (const auto& item : items) {
    used += 2 * item.size() + 256;
    longest = std::max(longest, 2 * item.size());
  }
  return used + 2 * longest <= kTotal;
}

// No way to fit.
bool TooLarge(const Items& items) {
  std::size_t used(0);
  for (const auto& item : items)
    used += item.size() + 1;
  return used > kTotal;
}

Items DrawItems(pbt::Src& src) {
  Items items;
  switch (src.weighted({8, 2, 1})) {
    case 0: {
      std::size_t count(src.size(12));
      for (std::size_t i(0); i < count; ++i)
        items.push_back(src.bytes(src.size(200)));
      break;
    }
    case 1: {  // many, or large
      if (src.boolean()) {
        std::size_t count(src.draw(150));
        for (std::size_t i(0); i < count; ++i)
          items.push_back(src.bytes(src.draw(20)));
      } else {
        items.push_back(src.bytes(src.draw(12000)));
        items.push_back(src.bytes(src.draw(2000)));
      }
      break;
    }
    default: {
      std::size_t count(1 + src.draw(3));
      for (std::size_t i(0); i < count; ++i)
        items.push_back(src.bytes(src.draw(70000)));
    }
  }
  return items;
}

std::string Text(const Items& items) {
  std::string text("[");
  for (std::size_t i(0); i < items.size() && i < 6; ++i)
    text += pbt::Hex(items[i], 6) + " ";
  return text + (items.size() > 6 ? ".. " + std::to_string(items.size()) : std::string()) + "] ";
}

// Names of one case, removed at its end.
struct Names {
  std::vector<std::string> all;
  explicit Names(pbt::Src& src) {
    std::string base("verif" + std::to_string(getpid()) + "-");
    std::size_t count(1 + src.draw(4));
    for (std::size_t i(0); i < count; ++i) {
      std::string name(base);
      if (i > 0 && src.boolean())
        name = all[src.draw(all.size())];  // the beginning of the new one
      name += src.bytes(1 + src.draw(12));
      name.resize(std::min<std::size_t>(name.size(), 100));
      for (const auto& other : all)
        if (other == name)
          name += static_cast<char>('A' + i);
      all.push_back(name);
    }
  }
  ~Names() {
    for (const auto& name : all)
      ipc::RemoveSharedMemory(name);
  }
};

// "" or what went wrong.
std::string Read(const std::string& name, int number, Items& found) {
  try {
    found = ipc::ReadSharedMemory(name, number);
  } catch (const std::exception& error) {
    return error.what();
  }
  return "";
}

std::string CheckRead(const std::string& name, const Items* items, int number) {
  Items found;
  auto error(Read(name, number, found));
  if (!items)
    return error.empty() ? "read what does not exist" : "";
  if (number > static_cast<int>(items->size()))
    return error.empty() ? "read more than was stored: " + Text(found) : "";
  if (!error.empty())
    return "not read: " + error;
  Items expected(items->begin(), items->begin() + std::max(number, 0));
  return found == expected ? "" : "read " + Text(found) + " instead of " + Text(expected);
}

// In another process.
std::string Elsewhere(const std::function<std::string()>& fn) {
  int pipes[2];
  if (pipe(pipes))
    return "pipe";
  pid_t child(fork());
  if (child == 0) {
    std::string text(fn());
    if (write(pipes[1], text.data(), text.size()) != static_cast<ssize_t>(text.size()))
      _exit(3);
    _exit(0);
  }
  close(pipes[1]);
  std::string text;
  char buffer[512];
  ssize_t n;
  while ((n = read(pipes[0], buffer, sizeof buffer)) > 0)
    text.append(buffer, static_cast<std::size_t>(n));
  close(pipes[0]);
  int status(0);
  waitpid(child, &status, 0);
  if (status)
    text += " (the other process ended with status " + std::to_string(status) + ")";
  return text;
}

}  // namespace

PROPERTY(Histories, (pbt::Options{4, 12, false, 0})) {
  Names names(src);
  std::map<std::string, Items> model;
  std::size_t steps(1 + src.size(14)), created(0), reads(0);
  for (std::size_t step(0); step < steps; ++step) {
    const auto& name(src.pick(names.all));
    bool elsewhere(src.chance(1, 3));
    auto run([&](const std::function<std::string()>& fn) {
      auto text(elsewhere ? Elsewhere(fn) : fn());
      REQUIRE(text.empty()) << text;
    });
    cs.note() << (elsewhere ? "elsewhere " : "");
    switch (src.weighted({4, 6, 2})) {
      case 0: {
        auto items(DrawItems(src));
        cs.note() << "create(" << pbt::Hex(name, 20) << ", " << Text(items) << ") ";
        bool fits(Fits(items)), too_large(TooLarge(items));
        std::string outcome(elsewhere ? Elsewhere([&] {
          try {
            ipc::CreateSharedMemory(name, items);
          } catch (const std::exception&) {
            return std::string("refused");
          }
          return std::string();
        }) : std::string());
        if (!elsewhere) {
          try {
            ipc::CreateSharedMemory(name, items);
          } catch (const std::exception& error) {
            outcome = "refused";
            cs.note() << "refused ";
          }
        }
        REQUIRE(outcome.empty() || outcome == "refused") << outcome;
        if (fits)
          REQUIRE(outcome.empty()) << "refused what fits";
        if (too_large)
          REQUIRE(!outcome.empty()) << "accepted more than there is room for";
        if (outcome.empty()) {
          model[name] = items;
          ++created;
        } else {  // what was there before may be gone
          ipc::RemoveSharedMemory(name);
          model.erase(name);
          cs.label("too large");
        }
        break;
      }
      case 1: {
        const Items* items(model.count(name) ? &model[name] : nullptr);
        int size(items ? static_cast<int>(items->size()) : 3);
        int number(src.chance(1, 2) ? size : static_cast<int>(src.draw(size + 1)));
        if (src.chance(1, 5))
          number = size + 1 + static_cast<int>(src.draw(3));
        if (src.chance(1, 20))
          number = -1;
        cs.note() << "read(" << pbt::Hex(name, 20) << ", " << number << ") ";
        run([&] { return CheckRead(name, items, number); });
        if (items && number > 0)
          ++reads;
        break;
      }
      case 2:
        cs.note() << "remove(" << pbt::Hex(name, 20) << ") ";
        run([&] {
          ipc::RemoveSharedMemory(name);
          return std::string();
        });
        model.erase(name);
        break;
    }
  }
  for (const auto& name : names.all) {
    const Items* items(model.count(name) ? &model[name] : nullptr);
    auto text(CheckRead(name, items, items ? static_cast<int>(items->size()) : 1));
    REQUIRE(text.empty()) << text;
  }
  if (created && reads)
    cs.nontrivial();
}

// Whatever is read while the content is replaced is one content, or nothing.
PROPERTY(Replacing, (pbt::Options{1, 60, true, 0})) {
  Names names(src);
  const auto name(names.all[0]);
  std::size_t count(1 + src.draw(5)), rounds(2 + src.draw(10));
  std::vector<Items> versions;
  for (std::size_t v(0); v < 3; ++v) {
    Items items;
    for (std::size_t i(0); i < count; ++i)
      items.push_back(std::to_string(v) + "-" + src.bytes(src.draw(300)));
    versions.push_back(items);
  }
  cs.note() << count << " items, " << rounds << " rounds";
  std::atomic<bool> done(false);
  std::atomic<int> read(0), mixed(0);
  std::string what;
  std::vector<std::thread> readers;
  std::size_t threads(1 + src.draw(2));
  for (std::size_t t(0); t < threads; ++t) {
    readers.emplace_back([&] {
      while (!done.load()) {
        Items found;
        if (!Read(name, static_cast<int>(count), found).empty())
          continue;
        ++read;
        bool known(false);
        for (const auto& version : versions)
          known = known || version == found;
        if (!known)
          ++mixed;
      }
    });
  }
  std::string failed;
  for (std::size_t round(0); round < rounds && failed.empty(); ++round) {
    try {
      ipc::CreateSharedMemory(name, versions[round % versions.size()]);
      auto text(CheckRead(name, &versions[round % versions.size()], static_cast<int>(count)));
      if (!text.empty())
        failed = text;
    } catch (const std::exception& error) {
      failed = error.what();
    }
  }
  done = true;
  for (auto& reader : readers)
    reader.join();
  REQUIRE(failed.empty()) << failed;
  REQUIRE_EQ(mixed.load(), 0);
  cs.label("reads while replacing", static_cast<std::uint64_t>(read.load()));
  cs.nontrivial();
}
