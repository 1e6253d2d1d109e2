// C21: locked pages and wiped memory.
#include "pbt.h"

#include <cstring>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <vector>

#include <sys/mman.h>

#include "maidsafe/common/authentication/detail/safe_allocators.h"
#include "maidsafe/common/authentication/detail/secure_string.h"
#include "perturb.h"

namespace md = maidsafe::authentication::detail;

namespace {

// What a locker was asked for.  Pages are numbers.
struct Recorder {
  std::mutex mutex;
  std::set<std::size_t> locked;
  std::string problem;
  std::size_t page_size = 0, locks = 0, unlocks = 0;

  void Change(bool lock, const void* address, std::size_t length) {
    std::lock_guard<std::mutex> guard(mutex);
    std::size_t start(reinterpret_cast<std::size_t>(address));
    if (start % page_size != 0 || length != page_size) {
      problem = "not a page: " + std::to_string(start) + " + " + std::to_string(length);
      return;
    }
    bool done(lock ? locked.insert(start).second : locked.erase(start) == 1);
    ++(lock ? locks : unlocks);
    if (!done)
      problem = std::string(lock ? "locked" : "unlocked") + " twice: " + std::to_string(start);
  }
  void Clear(std::size_t size) {
    locked.clear();
    problem.clear();
    page_size = size;
    locks = unlocks = 0;
  }
};

Recorder& Stub() {
  static Recorder recorder;
  return recorder;
}

Recorder& System() {
  static Recorder recorder;
  if (recorder.page_size == 0)
    recorder.page_size = md::GetSystemPageSize();
  return recorder;
}

struct StubLocker {
  bool Lock(const void* address, std::size_t length) {
    Stub().Change(true, address, length);
    return true;
  }
  bool Unlock(const void* address, std::size_t length) {
    Stub().Change(false, address, length);
    return true;
  }
};

using Manager = md::LockedPageManagerBase<StubLocker>;

struct Range {
  std::size_t start, size;
};

std::set<std::size_t> Pages(const std::vector<Range>& ranges, std::size_t page_size) {
  std::set<std::size_t> result;
  for (const auto& range : ranges) {
    if (range.size == 0)
      continue;
    for (std::size_t page(range.start / page_size); page <= (range.start + range.size - 1) / page_size;
         ++page)
      result.insert(page * page_size);
  }
  return result;
}

// Memory whose content must be zeros when it is given back.
std::mutex g_watched_mutex;
std::map<void*, std::size_t>* g_watched(nullptr);
std::size_t g_not_wiped(0), g_wiped(0);

void Watch(void* p, std::size_t size) {
  std::lock_guard<std::mutex> lock(g_watched_mutex);
  if (!g_watched)
    g_watched = new std::map<void*, std::size_t>;
  (*g_watched)[p] = size;
}

thread_local bool g_inside(false);

void Freed(void* p) {
  if (g_inside || !p)
    return;
  g_inside = true;
  {
    std::lock_guard<std::mutex> lock(g_watched_mutex);
    if (g_watched) {
      auto it(g_watched->find(p));
      if (it != g_watched->end()) {
        const unsigned char* bytes(static_cast<unsigned char*>(p));
        bool wiped(true);
        for (std::size_t i(0); i < it->second; ++i)
          wiped = wiped && bytes[i] == 0;
        ++(wiped ? g_wiped : g_not_wiped);
        g_watched->erase(it);
      }
    }
  }
  g_inside = false;
}

}  // namespace

extern "C" {
void __real__ZdlPv(void*);
void __real__ZdlPvm(void*, std::size_t);
void __wrap__ZdlPv(void* p) {
  Freed(p);
  __real__ZdlPv(p);
}
void __wrap__ZdlPvm(void* p, std::size_t size) {
  Freed(p);
  __real__ZdlPvm(p, size);
}
// Never really called, so that limits on locked memory don't matter.
int __wrap_mlock(const void* address, std::size_t length) {
  System().Change(true, address, length);
  return 0;
}
int __wrap_munlock(const void* address, std::size_t length) {
  System().Change(false, address, length);
  return 0;
}
}

namespace {

// Some values of type T got from an allocator.
template <typename T, typename Allocator>
struct Block {
  T* start;
  std::size_t count;

  void Get(Allocator& allocator, std::size_t n, unsigned char fill) {
    count = n;
    start = allocator.allocate(n);
    std::memset(static_cast<void*>(start), fill, n * sizeof(T));
    if (n * sizeof(T) > 0)
      Watch(start, n * sizeof(T));
  }
};

template <typename T, typename Allocator>
void Allocations(pbt::Src& src, pbt::Case& cs, bool locks) {
  Allocator allocator;
  std::vector<Block<T, Allocator>> blocks;
  Recorder& system(System());
  system.problem.clear();
  const std::size_t not_wiped(g_not_wiped);
  const std::set<std::size_t> before(system.locked);
  const int count_before(md::LockedPageManager::instance.GetLockedPageCount());
  std::size_t steps(1 + src.size(20)), wiped(g_wiped), freed(0);
  for (std::size_t i(0); i < steps; ++i) {
    if (blocks.empty() || src.chance(3, 5)) {
      std::size_t count(1 + (src.chance(1, 5) ? src.draw(20000 / sizeof(T)) : src.size(200)));
      cs.note() << "get " << count << " x " << sizeof(T) << "; ";
      Block<T, Allocator> block;
      block.Get(allocator, count, static_cast<unsigned char>(1 + src.draw(255)));
      blocks.push_back(block);
    } else {
      std::size_t which(src.index(blocks.size()));
      cs.note() << "free " << which << "; ";
      allocator.deallocate(blocks[which].start, blocks[which].count);
      ++freed;
      blocks.erase(blocks.begin() + static_cast<std::ptrdiff_t>(which));
    }
    REQUIRE(system.problem.empty()) << system.problem;
    std::set<std::size_t> expected;
    if (locks) {
      std::vector<Range> ranges;
      for (const auto& block : blocks)
        ranges.push_back(Range{reinterpret_cast<std::size_t>(block.start), block.count * sizeof(T)});
      expected = Pages(ranges, system.page_size);
    }
    expected.insert(before.begin(), before.end());
    REQUIRE(system.locked == expected)
        << system.locked.size() << " pages are locked instead of " << expected.size();
    REQUIRE_EQ(md::LockedPageManager::instance.GetLockedPageCount(),
               static_cast<int>(expected.size()));
  }
  for (const auto& block : blocks) {
    allocator.deallocate(block.start, block.count);
    ++freed;
  }
  allocator.deallocate(nullptr, 0);
  REQUIRE(system.problem.empty()) << system.problem;
  REQUIRE(system.locked == before) << "pages stay locked";
  REQUIRE_EQ(md::LockedPageManager::instance.GetLockedPageCount(), count_before);
  REQUIRE_EQ(g_not_wiped, not_wiped) << "memory wasn't wiped";
  REQUIRE_EQ(g_wiped - wiped, freed);
  if (freed > 2)
    cs.nontrivial();
}

struct Odd {
  char bytes[24];
};

}  // namespace

PROPERTY(Ranges, (pbt::Options{4, 1})) {
  std::size_t page_size(std::size_t(1) << src.draw(14));
  Stub().Clear(page_size);
  Manager manager(page_size);
  std::vector<Range> ranges;
  cs.note() << "pages of " << page_size << ": ";
  std::size_t steps(1 + src.size(40)), overlaps(0), base(src.draw(1u << 20) * page_size);
  for (std::size_t i(0); i < steps; ++i) {
    if (ranges.empty() || src.chance(3, 5)) {
      Range range;
      if (!ranges.empty() && src.chance(1, 4)) {
        range = ranges[src.index(ranges.size())];
      } else {
        range.start = base + src.draw(5) * page_size;
        range.start += src.boolean() ? 0 : src.draw(page_size);
        switch (src.draw(5)) {
          case 0:
            range.size = 0;
            break;
          case 1:  // up to the end of a page
            range.size = page_size - range.start % page_size + src.draw(3) * page_size;
            break;
          case 2:  // and one byte more
            range.size = page_size - range.start % page_size + src.draw(3) * page_size + 1;
            break;
          default:
            range.size = 1 + src.draw(src.boolean() ? 16 : 4 * page_size);
        }
      }
      cs.note() << "+" << range.start - base << "/" << range.size << ' ';
      manager.LockRange(reinterpret_cast<void*>(range.start), range.size);
      std::size_t pages(Pages(ranges, page_size).size());
      ranges.push_back(range);
      if (Pages(ranges, page_size).size() < pages + Pages({range}, page_size).size())
        ++overlaps;
    } else {
      std::size_t which(src.index(ranges.size()));
      cs.note() << "-" << ranges[which].start - base << "/" << ranges[which].size << ' ';
      manager.UnlockRange(reinterpret_cast<void*>(ranges[which].start), ranges[which].size);
      ranges.erase(ranges.begin() + static_cast<std::ptrdiff_t>(which));
    }
    auto expected(Pages(ranges, page_size));
    REQUIRE(Stub().problem.empty()) << Stub().problem;
    REQUIRE(Stub().locked == expected)
        << Stub().locked.size() << " pages are locked instead of " << expected.size();
    REQUIRE_EQ(manager.GetLockedPageCount(), static_cast<int>(expected.size()));
  }
  for (const auto& range : ranges)
    manager.UnlockRange(reinterpret_cast<void*>(range.start), range.size);
  REQUIRE(Stub().problem.empty()) << Stub().problem;
  REQUIRE(Stub().locked.empty()) << Stub().locked.size() << " pages stay locked";
  REQUIRE_EQ(Stub().locks, Stub().unlocks);
  if (overlaps > 0)
    cs.nontrivial();
}

PROPERTY(SafeAllocators, (pbt::Options{3, 2})) {
  switch (src.draw(4)) {
    case 0:
      Allocations<char, md::safe_allocator<char>>(src, cs, true);
      break;
    case 1:
      Allocations<int, md::safe_allocator<int>>(src, cs, true);
      break;
    case 2:
      Allocations<Odd, md::safe_allocator<Odd>>(src, cs, true);
      break;
    default:
      Allocations<long, md::safe_allocator<char>::rebind<long>::other>(src, cs, true);
  }
}

PROPERTY(ZeroingAllocators, (pbt::Options{1, 2})) {
  switch (src.draw(3)) {
    case 0:
      Allocations<char, md::zero_after_free_allocator<char>>(src, cs, false);
      break;
    case 1:
      Allocations<short, md::zero_after_free_allocator<short>>(src, cs, false);
      break;
    default:
      Allocations<Odd, md::zero_after_free_allocator<Odd>>(src, cs, false);
  }
}

// Strings growing and shrinking.
PROPERTY(SafeStrings, (pbt::Options{2, 2})) {
  Recorder& system(System());
  system.problem.clear();
  const std::set<std::size_t> before(system.locked);
  const std::size_t not_wiped(g_not_wiped);
  {
    std::vector<md::SafeString> strings(1 + src.draw(4));
    std::vector<std::string> expected(strings.size());
    std::size_t steps(1 + src.size(20));
    for (std::size_t i(0); i < steps; ++i) {
      std::size_t s(src.index(strings.size())), t(src.index(strings.size()));
      switch (src.draw(5)) {
        case 0: {
          std::size_t n(1 + src.size(300));
          cs.note() << s << " += " << n << "; ";
          strings[s].append(n, 'x');
          expected[s].append(n, 'x');
          break;
        }
        case 1:
          cs.note() << s << " = " << t << "; ";
          strings[s] = strings[t];
          expected[s] = expected[t];
          break;
        case 2:
          cs.note() << s << " resized; ";
          expected[s].resize(expected[s].size() / 2);
          strings[s].resize(strings[s].size() / 2);
          strings[s].shrink_to_fit();
          break;
        case 3: {
          cs.note() << s << " new; ";
          std::string text(src.text(src.size(100), "abc"));
          strings[s] = md::SafeString(text.begin(), text.end());
          expected[s] = text;
          break;
        }
        default:
          cs.note() << s << " = " << s << " + " << t << "; ";
          strings[s] = strings[s] + strings[t];
          expected[s] = expected[s] + expected[t];
          if (expected[s].size() > 20000) {
            strings[s].clear();
            expected[s].clear();
          }
      }
      std::vector<Range> ranges;
      for (std::size_t k(0); k < strings.size(); ++k) {
        REQUIRE(std::string(strings[k].begin(), strings[k].end()) == expected[k]) << "string " << k;
        std::size_t data(reinterpret_cast<std::size_t>(strings[k].data()));
        std::size_t object(reinterpret_cast<std::size_t>(&strings[k]));
        if (data >= object && data < object + sizeof(md::SafeString))
          continue;
        Watch(&strings[k][0], strings[k].capacity() + 1);
        ranges.push_back(Range{data, strings[k].capacity() + 1});
      }
      auto pages(Pages(ranges, system.page_size));
      pages.insert(before.begin(), before.end());
      REQUIRE(system.problem.empty()) << system.problem;
      REQUIRE(system.locked == pages)
          << system.locked.size() << " pages are locked instead of " << pages.size();
    }
    if (steps > 2)
      cs.nontrivial();
  }
  REQUIRE(system.problem.empty()) << system.problem;
  REQUIRE(system.locked == before) << "pages stay locked";
  REQUIRE_EQ(g_not_wiped, not_wiped) << "memory wasn't wiped";
}

PROPERTY(Threads, (pbt::Options{1, 30, true})) {
  std::size_t page_size(4096);
  Stub().Clear(page_size);
  Manager manager(page_size);
  struct Step {
    Range range;
    bool lock;
  };
  std::size_t threads(2 + src.draw(3)), total(0);
  std::vector<std::vector<Step>> steps(threads);
  for (auto& own : steps) {
    std::size_t count(1 + src.size(12));
    std::vector<Range> held;
    for (std::size_t i(0); i < count; ++i) {
      if (held.empty() || src.chance(1, 2)) {
        Range range{src.draw(3) * page_size + src.draw(page_size), 1 + src.draw(2 * page_size)};
        held.push_back(range);
        own.push_back(Step{range, true});
      } else {
        std::size_t which(src.index(held.size()));
        own.push_back(Step{held[which], false});
        held.erase(held.begin() + static_cast<std::ptrdiff_t>(which));
      }
    }
    for (const auto& range : held)
      own.push_back(Step{range, false});
    total += own.size();
  }
  cs.note() << threads << " threads, " << total << " steps";
  perturb::Set(src.boolean() ? 0 : 1 + static_cast<unsigned>(src.draw(6)), src.u64());
  cs.nontrivial();
  md::safe_allocator<char> allocator;
  const std::set<std::size_t> before(System().locked);
  std::vector<std::thread> running;
  for (std::size_t t(0); t < threads; ++t) {
    running.emplace_back([&, t] {
      for (const auto& step : steps[t]) {
        void* start(reinterpret_cast<void*>(step.range.start + (std::size_t(1) << 40)));
        if (step.lock)
          manager.LockRange(start, step.range.size);
        else
          manager.UnlockRange(start, step.range.size);
        char* memory(allocator.allocate(100));
        std::memset(memory, 1, 100);
        volatile int count(manager.GetLockedPageCount());
        (void)count;
        allocator.deallocate(memory, 100);
      }
    });
  }
  for (auto& thread : running)
    thread.join();
  perturb::Set(0, 0);
  REQUIRE(Stub().problem.empty()) << Stub().problem;
  REQUIRE(Stub().locked.empty()) << Stub().locked.size() << " pages stay locked";
  REQUIRE_EQ(manager.GetLockedPageCount(), 0);
  REQUIRE(System().problem.empty()) << System().problem;
  REQUIRE(System().locked == before) << "pages stay locked";
}
